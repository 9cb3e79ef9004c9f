// Driver: one single-threaded zygote that forks one child per simulated run. Not instrumented.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <string>
#include <vector>

extern "C" void sim_workload(const char* prop); // instrumented side
extern "C" const char* sim_counter_name(int i);
extern "C" int sim_tier;
extern "C" const char* sim_scratch;
int sim_tier = 0;
const char* sim_scratch = nullptr;

static const char* g_prop;

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void start(void*)
{
	sim_workload(g_prop);
}

static volatile sig_atomic_t g_alarm;
static pid_t g_child;
static void on_alarm(int)
{
	g_alarm = 1;
	if (g_child > 0)
		kill(g_child, SIGKILL);
}

static void reset(RtResult* r)
{
	r->status = RT_CRASH;
	r->kind[0] = r->msg[0] = r->trace[0] = 0;
	r->steps = r->syncops = r->switches = r->threads = r->simtime_ns = r->allocs = 0;
	r->sched_hash = r->trace_hash = 0;
	memset(r->counters, 0, sizeof r->counters);
	r->ntrace = 0;
}

// Executes one run; with replay the choice streams in rt_result are used.
static void run(uint64_t seed, bool replay)
{
	RtResult* r = rt_result;
	reset(r);
	if (!replay)
		memset(r->nchoices, 0, sizeof r->nchoices);
	g_alarm = 0;
	pid_t p = fork();
	if (p < 0)
	{
		perror("fork");
		exit(3);
	}
	if (p == 0)
	{
		signal(SIGALRM, SIG_DFL);
		rt_begin_run(seed, replay);
		rt_simulate(start, nullptr);
		if (r->status == RT_CRASH)
			r->status = RT_OK;
		_exit(0);
	}
	g_child = p;
	alarm(150);
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	alarm(0);
	g_child = 0;
	if (g_alarm)
	{
		fprintf(stderr, "sim: run did not end within 150 s of real time (seed %llu)\n", (unsigned long long)seed);
		exit(3);
	}
	if (r->status == RT_CRASH)
	{
		snprintf(r->kind, sizeof r->kind, "crash");
		snprintf(r->msg, sizeof r->msg, "process died, wait status 0x%x", st);
		r->status = RT_VIOLATION;
	}
}

static void jstr(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; ++s)
	{
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

static void print_result(FILE* f, uint64_t seed, bool choices, bool trace)
{
	RtResult* r = rt_result;
	fprintf(f, "{\"status\":%d,\"seed\":%llu,\"kind\":", r->status, (unsigned long long)seed);
	jstr(f, r->kind);
	fprintf(f, ",\"msg\":");
	jstr(f, r->msg);
	fprintf(f, ",\"steps\":%llu,\"threads\":%llu,\"switches\":%llu,\"simtime_ns\":%llu",
		(unsigned long long)r->steps, (unsigned long long)r->threads, (unsigned long long)r->switches,
		(unsigned long long)r->simtime_ns);
	fprintf(f, ",\"trace_hash\":\"%016llx\",\"sched_hash\":\"%016llx\"", (unsigned long long)r->trace_hash,
		(unsigned long long)r->sched_hash);
	fprintf(f, ",\"used\":[%u,%u,%u]", r->nchoices[0], r->nchoices[1], r->nchoices[2]);
	if (choices)
	{
		fprintf(f, ",\"choices\":[");
		for (int s = 0; s < ST_COUNT; ++s)
		{
			fprintf(f, "%s[", s ? "," : "");
			for (uint32_t i = 0; i < r->nchoices[s] && i < RT_MAX_CHOICES; ++i)
				fprintf(f, "%s%u", i ? "," : "", r->choices[s][i]);
			fprintf(f, "]");
		}
		fprintf(f, "]");
	}
	if (trace)
	{
		fprintf(f, ",\"trace\":");
		jstr(f, r->trace);
	}
	fprintf(f, "}\n");
	fflush(f);
}

static uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

int main(int argc, char** argv)
{
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
	{
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) >= 0)
			execv("/proc/self/exe", argv);
	}
	unsetenv("SIM_REEXEC");
	const char* mode = argc > 1 ? argv[1] : "";
	uint64_t seed = 1, first = 0, stride = 1, maxruns = ~0ull;
	double seconds = 10;
	const char* out = nullptr;
	const char* hashes = nullptr;
	int cpu = -1, maxfail = 1, recheck = 50;
	bool verbose = false;
	for (int i = 2; i + 1 < argc; i += 2)
	{
		std::string k = argv[i];
		const char* v = argv[i + 1];
		if (k == "--prop") g_prop = v;
		else if (k == "--seed") seed = strtoull(v, 0, 10);
		else if (k == "--first") first = strtoull(v, 0, 10);
		else if (k == "--stride") stride = strtoull(v, 0, 10);
		else if (k == "--runs") maxruns = strtoull(v, 0, 10);
		else if (k == "--seconds") seconds = atof(v);
		else if (k == "--out") out = v;
		else if (k == "--hashes") hashes = v;
		else if (k == "--cpu") cpu = atoi(v);
		else if (k == "--maxfail") maxfail = atoi(v);
		else if (k == "--recheck") recheck = atoi(v);
		else if (k == "--tier") sim_tier = atoi(v);
		else if (k == "--scratch") sim_scratch = v;
		else if (k == "--verbose") verbose = atoi(v);
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
	}
	if (!g_prop)
	{
		fprintf(stderr, "usage: %s run|replay|one --prop ID ...\n", argv[0]);
		return 2;
	}
	if (cpu >= 0)
	{
		cpu_set_t have, set;
		CPU_ZERO(&set);
		sched_getaffinity(0, sizeof have, &have);
		int n = CPU_COUNT(&have), k = cpu % (n ? n : 1);
		for (int i = 0; i < CPU_SETSIZE; ++i)
			if (CPU_ISSET(i, &have) && k-- == 0)
			{
				CPU_SET(i, &set);
				sched_setaffinity(0, sizeof set, &set);
				break;
			}
	}
	rt_result = (RtResult*)mmap(nullptr, sizeof(RtResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int s = 0; s < ST_COUNT; ++s)
		rt_result->choices[s] = (uint32_t*)mmap(nullptr, sizeof(uint32_t) * RT_MAX_CHOICES, PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	rt_init_process();
	rt_arena_enable(1);
	signal(SIGALRM, on_alarm);
	{
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = on_alarm;
		sigaction(SIGALRM, &sa, nullptr);
	}
	FILE* f = out ? fopen(out, "w") : stdout;
	if (!f)
	{
		perror(out);
		return 3;
	}

	if (!strcmp(mode, "replay"))
	{
		// replay file(s) on stdin: per line "nwork nsched nfault v v v ..."; one result line each
		char* line = nullptr;
		size_t cap = 0;
		while (getline(&line, &cap, stdin) > 0)
		{
			char* p = line;
			for (int s = 0; s < ST_COUNT; ++s)
				rt_result->nchoices[s] = strtoul(p, &p, 10);
			for (int s = 0; s < ST_COUNT; ++s)
				for (uint32_t i = 0; i < rt_result->nchoices[s]; ++i)
					rt_result->choices[s][i] = strtoul(p, &p, 10);
			run(0, true);
			print_result(f, 0, false, verbose);
			fflush(f);
		}
		return 0;
	}
	if (!strcmp(mode, "one"))
	{
		run(mix(seed, first), false);
		print_result(f, first, true, true);
		if (verbose)
			fprintf(stderr, "%s\n%s\n", rt_result->trace, rt_result->msg);
		return rt_result->status == RT_VIOLATION;
	}

	const double t0 = now(), end = t0 + seconds;
	uint64_t runs = 0, nst[5] = {}, steps = 0, syncops = 0, switches = 0, threads = 0, sim = 0, allocs = 0;
	uint64_t maxsteps = 0, maxthreads = 0, rechecks = 0, mismatches = 0, counters[RT_NCOUNTERS] = {};
	uint64_t draws[ST_COUNT] = {};
	std::vector<uint64_t> hs;
	int fails = 0;
	for (uint64_t i = first; runs < maxruns && (now() < end || runs < 2); i += stride)
	{
		const uint64_t rs = mix(seed, i);
		run(rs, false);
		RtResult* r = rt_result;
		runs++;
		nst[r->status]++;
		steps += r->steps;
		syncops += r->syncops;
		switches += r->switches;
		threads += r->threads;
		sim += r->simtime_ns;
		allocs += r->allocs;
		if (r->steps > maxsteps)
			maxsteps = r->steps;
		if (r->threads > maxthreads)
			maxthreads = r->threads;
		for (int c = 0; c < RT_NCOUNTERS; ++c)
			counters[c] += r->counters[c];
		for (int s = 0; s < ST_COUNT; ++s)
			draws[s] += r->nchoices[s];
		if (r->switches >= 2 && r->status != RT_DISCARD)
			hs.push_back(r->sched_hash);
		if (r->status == RT_VIOLATION)
		{
			print_result(f, i, true, true);
			if (++fails >= maxfail)
				break;
			continue;
		}
		if (recheck && runs % recheck == 1)
		{
			const uint64_t h = r->trace_hash;
			run(rs, false);
			rechecks++;
			if (r->trace_hash != h)
			{
				mismatches++;
				fprintf(stderr, "sim: run %llu is not deterministic\n", (unsigned long long)i);
			}
		}
	}
	fprintf(f,
		"{\"summary\":1,\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"failstop\":%llu,\"discarded\":%llu,"
		"\"seconds\":%.3f,\"steps\":%llu,\"syncops\":%llu,\"switches\":%llu,\"threads\":%llu,\"simtime_ns\":%llu,"
		"\"allocs\":%llu,\"max_steps\":%llu,\"max_threads\":%llu,\"rechecks\":%llu,\"mismatches\":%llu,"
		"\"draws\":[%llu,%llu,%llu],\"counters\":{",
		(unsigned long long)runs, (unsigned long long)nst[RT_OK], (unsigned long long)nst[RT_VIOLATION],
		(unsigned long long)nst[RT_FAILSTOP], (unsigned long long)nst[RT_DISCARD], now() - t0,
		(unsigned long long)steps, (unsigned long long)syncops, (unsigned long long)switches,
		(unsigned long long)threads, (unsigned long long)sim, (unsigned long long)allocs,
		(unsigned long long)maxsteps, (unsigned long long)maxthreads, (unsigned long long)rechecks,
		(unsigned long long)mismatches, (unsigned long long)draws[0], (unsigned long long)draws[1],
		(unsigned long long)draws[2]);
	bool any = false;
	for (int c = 0; c < RT_NCOUNTERS; ++c)
		if (const char* n = sim_counter_name(c))
		{
			fprintf(f, "%s", any ? "," : "");
			jstr(f, n);
			fprintf(f, ":%llu", (unsigned long long)counters[c]);
			any = true;
		}
	fprintf(f, "}}\n");
	fclose(f);
	if (hashes)
	{
		FILE* h = fopen(hashes, "wb");
		if (h)
		{
			fwrite(hs.data(), 8, hs.size(), h);
			fclose(h);
		}
	}
	return 0;
}
