// Deterministic simulation runtime. Compiled WITHOUT instrumentation.
//
//  * provides the __tsan_* entry points the instrumented code calls: every memory access is a
//    possible preemption point, is checked for data races (vector clocks, FastTrack style shadow
//    cells) and for use of freed memory;
//  * replaces pthread synchronisation, once/guards, future waits, clocks and sleeping;
//  * replaces the allocator for simulated threads by an arena at a fixed address.
//
// Exactly one simulated thread runs at any time; which one is decided by the choice streams only.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>
#include <initializer_list>
#include <unwind.h>

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ---------------------------------------------------------------------------------------------
// layout
static const uintptr_t REGION = 0x10000000000ull;
static const uintptr_t ARENA_SIZE = 1ull << 30;
static const uintptr_t STACKS = REGION + ARENA_SIZE;
static const uintptr_t STACK_SIZE = 512 << 10;
enum { MAXT = 512 };
static const uintptr_t REGION_SIZE = ARENA_SIZE + STACK_SIZE * MAXT;

struct Slot
{
	uint64_t w;
	uint64_t pc;
};
enum { NSLOT = 4 };
struct Cell
{
	Slot s[NSLOT];
};
static Cell* const g_shadow = (Cell*)0x20000000000ull;      // for REGION
static uint32_t* const g_syncidx = (uint32_t*)0x30000000000ull; // for REGION
static Cell* g_glshadow;                                     // for globals
static uint32_t* g_glsync;

extern "C" char __data_start;
extern "C" char _end;
static uintptr_t g_glbase, g_glsize;

// ---------------------------------------------------------------------------------------------
struct Thr;
struct Sync
{
	uintptr_t addr;
	uint32_t* vc;   // released clock
	int owner;      // mutex / rwlock writer / once runner: thread id + 1
	int count;      // recursion
	int readers;    // rwlock readers
	int state;      // once: 0 none 1 running 2 done
	uint32_t nvc;
	uint32_t next; // another object in the same eight bytes
};

enum { RUNNABLE, BLOCKED, FINISHED };
enum { W_NONE, W_MUTEX, W_RW, W_COND, W_JOIN, W_FUTEX, W_ONCE, W_SLEEP, W_OTHERS };
static const char* const WNAME[] = { "-", "mutex", "rwlock", "cond", "join", "future", "once", "sleep", "others" };

enum { SHSTACK = 512 };
struct Thr
{
	int id;
	int state;
	int waitkind;
	uintptr_t waitaddr;
	uint64_t deadline; // 0 = none
	int timedout;
	volatile int baton;
	pthread_t real;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	uint32_t* vc;
	int prio;
	int depth;
	void* stack[SHSTACK];
	int detached;
};

static __thread int t_nohook = 1;
static __thread Thr* t_me = nullptr;
static __thread int t_nofault = 0;

static Thr g_thr[MAXT];
static int g_nthr;
static int g_live;
static volatile int g_done;
static int g_simulating;

RtResult* rt_result;
int rt_expected_failstop;
int rt_trace_allocs;
RtFaults rt_faults = { -1, 0, 0, 0, -1, 0, 0, 0, -1 };

static int64_t g_budget;     // accesses until the next preemption inside straight-line code
static uint64_t g_steps0;    // steps accounted before the current budget
static int64_t g_budget0;
static uint64_t g_steplimit = 60000000;
static uint64_t g_now = 1000000000ull;

// scheduler personality of this run
static int g_mode;       // 0 random walk, 1 priorities (PCT), 2 only when blocked
static double g_mean;    // mean number of accesses between preemptions
static uint32_t g_syncp; // probability (of 1024) of a switch at a synchronisation operation
static uint64_t g_change[16];
static int g_nchange;

static void sched_point(void* pc, int kind, uintptr_t addr);

// ---------------------------------------------------------------------------------------------
// real functions
template <typename F>
static F real(const char* name)
{
	return (F)dlsym(RTLD_NEXT, name);
}
static int (*r_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_clock_gettime)(clockid_t, struct timespec*);
static int (*r_pthread_mutex_lock)(pthread_mutex_t*);
static int (*r_pthread_mutex_unlock)(pthread_mutex_t*);

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

static void* map_fixed(void* at, size_t n)
{
	void* p = mmap(at, n, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (p == MAP_FAILED)
	{
		fprintf(stderr, "sim: cannot map %zu bytes at %p: %s\n", n, at, strerror(errno));
		_exit(3);
	}
	return p;
}

static long futex(volatile int* a, int op, int v)
{
	return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}

// runtime-private bump memory (vector clocks)
static char* g_pool;
static size_t g_poolused;
static void* pool(size_t n)
{
	void* p = g_pool + g_poolused;
	g_poolused += (n + 15) & ~15ull;
	return p;
}

// ---------------------------------------------------------------------------------------------
// choices
static uint64_t g_rng[ST_COUNT];
static int g_replay;
static uint32_t g_pos[ST_COUNT];
static uint32_t g_nreplay[ST_COUNT];

static uint64_t splitmix(uint64_t* s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static void hash(uint64_t* h, uint64_t v)
{
	*h = (*h ^ v) * 0x100000001b3ull;
	*h ^= *h >> 29;
}

extern "C" uint32_t rt_draw(int s, uint32_t bound)
{
	uint32_t v;
	if (bound <= 1)
	{
		return 0;
	}
	uint32_t i = g_pos[s]++;
	if (g_replay)
	{
		v = i < g_nreplay[s] ? rt_result->choices[s][i] % bound : 0;
	}
	else
	{
		v = (uint32_t)((splitmix(&g_rng[s]) >> 32) * (uint64_t)bound >> 32);
		if (i >= RT_MAX_CHOICES)
		{
			rt_finish(RT_DISCARD, "choices", "too many choices");
		}
		rt_result->choices[s][i] = v;
	}
	rt_result->nchoices[s] = g_pos[s];
	if (s != ST_SCHED)
	{
		hash(&rt_result->trace_hash, ((uint64_t)s << 60) ^ v);
	}
	return v;
}

// ---------------------------------------------------------------------------------------------
// reporting
static uint64_t steps_now()
{
	return g_steps0 + (uint64_t)(g_budget0 - g_budget);
}

static size_t put_stack(char* out, size_t room, Thr* t, void* pc)
{
	size_t n = 0;
	if (pc)
	{
		n += snprintf(out + n, room - n, " 0x%lx", (unsigned long)pc);
	}
	for (int i = t->depth < SHSTACK ? t->depth : SHSTACK; i > 0 && n + 32 < room; --i)
	{
		n += snprintf(out + n, room - n, " 0x%lx", (unsigned long)t->stack[i - 1] - 1);
	}
	return n;
}

static volatile int g_ending;

[[noreturn]] static void end_process()
{
	_exit(0);
}

static void finishv(int status, const char* kind, const char* fmt, va_list ap, void* pc)
{
	t_nohook++;
	if (__sync_lock_test_and_set(&g_ending, 1))
	{
		for (;;)
			pause();
	}
	RtResult* r = rt_result;
	r->status = status;
	snprintf(r->kind, sizeof r->kind, "%s", kind);
	size_t n = vsnprintf(r->msg, sizeof r->msg, fmt, ap);
	if (n >= sizeof r->msg)
		n = sizeof r->msg - 1;
	if (status == RT_VIOLATION && t_me && n + 64 < sizeof r->msg)
	{
		n += snprintf(r->msg + n, sizeof r->msg - n, "\nstack of thread %d:", t_me->id);
		n += put_stack(r->msg + n, sizeof r->msg - n, t_me, pc);
	}
	r->steps = steps_now();
	r->threads = g_nthr;
	r->simtime_ns = g_now - 1000000000ull;
	hash(&r->trace_hash, status);
	hash(&r->trace_hash, r->steps);
	end_process();
}

extern "C" void rt_fail(const char* kind, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	finishv(RT_VIOLATION, kind, fmt, ap, nullptr);
	abort();
}

static void failpc(void* pc, const char* kind, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	finishv(RT_VIOLATION, kind, fmt, ap, pc);
	abort();
}

extern "C" void rt_finish(int status, const char* kind, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	finishv(status, kind, fmt, ap, nullptr);
	abort();
}

extern "C" void rt_event(const char* fmt, ...)
{
	t_nohook++;
	RtResult* r = rt_result;
	char buf[1024];
	int n = snprintf(buf, sizeof buf, "%llu t%d ", (unsigned long long)steps_now(), t_me ? t_me->id : -1);
	va_list ap;
	va_start(ap, fmt);
	n += vsnprintf(buf + n, sizeof buf - n - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof buf - 2)
		n = sizeof buf - 2;
	buf[n++] = '\n';
	for (int i = 0; i < n; ++i)
	{
		r->trace_hash = (r->trace_hash ^ (unsigned char)buf[i]) * 0x100000001b3ull;
	}
	if (r->ntrace + n < RT_TRACE)
	{
		memcpy(r->trace + r->ntrace, buf, n);
		r->ntrace += n;
		r->trace[r->ntrace] = 0;
	}
	t_nohook--;
}

extern "C" void rt_count(int c, uint64_t n)
{
	rt_result->counters[c] += n;
}

extern "C" int rt_nofault(int delta)
{
	return t_nofault += delta;
}
extern "C" void rt_guard_enter(void)
{
	t_nohook++;
}
extern "C" void rt_guard_leave(void)
{
	t_nohook--;
}
extern "C" uint64_t rt_now(void)
{
	return g_now;
}
extern "C" int rt_self(void)
{
	return t_me ? t_me->id : -1;
}
extern "C" uint64_t rt_step(void)
{
	return steps_now();
}
extern "C" void rt_set_step_limit(uint64_t n)
{
	g_steplimit = n;
}

// ---------------------------------------------------------------------------------------------
// sync objects
static Sync* g_sync;
static uint32_t g_nsync = 1;
enum { HASHN = 1 << 14 };
static uint32_t g_hash[HASHN];

static uint32_t* syncidx_of(uintptr_t a)
{
	if (a - REGION < REGION_SIZE)
		return &g_syncidx[(a - REGION) >> 3];
	if (a - g_glbase < g_glsize)
		return &g_glsync[(a - g_glbase) >> 3];
	uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 50) % HASHN;
	for (int i = 0; i < HASHN; ++i, h = (h + 1) % HASHN)
	{
		if (!g_hash[h] || g_sync[g_hash[h]].addr == a)
			return &g_hash[h];
	}
	abort();
}

static Sync* sync_of(uintptr_t a)
{
	uint32_t* p = syncidx_of(a);
	for (uint32_t i = *p; i; i = g_sync[i].next)
		if (g_sync[i].addr == a)
			return &g_sync[i];
	if (g_nsync >= (1u << 20))
		rt_finish(RT_DISCARD, "syncs", "too many sync objects");
	uint32_t i = g_nsync++;
	g_sync[i].addr = a;
	g_sync[i].next = *p;
	*p = i;
	return &g_sync[i];
}

static void vc_join(uint32_t* into, const uint32_t* from, int n)
{
	for (int i = 0; i < n; ++i)
		if (from[i] > into[i])
			into[i] = from[i];
}

static void acquire(Sync* s)
{
	if (s->vc)
		vc_join(t_me->vc, s->vc, s->nvc);
}

static void release(Sync* s, bool overwrite)
{
	if (!s->vc)
		s->vc = (uint32_t*)pool(sizeof(uint32_t) * MAXT);
	if (overwrite)
	{
		memcpy(s->vc, t_me->vc, sizeof(uint32_t) * g_nthr);
		if (s->nvc > (uint32_t)g_nthr)
			memset(s->vc + g_nthr, 0, sizeof(uint32_t) * (s->nvc - g_nthr));
	}
	else
		vc_join(s->vc, t_me->vc, g_nthr);
	s->nvc = g_nthr;
	t_me->vc[t_me->id]++;
}

// ---------------------------------------------------------------------------------------------
// scheduling
static void draw_budget()
{
	g_steps0 = steps_now();
	int64_t b = 1ll << 40;
	if (g_mode == 0 && g_mean > 0)
	{
		uint32_t r = rt_draw(ST_SCHED, 1024);
		if (r)
			b = 1 + (int64_t)(-log(r / 1024.0) * g_mean);
	}
	else if (g_mode == 1)
	{
		// next change point
		uint64_t best = 0;
		for (int i = 0; i < g_nchange; ++i)
			if (g_change[i] > g_steps0 && (!best || g_change[i] < best))
				best = g_change[i];
		if (best)
			b = best - g_steps0;
	}
	if ((uint64_t)b > g_steplimit - g_steps0)
		b = g_steplimit - g_steps0 + 1;
	g_budget = g_budget0 = b;
}

static void wait_baton(Thr* t)
{
	while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE))
		futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}

static void give_baton(Thr* t)
{
	__atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
	futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

static int expire_timers()
{
	int n = 0;
	for (int i = 0; i < g_nthr; ++i)
	{
		Thr* t = &g_thr[i];
		if (t->state == BLOCKED && t->deadline && t->deadline <= g_now)
		{
			t->state = RUNNABLE;
			t->timedout = 1;
			t->deadline = 0;
			++n;
		}
	}
	return n;
}

static NOINLINE void report_deadlock()
{
	static char buf[12000];
	size_t n = 0;
	for (int i = 0; i < g_nthr && n + 600 < sizeof buf; ++i)
	{
		Thr* t = &g_thr[i];
		if (t->state != BLOCKED)
			continue;
		Sync* s = t->waitaddr && t->waitkind != W_JOIN && t->waitkind != W_OTHERS ? sync_of(t->waitaddr) : nullptr;
		n += snprintf(buf + n, sizeof buf - n, "\nthread %d waits for %s (owner %d):", t->id,
			WNAME[t->waitkind], s ? s->owner - 1 : -1);
		n += put_stack(buf + n, sizeof buf - n > 900 ? 900 : sizeof buf - n, t, nullptr);
	}
	rt_fail("deadlock", "no thread can make progress%s", buf);
}

// Pick the thread to run next. me may be runnable (voluntary switch) or not.
static Thr* pick(Thr* me, bool force)
{
	for (;;)
	{
		g_now += 50;
		expire_timers();
		Thr* run[MAXT];
		int n = 0;
		if (me && me->state == RUNNABLE)
			run[n++] = me;
		for (int i = 0; i < g_nthr; ++i)
			if (&g_thr[i] != me && g_thr[i].state == RUNNABLE)
				run[n++] = &g_thr[i];
		if (n == 0)
		{
			uint64_t best = 0;
			for (int i = 0; i < g_nthr; ++i)
				if (g_thr[i].state == BLOCKED && g_thr[i].deadline
					&& (!best || g_thr[i].deadline < best))
					best = g_thr[i].deadline;
			if (best)
			{
				g_now = best;
				continue;
			}
			if (g_live == 0)
				return nullptr;
			report_deadlock();
		}
		if (n == 1)
			return run[0];
		if (g_mode == 1)
		{
			Thr* b = run[0];
			for (int i = 1; i < n; ++i)
				if (run[i]->prio > b->prio)
					b = run[i];
			return b;
		}
		(void)force;
		return run[rt_draw(ST_SCHED, n)];
	}
}

static void switch_to(Thr* t)
{
	Thr* me = t_me;
	if (t == me)
		return;
	rt_result->switches++;
	hash(&rt_result->trace_hash, 0x5000 + t->id);
	hash(&rt_result->trace_hash, steps_now());
	give_baton(t);
	if (me->state != FINISHED)
		wait_baton(me);
}

// The budget ran out (or the limit was reached) in straight-line code.
static NOINLINE void preempt()
{
	t_nohook++;
	if (steps_now() > g_steplimit)
		rt_fail("livelock", "no end after %llu steps", (unsigned long long)steps_now());
	if (g_mode == 1)
	{
		// priority change point: drop below everybody else
		uint64_t now = steps_now();
		for (int i = 0; i < g_nchange; ++i)
			if (g_change[i] && g_change[i] <= now)
			{
				g_change[i] = 0;
				t_me->prio = -1 - (int)i;
			}
	}
	Thr* next = pick(t_me, false);
	draw_budget();
	switch_to(next);
	t_nohook--;
}

// Block the calling thread until woken (state set RUNNABLE by someone else) or timed out.
static void block(int kind, uintptr_t addr, uint64_t deadline)
{
	Thr* me = t_me;
	me->state = BLOCKED;
	me->waitkind = kind;
	me->waitaddr = addr;
	me->deadline = deadline;
	me->timedout = 0;
	Thr* next = pick(me, true);
	draw_budget();
	switch_to(next);
	me->waitkind = W_NONE;
	me->waitaddr = 0;
	me->deadline = 0;
}

static void wake_all(int kind, uintptr_t addr)
{
	for (int i = 0; i < g_nthr; ++i)
	{
		Thr* t = &g_thr[i];
		if (t->state == BLOCKED && t->waitkind == kind && t->waitaddr == addr)
		{
			t->state = RUNNABLE;
			t->deadline = 0;
		}
	}
}

static bool wake_one(int kind, uintptr_t addr)
{
	Thr* w[MAXT];
	int n = 0;
	for (int i = 0; i < g_nthr; ++i)
	{
		Thr* t = &g_thr[i];
		if (t->state == BLOCKED && t->waitkind == kind && t->waitaddr == addr)
			w[n++] = t;
	}
	if (!n)
		return false;
	Thr* t = w[rt_draw(ST_SCHED, n)];
	t->state = RUNNABLE;
	t->deadline = 0;
	return true;
}

// A synchronisation operation: count it, and maybe switch. Hooks must be off already.
static void sched_point(void* pc, int kind, uintptr_t)
{
	(void)pc;
	rt_result->syncops++;
	hash(&rt_result->sched_hash, ((uint64_t)t_me->id << 8) ^ kind);
	g_budget -= 1;
	if (steps_now() > g_steplimit)
		rt_fail("livelock", "no end after %llu steps", (unsigned long long)steps_now());
	if (g_live < 2)
		return;
	if (g_mode == 0)
	{
		if (g_syncp && rt_draw(ST_SCHED, 1024) > 1023 - g_syncp)
		{
			Thr* next = pick(t_me, false);
			if (next != t_me)
			{
				draw_budget();
				switch_to(next);
			}
		}
	}
	else if (g_mode == 1)
	{
		Thr* next = pick(t_me, false);
		if (next != t_me)
			switch_to(next);
	}
}

struct Hooks // entering the runtime from a hooked call
{
	Hooks() { t_nohook++; }
	~Hooks() { t_nohook--; }
};

// ---------------------------------------------------------------------------------------------
// shadow memory
enum : uint64_t { W_WR = 1 << 20, W_AT = 1 << 21, TIDMASK = 0xfff, FREED = 0xfff };

static uint64_t mkw(int tid, unsigned mask, bool wr, bool at, uint32_t clk)
{
	return (uint64_t)tid | ((uint64_t)mask << 12) | (wr ? W_WR : 0) | (at ? W_AT : 0)
		| ((uint64_t)clk << 32);
}

static const char* where(uintptr_t a)
{
	if (a - REGION < ARENA_SIZE)
		return "heap";
	if (a - STACKS < STACK_SIZE * MAXT)
		return "stack";
	return "global";
}

static NOINLINE void report_race(uintptr_t a, unsigned sz, bool wr, bool at, Slot o, void* pc)
{
	failpc(pc, "race",
		"data race on %s memory 0x%lx: %s%s of %u bytes by thread %d conflicts with an earlier %s%s by "
		"thread %d at pc 0x%lx",
		where(a), (unsigned long)a, at ? "atomic " : "", wr ? "write" : "read", sz, t_me->id,
		(o.w & W_AT) ? "atomic " : "", (o.w & W_WR) ? "write" : "read", (int)(o.w & TIDMASK),
		(unsigned long)o.pc);
}

static NOINLINE void report_uaf(uintptr_t a, unsigned sz, bool wr, Slot o, void* pc)
{
	failpc(pc, "use-after-free",
		"%s of %u bytes at 0x%lx, which is not allocated (freed at pc 0x%lx)", wr ? "write" : "read",
		sz, (unsigned long)a, (unsigned long)o.pc);
}

static inline Cell* cell_of(uintptr_t a)
{
	if (LIKELY(a - REGION < REGION_SIZE))
		return &g_shadow[(a - REGION) >> 3];
	if (a - g_glbase < g_glsize)
		return &g_glshadow[(a - g_glbase) >> 3];
	return nullptr;
}

static inline void check_cell(
	Cell* c, uintptr_t a, unsigned sz, unsigned mask, bool wr, bool at, void* pc)
{
	Thr* me = t_me;
	const uint64_t w = mkw(me->id, mask, wr, at, me->vc[me->id]);
	bool stored = false;
	Slot* s = c->s;
	if (UNLIKELY((s[0].w & TIDMASK) == FREED))
		report_uaf(a, sz, wr, s[0], pc);
	for (int i = 0; i < NSLOT; ++i)
	{
		const uint64_t o = s[i].w;
		if (!o)
		{
			if (!stored)
			{
				s[i].w = w;
				s[i].pc = (uint64_t)pc;
				stored = true;
			}
			break;
		}
		const unsigned omask = (o >> 12) & 0xff;
		if (!(omask & mask))
			continue;
		const int otid = (int)(o & TIDMASK);
		if (otid == me->id)
		{
			if ((omask & ~mask) == 0 && (wr || !(o & W_WR)) && (!at || (o & W_AT)))
			{
				if (!stored)
				{
					s[i].w = w;
					s[i].pc = (uint64_t)pc;
					stored = true;
				}
			}
			continue;
		}
		if (!wr && !(o & W_WR))
			continue;
		if (at && (o & W_AT))
			continue;
		if (me->vc[otid] >= (uint32_t)(o >> 32))
		{
			if (!stored && (omask & ~mask) == 0)
			{
				s[i].w = w;
				s[i].pc = (uint64_t)pc;
				stored = true;
			}
			continue;
		}
		report_race(a, sz, wr, at, s[i], pc);
	}
	if (!stored)
	{
		static unsigned rot;
		Slot* v = &s[rot++ % NSLOT];
		v->w = w;
		v->pc = (uint64_t)pc;
	}
}

static inline void access1(uintptr_t a, unsigned sz, bool wr, bool at, void* pc)
{
	Cell* c = cell_of(a);
	if (!c)
		return;
	unsigned off = a & 7;
	if (LIKELY(off + sz <= 8))
	{
		check_cell(c, a, sz, ((1u << sz) - 1) << off, wr, at, pc);
		return;
	}
	while (sz)
	{
		off = a & 7;
		unsigned n = 8 - off < sz ? 8 - off : sz;
		c = cell_of(a);
		if (!c)
			return;
		check_cell(c, a, n, ((1u << n) - 1) << off, wr, at, pc);
		a += n;
		sz -= n;
	}
}

static inline void access(const volatile void* p, unsigned sz, bool wr, void* pc)
{
	if (t_nohook)
		return;
	if (UNLIKELY(--g_budget <= 0))
		preempt();
	access1((uintptr_t)p, sz, wr, false, pc);
}

static void range(const void* p, size_t n, bool wr, void* pc)
{
	if (t_nohook || !n)
		return;
	g_budget -= 1 + (int64_t)(n >> 5);
	if (UNLIKELY(g_budget <= 0))
		preempt();
	uintptr_t a = (uintptr_t)p;
	while (n)
	{
		unsigned k = 8 - (a & 7);
		if (k > n)
			k = (unsigned)n;
		access1(a, k, wr, false, pc);
		a += k;
		n -= k;
	}
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_read1(void* a) { access(a, 1, false, PC); }
void __tsan_read2(void* a) { access(a, 2, false, PC); }
void __tsan_read4(void* a) { access(a, 4, false, PC); }
void __tsan_read8(void* a) { access(a, 8, false, PC); }
void __tsan_read16(void* a) { access(a, 16, false, PC); }
void __tsan_write1(void* a) { access(a, 1, true, PC); }
void __tsan_write2(void* a) { access(a, 2, true, PC); }
void __tsan_write4(void* a) { access(a, 4, true, PC); }
void __tsan_write8(void* a) { access(a, 8, true, PC); }
void __tsan_write16(void* a) { access(a, 16, true, PC); }
void __tsan_unaligned_read2(void* a) { access(a, 2, false, PC); }
void __tsan_unaligned_read4(void* a) { access(a, 4, false, PC); }
void __tsan_unaligned_read8(void* a) { access(a, 8, false, PC); }
void __tsan_unaligned_read16(void* a) { access(a, 16, false, PC); }
void __tsan_unaligned_write2(void* a) { access(a, 2, true, PC); }
void __tsan_unaligned_write4(void* a) { access(a, 4, true, PC); }
void __tsan_unaligned_write8(void* a) { access(a, 8, true, PC); }
void __tsan_unaligned_write16(void* a) { access(a, 16, true, PC); }
void __tsan_volatile_read1(void* a) { access(a, 1, false, PC); }
void __tsan_volatile_read2(void* a) { access(a, 2, false, PC); }
void __tsan_volatile_read4(void* a) { access(a, 4, false, PC); }
void __tsan_volatile_read8(void* a) { access(a, 8, false, PC); }
void __tsan_volatile_write1(void* a) { access(a, 1, true, PC); }
void __tsan_volatile_write2(void* a) { access(a, 2, true, PC); }
void __tsan_volatile_write4(void* a) { access(a, 4, true, PC); }
void __tsan_volatile_write8(void* a) { access(a, 8, true, PC); }
void __tsan_read_range(void* a, size_t n) { range(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { range(a, n, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void __tsan_vptr_update(void** a, void* v)
{
	if (*a != v)
		access(a, 8, true, PC);
}
void __tsan_func_entry(void* pc)
{
	Thr* t = t_me;
	if (t_nohook || !t)
		return;
	if (t->depth < SHSTACK)
		t->stack[t->depth] = pc;
	t->depth++;
}
void __tsan_func_exit()
{
	Thr* t = t_me;
	if (t_nohook || !t)
		return;
	if (t->depth > 0)
		t->depth--;
}
}

// atomics ---------------------------------------------------------------------------------------
static void at_pre(void* pc, uintptr_t a)
{
	sched_point(pc, 1, a);
}

static bool mo_acq(int mo)
{
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL
		|| mo == __ATOMIC_SEQ_CST;
}
static bool mo_rel(int mo)
{
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

template <typename T>
static T at_load(const volatile T* p, int mo, void* pc)
{
	if (t_nohook)
		return __atomic_load_n(p, __ATOMIC_SEQ_CST);
	Hooks h;
	at_pre(pc, (uintptr_t)p);
	access1((uintptr_t)p, sizeof(T), false, true, pc);
	T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
	if (mo_acq(mo))
	{
		for (uint32_t i = *syncidx_of((uintptr_t)p); i; i = g_sync[i].next)
			if (g_sync[i].addr == (uintptr_t)p)
				acquire(&g_sync[i]);
	}
	return v;
}

template <typename T>
static void at_store(volatile T* p, T v, int mo, void* pc)
{
	if (t_nohook)
	{
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);
		return;
	}
	Hooks h;
	at_pre(pc, (uintptr_t)p);
	access1((uintptr_t)p, sizeof(T), true, true, pc);
	__atomic_store_n(p, v, __ATOMIC_SEQ_CST);
	Sync* s = sync_of((uintptr_t)p);
	if (mo_rel(mo))
		release(s, true);
	else if (s->vc)
		memset(s->vc, 0, sizeof(uint32_t) * s->nvc);
}

template <typename T, typename F>
static T at_rmw(volatile T* p, int mo, void* pc, F f)
{
	if (t_nohook)
	{
		T o = *p;
		*p = f(o);
		return o;
	}
	Hooks h;
	at_pre(pc, (uintptr_t)p);
	access1((uintptr_t)p, sizeof(T), true, true, pc);
	T o = *p;
	*p = f(o);
	Sync* s = sync_of((uintptr_t)p);
	if (mo_acq(mo))
		acquire(s);
	if (mo_rel(mo))
		release(s, false);
	return o;
}

template <typename T>
static bool at_cas(volatile T* p, T* exp, T des, int mo, int fmo, void* pc)
{
	if (t_nohook)
	{
		T o = *p;
		if (o == *exp)
		{
			*p = des;
			return true;
		}
		*exp = o;
		return false;
	}
	Hooks h;
	at_pre(pc, (uintptr_t)p);
	T o = *p;
	bool ok = o == *exp;
	access1((uintptr_t)p, sizeof(T), ok, true, pc);
	Sync* s = sync_of((uintptr_t)p);
	if (ok)
	{
		*p = des;
		if (mo_acq(mo))
			acquire(s);
		if (mo_rel(mo))
			release(s, false);
	}
	else
	{
		*exp = o;
		if (mo_acq(fmo))
			acquire(s);
	}
	return ok;
}

#define ATOMICS(N, T)                                                                              \
	T __tsan_atomic##N##_load(const volatile T* a, int mo) { return at_load<T>(a, mo, PC); }       \
	void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo, PC); }       \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo)                                      \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T) { return v; });                                         \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo)                                     \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); });                              \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo)                                     \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); });                              \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo)                                     \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); });                              \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo)                                      \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); });                              \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo)                                     \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); });                              \
	}                                                                                              \
	T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo)                                    \
	{                                                                                              \
		return at_rmw<T>(a, mo, PC, [v](T o) { return (T) ~(o & v); });                            \
	}                                                                                              \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)      \
	{                                                                                              \
		return at_cas<T>(a, c, v, mo, fmo, PC);                                                    \
	}                                                                                              \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)        \
	{                                                                                              \
		return at_cas<T>(a, c, v, mo, fmo, PC);                                                    \
	}                                                                                              \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)            \
	{                                                                                              \
		at_cas<T>(a, &c, v, mo, fmo, PC);                                                          \
		return c;                                                                                  \
	}
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
	if (t_nohook)
		return;
	Hooks h;
	sched_point(PC, 2, 0);
	Sync* s = sync_of((uintptr_t)&g_now);
	acquire(s);
	release(s, false);
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------------------------------------
// allocator
struct Hdr
{
	uint32_t size;
	uint16_t cls;
	uint16_t magic;
	uint64_t base; // start of the chunk (for over-aligned blocks)
};
enum { MAGIC_LIVE = 0xA11C, MAGIC_FREE = 0xF4EE };
static uintptr_t g_brk = REGION + 64;
static uint64_t g_livebytes, g_liveblocks;
static int g_arena_main;
static uint64_t g_freelist[128];
static uint64_t g_freetail[128];
// quarantine: linked through the first user word of the freed block
static uint64_t g_qhead, g_qtail, g_qbytes;
// Freed blocks are reused late, so that accesses to them are found, or (a drawn part of the runs)
// soon, newest first, so that addresses return while someone may still go by them.
enum { QUARANTINE = 16 << 20 };
static uint64_t g_qlimit = QUARANTINE;

static int class_of(size_t n, size_t* rounded)
{
	if (n <= 1024)
	{
		*rounded = (n + 15) & ~15ull;
		return (int)(*rounded / 16);
	}
	int c = 65;
	size_t s = 1280;
	while (s < n)
	{
		s += s / 4;
		s = (s + 15) & ~15ull;
		++c;
		if (c >= 127)
			return -1;
	}
	*rounded = s;
	return c;
}

static bool in_arena(const void* p)
{
	return (uintptr_t)p - REGION < ARENA_SIZE;
}

static void* arena_alloc(size_t n, size_t align, void* pc)
{
	if (n == 0)
		n = 1;
	size_t want = 16 + n + (align > 16 ? align : 0), sz;
	int c = class_of(want, &sz);
	if (c < 0)
		return nullptr;
	uintptr_t base = g_freelist[c];
	if (base)
	{
		g_freelist[c] = *(uint64_t*)base;
		if (!g_freelist[c])
			g_freetail[c] = 0;
	}
	else
	{
		base = g_brk;
		g_brk += sz;
		if (g_brk > REGION + ARENA_SIZE)
			rt_finish(RT_DISCARD, "arena", "arena exhausted");
	}
	uintptr_t user = base + 16;
	if (align > 16)
		user = (user + align - 1) & ~(uintptr_t)(align - 1);
	Hdr* h = (Hdr*)(user - 16);
	h->size = (uint32_t)n;
	h->cls = (uint16_t)c;
	h->magic = MAGIC_LIVE;
	h->base = base;
	// header cells are red zone
	Cell* cc = &g_shadow[(user - 16 - REGION) >> 3];
	cc[0].s[0].w = cc[1].s[0].w = FREED;
	cc[0].s[0].pc = cc[1].s[0].pc = (uint64_t)pc;
	size_t cells = (n + 7) >> 3;
	cc += 2;
	if (cc[0].s[0].w || cells > 1)
	{
		// fresh memory has a clean shadow already
		if (cc[0].s[0].w || cc[cells - 1].s[0].w || 1)
			memset(cc, 0, cells * sizeof(Cell));
	}
	// the allocation itself counts as a write by the allocating thread
	if (t_me)
	{
		uint64_t w = mkw(t_me->id, 0xff, true, false, t_me->vc[t_me->id]);
		for (size_t i = 0; i < cells; ++i)
		{
			cc[i].s[0].w = w;
			cc[i].s[0].pc = (uint64_t)pc;
		}
	}
	// a red zone cell behind the block (inside of the chunk), when there is room
	uintptr_t after = (user + n + 7) & ~7ull;
	if (after + 8 <= base + sz)
	{
		Cell* ac = &g_shadow[(after - REGION) >> 3];
		memset(ac, 0, sizeof *ac);
		ac->s[0].w = FREED;
		ac->s[0].pc = (uint64_t)pc;
	}
	memset((void*)user, 0xCD, n);
	g_livebytes += n;
	g_liveblocks++;
	return (void*)user;
}

static size_t class_size(int c)
{
	if (c <= 64)
		return c * 16;
	size_t s = 1280;
	for (int i = 65; i < c; ++i)
	{
		s += s / 4;
		s = (s + 15) & ~15ull;
	}
	return s;
}

static void arena_free(void* p, bool check, void* pc)
{
	Hdr* h = (Hdr*)((uintptr_t)p - 16);
	if (h->magic != MAGIC_LIVE)
		failpc(pc, "invalid-free", "%s of 0x%lx", h->magic == MAGIC_FREE ? "double free" : "free of a wild pointer",
			(unsigned long)p);
	size_t n = h->size, cells = (n + 7) >> 3;
	Cell* c = &g_shadow[((uintptr_t)p - REGION) >> 3];
	uint32_t* si = &g_syncidx[((uintptr_t)p - REGION) >> 3];
	for (size_t i = 0; i < cells; ++i)
	{
		if (check && t_me)
		{
			for (int k = 0; k < NSLOT; ++k)
			{
				uint64_t o = c[i].s[k].w;
				if (!o)
					break;
				int otid = (int)(o & TIDMASK);
				if (otid != FREED && otid != t_me->id && t_me->vc[otid] < (uint32_t)(o >> 32))
				{
					Slot s = c[i].s[k];
					failpc(pc, "race",
						"data race on heap memory 0x%lx: free by thread %d conflicts with an earlier %s%s by "
						"thread %d at pc 0x%lx",
						(unsigned long)p + i * 8, t_me->id, (o & W_AT) ? "atomic " : "",
						(o & W_WR) ? "write" : "read", otid, (unsigned long)s.pc);
				}
			}
		}
		c[i].s[0].w = FREED;
		c[i].s[0].pc = (uint64_t)pc;
		if (UNLIKELY(si[i]))
		{
			for (uint32_t k = si[i]; k; k = g_sync[k].next)
			{
				Sync* s = &g_sync[k];
				if (s->owner && s->count && t_me)
					failpc(pc, "destroyed-locked", "memory 0x%lx freed while the lock in it is held by thread %d",
					(unsigned long)p, s->owner - 1);
			}
			si[i] = 0;
		}
	}
	h->magic = MAGIC_FREE;
	g_livebytes -= n;
	g_liveblocks--;
	memset(p, 0xDD, n);
	// quarantine, oldest first into the free list of its class
	uint64_t base = h->base;
	size_t csz = class_size(h->cls);
	int cls = h->cls;
	*(uint64_t*)base = 0;
	*(uint64_t*)(base + 8) = cls; // overwrites the header's size/magic only when base+16 == user
	if (base + 16 == (uintptr_t)p)
	{
		// keep double free detection: header lies at base; put the magic back
		h->magic = MAGIC_FREE;
	}
	if (g_qtail)
		*(uint64_t*)g_qtail = base;
	else
		g_qhead = base;
	g_qtail = base;
	g_qbytes += csz;
	while (g_qbytes > g_qlimit)
	{
		uint64_t b = g_qhead;
		// (the word of the newest block holds its header's magic, not a link)
		g_qhead = b == g_qtail ? 0 : *(uint64_t*)b;
		if (!g_qhead)
			g_qtail = 0;
		int k = (int)*(uint64_t*)(b + 8) & 0xff;
		g_qbytes -= class_size(k);
		*(uint64_t*)b = 0;
		if (g_qlimit != QUARANTINE)
		{
			*(uint64_t*)b = g_freelist[k];
			g_freelist[k] = b;
			if (!g_freetail[k])
				g_freetail[k] = b;
			continue;
		}
		if (g_freetail[k])
			*(uint64_t*)g_freetail[k] = b;
		else
			g_freelist[k] = b;
		g_freetail[k] = b;
	}
}

static bool use_arena()
{
	return g_simulating ? !t_nohook : (g_arena_main && !t_me);
}

static bool inject_alloc(void* pc)
{
	if (t_nohook || t_nofault || rt_faults.alloc_at < 0)
		return false;
	if (rt_faults.only_thread >= 0 && rt_faults.only_thread != t_me->id)
		return false;
	int64_t i = rt_faults.alloc_count++;
	if (i >= rt_faults.alloc_at && i < rt_faults.alloc_at + rt_faults.alloc_len)
	{
		rt_faults.alloc_failed++;
		t_nohook++;
		rt_event("fault: allocation %lld fails (pc 0x%lx)", (long long)i, (unsigned long)pc);
		t_nohook--;
		return true;
	}
	return false;
}

static void* do_alloc(size_t n, size_t align, void* pc)
{
	if (use_arena())
	{
		t_nohook++;
		rt_result->allocs++;
		void* p = arena_alloc(n, align, pc);
		t_nohook--;
		return p;
	}
	return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
}

static void do_free(void* p, bool check, void* pc)
{
	if (!p)
		return;
	if (in_arena(p))
	{
		if (g_simulating && !t_me)
			return; // a thread that has already left the simulation
		bool hooked = !t_nohook;
		t_nohook++;
		arena_free(p, check && hooked, pc);
		t_nohook--;
		return;
	}
	__libc_free(p);
}

extern "C" {
void* malloc(size_t n) noexcept { return do_alloc(n, 16, PC); }
void free(void* p) noexcept { do_free(p, false, PC); }
void* calloc(size_t a, size_t b) noexcept
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return nullptr;
	void* p = do_alloc(n, 16, PC);
	if (p)
		memset(p, 0, n);
	return p;
}
void* realloc(void* p, size_t n) noexcept
{
	if (!p)
		return do_alloc(n, 16, PC);
	if (!in_arena(p))
		return __libc_realloc(p, n);
	Hdr* h = (Hdr*)((uintptr_t)p - 16);
	void* q = do_alloc(n, 16, PC);
	if (!q)
		return nullptr;
	memcpy(q, p, h->size < n ? h->size : n);
	do_free(p, false, PC);
	return q;
}
void* memalign(size_t a, size_t n) noexcept { return do_alloc(n, a, PC); }
void* aligned_alloc(size_t a, size_t n) noexcept { return do_alloc(n, a, PC); }
int posix_memalign(void** o, size_t a, size_t n) noexcept
{
	*o = do_alloc(n, a, PC);
	return *o ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) noexcept
{
	if (!p)
		return 0;
	return in_arena(p) ? ((Hdr*)((uintptr_t)p - 16))->size : 0;
}
}

static void* op_new(size_t n, size_t align, void* pc, bool nothrow)
{
	if (UNLIKELY(inject_alloc(pc)))
	{
		if (nothrow)
			return nullptr;
		throw std::bad_alloc();
	}
	void* p = do_alloc(n, align, pc);
	if (!p)
	{
		if (nothrow)
			return nullptr;
		throw std::bad_alloc();
	}
	return p;
}
void* operator new(size_t n) { return op_new(n, 16, PC, false); }
void* operator new[](size_t n) { return op_new(n, 16, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC, false); }
void operator delete(void* p) noexcept { do_free(p, true, PC); }
void operator delete[](void* p) noexcept { do_free(p, true, PC); }
void operator delete(void* p, size_t) noexcept { do_free(p, true, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, true, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, true, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, true, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, true, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, true, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, true, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, true, PC); }

extern "C" uint64_t rt_live_bytes(void)
{
	return g_livebytes;
}
extern "C" uint64_t rt_live_blocks(void)
{
	return g_liveblocks;
}
extern "C" void rt_arena_enable(int on)
{
	g_arena_main = on;
}

// memory functions (linked with --wrap) -----------------------------------------------------------
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
	if (!t_nohook)
	{
		range(s, n, false, PC);
		range(d, n, true, PC);
	}
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
	if (!t_nohook)
	{
		range(s, n, false, PC);
		range(d, n, true, PC);
	}
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
	if (!t_nohook)
		range(d, n, true, PC);
	return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
	if (!t_nohook)
	{
		range(a, n, false, PC);
		range(b, n, false, PC);
	}
	return __real_memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n)
{
	void* r = __real_memchr(a, c, n);
	if (!t_nohook)
		range(a, r ? (char*)r - (char*)a + 1 : n, false, PC);
	return r;
}
size_t __wrap_strlen(const char* a)
{
	size_t n = __real_strlen(a);
	if (!t_nohook)
		range(a, n + 1, false, PC);
	return n;
}
}

// ---------------------------------------------------------------------------------------------
// threads
static void* trampoline(void* p)
{
	Thr* t = (Thr*)p;
	stack_t ss;
	ss.ss_sp = __libc_malloc(65536);
	ss.ss_size = 65536;
	ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	t_me = t;
	wait_baton(t);
	t_nohook = 0;
	t->ret = t->fn(t->arg);
	t_nohook = 1;
	// finish
	hash(&rt_result->sched_hash, ((uint64_t)t->id << 8) ^ 0xff);
	t->state = FINISHED;
	g_live--;
	for (int i = 0; i < g_nthr; ++i)
	{
		Thr* o = &g_thr[i];
		if (o->state == BLOCKED && o->waitkind == W_JOIN && o->waitaddr == (uintptr_t)t)
			o->state = RUNNABLE;
		if (o->state == BLOCKED && o->waitkind == W_OTHERS && g_live == 1)
			o->state = RUNNABLE;
	}
	Thr* next = pick(nullptr, true);
	t_me = nullptr;
	if (!next)
	{
		g_done = 1;
		futex(&g_done, FUTEX_WAKE_PRIVATE, 1);
	}
	else
	{
		draw_budget();
		rt_result->switches++;
		hash(&rt_result->trace_hash, 0x5000 + next->id);
		give_baton(next);
	}
	return nullptr;
}

static int spawn(pthread_t* out, void* (*fn)(void*), void* arg)
{
	if (g_nthr >= MAXT - 1)
		rt_finish(RT_DISCARD, "threads", "too many threads");
	Thr* t = &g_thr[g_nthr];
	memset(t, 0, sizeof *t);
	t->id = g_nthr;
	t->fn = fn;
	t->arg = arg;
	t->vc = (uint32_t*)pool(sizeof(uint32_t) * MAXT);
	if (t_me)
	{
		memcpy(t->vc, t_me->vc, sizeof(uint32_t) * MAXT);
		t_me->vc[t_me->id]++;
	}
	t->vc[t->id] = 1;
	t->state = RUNNABLE;
	t->prio = g_mode == 1 ? 1000 + (int)rt_draw(ST_SCHED, 1000) : 0;
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstack(&attr, (void*)(STACKS + STACK_SIZE * t->id), STACK_SIZE);
	pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
	g_nthr++;
	g_live++;
	int r = r_pthread_create(&t->real, &attr, trampoline, t);
	pthread_attr_destroy(&attr);
	if (r)
	{
		rt_finish(RT_DISCARD, "spawn", "real pthread_create failed: %d", r);
	}
	if (out)
		*out = t->real;
	return 0;
}

extern "C" int pthread_create(
	pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
	if (!g_simulating || !t_me)
		return r_pthread_create(out, attr, fn, arg);
	Hooks h;
	sched_point(PC, 3, 0);
	if (rt_faults.thread_at >= 0 && !t_nofault)
	{
		int64_t i = rt_faults.thread_count++;
		if (i >= rt_faults.thread_at && i < rt_faults.thread_at + rt_faults.thread_len)
		{
			rt_faults.thread_failed++;
			rt_event("fault: thread creation %lld fails", (long long)i);
			return EAGAIN;
		}
	}
	int r = spawn(out, fn, arg);
	rt_event("spawn t%d", g_nthr - 1);
	sched_point(PC, 4, 0);
	return r;
}

static Thr* find(pthread_t p)
{
	for (int i = 0; i < g_nthr; ++i)
		if (pthread_equal(g_thr[i].real, p))
			return &g_thr[i];
	return nullptr;
}

extern "C" int pthread_join(pthread_t p, void** ret)
{
	if (!g_simulating || !t_me)
		return real<int (*)(pthread_t, void**)>("pthread_join")(p, ret);
	Hooks h;
	sched_point(PC, 5, 0);
	Thr* t = find(p);
	if (!t)
		return ESRCH;
	if (t == t_me)
		return EDEADLK;
	if (t->state != FINISHED)
		block(W_JOIN, (uintptr_t)t, 0);
	vc_join(t_me->vc, t->vc, g_nthr);
	if (ret)
		*ret = t->ret;
	return 0;
}

extern "C" int pthread_detach(pthread_t p) noexcept
{
	if (!g_simulating || !t_me)
		return real<int (*)(pthread_t)>("pthread_detach")(p);
	Hooks h;
	Thr* t = find(p);
	if (t)
		t->detached = 1;
	return 0;
}

extern "C" void rt_wait_others(void)
{
	Hooks h;
	if (g_live > 1)
		block(W_OTHERS, 0, 0);
	for (int i = 0; i < g_nthr; ++i)
		if (&g_thr[i] != t_me)
			vc_join(t_me->vc, g_thr[i].vc, g_nthr);
}

extern "C" void rt_yield(void)
{
	if (t_nohook)
		return;
	Hooks h;
	sched_point(PC, 6, 0);
}
extern "C" int sched_yield() noexcept
{
	if (t_nohook)
		return 0;
	Hooks h;
	sched_point(PC, 6, 0);
	return 0;
}

extern "C" void rt_sleep(uint64_t ns)
{
	Hooks h;
	sched_point(PC, 7, 0);
	if (ns)
		block(W_SLEEP, 0, g_now + ns);
}

// ---------------------------------------------------------------------------------------------
// mutexes
static bool is_recursive(pthread_mutex_t* m)
{
	return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}

static bool off()
{
	return !g_simulating || !t_me || t_nohook;
}

int rt_io_enter(int op)
{
	if (off())
		return 0;
	t_nohook++;
	sched_point(__builtin_return_address(0), op, 0);
	return 1;
}

void rt_io_leave(void)
{
	t_nohook--;
}

static void mutex_acquire(pthread_mutex_t* m, Sync* s)
{
	int me = t_me->id + 1;
	while (s->owner && s->owner != me)
		block(W_MUTEX, (uintptr_t)m, 0);
	if (s->owner == me && !is_recursive(m))
		block(W_MUTEX, (uintptr_t)m, 0); // self deadlock
	s->owner = me;
	s->count++;
	acquire(s);
}

static void mutex_release(pthread_mutex_t* m, Sync* s)
{
	release(s, true);
	if (--s->count == 0)
	{
		s->owner = 0;
		wake_all(W_MUTEX, (uintptr_t)m);
	}
}

static void check_live(const void* p, const char* what, void* pc)
{
	Cell* c = cell_of((uintptr_t)p);
	if (c && (c->s[0].w & TIDMASK) == FREED)
		failpc(pc, "use-after-free", "%s on destroyed object at 0x%lx (freed at pc 0x%lx)", what,
			(unsigned long)p, (unsigned long)c->s[0].pc);
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (off())
		return (g_simulating || !r_pthread_mutex_lock) ? 0 : r_pthread_mutex_lock(m);
	Hooks h;
	sched_point(PC, 10, (uintptr_t)m);
	check_live(m, "lock", PC);
	mutex_acquire(m, sync_of((uintptr_t)m));
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 11, (uintptr_t)m);
	check_live(m, "trylock", PC);
	Sync* s = sync_of((uintptr_t)m);
	if (s->owner && !(s->owner == t_me->id + 1 && is_recursive(m)))
		return EBUSY;
	mutex_acquire(m, s);
	return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) noexcept
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 12, (uintptr_t)m);
	Sync* s = sync_of((uintptr_t)m);
	uint64_t dl = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	while (s->owner)
	{
		if (g_now >= dl)
			return ETIMEDOUT;
		block(W_MUTEX, (uintptr_t)m, dl);
	}
	mutex_acquire(m, s);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
	return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (off())
		return (g_simulating || !r_pthread_mutex_unlock) ? 0 : r_pthread_mutex_unlock(m);
	Hooks h;
	check_live(m, "unlock", PC);
	Sync* s = sync_of((uintptr_t)m);
	if (s->owner != t_me->id + 1)
		failpc(PC, "sync", "mutex 0x%lx unlocked by thread %d, owner is %d", (unsigned long)m, t_me->id,
			s->owner - 1);
	mutex_release(m, s);
	sched_point(PC, 13, (uintptr_t)m);
	return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
	static int (*r)(pthread_mutex_t*, const pthread_mutexattr_t*);
	if (!r)
		r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
	return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (off())
		return 0;
	Hooks h;
	Sync* s = sync_of((uintptr_t)m);
	if (s->owner)
		failpc(PC, "destroyed-locked", "mutex 0x%lx destroyed while held by thread %d", (unsigned long)m,
			s->owner - 1);
	return 0;
}

// reader/writer locks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tryonly, void* pc)
{
	if (off())
		return 0;
	Hooks h;
	sched_point(pc, wr ? 20 : 21, (uintptr_t)l);
	check_live(l, "rwlock", pc);
	Sync* s = sync_of((uintptr_t)l);
	int me = t_me->id + 1;
	if (s->owner == me)
		return tryonly ? EBUSY : EDEADLK;
	while (s->owner || (wr && s->readers))
	{
		if (tryonly)
			return EBUSY;
		block(W_RW, (uintptr_t)l, 0);
	}
	if (wr)
	{
		s->owner = me;
		s->count = 1;
	}
	else
		s->readers++;
	acquire(s);
	if (wr)
		acquire(sync_of((uintptr_t)l + 8)); // what the readers before have released
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
	if (off())
		return 0;
	Hooks h;
	check_live(l, "rwlock unlock", PC);
	Sync* s = sync_of((uintptr_t)l);
	if (s->owner == t_me->id + 1)
	{
		release(s, false);
		s->owner = 0;
		s->count = 0;
	}
	else if (s->readers > 0)
	{
		// over-approximates: readers order later readers too. The race detector would miss a
		// write under a shared lock, so readers release into the clock but do not acquire from
		// other readers: handled by keeping the readers' releases in a second clock.
		Sync* rs = sync_of((uintptr_t)l + 8);
		release(rs, false);
		s->readers--;
	}
	else
		failpc(PC, "sync", "rwlock 0x%lx unlocked but not held", (unsigned long)l);
	wake_all(W_RW, (uintptr_t)l);
	sched_point(PC, 22, (uintptr_t)l);
	return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept
{
	memset((void*)l, 0, sizeof *l);
	return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept
{
	(void)l;
	return 0;
}

// condition variables
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 30, (uintptr_t)c);
	Sync* s = sync_of((uintptr_t)m);
	int n = s->count;
	release(s, true);
	s->count = 0;
	s->owner = 0;
	wake_all(W_MUTEX, (uintptr_t)m);
	block(W_COND, (uintptr_t)c, 0);
	mutex_acquire(m, s);
	s->count = n;
	return 0;
}
int pthread_cond_clockwait(
	pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 31, (uintptr_t)c);
	uint64_t dl = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	Sync* s = sync_of((uintptr_t)m);
	int n = s->count;
	release(s, true);
	s->count = 0;
	s->owner = 0;
	wake_all(W_MUTEX, (uintptr_t)m);
	int to = 0;
	if (g_now >= dl)
		to = 1;
	else
	{
		block(W_COND, (uintptr_t)c, dl);
		to = t_me->timedout;
	}
	mutex_acquire(m, s);
	s->count = n;
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 32, (uintptr_t)c);
	wake_one(W_COND, (uintptr_t)c);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (off())
		return 0;
	Hooks h;
	sched_point(PC, 33, (uintptr_t)c);
	wake_all(W_COND, (uintptr_t)c);
	return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
	memset((void*)c, 0, sizeof *c);
	return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

// once
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
	if (off())
	{
		if (*o != 2)
		{
			fn();
			*o = 2;
		}
		return 0;
	}
	Sync* s;
	{
		Hooks h;
		sched_point(PC, 40, (uintptr_t)o);
		s = sync_of((uintptr_t)o);
		while (s->state == 1)
			block(W_ONCE, (uintptr_t)o, 0);
		if (s->state == 2 || *o == 2)
		{
			acquire(s);
			return 0;
		}
		s->state = 1;
		s->owner = t_me->id + 1;
	}
	try
	{
		fn();
	}
	catch (...)
	{
		Hooks h;
		s->state = 0;
		s->owner = 0;
		wake_all(W_ONCE, (uintptr_t)o);
		throw;
	}
	Hooks h;
	s->state = 2;
	s->owner = 0;
	*o = 2;
	release(s, true);
	wake_all(W_ONCE, (uintptr_t)o);
	sched_point(PC, 41, (uintptr_t)o);
	return 0;
}

int __cxa_guard_acquire(uint64_t* g)
{
	if (off())
		return *(char*)g == 0;
	Hooks h;
	sched_point(PC, 42, (uintptr_t)g);
	Sync* s = sync_of((uintptr_t)g);
	while (s->state == 1)
		block(W_ONCE, (uintptr_t)g, 0);
	if (*(char*)g)
	{
		acquire(s);
		return 0;
	}
	s->state = 1;
	s->owner = t_me->id + 1;
	return 1;
}
void __cxa_guard_release(uint64_t* g) noexcept
{
	*(char*)g = 1;
	if (off())
		return;
	Hooks h;
	Sync* s = sync_of((uintptr_t)g);
	s->state = 2;
	s->owner = 0;
	release(s, true);
	wake_all(W_ONCE, (uintptr_t)g);
	sched_point(PC, 43, (uintptr_t)g);
}
void __cxa_guard_abort(uint64_t* g) noexcept
{
	if (off())
		return;
	Hooks h;
	Sync* s = sync_of((uintptr_t)g);
	s->state = 0;
	s->owner = 0;
	wake_all(W_ONCE, (uintptr_t)g);
}

// futures: std::__atomic_futex_unsigned_base
static bool futex_wait(unsigned* a, unsigned v, bool has_timeout, int64_t s, int64_t ns, void* pc)
{
	if (off())
	{
		if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v && g_simulating && t_me)
			rt_fail("harness", "guarded future wait would block");
		return true;
	}
	Hooks h;
	sched_point(pc, 50, (uintptr_t)a);
	check_live(a, "future wait", pc);
	if (*a != v)
		return true;
	uint64_t dl = 0;
	if (has_timeout)
	{
		dl = (uint64_t)s * 1000000000ull + ns;
		if (g_now >= dl)
			return false;
		if (!dl)
			dl = 1;
	}
	block(W_FUTEX, (uintptr_t)a, dl);
	return !t_me->timedout;
}
bool sim_futex_wait_until(void*, unsigned* a, unsigned v, bool ht, int64_t s, int64_t ns) asm(
	"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1"
	"EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait_until(void*, unsigned* a, unsigned v, bool ht, int64_t s, int64_t ns)
{
	return futex_wait(a, v, ht, s, ns, PC);
}
bool sim_futex_wait_until_steady(void*, unsigned* a, unsigned v, bool ht, int64_t s, int64_t ns) asm(
	"_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioIL"
	"l1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait_until_steady(void*, unsigned* a, unsigned v, bool ht, int64_t s, int64_t ns)
{
	return futex_wait(a, v, ht, s, ns, PC);
}
void sim_futex_notify_all(unsigned* a) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void sim_futex_notify_all(unsigned* a)
{
	if (off())
	{
		if (g_simulating && t_me)
			wake_all(W_FUTEX, (uintptr_t)a);
		return;
	}
	Hooks h;
	sched_point(PC, 51, (uintptr_t)a);
	wake_all(W_FUTEX, (uintptr_t)a);
}

// clocks
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!g_simulating || !t_me)
		return r_clock_gettime ? r_clock_gettime(id, ts) : (int)syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = g_now / 1000000000ull;
	ts->tv_nsec = g_now % 1000000000ull;
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t* t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
	if (off())
		return 0;
	rt_sleep((uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*)
{
	if (off())
		return 0;
	uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	if (flags & TIMER_ABSTIME)
		t = t > g_now ? t - g_now : 0;
	rt_sleep(t);
	return 0;
}
int usleep(useconds_t us)
{
	if (off())
		return 0;
	rt_sleep((uint64_t)us * 1000);
	return 0;
}
}

// ---------------------------------------------------------------------------------------------
// exceptions: libstdc++'s reference counts are not instrumented, model their ordering here
static void exc_order(void* obj)
{
	if (off() || !obj)
		return;
	Hooks h;
	Sync* s = sync_of((uintptr_t)obj - 16);
	acquire(s);
	release(s, false);
}

extern "C" {
typedef void (*eptr_fn)(void*);
void sim_eptr_addref(void* self) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void sim_eptr_addref(void* self)
{
	static eptr_fn r;
	if (!r)
		r = (eptr_fn)dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
	exc_order(*(void**)self);
	r(self);
}
void sim_eptr_release(void* self) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void sim_eptr_release(void* self)
{
	static eptr_fn r;
	if (!r)
		r = (eptr_fn)dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
	exc_order(*(void**)self);
	r(self);
}
void sim_rethrow(void* self) asm("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
void sim_rethrow(void* self)
{
	// exception_ptr is passed by invisible reference
	static eptr_fn r;
	if (!r)
		r = (eptr_fn)dlsym(RTLD_NEXT, "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
	exc_order(*(void**)self);
	r(self);
	__builtin_unreachable();
}
// layout of libstdc++'s caught exception stack (Itanium C++ ABI)
struct sim_cxa_exception
{
	void* exceptionType;
	void (*exceptionDestructor)(void*);
	void* unexpectedHandler;
	void* terminateHandler;
	sim_cxa_exception* nextException;
	int handlerCount;
	int handlerSwitchValue;
	const unsigned char* actionRecord;
	const unsigned char* languageSpecificData;
	uintptr_t catchTemp;
	void* adjustedPtr;
	_Unwind_Exception unwindHeader;
};
struct sim_eh_globals
{
	sim_cxa_exception* caughtExceptions;
	unsigned int uncaughtExceptions;
};
void __cxa_end_catch()
{
	static void (*r)();
	if (!r)
		r = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch");
	if (!off())
	{
		sim_eh_globals* g = (sim_eh_globals*)abi::__cxa_get_globals();
		sim_cxa_exception* e = g ? g->caughtExceptions : nullptr;
		if (e)
		{
			// the class ends in 0 for a primary exception and in 1 for a dependent one
			bool dependent = (e->unwindHeader.exception_class & 1) != 0;
			void* obj = dependent ? *(void**)e : (void*)(e + 1);
			exc_order(obj);
		}
	}
	r();
}
}

// ---------------------------------------------------------------------------------------------
// process
static void on_signal(int sig, siginfo_t* si, void*)
{
	const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
		: sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "SIGPROF" : "signal";
	t_nohook++;
	if (sig == SIGPROF)
	{
		rt_fail("hang", "no end after 60 s of processor time");
	}
	if (rt_result)
	{
		rt_fail("crash", "%s at address 0x%lx", n, sig == SIGABRT ? 0ul : (unsigned long)si->si_addr);
	}
	_exit(4);
}

static void on_terminate()
{
	t_nohook++;
	const char* type = "no exception";
	char buf[256];
	if (std::type_info* t = abi::__cxa_current_exception_type())
	{
		int st = 0;
		char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
		snprintf(buf, sizeof buf, "%s", d ? d : t->name());
		type = buf;
	}
	if (rt_expected_failstop)
		rt_finish(RT_FAILSTOP, "terminate", "std::terminate (%s)", type);
	rt_fail("terminate", "std::terminate called (%s)", type);
}

extern "C" void rt_init_process(void)
{
	r_pthread_create = real<decltype(r_pthread_create)>("pthread_create");
	r_clock_gettime = real<decltype(r_clock_gettime)>("clock_gettime");
	r_pthread_mutex_lock = real<decltype(r_pthread_mutex_lock)>("pthread_mutex_lock");
	r_pthread_mutex_unlock = real<decltype(r_pthread_mutex_unlock)>("pthread_mutex_unlock");
	map_fixed((void*)REGION, REGION_SIZE);
	map_fixed(g_shadow, (REGION_SIZE >> 3) * sizeof(Cell));
	map_fixed(g_syncidx, (REGION_SIZE >> 3) * sizeof(uint32_t));
	g_pool = (char*)map_fixed(nullptr, 4ull << 30);
	g_sync = (Sync*)map_fixed(nullptr, sizeof(Sync) << 20);
	g_glbase = (uintptr_t)&__data_start & ~7ull;
	g_glsize = (uintptr_t)&_end - g_glbase;
	g_glshadow = (Cell*)map_fixed(nullptr, ((g_glsize >> 3) + 16) * sizeof(Cell));
	g_glsync = (uint32_t*)map_fixed(nullptr, ((g_glsize >> 3) + 16) * sizeof(uint32_t));
	// resolve the lazily bound symbols before any run
	void* e = nullptr;
	sim_eptr_release(&e);
	std::set_terminate(on_terminate);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF })
		sigaction(s, &sa, nullptr);
}

extern "C" void rt_begin_run(uint64_t seed, int replay)
{
	g_replay = replay;
	uint64_t s = seed;
	for (int i = 0; i < ST_COUNT; ++i)
	{
		g_rng[i] = splitmix(&s);
		g_pos[i] = 0;
		g_nreplay[i] = replay ? rt_result->nchoices[i] : 0;
	}
	rt_result->trace_hash = rt_result->sched_hash = 0xcbf29ce484222325ull;
	// scheduler personality
	static const double means[] = { 0, 200000, 50000, 10000, 3000, 1000, 300, 60 };
	static const uint32_t syncs[] = { 0, 10, 40, 120, 300, 600 };
	uint32_t k = rt_draw(ST_SCHED, 10);
	if (k < 7)
	{
		g_mode = 0;
		g_mean = means[rt_draw(ST_SCHED, 8)];
		g_syncp = syncs[rt_draw(ST_SCHED, 6)];
	}
	else
	{
		g_mode = 1;
		g_nchange = (int)rt_draw(ST_SCHED, 6);
		static const uint32_t spans[] = { 2000, 20000, 100000, 400000 };
		uint32_t span = spans[rt_draw(ST_SCHED, 4)];
		for (int i = 0; i < g_nchange; ++i)
			g_change[i] = 1 + rt_draw(ST_SCHED, span);
	}
	static const uint64_t limits[] = { QUARANTINE, QUARANTINE, 0, 4096 };
	g_qlimit = limits[rt_draw(ST_FAULT, 4)];
	struct itimerval it = { { 0, 0 }, { 60, 0 } };
	setitimer(ITIMER_PROF, &it, nullptr);
}

struct Start
{
	void (*fn)(void*);
	void* arg;
};
static void* start_thread(void* p)
{
	Start* s = (Start*)p;
	s->fn(s->arg);
	return nullptr;
}

extern "C" void rt_simulate(void (*fn)(void*), void* arg)
{
	static Start st;
	st.fn = fn;
	st.arg = arg;
	g_nthr = 0;
	g_live = 0;
	g_done = 0;
	g_simulating = 1;
	g_steps0 = 0;
	g_budget = g_budget0 = 0;
	spawn(nullptr, start_thread, &st);
	draw_budget();
	give_baton(&g_thr[0]);
	while (!g_done)
		futex(&g_done, FUTEX_WAIT_PRIVATE, 0);
	rt_result->steps = steps_now();
	rt_result->threads = g_nthr;
	rt_result->simtime_ns = g_now - 1000000000ull;
	hash(&rt_result->trace_hash, rt_result->steps);
	g_simulating = 0;
}
