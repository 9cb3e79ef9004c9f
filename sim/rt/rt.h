// Deterministic simulation runtime: interface for the harness.
// The runtime itself (rt.cpp) is never instrumented; everything else is compiled with
// -fsanitize=thread instrumentation and calls into the hooks in rt.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C" {

// ---- choice streams ---------------------------------------------------------------------
enum { ST_WORK = 0, ST_SCHED = 1, ST_FAULT = 2, ST_COUNT = 3 };
enum { RT_MAX_CHOICES = 1 << 20 };

// Draw a value in [0, bound). 0 must always be the simplest choice.
uint32_t rt_draw(int stream, uint32_t bound);

// ---- run control ------------------------------------------------------------------------
enum { RT_OK = 0, RT_VIOLATION = 1, RT_FAILSTOP = 2, RT_DISCARD = 3, RT_CRASH = 4 };
enum { RT_NCOUNTERS = 128, RT_MSG = 16384, RT_TRACE = 1 << 18 };

typedef struct RtResult
{
	int status;
	char kind[64];     // short class of the violation: "response", "race", "deadlock", ...
	char msg[RT_MSG];
	uint64_t steps, syncops, switches, threads, simtime_ns, allocs;
	uint64_t sched_hash; // hash of the sequence of (thread, sync operation)
	uint64_t trace_hash; // hash of every event the run recorded
	uint64_t counters[RT_NCOUNTERS];
	uint32_t nchoices[ST_COUNT];
	uint32_t ntrace;
	char trace[RT_TRACE];
	uint32_t* choices[ST_COUNT]; // shared memory, RT_MAX_CHOICES each
} RtResult;

extern RtResult* rt_result;
extern int rt_expected_failstop; // std::terminate ends the run as RT_FAILSTOP, not as a violation

// Start the simulation: runs fn(arg) as simulated thread 0 and returns when all simulated threads
// have finished. Ends the process on violation.
void rt_simulate(void (*fn)(void*), void* arg);

void rt_fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void rt_finish(int status, const char* kind, const char* fmt, ...)
	__attribute__((format(printf, 3, 4), noreturn));
void rt_event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void rt_count(int counter, uint64_t n);

// ---- hooks off / on ----------------------------------------------------------------------
void rt_guard_enter(void);
void rt_guard_leave(void);

// ---- scheduling -------------------------------------------------------------------------
void rt_yield(void);                // explicit preemption point
uint64_t rt_now(void);              // simulated nanoseconds
void rt_sleep(uint64_t ns);         // simulated sleep
int rt_self(void);                  // simulated thread id, -1 outside
uint64_t rt_step(void);             // global step counter
void rt_set_step_limit(uint64_t n);
void rt_wait_others(void); // block until every other simulated thread has finished

// ---- faults -----------------------------------------------------------------------------
typedef struct RtFaults
{
	int64_t alloc_at;      // fail this allocation (counted from arming), -1 = never
	int64_t alloc_len;     // and this many following ones
	int64_t alloc_count;   // allocations seen since arming
	int64_t alloc_failed;  // how many have failed
	int64_t thread_at;     // same for pthread_create
	int64_t thread_len;
	int64_t thread_count;
	int64_t thread_failed;
	int only_thread;       // only for this simulated thread's allocations, -1 = any
} RtFaults;
extern RtFaults rt_faults;
extern int rt_trace_allocs;
int rt_nofault(int delta); // nesting of the calling thread's sections without faults

// live SUT allocations in the arena
uint64_t rt_live_bytes(void);
uint64_t rt_live_blocks(void);

// ---- files ------------------------------------------------------------------------------
int rt_io_enter(int op); // called by a simulated thread with hooks on: turns them off, a scheduling point
void rt_io_leave(void);

// ---- process setup ----------------------------------------------------------------------
void rt_init_process(void); // in main, before anything else uses the arena
void rt_arena_enable(int on); // zygote: allocations outside of simulated threads go to the arena
void rt_begin_run(uint64_t seed, int replay);
}

#ifdef __cplusplus
// Files below /sim-fs/, seen by simulated threads only. A fault is an errno, for reads also minus
// the number of bytes read.
enum { VFS_OPEN = 60, VFS_STAT, VFS_MMAP, VFS_MUNMAP, VFS_READ, VFS_CLOSE };
extern int (*vfs_fault)(int op, const char* name, size_t size);
void vfs_put(const char* name, const char* data, size_t size);
void vfs_remove(const char* name);
int vfs_opened();             // how often a file was opened
const char* vfs_still_open(); // the name of one, or null
int vfs_mapped();

namespace sim {
struct Guard
{
	Guard() { rt_guard_enter(); }
	~Guard() { rt_guard_leave(); }
	Guard(const Guard&) = delete;
	Guard& operator=(const Guard&) = delete;
};
// Leave a guarded section for a callback into instrumented code.
struct Unguard
{
	Unguard() { rt_guard_leave(); }
	~Unguard() { rt_guard_enter(); }
};
}
#endif
