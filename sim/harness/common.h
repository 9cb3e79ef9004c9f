// Harness helpers: draws, counters, JSON-like values.
#pragma once
#include "../rt/rt.h"

#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim {

// draws of fixed data, the same in every run: from this state if set, not from the run's choices
extern uint64_t* g_fixed;
inline uint32_t draw(uint32_t n)
{
	if (!g_fixed)
		return rt_draw(ST_WORK, n);
	*g_fixed = *g_fixed * 6364136223846793005ull + 1442695040888963407ull;
	return n ? (uint32_t)((*g_fixed >> 33) % n) : 0;
}
inline uint32_t fdraw(uint32_t n) { return rt_draw(ST_FAULT, n); }
// true with probability about k/n; false is the simple value
inline bool chance(uint32_t k, uint32_t n) { return draw(n) >= n - k; }
inline bool fchance(uint32_t k, uint32_t n) { return fdraw(n) >= n - k; }

#define SIM_COUNTERS(X)                                                                            \
	X(requests) X(calls) X(mode_value) X(mode_ready) X(mode_deferred) X(mode_async) X(mode_later)     \
	X(launch_deferred) X(launch_async) X(launch_both) X(fault_throw) X(fault_schema_exception)       \
	X(fault_bad_alloc) X(fault_broken_promise) X(fault_future_exception) X(fault_element)            \
	X(fault_callback_throw) X(fault_filter_throw) X(fault_notify) X(fault_alloc) X(fault_thread)     \
	X(invalid_documents) X(valid_documents) X(dropped_before) X(dropped_running) X(mutations)        \
	X(queries) X(concurrent_clients) X(subscribe_ok) X(subscribe_failed) X(unsubscribe) X(deliver)   \
	X(delivered_callbacks) X(reentrant_calls) X(lists) X(nulls) X(fragments) X(spreads)              \
	X(introspections) X(services_created) X(services_dropped) X(wraps) X(failstop) X(errors_out)     \
	X(msg_sent) X(msg_dropped) X(msg_truncated) X(msg_corrupted) X(msg_duplicated) X(msg_delayed)    \
	X(msg_reordered) X(msg_stale) X(rejected) X(accepted) X(retries) X(parse_ok) X(literals) X(parse_error)      \
	X(io_open_fail) X(io_map_fail) X(io_stat_fail) X(io_truncated) X(io_read_fail) X(files)          \
	X(overlap_checks) X(state_released) X(service_released_early) X(document_moved) X(duplicates)    \
	X(skips) X(typenames) X(clean_retry) X(alloc_points) X(thread_points) X(io_short) X(io_eintr)    \
	X(mutation_fields) X(mutation_nested) X(merges) X(other_variables) X(twin_documents) X(big_documents) X(name_aliases) X(subscription_skipped) X(fragment_vars) X(unknown_key) X(bad_values) X(msg_rewritten)

enum Counter
{
#define X(n) C_##n,
	SIM_COUNTERS(X)
#undef X
		C_COUNT
};
static_assert((int)C_COUNT <= (int)RT_NCOUNTERS);
inline void count(Counter c, uint64_t n = 1) { rt_count(c, n); }

// ---- JSON-like value --------------------------------------------------------------------------
struct J
{
	enum K { Null, Bool, Int, Float, Str, Enum, List, Map } k = Null;
	bool b = false;
	int i = 0;
	double f = 0;
	std::string s;
	std::vector<J> l;
	std::vector<std::pair<std::string, J>> m;

	static J null() { return {}; }
	static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
	static J integer(int v) { J j; j.k = Int; j.i = v; return j; }
	static J number(double v) { J j; j.k = Float; j.f = v; return j; }
	static J str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
	static J enumv(std::string v) { J j; j.k = Enum; j.s = std::move(v); return j; }
	static J list() { J j; j.k = List; return j; }
	static J map() { J j; j.k = Map; return j; }
	void add(std::string n, J v) { m.emplace_back(std::move(n), std::move(v)); }
	const J* get(std::string_view n) const
	{
		for (auto& e : m)
			if (e.first == n)
				return &e.second;
		return nullptr;
	}
};

// order-preserving text; with sorted, maps compare as sets of entries
std::string print(const J& j, bool sorted = false);

// in the same order; numbers may differ by so much, relatively
extern double g_floatTolerance;
bool sameJ(const J& a, const J& b);

inline uint64_t hmix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 32);
}
inline uint64_t hstr(uint64_t h, std::string_view s)
{
	for (unsigned char c : s)
		h = (h ^ c) * 0x100000001b3ull;
	return hmix(h, s.size());
}

typedef void (*WorkloadFn)();
struct Workload
{
	const char* name;
	WorkloadFn fn;
	Workload* next;
	Workload(const char* n, WorkloadFn f);
};

} // namespace sim
extern "C" int sim_tier;
extern "C" const char* sim_scratch;
