#include "common.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>

namespace sim {

static void escape(std::string& o, const std::string& s)
{
	o += '"';
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += (char)c;
		}
		else if (c < 32 || c > 126)
		{
			char b[8];
			snprintf(b, sizeof b, "\\x%02x", c);
			o += b;
		}
		else
			o += (char)c;
	}
	o += '"';
}

static void put(std::string& o, const J& j, bool sorted)
{
	char b[64];
	switch (j.k)
	{
		case J::Null: o += "null"; break;
		case J::Bool: o += j.b ? "true" : "false"; break;
		case J::Int: snprintf(b, sizeof b, "%d", j.i); o += b; break;
		case J::Float: snprintf(b, sizeof b, "%.17gf", j.f); o += b; break;
		case J::Str: escape(o, j.s); break;
		case J::Enum: o += "E:"; o += j.s; break;
		case J::List:
			o += '[';
			for (size_t i = 0; i < j.l.size(); ++i)
			{
				if (i) o += ',';
				put(o, j.l[i], sorted);
			}
			o += ']';
			break;
		case J::Map:
		{
			std::vector<const std::pair<std::string, J>*> e;
			for (auto& x : j.m)
				e.push_back(&x);
			if (sorted)
				std::sort(e.begin(), e.end(), [](auto* a, auto* b) { return a->first < b->first; });
			o += '{';
			for (size_t i = 0; i < e.size(); ++i)
			{
				if (i) o += ',';
				o += e[i]->first;
				o += ':';
				put(o, e[i]->second, sorted);
			}
			o += '}';
			break;
		}
	}
}

std::string print(const J& j, bool sorted)
{
	std::string o;
	put(o, j, sorted);
	return o;
}

double g_floatTolerance = 0;

bool sameJ(const J& a, const J& b)
{
	if (a.k != b.k)
		return false;
	switch (a.k)
	{
		case J::Bool: return a.b == b.b;
		case J::Int: return a.i == b.i;
		case J::Float:
			return a.f == b.f || std::fabs(a.f - b.f) <= g_floatTolerance * std::max(std::fabs(a.f), std::fabs(b.f));
		case J::Str:
		case J::Enum: return a.s == b.s;
		case J::List:
			if (a.l.size() != b.l.size())
				return false;
			for (size_t i = 0; i < a.l.size(); ++i)
				if (!sameJ(a.l[i], b.l[i]))
					return false;
			return true;
		case J::Map:
			if (a.m.size() != b.m.size())
				return false;
			for (size_t i = 0; i < a.m.size(); ++i)
				if (a.m[i].first != b.m[i].first || !sameJ(a.m[i].second, b.m[i].second))
					return false;
			return true;
		default: return true;
	}
}

static Workload* g_first;
Workload::Workload(const char* n, WorkloadFn f)
	: name(n)
	, fn(f)
	, next(g_first)
{
	g_first = this;
}

} // namespace sim

extern "C" void sim_workload(const char* prop)
{
	for (auto* w = sim::g_first; w; w = w->next)
		if (!strcmp(w->name, prop))
		{
			w->fn();
			return;
		}
	rt_fail("harness", "no workload %s", prop);
}

extern "C" const char* sim_counter_name(int i)
{
	static const char* const names[] = {
#define X(n) #n,
		SIM_COUNTERS(X)
#undef X
	};
	return i < sim::C_COUNT ? names[i] : nullptr;
}
