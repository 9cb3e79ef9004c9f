// Requests made by clientgen, with what the emitted glue (sim/gen/emit.cpp) needs.
#pragma once
#include "gen.h"

#include "graphqlservice/GraphQLClient.h"

namespace sim {

struct ClientOp
{
	ClientOp(int schema, int doc, int op, uint64_t seed, const std::string& (*text)() noexcept,
		const peg::ast& (*object)() noexcept, response::Value (*variables)(const J&), J (*parse)(response::Value&&));
	int schema, doc, op;
	uint64_t seed;
	const std::string& (*text)() noexcept;
	const peg::ast& (*object)() noexcept;
	response::Value (*variables)(const J&);
	J (*parse)(response::Value&&);
	static std::vector<ClientOp*>& all();
};

// ---- typed values for variables -----------------------------------------------------------------
template <typename T>
struct FromJ;
template <>
struct FromJ<int>
{
	static int get(const J& j) { return j.i; }
};
template <>
struct FromJ<bool>
{
	static bool get(const J& j) { return j.b; }
};
template <>
struct FromJ<double>
{
	static double get(const J& j) { return j.k == J::Int ? j.i : j.f; }
};
template <>
struct FromJ<std::string>
{
	static std::string get(const J& j) { return j.s; }
};
template <>
struct FromJ<response::IdType>
{
	static response::IdType get(const J& j) { return unbase64(j.s); }
};
template <>
struct FromJ<response::Value>
{
	static response::Value get(const J& j) { return toValue(j); }
};
template <typename T>
struct FromJ<std::optional<T>>
{
	static std::optional<T> get(const J& j)
	{
		if (j.k == J::Null)
			return std::nullopt;
		return std::optional<T>(FromJ<T>::get(j));
	}
};
template <typename T>
struct FromJ<std::vector<T>>
{
	static std::vector<T> get(const J& j)
	{
		std::vector<T> v;
		for (auto& x : j.l)
			v.push_back(FromJ<T>::get(x));
		return v;
	}
};
template <typename T>
void set(T& x, const J& j, const char* name)
{
	x = FromJ<T>::get(*j.get(name));
}

// ---- typed values of responses --------------------------------------------------------------------
struct Scalar
{
	J operator()(int v) const { return J::integer(v); }
	J operator()(bool v) const { return J::boolean(v); }
	J operator()(double v) const { return J::number(v); }
	J operator()(const std::string& v) const { return J::str(v); }
	J operator()(const response::IdType& v) const { return J::str(base64(v)); }
	J operator()(const response::Value& v) const { return fromValue(v); }
	template <typename E, typename = std::enable_if_t<std::is_enum_v<E>>>
	J operator()(E v) const
	{
		return J::enumv(v == E::RED ? "RED" : v == E::GREEN ? "GREEN" : v == E::BLUE ? "BLUE" : "?");
	}
};
template <typename T, typename F>
J lift(const T& v, F f)
{
	return f(v);
}
template <typename F>
J lift(const response::IdType& v, F f)
{
	return f(v);
}
template <typename T, typename F>
J lift(const std::optional<T>& v, F f);
template <typename T, typename F>
J lift(const std::vector<T>& v, F f)
{
	J l = J::list();
	for (const T& x : v)
		l.l.push_back(lift(x, f));
	return l;
}
template <typename T, typename F>
J lift(const std::optional<T>& v, F f)
{
	return v ? lift(*v, f) : J::null();
}

} // namespace sim
