// How accessors produce the values the plan asks for, for any object types.
#pragma once
#include "dyn.h"

#include <string_view>

namespace sim {

using namespace std::literals;

// Make<T, Env>::get(value, env): the typed value; Env creates the objects
template <typename T, typename Env>
struct Make;
template <typename Env>
struct Make<int, Env>
{
	static int get(const RV& v, const Env&) { return v.j.i; }
};
template <typename Env>
struct Make<std::string, Env>
{
	static std::string get(const RV& v, const Env&) { return v.j.s; }
};
template <typename Env>
struct Make<bool, Env>
{
	static bool get(const RV& v, const Env&) { return v.j.b; }
};
template <typename Env>
struct Make<double, Env>
{
	static double get(const RV& v, const Env&) { return v.j.f; }
};
template <typename Env>
struct Make<response::IdType, Env>
{
	static response::IdType get(const RV& v, const Env&) { return unbase64(v.j.s); }
};
template <typename Env>
struct Make<response::Value, Env>
{
	static response::Value get(const RV& v, const Env&) { return toValue(v.j); }
};
template <typename T, typename Env>
struct Make<std::optional<T>, Env>
{
	static std::optional<T> get(const RV& v, const Env& p)
	{
		if (v.k == RV::Null)
			return std::nullopt;
		return std::optional<T>(Make<T, Env>::get(v, p));
	}
};
template <typename T, typename Env>
struct Make<std::vector<T>, Env>
{
	static std::vector<T> get(const RV& v, const Env& p)
	{
		std::vector<T> out;
		out.reserve(v.l.size());
		for (auto& e : v.l)
			out.push_back(Make<T, Env>::get(e, p));
		return out;
	}
};

[[noreturn]] inline void raise(Fail f, const std::string& token, int id)
{
	switch (f)
	{
		case F_SCHEMA: throw service::schema_exception { std::vector<std::string> { std::string(token) } };
		case F_SCHEMA_OWN:
		{
			std::list<service::schema_error> l;
			l.push_back({ std::string(token), { (size_t)(1000 + id), 5 }, { "own"sv, (size_t)7 } });
			throw service::schema_exception { std::move(l) };
		}
		case F_SCHEMA_TWO:
			throw service::schema_exception { std::vector<std::string> { token + "a", token + "b" } };
		case F_ALLOC: throw std::bad_alloc();
		default: throw std::runtime_error(std::string(token));
	}
}

inline void pause(const Beh& b)
{
	for (uint32_t i = 0; i < b.yields; ++i)
		rt_yield();
}

inline void completed(Call* c)
{
	Guard g;
	c->completed++;
	rt_event("done %s", c->path.c_str());
}

// Produces the accessor's result in the way the plan asks for. self has ctx and env().
template <typename T, typename Self>
service::FieldResult<T> answer(const Self& self, Call& call)
{
	Call* c = &call;
	const Beh& b = call.beh;
	pause(b);
	if (b.fail != F_NONE)
		count(b.fail == F_ALLOC ? C_fault_bad_alloc : b.fail == F_BROKEN ? C_fault_broken_promise
				: b.fail == F_STD										? C_fault_throw
																		: C_fault_schema_exception);
	if (b.fail != F_NONE && b.failSync)
	{
		completed(c);
		raise(b.fail, call.token, call.id);
	}
	if (b.fail != F_NONE)
		count(C_fault_future_exception);
	// keeps the object alive like a real accessor would with its own data
	using Env = typename Self::Env;
	auto keep = std::static_pointer_cast<const Self>(self.shared_from_this());
	switch (b.mode)
	{
		case MODE_READY:
		{
			count(C_mode_ready);
			std::promise<T> p;
			auto f = p.get_future();
			if (b.fail == F_BROKEN)
			{
				completed(c);
				return f;
			}
			try
			{
				if (b.fail != F_NONE)
					raise(b.fail, call.token, call.id);
				p.set_value(Make<T, Env>::get(call.value, self.env()));
			}
			catch (...)
			{
				p.set_exception(std::current_exception());
			}
			completed(c);
			return f;
		}
		case MODE_DEFERRED:
		case MODE_ASYNC:
		{
			count(b.mode == MODE_DEFERRED ? C_mode_deferred : C_mode_async);
			return std::async(b.mode == MODE_DEFERRED ? std::launch::deferred : std::launch::async,
				[keep, c]() -> T {
					const Beh& b = c->beh;
					if (b.delay)
						rt_sleep(b.delay);
					pause(b);
					completed(c);
					if (b.fail != F_NONE)
						raise(b.fail, c->token, c->id);
					return Make<T, Env>::get(c->value, keep->env());
				});
		}
		case MODE_LATER:
		{
			count(C_mode_later);
			auto p = std::make_shared<std::promise<T>>();
			auto f = p->get_future();
			self.ctx.spawn([keep, c, p]() mutable {
				const Beh& b = c->beh;
				if (b.delay)
					rt_sleep(b.delay);
				pause(b);
				completed(c);
				if (b.fail == F_BROKEN)
				{
					p.reset();
					return;
				}
				try
				{
					if (b.fail != F_NONE)
						raise(b.fail, c->token, c->id);
					p->set_value(Make<T, Env>::get(c->value, keep->env()));
				}
				catch (...)
				{
					p->set_exception(std::current_exception());
				}
			});
			return f;
		}
		default:
			count(C_mode_value);
			completed(c);
			return Make<T, Env>::get(call.value, self.env());
	}
}


} // namespace sim
