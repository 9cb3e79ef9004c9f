// Services generated by schemagen from a random schema, implemented by glue code (sim/gen/emit.cpp).
#pragma once
#include "answer.h"

#include <mutex>

namespace sim {

// objects that answers share, by identity
struct GenShared
{
	bool on = false;
	std::mutex mutex;
	std::map<std::tuple<int, uint64_t, int>, std::weak_ptr<service::Object>> objects;
};

struct GenSchema
{
	GenSchema(int index, const char* name, SchemaDef (*def)(),
		std::shared_ptr<service::Request> (*make)(Ctx&, GenShared&, bool),
		std::shared_ptr<service::Object> (*event)(Ctx&, GenShared&, int), std::shared_ptr<schema::Schema> (*schema)(),
		bool introspection);
	int index;
	const char* name;
	SchemaDef (*def)();
	std::shared_ptr<service::Request> (*make)(Ctx&, GenShared&, bool);
	std::shared_ptr<service::Object> (*event)(Ctx&, GenShared&, int);
	std::shared_ptr<schema::Schema> (*schema)();
	bool introspection;
	static GenSchema* all[4];
};

inline J jl(std::initializer_list<J> l)
{
	J j = J::list();
	j.l = l;
	return j;
}
inline J jm(std::initializer_list<std::pair<std::string, J>> m)
{
	J j = J::map();
	j.m = m;
	return j;
}

std::string base64(const std::vector<uint8_t>& v);
inline J toJ(int v) { return J::integer(v); }
inline J toJ(bool v) { return J::boolean(v); }
inline J toJ(double v) { return J::number(v); }
inline J toJ(const std::string& v) { return J::str(v); }
inline J toJ(const response::IdType& v) { return J::str(base64(v)); }
inline J toJ(const response::Value& v) { return fromValue(v); }
template <typename T>
J toJ(const std::optional<T>& v);
template <typename T>
J toJ(const std::vector<T>& v)
{
	J j = J::list();
	for (const T& x : v)
		j.l.push_back(toJ(x));
	return j;
}
template <typename T>
J toJ(const std::optional<T>& v)
{
	return v ? toJ(*v) : J::null();
}

void overlapping(const char* type, const std::string& field, uint64_t obj);

template <typename G, typename E>
struct GenObject : G, Counted<L_OBJECT>
{
	using Env = E;
	GenObject(const E& e, int t, uint64_t o)
		: ctx(e.ctx)
		, shared(e.shared)
		, type(t)
		, obj(o)
		, event(e.event)
	{
	}
	Ctx& ctx;
	GenShared& shared;
	const int type;
	const uint64_t obj;
	const int event;
	mutable int busy = 0;
	Env env() const { return { ctx, shared, event }; }

	void beginSelectionSet(const service::SelectionSetParams& params) const override
	{
		noteBegin(ctx, params, type, obj, event);
	}
	void endSelectionSet(const service::SelectionSetParams& params) const override
	{
		noteEnd(ctx, params, type, obj, event);
	}

	template <typename T>
	service::FieldResult<T> access(int index, service::FieldParams&& params, J&& args) const
	{
		struct Busy
		{
			int& n;
			~Busy()
			{
				Guard g;
				--n;
			}
		};
		{
			Guard g;
			count(C_overlap_checks);
			if (busy++)
				rt_fail("overlap", "accessor %s of %s object %llu runs while another accessor of the same object does",
					ctx.s->fields[index].name.c_str(), ctx.s->types[type].name.c_str(), (unsigned long long)obj);
		}
		Busy b { busy };
		rt_yield();
		Call* c = noteCall(ctx, params, type, obj, event, index, args, fromValue(params.fieldDirectives), true);
		return answer<T>(*this, *c);
	}
};

template <typename Op>
struct GenService : Op, Counted<L_SERVICE>
{
	using Op::Op;
};

template <typename E>
std::shared_ptr<service::Object> createShared(const E& e, int type, uint64_t obj,
	std::shared_ptr<service::Object> (*make)(const E&, int, uint64_t))
{
	if (!e.shared.on)
		return make(e, type, obj);
	std::lock_guard<std::mutex> lock(e.shared.mutex);
	auto& w = e.shared.objects[{ type, obj, e.event }];
	auto o = w.lock();
	if (!o)
		w = o = make(e, type, obj);
	return o;
}

} // namespace sim
