#include "answer.h"

#include <algorithm>
#include <cstring>

using namespace std::literals;

namespace sim {

static long g_live[L_COUNT];
long live(Live k)
{
	Guard g;
	return g_live[k];
}
void liveAdd(Live k, int n)
{
	Guard g;
	g_live[k] += n;
}

Plan* SimState::find(service::ResolverContext c, int event) const
{
	Guard g;
	if (c == service::ResolverContext::NotifySubscribe)
		return notify;
	if (c == service::ResolverContext::NotifyUnsubscribe)
		return unnotify;
	if (c == service::ResolverContext::Subscription)
	{
		auto i = events.find(event);
		return i == events.end() ? nullptr : i->second;
	}
	return only;
}

Ctx::Ctx()
{
	Guard g;
	threads = new std::vector<std::thread>;
}
Ctx::~Ctx()
{
	joinAll();
	Guard g;
	delete threads;
}
void Ctx::spawn(std::function<void()> f)
{
	std::thread t(std::move(f));
	Guard g;
	threads->push_back(std::move(t));
}
void Ctx::joinAll()
{
	for (;;)
	{
		std::thread t;
		{
			Guard g;
			if (threads->empty())
				return;
			t = std::move(threads->back());
			threads->pop_back();
		}
		t.join();
	}
}

// ---- values -------------------------------------------------------------------------------------------
response::Value toValue(const J& j)
{
	switch (j.k)
	{
		case J::Null: return response::Value();
		case J::Bool: return response::Value(j.b);
		case J::Int: return response::Value(j.i);
		case J::Float: return response::Value(j.f);
		case J::Str: return response::Value(std::string(j.s));
		case J::Enum:
		{
			response::Value v(response::Type::EnumValue);
			v.set<response::StringType>(std::string(j.s));
			return v;
		}
		case J::List:
		{
			response::Value v(response::Type::List);
			for (auto& x : j.l)
				v.emplace_back(toValue(x));
			return v;
		}
		case J::Map:
		{
			response::Value v(response::Type::Map);
			for (auto& x : j.m)
				v.emplace_back(std::string(x.first), toValue(x.second));
			return v;
		}
	}
	return response::Value();
}

J fromValue(const response::Value& v)
{
	J j;
	switch (v.type())
	{
		case response::Type::Map:
			j.k = J::Map;
			for (auto& e : v.get<response::MapType>())
				j.m.emplace_back(e.first, fromValue(e.second));
			break;
		case response::Type::List:
			j.k = J::List;
			for (auto& e : v.get<response::ListType>())
				j.l.push_back(fromValue(e));
			break;
		case response::Type::String:
			j.k = J::Str;
			j.s = v.get<response::StringType>();
			break;
		case response::Type::Null: break;
		case response::Type::Boolean:
			j.k = J::Bool;
			j.b = v.get<response::BooleanType>();
			break;
		case response::Type::Int:
			j.k = J::Int;
			j.i = v.get<response::IntType>();
			break;
		case response::Type::Float:
			j.k = J::Float;
			j.f = v.get<response::FloatType>();
			break;
		case response::Type::EnumValue:
			j.k = J::Enum;
			j.s = v.get<response::StringType>();
			break;
		case response::Type::Scalar: j = fromValue(v.get<response::ScalarType>()); break;
	}
	return j;
}

std::string pathString(const service::error_path& p)
{
	std::string s;
	for (auto& e : p)
	{
		if (!s.empty())
			s += '/';
		if (std::holds_alternative<std::string_view>(e))
			s += std::get<std::string_view>(e);
		else
			s += std::to_string(std::get<size_t>(e));
	}
	return s;
}

std::vector<uint8_t> unbase64(const std::string& s)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::vector<uint8_t> out;
	uint32_t acc = 0;
	int n = 0;
	for (char c : s)
	{
		if (c == '=')
			break;
		acc = acc << 6 | (uint32_t)(strchr(t, c) - t);
		n += 6;
		if (n >= 8)
		{
			n -= 8;
			out.push_back((uint8_t)(acc >> n));
		}
	}
	return out;
}

// ---- accessor results ------------------------------------------------------------------------------------
template <>
struct Make<std::shared_ptr<DynObject>, DynEnv>
{
	static std::shared_ptr<DynObject> get(const RV& v, const DynEnv& p)
	{
		if (v.k == RV::Null)
			return nullptr;
		return std::make_shared<DynObject>(p.ctx, v.type, v.obj, p.event);
	}
};
template <>
struct Make<std::shared_ptr<service::Object>, DynEnv>
{
	static std::shared_ptr<service::Object> get(const RV& v, const DynEnv& p)
	{
		return Make<std::shared_ptr<DynObject>, DynEnv>::get(v, p);
	}
};

namespace {

using service::TypeModifier;
template <typename B, TypeModifier... M>
std::future<service::ResolverResult> conv(
	DynObject& self, Call& c, DynObject::Lock& lock, service::ResolverParams&& params)
{
	using R = service::ModifiedResult<B>;
	using T = typename R::template ResultTraits<B, M...>::type;
	auto result = answer<T>(self, c);
	lock.unlock();
	return R::template convert<M...>(std::move(result), std::move(params));
}

template <typename B>
std::future<service::ResolverResult> convAll(Mod m, DynObject& self, Call& c,
	DynObject::Lock& lock, service::ResolverParams&& params)
{
	constexpr auto L = TypeModifier::List, Q = TypeModifier::Nullable;
	switch (m)
	{
		case M_Q: return conv<B, Q>(self, c, lock, std::move(params));
		case M_L: return conv<B, L>(self, c, lock, std::move(params));
		case M_LQ: return conv<B, L, Q>(self, c, lock, std::move(params));
		case M_QL: return conv<B, Q, L>(self, c, lock, std::move(params));
		case M_QLQ: return conv<B, Q, L, Q>(self, c, lock, std::move(params));
		case M_LL: return conv<B, L, L>(self, c, lock, std::move(params));
		default: return conv<B>(self, c, lock, std::move(params));
	}
}
template <typename B>
std::future<service::ResolverResult> convTwo(Mod m, DynObject& self, Call& c,
	DynObject::Lock& lock, service::ResolverParams&& params)
{
	if (m == M_Q)
		return conv<B, TypeModifier::Nullable>(self, c, lock, std::move(params));
	return conv<B>(self, c, lock, std::move(params));
}

} // namespace

// ---- objects ------------------------------------------------------------------------------------------------
static service::TypeNames typeNames(const SchemaDef& s, int type)
{
	service::TypeNames n;
	for (auto& x : s.types[type].names)
		n.emplace(std::string_view(x));
	return n;
}

static service::ResolverMap resolvers(DynObject* self, const SchemaDef& s, int type,
	std::function<std::future<service::ResolverResult>(int, service::ResolverParams&&)> call)
{
	service::ResolverMap m;
	for (int f : s.types[type].fields)
		m.emplace(std::string_view(s.fields[f].name), [f, call](service::ResolverParams&& params) {
			return call(f, std::move(params));
		});
	m.emplace("__typename"sv, [&s, type](service::ResolverParams&& params) {
		return service::ModifiedResult<response::StringType>::convert(
			response::StringType { s.types[type].name }, std::move(params));
	});
	(void)self;
	return m;
}

DynObject::DynObject(Ctx& c, int t, uint64_t o, int e)
	: service::Object(typeNames(*c.s, t),
		resolvers(this, *c.s, t,
			[this](int f, service::ResolverParams&& params) {
				return field(f, std::move(params));
			}))
	, ctx(c)
	, type(t)
	, obj(o)
	, event(e)
{
}

DynObject::~DynObject() = default;

static std::string where(const Plan& p, const std::string& path)
{
	return "request " + std::to_string(p.id) + " path '" + path + "'";
}

static Plan* findPlan(const service::SelectionSetParams& params, int event, const char* what)
{
	auto state = std::static_pointer_cast<SimState>(params.state);
	if (!state)
		rt_fail("state", "%s without the request state", what);
	Plan* p = state->find(params.resolverContext, event);
	if (!p)
		rt_fail("state", "%s with an unexpected request state or resolver context %d", what,
			(int)params.resolverContext);
	return p;
}

void noteBegin(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event)
{
	if (!ctx.checkCalls)
		return;
	const std::string path = pathString(service::buildErrorPath(params.errorPath));
	Plan* p = findPlan(params, event, "beginSelectionSet");
	std::string fail;
	{
		Guard g;
		auto i = p->objs.find(path);
		if (i == p->objs.end() || i->second.type != type || i->second.obj != obj)
			rt_fail("call", "beginSelectionSet on a wrong object: %s", where(*p, path).c_str());
		ObjExp& e = i->second;
		rt_event("begin %d %s", p->id, path.c_str());
		if (e.begins++)
			rt_fail("call", "beginSelectionSet called twice: %s", where(*p, path).c_str());
		if (e.beginFail)
			fail = e.token;
	}
	if (!fail.empty())
		throw std::runtime_error(fail);
}

void noteEnd(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event)
{
	if (!ctx.checkCalls)
		return;
	const std::string path = pathString(service::buildErrorPath(params.errorPath));
	Plan* p = findPlan(params, event, "endSelectionSet");
	std::string fail;
	{
		Guard g;
		auto i = p->objs.find(path);
		if (i == p->objs.end() || i->second.type != type || i->second.obj != obj)
			rt_fail("call", "endSelectionSet on a wrong object: %s", where(*p, path).c_str());
		ObjExp& e = i->second;
		rt_event("end %d %s", p->id, path.c_str());
		if (e.begins != 1 || e.ends++)
			rt_fail("call", "endSelectionSet without its beginSelectionSet: %s", where(*p, path).c_str());
		// every accessor of this selection set has been called by now
		const std::string pre = path.empty() ? path : path + "/";
		for (auto c = p->calls.lower_bound(pre); c != p->calls.end(); ++c)
		{
			if (c->first.compare(0, pre.size(), pre) != 0)
				break;
			if (c->first.find('/', pre.size()) == std::string::npos && c->second.obj == obj && !c->second.called)
				rt_fail("call", "selection set ends before accessor %s is called: %s",
					describe(c->second, *p->schema).c_str(), where(*p, path).c_str());
		}
		if (e.endFail)
			fail = e.token;
	}
	if (!fail.empty())
		throw std::runtime_error(fail);
}

void DynObject::beginSelectionSet(const service::SelectionSetParams& params) const
{
	noteBegin(ctx, params, type, obj, event);
}

void DynObject::endSelectionSet(const service::SelectionSetParams& params) const
{
	noteEnd(ctx, params, type, obj, event);
}

static void same(const Plan& p, const Call& c, const char* what, const J& want, const J& j)
{
	Guard g;
	if (print(want, true) != print(j, true))
		rt_fail("arguments", "accessor %s of request %d got wrong %s: %s, expected %s",
			describe(c, *p.schema).c_str(), p.id, what, print(j, true).c_str(), print(want, true).c_str());
}

Call* noteCall(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event, int index,
	const J& args, const J& fieldDirs, bool typed)
{
	const std::string path = pathString(service::buildErrorPath(params.errorPath));
	Plan* p = findPlan(params, event, "accessor");
	Call* c;
	{
		Guard g;
		auto i = p->calls.find(path);
		if (i == p->calls.end() || i->second.type != type || i->second.obj != obj || i->second.field != index)
			rt_fail("call", "accessor %s called on the wrong object or although not selected: %s",
				ctx.s->fields[index].name.c_str(), where(*p, path).c_str());
		c = &i->second;
		rt_event("call %d %s", p->id, path.c_str());
		count(C_calls);
		if (c->called++)
			rt_fail("call", "accessor %s called twice for request %d", describe(*c, *ctx.s).c_str(), p->id);
		const auto slash = path.rfind('/');
		auto o = p->objs.find(slash == std::string::npos ? std::string() : path.substr(0, slash));
		if (ctx.checkCalls && (o == p->objs.end() || o->second.begins != 1 || o->second.ends))
			rt_fail("call", "accessor %s of request %d called outside of its selection set",
				describe(*c, *ctx.s).c_str(), p->id);
		if (p->checkSerial && c->root > p->lastRoot)
		{
			p->lastRoot = c->root;
			for (auto& e : p->calls)
				if (e.second.root < c->root && !e.second.optional && (!e.second.called || !e.second.completed))
					rt_fail("serial", "root field '%s' starts before accessor %s of root field '%s' has %s",
						p->rootKeys[c->root].c_str(), describe(e.second, *ctx.s).c_str(),
						p->rootKeys[e.second.root].c_str(), e.second.called ? "completed" : "been called");
		}
	}
	if ((int)params.resolverContext != p->context)
		rt_fail("arguments", "accessor %s called with resolver context %d", describe(*c, *ctx.s).c_str(),
			(int)params.resolverContext);
	same(*p, *c, "arguments", typed ? c->typed : c->args, args);
	same(*p, *c, "field directives", c->fieldDirs, fieldDirs);
	same(*p, *c, "operation directives", c->opDirs, fromValue(params.operationDirectives));
	same(*p, *c, "fragment definition directives", c->fragDirs, fromValue(params.fragmentDefinitionDirectives));
	same(*p, *c, "fragment spread directives", c->spreadDirs, fromValue(params.fragmentSpreadDirectives));
	same(*p, *c, "inline fragment directives", c->inlineDirs, fromValue(params.inlineFragmentDirectives));

	return c;
}

std::future<service::ResolverResult> DynObject::field(int index, service::ResolverParams&& params)
{
	Lock lock(_resolverMutex);
	Call* c = noteCall(ctx, params, type, obj, event, index, fromValue(params.arguments),
		fromValue(params.fieldDirectives), false);

	const auto& f = ctx.s->fields[index];
	switch (f.base)
	{
		case B_INT: return convAll<int>(f.mod, *this, *c, lock, std::move(params));
		case B_STR: return convAll<std::string>(f.mod, *this, *c, lock, std::move(params));
		case B_BOOL: return convAll<bool>(f.mod, *this, *c, lock, std::move(params));
		case B_FLOAT: return convTwo<double>(f.mod, *this, *c, lock, std::move(params));
		case B_ID: return convTwo<response::IdType>(f.mod, *this, *c, lock, std::move(params));
		case B_ENUM:
		case B_JSON: return convTwo<response::Value>(f.mod, *this, *c, lock, std::move(params));
		default:
			if (ctx.s->types[f.type].kind == TypeDef::Union)
				return convAll<service::Object>(f.mod, *this, *c, lock, std::move(params));
			return convAll<DynObject>(f.mod, *this, *c, lock, std::move(params));
	}
}

// ---- schema ---------------------------------------------------------------------------------------------------
static std::shared_ptr<const schema::BaseType> wrap(
	schema::Schema& sch, std::shared_ptr<const schema::BaseType> t, bool list, bool nonNull)
{
	using graphql::introspection::TypeKind;
	if (list)
		t = sch.WrapType(TypeKind::LIST, t);
	if (nonNull)
		t = sch.WrapType(TypeKind::NON_NULL, t);
	return t;
}

static const char* const g_base[] = { "Int", "String", "Boolean", "Float", "ID", "E0", "Any", "?", "In0" };

static std::shared_ptr<const schema::BaseType> inType(schema::Schema& sch, const InType& t)
{
	auto b = sch.LookupType(g_base[t.base]);
	if (t.list)
		return wrap(sch, wrap(sch, b, false, t.elemNonNull), true, t.nonNull);
	return wrap(sch, b, false, t.nonNull);
}

static std::shared_ptr<const schema::BaseType> outType(schema::Schema& sch, const SchemaDef& s, const FieldDef& f)
{
	auto b = sch.LookupType(f.base == B_OBJ ? std::string_view(s.types[f.type].name) : std::string_view(g_base[f.base]));
	switch (f.mod)
	{
		case M_N: return wrap(sch, b, false, true);
		case M_Q: return b;
		case M_L: return wrap(sch, wrap(sch, b, false, true), true, true);
		case M_LQ: return wrap(sch, b, true, true);
		case M_QL: return wrap(sch, wrap(sch, b, false, true), true, false);
		case M_QLQ: return wrap(sch, b, true, false);
		case M_LL: return wrap(sch, wrap(sch, wrap(sch, b, false, true), true, true), true, true);
	}
	return b;
}

std::shared_ptr<schema::Schema> buildSchema(const SchemaDef& s)
{
	using graphql::introspection::DirectiveLocation;
	using graphql::introspection::TypeKind;
	auto sch = std::make_shared<schema::Schema>(true);
	for (auto n : { "Boolean"sv, "Float"sv, "ID"sv, "Int"sv, "String"sv, "Any"sv })
		sch->AddType(n, schema::ScalarType::Make(n, ""sv));
	auto en = schema::EnumType::Make("E0"sv, ""sv);
	sch->AddType("E0"sv, en);
	std::vector<schema::EnumValueType> ev;
	for (auto& x : s.enums)
		ev.push_back({ std::string_view(x), ""sv, std::nullopt });
	en->AddEnumValues(std::move(ev));
	auto in = schema::InputObjectType::Make("In0"sv, ""sv);
	sch->AddType("In0"sv, in);
	std::vector<std::shared_ptr<schema::ObjectType>> objects(s.types.size());
	std::vector<std::shared_ptr<schema::InterfaceType>> ifaces(s.types.size());
	std::vector<std::shared_ptr<schema::UnionType>> unions(s.types.size());
	for (size_t i = 0; i < s.types.size(); ++i)
	{
		std::string_view n = s.types[i].name;
		switch (s.types[i].kind)
		{
			case TypeDef::Object: sch->AddType(n, objects[i] = schema::ObjectType::Make(n, ""sv)); break;
			case TypeDef::Interface: sch->AddType(n, ifaces[i] = schema::InterfaceType::Make(n, ""sv)); break;
			case TypeDef::Union: sch->AddType(n, unions[i] = schema::UnionType::Make(n, ""sv)); break;
		}
	}
	std::vector<std::shared_ptr<const schema::InputValue>> iv;
	for (auto& x : s.input)
		iv.push_back(schema::InputValue::Make(x.name, ""sv, inType(*sch, x.type), ""sv));
	in->AddInputValues(std::move(iv));
	for (size_t i = 0; i < s.types.size(); ++i)
	{
		std::vector<std::shared_ptr<const schema::Field>> fs;
		for (int f : s.types[i].fields)
		{
			std::vector<std::shared_ptr<const schema::InputValue>> args;
			for (auto& a : s.fields[f].args)
				args.push_back(schema::InputValue::Make(a.name, ""sv, inType(*sch, a.type), ""sv));
			fs.push_back(schema::Field::Make(s.fields[f].name, ""sv, std::nullopt, outType(*sch, s, s.fields[f]),
				std::move(args)));
		}
		if (objects[i])
		{
			std::vector<std::shared_ptr<const schema::InterfaceType>> is;
			for (int x : s.types[i].ifaces)
				is.push_back(ifaces[x]);
			if (!is.empty())
				objects[i]->AddInterfaces(std::move(is));
			objects[i]->AddFields(std::move(fs));
		}
		else if (ifaces[i])
			ifaces[i]->AddFields(std::move(fs));
		else
		{
			std::vector<std::weak_ptr<const schema::BaseType>> ps;
			for (int x : s.types[i].possible)
				ps.push_back(sch->LookupType(s.types[x].name));
			unions[i]->AddPossibleTypes(std::move(ps));
		}
		if (ifaces[i])
			for (int x : s.types[i].possible)
				ifaces[i]->AddPossibleType(objects[x]);
	}
	const std::vector<DirectiveLocation> cond { DirectiveLocation::FIELD, DirectiveLocation::FRAGMENT_SPREAD,
		DirectiveLocation::INLINE_FRAGMENT };
	const std::vector<DirectiveLocation> all { DirectiveLocation::QUERY, DirectiveLocation::MUTATION,
		DirectiveLocation::SUBSCRIPTION, DirectiveLocation::FIELD, DirectiveLocation::FRAGMENT_DEFINITION,
		DirectiveLocation::FRAGMENT_SPREAD, DirectiveLocation::INLINE_FRAGMENT };
	auto boolean = sch->WrapType(TypeKind::NON_NULL, sch->LookupType("Boolean"sv));
	for (auto n : { "skip"sv, "include"sv })
		sch->AddDirective(schema::Directive::Make(n, ""sv, std::vector<DirectiveLocation>(cond),
			{ schema::InputValue::Make("if"sv, ""sv, boolean, ""sv) }));
	sch->AddDirective(schema::Directive::Make("tag"sv, ""sv, std::vector<DirectiveLocation>(all),
		{ schema::InputValue::Make("n"sv, ""sv, sch->LookupType("Int"sv), ""sv),
			schema::InputValue::Make("s"sv, ""sv, sch->LookupType("String"sv), ""sv) }));
	sch->AddDirective(schema::Directive::Make("mark"sv, ""sv, std::vector<DirectiveLocation>(all)));
	sch->AddQueryType(objects[s.query]);
	if (s.mutation >= 0)
		sch->AddMutationType(objects[s.mutation]);
	if (s.subscription >= 0)
		sch->AddSubscriptionType(objects[s.subscription]);
	return sch;
}

uint64_t rootObj(const SchemaDef&, int type)
{
	return 7000 + (uint64_t)type;
}

std::shared_ptr<DynService> makeService(Ctx& c, bool subscriptionDefault)
{
	const SchemaDef& s = *c.s;
	service::TypeMap ops;
	ops.emplace("query"sv, std::make_shared<DynObject>(c, s.query, rootObj(s, s.query), 0));
	if (s.mutation >= 0)
		ops.emplace("mutation"sv, std::make_shared<DynObject>(c, s.mutation, rootObj(s, s.mutation), 0));
	if (s.subscription >= 0)
		ops.emplace("subscription"sv, subscriptionDefault
				? std::make_shared<DynObject>(c, s.subscription, rootObj(s, s.subscription), 0)
				: nullptr);
	count(C_services_created);
	return std::make_shared<DynService>(std::move(ops), buildSchema(s));
}

// ---- checks ------------------------------------------------------------------------------------------------------
static std::string context(const Plan& p)
{
	return "\n  document: " + p.doc->text + "\n  operation: " + p.doc->ops[p.op].name
		+ "\n  variables: " + print(providedVariables(*p.doc));
}

std::string callsProblem(const Plan& p)
{
	for (auto& e : p.calls)
		if (!e.second.optional && (e.second.called != 1 || e.second.completed != 1))
			return "accessor " + describe(e.second, *p.schema) + " of request " + std::to_string(p.id) + ": "
				+ (e.second.called ? "response available before it answered" : "never called") + context(p);
	for (auto& e : p.objs)
		if (!e.second.optional && (e.second.begins != 1 || e.second.ends != (e.second.beginFail ? 0 : 1)))
			return "object at '" + e.first + "' of request " + std::to_string(p.id) + ": " + std::to_string(e.second.begins)
				+ " begin and " + std::to_string(e.second.ends) + " end notifications" + context(p);
	return {};
}

void checkCalls(const Plan& p)
{
	Guard g;
	const std::string t = callsProblem(p);
	if (!t.empty())
		rt_fail("call", "%s", t.c_str());
}

// the first way in which a response differs from the plan: kind and text
std::pair<const char*, std::string> diffResponse(const Plan& p, const J& got)
{
	const J* data = got.get("data");
	const J* errors = got.get("errors");
	const std::string id = "request " + std::to_string(p.id) + ": ";
	if (got.k != J::Map || !data || got.m.size() != (errors ? 2u : 1u))
		return { "response", id + "malformed response " + print(got) + context(p) };
	if (!sameJ(*data, p.data))
		return { "response",
			id + "wrong data\n  got      " + print(*data) + "\n  expected " + print(p.data) + "\n  errors   "
				+ (errors ? print(*errors) : "-") + context(p) };
	std::vector<const J*> left;
	if (errors)
	{
		if (errors->k != J::List || errors->l.empty())
			return { "response", id + "malformed error list " + print(*errors) };
		for (auto& e : errors->l)
			left.push_back(&e);
	}
	auto message = [](const J& e) {
		const J* m = e.get("message");
		return m && m->k == J::Str ? m->s : std::string();
	};
	auto fits = [&](const Err& x, const J& e) {
		if (message(e).find(x.token) == std::string::npos)
			return false;
		const J* loc = e.get("locations");
		const J* path = e.get("path");
		if (!loc || loc->k != J::List || loc->l.size() != 1 || !path)
			return false;
		const J* line = loc->l[0].get("line");
		const J* col = loc->l[0].get("column");
		return line && col && line->i == x.line && col->i == x.col && print(*path) == print(x.path);
	};
	std::vector<const Err*> missing;
	for (auto& x : p.errors)
	{
		auto i = std::find_if(left.begin(), left.end(), [&](const J* e) {
			return fits(x, *e);
		});
		if (i == left.end())
			missing.push_back(&x);
		else
			left.erase(i);
	}
	if (missing.empty() && left.empty())
		return { nullptr, {} };
	std::string m, l;
	for (auto* x : missing)
		m += "\n    " + x->token + " at " + std::to_string(x->line) + ":" + std::to_string(x->col) + " path "
			+ print(x->path);
	for (auto* x : left)
		l += "\n    " + print(*x);
	return { "errors", id + "wrong error list\n  missing:" + m + "\n  unexpected:" + l + context(p) };
}

void checkResponse(const Plan& p, const response::Value& doc)
{
	const J got = fromValue(doc);
	Guard g;
	if (const J* errors = got.get("errors"))
		count(C_errors_out, errors->l.size());
	auto d = diffResponse(p, got);
	if (d.first)
		rt_fail(d.first, "%s", d.second.c_str());
}

std::string errorsText(const response::Value& doc)
{
	const J got = fromValue(doc);
	Guard g;
	const J* data = got.get("data");
	const J* errors = got.get("errors");
	if (!errors || !data || data->k != J::Null)
		return {};
	return print(*errors);
}

bool g_noBoth = false;

std::launch drawLaunch()
{
	if (g_noBoth)
	{
		const bool a = draw(4) > 1;
		count(a ? C_launch_async : C_launch_deferred);
		return a ? std::launch::async : std::launch::deferred;
	}
	switch (draw(4))
	{
		case 1: count(C_launch_async); return std::launch::async;
		case 2: count(C_launch_both); return std::launch::async | std::launch::deferred;
		case 3: count(C_launch_async); return std::launch::async;
		default: count(C_launch_deferred); return std::launch::deferred;
	}
}

const char* launchName(std::launch l)
{
	return l == std::launch::deferred ? "deferred" : l == std::launch::async ? "async" : "both";
}

} // namespace sim
