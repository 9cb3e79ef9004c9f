// C11: services, schemas and introspection from several threads at the same time.
#include "gen.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>

namespace sim {

namespace {

// ---- what introspection must say ------------------------------------------------------------------
const char* const g_names[] = { "Int", "String", "Boolean", "Float", "ID", "E0", "Any", "?", "In0", "In1" };

J named(const char* kind, const std::string& name)
{
	return jm({ { "kind", J::enumv(kind) }, { "name", J::str(name) } });
}
J wrapped(const char* kind, J of)
{
	return jm({ { "kind", J::enumv(kind) }, { "name", J::null() }, { "ofType", std::move(of) } });
}
J refBase(Base b)
{
	return named(b == B_ENUM ? "ENUM" : b == B_INPUT || b == B_INPUT1 ? "INPUT_OBJECT" : "SCALAR", g_names[b]);
}
J ref(const InType& t)
{
	J j = refBase(t.base);
	if (t.list)
	{
		if (t.elemNonNull)
			j = wrapped("NON_NULL", j);
		j = wrapped("LIST", j);
	}
	return t.nonNull ? wrapped("NON_NULL", j) : j;
}
const char* kindOf(const TypeDef& t)
{
	return t.kind == TypeDef::Object ? "OBJECT" : t.kind == TypeDef::Interface ? "INTERFACE" : "UNION";
}
J ref(const SchemaDef& s, const FieldDef& f)
{
	J j = f.base == B_OBJ ? named(kindOf(s.types[f.type]), s.types[f.type].name) : refBase(f.base);
	auto nn = [](J x) {
		return wrapped("NON_NULL", std::move(x));
	};
	auto li = [](J x) {
		return wrapped("LIST", std::move(x));
	};
	switch (f.mod)
	{
		case M_N: return nn(j);
		case M_Q: return j;
		case M_L: return nn(li(nn(j)));
		case M_LQ: return nn(li(j));
		case M_QL: return li(nn(j));
		case M_QLQ: return li(j);
		case M_LL: return nn(li(nn(li(nn(j)))));
	}
	return j;
}
J text(const std::string& s)
{
	return s.empty() ? J::null() : J::str(s);
}
J inputs(const std::vector<ArgDef>& as)
{
	J l = J::list();
	for (auto& a : as)
		l.l.push_back(jm({ { "name", J::str(a.name) }, { "description", J::null() }, { "type", ref(a.type) },
			{ "defaultValue", J::boolean(a.hasDefault) } }));
	return l;
}
void sortByName(J& l)
{
	std::sort(l.l.begin(), l.l.end(), [](const J& a, const J& b) {
		const J *x = a.get("name"), *y = b.get("name");
		return x && y && x->s < y->s;
	});
}
J shell(const char* kind, const std::string& name, const std::string& desc)
{
	return jm({ { "kind", J::enumv(kind) }, { "name", J::str(name) }, { "description", text(desc) }, { "fields", J::null() },
		{ "inputFields", J::null() }, { "interfaces", J::null() }, { "enumValues", J::null() },
		{ "possibleTypes", J::null() } });
}
J& at(J& m, const char* n)
{
	return *const_cast<J*>(m.get(n));
}

// the type named name, or null if there is none in the model
J expectType(const SchemaDef& s, const std::string& name, bool deprecated)
{
	for (auto n : { "Int", "String", "Boolean", "Float", "ID" })
		if (name == n)
			return shell("SCALAR", name, "?");
	if (name == "Any")
		return shell("SCALAR", name, s.any.desc);
	if (name == "E0")
	{
		J j = shell("ENUM", name, s.en.desc);
		J l = J::list();
		for (size_t i = 0; i < s.enums.size(); ++i)
			if (deprecated || !s.values[i].deprecated)
				l.l.push_back(jm({ { "name", J::str(s.enums[i]) }, { "description", text(s.values[i].desc) },
					{ "isDeprecated", J::boolean(s.values[i].deprecated) },
					{ "deprecationReason", text(s.values[i].reason) } }));
		at(j, "enumValues") = l;
		return j;
	}
	if (name == "In0" || name == "In1")
	{
		J j = shell("INPUT_OBJECT", name, "");
		at(j, "inputFields") = inputs(name == "In0" ? s.input : s.input1);
		return j;
	}
	for (auto& t : s.types)
	{
		if (t.name != name)
			continue;
		J j = shell(kindOf(t), name, t.note.desc);
		if (t.kind != TypeDef::Union)
		{
			J l = J::list();
			for (size_t i = 0; i < t.fields.size(); ++i)
			{
				auto& f = s.fields[t.fields[i]];
				auto& n = t.fieldNotes[i];
				if (deprecated || !n.deprecated)
					l.l.push_back(jm({ { "name", J::str(f.name) }, { "description", text(n.desc) }, { "args", inputs(f.args) },
						{ "type", ref(s, f) }, { "isDeprecated", J::boolean(n.deprecated) },
						{ "deprecationReason", text(n.reason) } }));
			}
			at(j, "fields") = l;
		}
		auto names = [&](const std::vector<int>& v) {
			J l = J::list();
			for (int x : v)
				l.l.push_back(jm({ { "name", J::str(s.types[x].name) } }));
			sortByName(l);
			return l;
		};
		if (t.kind == TypeDef::Object)
			at(j, "interfaces") = names(t.ifaces);
		else
			at(j, "possibleTypes") = names(t.possible);
		return j;
	}
	return J::null();
}

const char g_fragments[] = R"(
fragment Full on __Type { kind name description
  fields(includeDeprecated: $d) { name description args { ...In } type { ...Ref } isDeprecated deprecationReason }
  inputFields { ...In } interfaces { name } enumValues(includeDeprecated: $d) { name description isDeprecated deprecationReason }
  possibleTypes { name } }
fragment In on __InputValue { name description type { ...Ref } defaultValue }
fragment Ref on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } }
)";

// default values become whether there is one, unordered lists are sorted, null ofType members go
void normalise(J& j)
{
	if (j.k == J::Map)
	{
		for (auto i = j.m.begin(); i != j.m.end();)
			if (i->first == "ofType" && i->second.k == J::Null)
				i = j.m.erase(i);
			else
				++i;
		for (auto& e : j.m)
		{
			if (e.first == "defaultValue")
				e.second = J::boolean(e.second.k != J::Null);
			else if (e.first == "description" && e.second.k == J::Str && e.second.s.empty())
				e.second = J::null();
			else if ((e.first == "interfaces" || e.first == "possibleTypes") && e.second.k == J::List)
				sortByName(e.second);
			normalise(e.second);
		}
	}
	for (auto& x : j.l)
		normalise(x);
}

// members that do not apply to the kind may be null or empty
void compare(const SchemaDef& s, const std::string& name, bool deprecated, J got)
{
	normalise(got);
	J want = expectType(s, name, deprecated);
	if (want.k == J::Map && got.k == J::Map)
		for (auto& e : want.m)
		{
			const J* g = got.get(e.first);
			if (!g)
				continue;
			if (e.second.k == J::Null && g->k == J::List && g->l.empty())
				e.second = J::list();
			if (e.first == "description" && e.second.k == J::Str && e.second.s == "?")
				e.second = *g;
		}
	const std::string a = print(got), b = print(want);
	if (a != b)
	{
		size_t k = 0;
		while (k < a.size() && k < b.size() && a[k] == b[k])
			++k;
		const size_t from = k < 100 ? 0 : k - 100;
		rt_fail("introspection", "__type(name: \"%s\") says\n  ...%s\nexpected\n  ...%s", name.c_str(),
			a.substr(from, 300).c_str(), b.substr(from, 300).c_str());
	}
}

struct World
{
	const GenSchema* g;
	SchemaDef* s;
	Ctx ctx;
	GenShared shared;
	std::vector<std::string> names;
	std::shared_ptr<service::Request> common;
	schema::Schema* pinned = nullptr;
	// guarded
	std::map<std::string, std::string> first; // the first answer to each request
	std::map<std::pair<int, const void*>, const void*> wraps;

	void introspect(service::Request* svc, std::shared_ptr<service::Request>* own, const std::string& name, bool dep,
		bool full, std::launch launch, int drop);
	void wrap(schema::Schema& sch, const std::string& name, bool list);
	void lookups(schema::Schema& sch);
};

struct Op
{
	enum K { Create, Common, Wrap, Keep, Lookup } k = Create;
	std::string name;
	bool dep = false, full = false, list = false;
	std::launch launch = std::launch::deferred;
	int drop = 0;
};

void World::introspect(service::Request* svc, std::shared_ptr<service::Request>* own, const std::string& name, bool dep,
	bool full, std::launch launch, int drop)
{
	std::string q;
	response::Value vars(response::Type::Map);
	J plain = J::map();
	if (!g->introspection)
		q = "{ __typename }";
	else
	{
		if (full)
			q = "query($d: Boolean!) { __schema { queryType { name } mutationType { name } subscriptionType { name } types { ...Full "
				"} directives { name description locations args { ...In } } } }";
		else
			q = "query($n: String!, $d: Boolean) { __type(name: $n) { ...Full } }";
		q += g_fragments;
		plain.add("n", J::str(name));
		plain.add("d", J::boolean(dep));
		vars = toValue(plain);
	}
	count(C_introspections);
	auto ast = peg::parseString(q);
	auto f = svc->resolve(launch, nullptr, ast, "", std::move(vars));
	if (own && drop == 1)
	{
		count(C_services_dropped);
		own->reset();
	}
	if (drop == 2)
	{
		count(C_dropped_running);
		return;
	}
	auto doc = f.get();
	const J got = fromValue(doc);
	Guard gd;
	const J* data = got.get("data");
	const bool unknown = !full && g->introspection && std::find(names.begin(), names.end(), name) == names.end();
	if (!data || data->k != J::Map || (got.get("errors") && !unknown))
		rt_fail("introspection", "the introspection request failed: %s", print(got).c_str());
	if (!g->introspection)
	{
		if (print(*data) != "{__typename:\"Query\"}")
			rt_fail("introspection", "wrong response %s", print(got).c_str());
		return;
	}
	const std::string key = (full ? "*" : name) + (dep ? "+" : "-");
	auto ins = first.emplace(key, print(got));
	if (!ins.second && ins.first->second != print(got))
		rt_fail("introspection", "two answers to the same introspection request differ\n  %s\n  %s", print(got).c_str(),
			ins.first->second.c_str());
	if (!full)
	{
		compare(*s, name, dep, *data->get("__type"));
		return;
	}
	const J& sch = *data->get("__schema");
	for (auto x : { std::make_pair("queryType", s->query), std::make_pair("mutationType", s->mutation),
			 std::make_pair("subscriptionType", s->subscription) })
		if (print(*sch.get(x.first)) != "{name:\"" + s->types[x.second].name + "\"}")
			rt_fail("introspection", "wrong %s: %s", x.first, print(sch).c_str());
	std::set<std::string> want(names.begin(), names.end()), seen;
	for (auto n : { "__Schema", "__Type", "__TypeKind", "__Field", "__InputValue", "__EnumValue", "__Directive",
			 "__DirectiveLocation" })
		want.insert(n);
	for (auto& t : sch.get("types")->l)
	{
		const std::string n = t.get("name")->s;
		if (!want.count(n) || !seen.insert(n).second)
			rt_fail("introspection", "type %s is unknown or there twice", n.c_str());
		if (n.compare(0, 2, "__") != 0)
			compare(*s, n, dep, t);
	}
	if (seen.size() != want.size())
		rt_fail("introspection", "only %zu of %zu types: %s", seen.size(), want.size(), print(sch).c_str());
	std::set<std::string> dirs;
	for (auto& d : sch.get("directives")->l)
	{
		dirs.insert(d.get("name")->s);
		const bool tag = d.get("name")->s == "tag";
		if (!tag && d.get("name")->s != "mark")
			continue;
		std::vector<ArgDef> as;
		if (tag)
		{
			InType n, t;
			n.base = B_INT;
			t.base = B_STR;
			as = { { "n", n }, { "s", t } };
		}
		J l = *d.get("locations"), a = *d.get("args"), w = J::list(), wa = inputs(as);
		for (auto x : { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" })
			w.l.push_back(J::enumv(x));
		normalise(a);
		if (print(l) != print(w) || print(a) != print(wa))
			rt_fail("introspection", "directive %s is wrong: %s", tag ? "tag" : "mark", print(d).c_str());
	}
	for (auto n : { "skip", "include", "deprecated", "tag", "mark" })
		if (!dirs.erase(n))
			rt_fail("introspection", "directive %s is missing", n);
	if (!dirs.empty())
		rt_fail("introspection", "unexpected directive %s", dirs.begin()->c_str());
}

void World::wrap(schema::Schema& sch, const std::string& name, bool list)
{
	using graphql::introspection::TypeKind;
	const auto kind = list ? TypeKind::LIST : TypeKind::NON_NULL;
	auto t = sch.LookupType(name);
	count(C_wraps);
	auto a = sch.WrapType(kind, t);
	auto b = sch.WrapType(kind, sch.LookupType(name));
	const bool good = a && a == b && a->kind() == kind && a->ofType().lock() == t;
	auto both = sch.WrapType(list ? TypeKind::NON_NULL : TypeKind::LIST, a);
	const bool good2 = both && both->ofType().lock() == a;
	Guard gd;
	if (!good || !good2)
		rt_fail("wrap", "wrapping type %s twice gives different or wrong types", name.c_str());
	if (&sch == pinned)
	{
		auto ins = wraps.emplace(std::make_pair((int)list, (const void*)t.get()), a.get());
		auto ins2 = wraps.emplace(std::make_pair((int)!list, (const void*)a.get()), both.get());
		if (ins.first->second != a.get() || ins2.first->second != both.get())
			rt_fail("wrap", "the wrapped type of %s is another object for another thread", name.c_str());
	}
}

void World::lookups(schema::Schema& sch)
{
	for (auto& n : names)
	{
		auto t = sch.LookupType(std::string(n));
		const std::string got(t ? t->name() : std::string_view());
		const size_t fields = t ? t->fields().size() + t->inputFields().size() + t->enumValues().size() : 0;
		const size_t possible = t ? t->possibleTypes().size() : 0;
		Guard gd;
		size_t want = 0, wantPossible = 0;
		for (auto& x : s->types)
			if (x.name == n)
			{
				want = x.fields.size();
				wantPossible = x.possible.size();
			}
		if (n == "E0")
			want = s->enums.size();
		if (n == "In0")
			want = s->input.size();
		if (n == "In1")
			want = s->input1.size();
		if (got != n || fields != want || possible != wantPossible)
			rt_fail("lookup", "type %s is incomplete: name '%s', %zu of %zu members, %zu of %zu possible types", n.c_str(),
				got.c_str(), fields, want, possible, wantPossible);
	}
	bool threw = false;
	try
	{
		sch.LookupType("NoSuchType");
	}
	catch (service::schema_exception&)
	{
		threw = true;
	}
	Guard gd;
	if (!threw || !sch.queryType() || !sch.mutationType() || !sch.subscriptionType())
		rt_fail("lookup", "the schema is incomplete");
}
}

static void c11()
{
	World* w = new World;
	w->g = GenSchema::all[chance(1, 5) ? 1 : chance(1, 3) ? 2 : 0];
	std::vector<std::vector<Op>>* threads;
	bool common, pin;
	{
		Guard gd;
		w->s = new SchemaDef(w->g->def());
		w->ctx.s = w->s;
		w->ctx.checkCalls = false; // these requests carry no state
		for (auto n : { "Int", "String", "Boolean", "Float", "ID", "Any", "E0", "In0", "In1" })
			w->names.push_back(n);
		for (auto& t : w->s->types)
			w->names.push_back(t.name);
		threads = new std::vector<std::vector<Op>>;
		common = draw(2);
		pin = common && draw(2);
		const uint32_t nt = 1 + draw(4);
		count(C_concurrent_clients, nt);
		bool full = chance(1, 6);
		for (uint32_t i = 0; i < nt; ++i)
		{
			threads->emplace_back();
			for (uint32_t k = 0, n = 1 + draw(nt > 2 ? 2 : 4); k < n; ++k)
			{
				Op o;
				o.k = (Op::K)draw(5);
				if (o.k == Op::Common && !common)
					o.k = Op::Create;
				o.name = w->names[draw((uint32_t)w->names.size())];
				if (o.k < Op::Wrap && chance(1, 10))
					o.name = "Nothing";
				o.dep = draw(2);
				o.list = draw(2);
				o.full = full && o.k < Op::Wrap;
				full = full && !o.full;
				o.launch = drawLaunch();
				if (o.full && chance(3, 4))
					o.launch = std::launch::deferred; // thousands of threads otherwise
				o.drop = chance(1, 4) ? 1 + (int)draw(2) : 0;
				threads->back().push_back(o);
			}
		}
	}
	std::weak_ptr<schema::Schema> watch;
	{
		std::shared_ptr<schema::Schema> pinned;
		if (common)
			w->common = w->g->make(w->ctx, w->shared, true);
		if (pin)
		{
			pinned = w->g->schema();
			w->pinned = pinned.get();
		}
		auto client = [w](std::vector<Op>& ops) {
			std::vector<std::shared_ptr<schema::Schema>> keep;
			std::vector<std::shared_ptr<service::Request>> services;
			for (auto& o : ops)
			{
				{
					Guard gd;
					rt_event("op %d %s%s %s drop %d", o.k, o.name.c_str(), o.full ? " full" : "", launchName(o.launch), o.drop);
				}
				switch (o.k)
				{
					case Op::Create:
					{
						count(C_services_created);
						auto svc = w->g->make(w->ctx, w->shared, o.list);
						w->introspect(svc.get(), &svc, o.name, o.dep, o.full, o.launch, o.drop);
						if (svc && o.dep)
							services.push_back(svc);
						break;
					}
					case Op::Common:
						w->introspect(w->common.get(), nullptr, o.name, o.dep, o.full, o.launch, o.drop == 1 ? 0 : o.drop);
						break;
					case Op::Wrap:
					case Op::Keep:
					case Op::Lookup:
					{
						auto sch = w->g->schema();
						{
							Guard gd;
							if (!sch || (w->pinned && w->pinned != sch.get()))
								rt_fail("schema", "another schema is in use than that of the existing service");
						}
						if (o.k == Op::Lookup)
							w->lookups(*sch);
						else
						{
							w->wrap(*sch, o.name, o.list);
							if (o.k == Op::Keep)
								keep.push_back(sch);
						}
						break;
					}
				}
			}
		};
		std::vector<std::thread> ts;
		for (size_t i = 1; i < threads->size(); ++i)
			ts.emplace_back([&, i] {
				client((*threads)[i]);
			});
		client((*threads)[0]);
		for (auto& t : ts)
			t.join();
		w->ctx.joinAll();
		watch = w->g->schema();
		w->common.reset();
	}
	// async results that were dropped have been waited for by their futures
	if (!watch.expired())
		rt_fail("leak", "the schema is still alive although nothing uses it");
	if (live(L_OBJECT) || live(L_SERVICE))
		rt_fail("leak", "%ld objects and %ld services are still alive", live(L_OBJECT), live(L_SERVICE));
}

static Workload w11("C11", c11);

} // namespace sim
