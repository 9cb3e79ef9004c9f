// Writes one random schema as SDL, and C++ glue that implements the service schemagen makes of it.
// emit DIR INDEX [clients]: with the third argument, request documents and glue for their clients
#include "../harness/client_doc.h"
#include "../harness/sdl.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>

static uint64_t g_state;
extern "C" uint32_t rt_draw(int, uint32_t bound)
{
	return sim::draw(bound);
}
extern "C" void rt_count(int, uint64_t)
{
}
namespace sim {
std::string print(const J&, bool)
{
	return {};
}
}

using namespace sim;
using std::string;

static string g_ns;
static SchemaDef g_s;

static string baseType(Base b)
{
	switch (b)
	{
		case B_INT: return "response::IntType";
		case B_STR: return "response::StringType";
		case B_BOOL: return "response::BooleanType";
		case B_FLOAT: return "response::FloatType";
		case B_ID: return "response::IdType";
		case B_ENUM: return "E0";
		case B_JSON: return "response::Value";
		case B_INPUT: return "In0";
		case B_INPUT1: return "In1";
		default: return "?";
	}
}

static string argType(const InType& t)
{
	string x = baseType(t.base);
	if (t.list)
	{
		if (!t.elemNonNull)
			x = "std::optional<" + x + ">";
		x = "std::vector<" + x + ">";
	}
	return t.nonNull ? x : "std::optional<" + x + ">";
}

static string fieldType(const FieldDef& f)
{
	string x = baseType(f.base);
	const bool obj = f.base == B_OBJ;
	if (obj)
		x = g_s.types[f.type].kind == TypeDef::Object ? "std::shared_ptr<object::" + g_s.types[f.type].name + ">"
													   : "std::shared_ptr<service::Object>";
	const string q = obj ? x : "std::optional<" + x + ">";
	switch (f.mod)
	{
		case M_N: return x;
		case M_Q: return q;
		case M_L: return "std::vector<" + x + ">";
		case M_LQ: return "std::vector<" + q + ">";
		case M_QL: return "std::optional<std::vector<" + x + ">>";
		case M_QLQ: return "std::optional<std::vector<" + q + ">>";
		case M_LL: return "std::vector<std::vector<" + x + ">>";
	}
	return x;
}

static string quote(const string& s)
{
	string t = "\"";
	for (char c : s)
	{
		char b[8];
		if (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126)
		{
			snprintf(b, sizeof b, "\\%03o", (unsigned char)c);
			t += b;
		}
		else
			t += c;
	}
	return t + "\"";
}

static string jcode(const J& j)
{
	char b[64];
	switch (j.k)
	{
		case J::Null: return "J::null()";
		case J::Bool: return j.b ? "J::boolean(true)" : "J::boolean(false)";
		case J::Int: return "J::integer(" + std::to_string(j.i) + ")";
		case J::Float: snprintf(b, sizeof b, "J::number(%.17g)", j.f); return b;
		case J::Str: return "J::str(std::string(" + quote(j.s) + ", " + std::to_string(j.s.size()) + "))";
		case J::Enum: return "J::enumv(" + quote(j.s) + ")";
		case J::List:
		{
			string t = "jl({";
			for (auto& x : j.l)
				t += " " + jcode(x) + ",";
			return t + " })";
		}
		case J::Map:
		{
			string t = "jm({";
			for (auto& x : j.m)
				t += " { " + quote(x.first) + ", " + jcode(x.second) + " },";
			return t + " })";
		}
	}
	return {};
}

static string argsCode(const std::vector<ArgDef>& as)
{
	string t = "{";
	for (auto& a : as)
	{
		char b[200];
		snprintf(b, sizeof b, "%s InType { (Base)%d, %d, %d, %d }, %d, ", quote(a.name).c_str(), 0, 0, 0, 0, 0);
		snprintf(b, sizeof b, " { %s, InType { (Base)%d, %s, %s, %s }, %s, ", quote(a.name).c_str(), a.type.base,
			a.type.nonNull ? "true" : "false", a.type.list ? "true" : "false", a.type.elemNonNull ? "true" : "false",
			a.hasDefault ? "true" : "false");
		t += b + jcode(a.def) + " },";
	}
	return t + " }";
}

static string note(const Note& n)
{
	return "Note { " + quote(n.desc) + ", " + (n.deprecated ? "true" : "false") + ", " + quote(n.reason) + " }";
}
static string notes(const std::vector<Note>& v)
{
	string t = "{";
	for (auto& n : v)
		t += " " + note(n) + ",";
	return t + " }";
}

template <typename C>
static string list(const C& c)
{
	string t = "{";
	for (auto& x : c)
		t += " " + std::to_string(x) + ",";
	return t + " }";
}

static string glue(int index, const std::vector<string>& headers)
{
	string t;
	auto out = [&](const string& x) {
		t += x + "\n";
	};
	const string ns = "graphql::" + g_ns, en = g_ns + "glue";
	out("// generated by emit.cpp");
	out("#include \"gen.h\"");
	for (auto& h : headers)
		out("#include \"" + h + "\"");
	out("#define GEN_" + g_ns);
	out("namespace graphql::" + g_ns + " {");
	out("inline sim::J toJ(const E0& e) { static const char* const n[] = { \"RED\", \"GREEN\", \"BLUE\" };");
	out("	return sim::J::enumv((size_t)e < 3 ? n[(size_t)e] : \"?\"); }");
	out("sim::J toJ(const In1& x);");
	out("sim::J toJ(const In0& x);");
	out("}");
	out("namespace sim {");
	out("using namespace graphql::" + g_ns + ";");
	out("namespace " + en + " { struct Env { Ctx& ctx; GenShared& shared; int event; }; ");
	out("std::shared_ptr<service::Object> create(const Env& e, int type, uint64_t obj); }");
	for (auto& x : g_s.types)
		if (x.kind == TypeDef::Object)
			out("template <> struct Make<std::shared_ptr<object::" + x.name + ">, " + en + "::Env> { static std::shared_ptr<object::"
				+ x.name + "> get(const RV& v, const " + en + "::Env& e) {\n	return v.k == RV::Null ? nullptr : "
				+ "std::static_pointer_cast<object::" + x.name + ">(" + en + "::create(e, v.type, v.obj)); } };");
	out("template <> struct Make<std::shared_ptr<service::Object>, " + en + "::Env> { static std::shared_ptr<service::Object> "
		+ "get(const RV& v, const " + en + "::Env& e) {\n	return v.k == RV::Null ? nullptr : " + en + "::create(e, v.type, v.obj); } };");
	out("template <> struct Make<E0, " + en + "::Env> { static E0 get(const RV& v, const " + en + "::Env&) {\n	return "
		+ "v.j.s == \"RED\" ? E0::RED : v.j.s == \"GREEN\" ? E0::GREEN : E0::BLUE; } };");
	for (size_t i = 0; i < g_s.types.size(); ++i)
	{
		auto& x = g_s.types[i];
		if (x.kind != TypeDef::Object)
			continue;
		out("namespace " + en + " { struct " + x.name + "Impl : GenObject<object::" + x.name + ", Env> {");
		out("	using GenObject::GenObject;");
		for (int fi : x.fields)
		{
			auto& f = g_s.fields[fi];
			string ps, as;
			for (auto& a : f.args)
			{
				ps += ", " + argType(a.type) + "&& " + a.name;
				as += " m.add(\"" + a.name + "\", toJ(" + a.name + "));";
			}
			string name = f.name;
			name[0] = (char)toupper(name[0]);
			out("	service::FieldResult<" + fieldType(f) + "> " + ((int)i == g_s.mutation ? "apply" : "get") + name
				+ "(service::FieldParams&& params" + ps + ") const override {");
			out("		J m = J::map();" + as);
			out("		return access<" + fieldType(f) + ">(" + std::to_string(fi) + ", std::move(params), std::move(m)); }");
		}
		out("}; }");
	}
	out("namespace " + en + " {");
	out("std::shared_ptr<service::Object> createNew(const Env& e, int type, uint64_t obj) { switch (type) {");
	for (size_t i = 0; i < g_s.types.size(); ++i)
		if (g_s.types[i].kind == TypeDef::Object)
			out("	case " + std::to_string(i) + ": return std::make_shared<" + g_s.types[i].name + "Impl>(e, type, obj);");
	out("	} return nullptr; }");
	out("std::shared_ptr<service::Object> create(const Env& e, int type, uint64_t obj) { return createShared(e, type, obj, createNew); }");
	out("std::shared_ptr<service::Request> make(Ctx& c, GenShared& s, bool sub) { Env e { c, s, 0 };");
	out("	return std::make_shared<GenService<" + ns + "::Operations>>(");
	auto root = [&](int type) {
		return "std::static_pointer_cast<object::" + g_s.types[type].name + ">(createNew(e, " + std::to_string(type)
			+ ", rootObj(*c.s, " + std::to_string(type) + ")))";
	};
	string ops = root(g_s.query);
	if (g_s.mutation >= 0)
		ops += ", " + root(g_s.mutation);
	if (g_s.subscription >= 0)
		ops += ", sub ? " + root(g_s.subscription) + " : nullptr";
	out("		" + ops + "); }");
	out("std::shared_ptr<service::Object> event(Ctx& c, GenShared& s, int id) { return createNew(Env { c, s, id }, "
		+ std::to_string(g_s.subscription) + ", rootObj(*c.s, " + std::to_string(g_s.subscription)
		+ ") + 1000 * (uint64_t)id); }");
	out("SchemaDef def() { SchemaDef s; s.enums = { \"RED\", \"GREEN\", \"BLUE\" };");
	out("	s.input = " + argsCode(g_s.input) + ";");
	out("	s.input1 = " + argsCode(g_s.input1) + ";");
	for (auto& f : g_s.fields)
		out("	s.fields.push_back(FieldDef { " + std::to_string(f.index) + ", " + quote(f.name) + ", (Base)" + std::to_string(f.base)
			+ ", " + std::to_string(f.type) + ", (Mod)" + std::to_string(f.mod) + ", " + argsCode(f.args) + " });");
	for (auto& x : g_s.types)
	{
		string n = "{";
		for (auto& y : x.names)
			n += " " + quote(y) + ",";
		out("	s.types.push_back(TypeDef { (TypeDef::Kind)" + std::to_string(x.kind) + ", " + quote(x.name) + ", " + list(x.fields)
			+ ", " + list(x.ifaces) + ", " + list(x.possible) + ", " + n + " }, " + note(x.note) + ", " + notes(x.fieldNotes) + " });");
	}
	out("	s.tag = " + note(g_s.tag) + "; s.any = " + note(g_s.any) + "; s.en = " + note(g_s.en) + "; s.values = "
		+ notes(g_s.values) + ";");
	out("	s.query = " + std::to_string(g_s.query) + "; s.mutation = " + std::to_string(g_s.mutation) + "; s.subscription = "
		+ std::to_string(g_s.subscription) + "; return s; }");
	out("static GenSchema g { " + std::to_string(index) + ", \"" + g_ns + "\", def, make, event, " + ns + "::GetSchema, "
		+ (index == 1 ? "false" : "true") + " };");
	out("} }");
	out("namespace graphql::" + g_ns + " {");
	for (int k = 1; k >= 0; --k)
	{
		out(string("sim::J toJ(const In") + (k ? "1" : "0") + "& x) { using sim::toJ; sim::J m = sim::J::map();");
		for (auto& a : k ? g_s.input1 : g_s.input)
			out("	m.add(\"" + a.name + "\", toJ(x." + a.name + "));");
		out("	return m; }");
	}
	out("}");
	return t;
}

// ---- clients ------------------------------------------------------------------------------------
static string typedCode(const std::vector<Shape>& shape, const string& x, int depth)
{
	string t = "{ J m = J::map();";
	for (auto& h : shape)
	{
		const string member = x + "." + h.member;
		t += "\n		m.add(" + quote(h.key) + ", ";
		if (h.sub.empty())
			t += "lift(" + member + ", Scalar {})";
		else
		{
			const string y = "x" + std::to_string(depth + 1);
			t += "lift(" + member + ", [](const auto& " + y + ") -> J " + typedCode(h.sub, y, depth + 1) + ")";
		}
		t += ");";
	}
	return t + " return m; }";
}

static void clients(const string& dir, int index)
{
	std::ofstream list(dir + "/clients.txt");
	string all;
	for (int k = 0; k < CLIENT_DOCS; ++k)
	{
		const uint64_t seed = clientSeed(g_s, k);
		const Doc d = clientDoc(g_s, k, seed);
		const string stem = g_ns + "doc" + std::to_string(k);
		std::ofstream(dir + "/" + stem + ".graphql") << d.text;
		for (size_t j = 0; j < d.ops.size(); ++j)
		{
			auto& op = d.ops[j];
			const string prefix = g_ns + "Q" + std::to_string(k) + "x" + std::to_string(j);
			list << stem << ".graphql " << prefix << " " << (op.name.empty() ? "-" : op.name) << "\n";
			static const char* const kinds[] = { "query", "mutation", "subscription" };
			const string ns = "graphql::client::" + string(kinds[op.kind]) + "::" + (op.name.empty() ? "Query" : op.name);
			string t;
			auto out = [&](const string& x) {
				t += x + "\n";
			};
			out("// generated by emit.cpp");
			out("#include \"" + prefix + "Client.h\"");
			out("#include \"client.h\"");
			out("namespace sim {");
			// only types the variables refer to exist
			std::set<Base> have;
			struct
			{
				std::set<Base>& have;
				void add(Base b)
				{
					if (!have.insert(b).second)
						return;
					if (b == B_INPUT || b == B_INPUT1)
						for (auto& a : b == B_INPUT ? g_s.input : g_s.input1)
							add(a.type.base);
				}
			} w { have };
			for (int v : op.vars)
				w.add(d.vars[v].type.base);
			if (have.count(B_ENUM))
				out("template <> struct FromJ<" + ns + "::E0> { static " + ns + "::E0 get(const J& j) { using E = " + ns
					+ "::E0; return j.s == \"RED\" ? E::RED : j.s == \"GREEN\" ? E::GREEN : E::BLUE; } };");
			for (int i = 1; i >= 0; --i)
				if (have.count(i ? B_INPUT1 : B_INPUT))
				{
					const string in = ns + "::Variables::In" + std::to_string(i);
					out("template <> struct FromJ<" + in + "> { static " + in + " get(const J& j) { " + in + " x;");
					for (auto& a : i ? g_s.input1 : g_s.input)
						out("	set(x." + a.name + ", j, \"" + a.name + "\");");
					out("	return x; } };");
				}
			out("namespace { namespace cl = " + ns + ";");
			out("response::Value variables(const J& j) {");
			if (op.vars.empty())
				out("	return response::Value { response::Type::Map }; }");
			else
			{
				out("	cl::Variables v;");
				for (int v : op.vars)
					out("	set(v." + d.vars[v].name + ", j, \"" + d.vars[v].name + "\");");
				out("	return cl::serializeVariables(std::move(v)); }");
			}
			out("J parse(response::Value&& value) {");
			out("	const auto x0 = cl::parseResponse(std::move(value));");
			out("	" + typedCode(shapeOf(g_s, d, op.sel), "x0", 0) + " }");
			out("ClientOp op { " + std::to_string(index) + ", " + std::to_string(k) + ", " + std::to_string(j) + ", "
				+ std::to_string(seed) + "ull, cl::GetRequestText, cl::GetRequestObject, variables, parse };");
			out("} }");
			std::ofstream(dir + "/" + prefix + "_glue.cpp") << t;
		}
	}
}

int main(int argc, char** argv)
{
	const string dir = argv[1];
	const int index = atoi(argv[2]);
	g_ns = "g" + std::to_string(index);
	g_fixed = &g_state;
	// a schema with everything in it
	for (uint64_t seed = 1 + (uint64_t)index * 1000;; ++seed)
	{
		g_state = seed;
		SchemaOpts o;
		o.rich = o.mutation = o.subscription = true;
		o.maxObjects = 4;
		o.maxFields = 8;
		g_s = genSchema(o);
		int ifaces = 0, unions = 0, args = 0, defs = 0, nested = 0, comp = 0, inputs = 0;
		for (auto& t : g_s.types)
		{
			ifaces += t.kind == TypeDef::Interface;
			unions += t.kind == TypeDef::Union;
		}
		for (auto& f : g_s.fields)
			for (auto& a : f.args)
			{
				args++;
				defs += a.hasDefault;
				inputs += a.type.base == B_INPUT;
			}
		int indef = 0;
		for (auto& a : g_s.input)
		{
			nested += a.type.base == B_INPUT1;
			indef += a.hasDefault && !a.type.nonNull;
		}
		for (auto& a : g_s.input1)
			indef += a.hasDefault && !a.type.nonNull;
		for (auto& f : g_s.fields)
			comp += f.base == B_OBJ;
		// with and without arguments, by modifier, leaf, object or abstract
		std::set<int> combos;
		for (auto& f : g_s.fields)
			combos.insert((f.args.empty() * 8 + f.mod) * 4
				+ (f.base != B_OBJ ? f.base == B_JSON || f.base == B_ENUM : g_s.types[f.type].kind == TypeDef::Object ? 2 : 3));
		if (ifaces && unions && nested && indef > 3 && inputs > 2 && args > 20 && defs > 8 && comp > 6 && combos.size() >= 22
			&& g_s.fields.size() < 50)
			break;
	}
	if (index == 2)
		for (int r : { g_s.query, g_s.mutation, g_s.subscription })
		{
			auto& t = g_s.types[r];
			t.names.erase(t.name);
			t.name = (r == g_s.query ? "Reading" : r == g_s.mutation ? "Writing" : "Watching");
			t.names.insert(t.name);
		}
	const string text = sdl(g_s);
	std::ofstream(dir + "/schema.graphql") << text;
	if (argc > 3)
	{
		clients(dir, index);
		return 0;
	}
	std::vector<string> headers;
	const string prefix(1, (char)('A' + index));
	headers.push_back(prefix + "Schema.h");
	if (index)
		headers.push_back(prefix + "Objects.h");
	std::ofstream(dir + "/glue.cpp") << glue(index, headers);
	return 0;
}
