#include "sdl.h"

namespace sim {
using std::string;

static string sdlType(const SchemaDef& s, const FieldDef& f)
{
	static const char* const n[] = { "Int", "String", "Boolean", "Float", "ID", "E0", "Any", "?", "In0", "In1" };
	string x = f.base == B_OBJ ? s.types[f.type].name : n[f.base];
	switch (f.mod)
	{
		case M_N: return x + "!";
		case M_Q: return x;
		case M_L: return "[" + x + "!]!";
		case M_LQ: return "[" + x + "]!";
		case M_QL: return "[" + x + "!]";
		case M_QLQ: return "[" + x + "]";
		case M_LL: return "[[" + x + "!]!]!";
	}
	return x;
}

static string sdlArgs(const std::vector<ArgDef>& as, const char* sep)
{
	string t;
	for (auto& a : as)
	{
		t += (t.empty() ? "" : sep) + a.name + ": " + a.type.text();
		if (a.hasDefault)
			t += " = " + literalText(a.def);
	}
	return t;
}

string sdl(SchemaDef& s)
{
	string t;
	auto describe = [&](const char* indent, Note& n) {
		switch (draw(4))
		{
			case 1:
				t += indent + string("\"short \\\"text\\\"\"\n");
				n.desc = "short \"text\"";
				break;
			case 2:
				t += indent + string("\"\"\"block \"text\"\n\\\"\"\" end\"\"\"\n");
				n.desc = "block \"text\"\n\"\"\" end";
				break;
		}
	};
	auto deprecate = [&](Note& n) {
		switch (draw(6))
		{
			case 1:
				t += " @deprecated";
				n.deprecated = true;
				n.reason = "No longer supported";
				break;
			case 2:
				t += " @deprecated(reason: \"because\")";
				n.deprecated = true;
				n.reason = "because";
				break;
		}
	};
	t += "schema { query: " + s.types[s.query].name + " ";
	if (s.mutation >= 0)
		t += "mutation: " + s.types[s.mutation].name + " ";
	if (s.subscription >= 0)
		t += "subscription: " + s.types[s.subscription].name + " ";
	t += "}\n";
	const string where = " on QUERY | MUTATION | SUBSCRIPTION | FIELD | FRAGMENT_DEFINITION | FRAGMENT_SPREAD | INLINE_FRAGMENT\n";
	describe("", s.tag);
	t += "directive @tag(n: Int, s: String)" + where;
	t += "directive @mark" + where;
	describe("", s.any);
	t += "scalar Any\n";
	describe("", s.en);
	t += "enum E0 {\n";
	for (auto& e : s.enums)
	{
		Note n;
		describe("  ", n);
		t += "  " + e;
		deprecate(n);
		s.values.push_back(n);
		t += "\n";
	}
	t += "}\n";
	// used before it is defined
	t += "input In0 { " + sdlArgs(s.input, " ") + " }\n";
	t += "input In1 { " + sdlArgs(s.input1, " ") + " }\n";
	for (auto& x : s.types)
	{
		describe("", x.note);
		if (x.kind == TypeDef::Union)
		{
			t += "union " + x.name + " =";
			for (size_t i = 0; i < x.possible.size(); ++i)
				t += (i ? " | " : " ") + s.types[x.possible[i]].name;
			t += "\n";
			continue;
		}
		t += (x.kind == TypeDef::Object ? "type " : "interface ") + x.name;
		for (size_t i = 0; i < x.ifaces.size(); ++i)
			t += (i ? " & " : " implements ") + s.types[x.ifaces[i]].name;
		t += " {\n";
		for (int fi : x.fields)
		{
			auto& f = s.fields[fi];
			// a field of an interface is described once per type; the object's own text counts there
			Note n;
			describe("  ", n);
			t += "  " + f.name;
			if (!f.args.empty())
				t += "(" + sdlArgs(f.args, ", ") + ")";
			t += ": " + sdlType(s, f);
			deprecate(n);
			x.fieldNotes.push_back(n);
			t += "\n";
		}
		t += "}\n";
	}
	return t;
}

} // namespace sim
