#include "model.h"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <tuple>

namespace sim {

uint64_t* g_fixed;

static std::string num(const char* p, uint64_t n)
{
	char b[40];
	snprintf(b, sizeof b, "%s%llu", p, (unsigned long long)n);
	return b;
}

static const char* baseName(Base b)
{
	static const char* const n[] = { "Int", "String", "Boolean", "Float", "ID", "E0", "Any", "?", "In0", "In1" };
	return n[b];
}

std::string InType::text() const
{
	std::string t = baseName(base);
	if (list)
	{
		if (elemNonNull)
			t += "!";
		t = "[" + t + "]";
	}
	if (nonNull)
		t += "!";
	return t;
}

std::vector<int> SchemaDef::possible(int t) const
{
	if (types[t].kind == TypeDef::Object)
		return { t };
	return types[t].possible;
}

bool SchemaDef::overlap(int a, int b) const
{
	for (int x : possible(a))
		for (int y : possible(b))
			if (x == y)
				return true;
	return false;
}

static InType genInType(bool allowInput, bool rich = false, bool nested = false)
{
	InType t;
	static const Base b[] = { B_INT, B_STR, B_BOOL, B_ENUM, B_FLOAT, B_ID, B_INPUT };
	static const Base rb[] = { B_INT, B_STR, B_BOOL, B_ENUM, B_FLOAT, B_ID, B_JSON, B_INPUT, B_INPUT };
	t.base = rich ? rb[draw(allowInput ? 9 : 7)] : b[draw(allowInput ? 7 : 6)];
	if (nested && chance(1, 3))
		t.base = B_INPUT1;
	t.nonNull = chance(1, 3);
	if (chance(1, 5))
	{
		t.list = true;
		t.elemNonNull = chance(1, 2);
	}
	return t;
}

static J genLit(const SchemaDef& s, const InType& t, bool elem = false);

static ArgDef genRich(const SchemaDef& s, std::string name, bool allowInput, bool nested)
{
	ArgDef a { std::move(name), genInType(allowInput, true, nested) };
	if (chance(1, 2))
	{
		a.def = genLit(s, a.type);
		a.hasDefault = a.def.k != J::Null;
	}
	return a;
}

SchemaDef genSchema(const SchemaOpts& o)
{
	SchemaDef s;
	s.enums = { "RED", "GREEN", "BLUE" };
	if (o.rich)
	{
		for (uint32_t i = 0; i < 3; ++i)
			s.input1.push_back(genRich(s, num("k", i), false, false));
		for (uint32_t i = 0; i < 5; ++i)
			s.input.push_back(genRich(s, num("i", i), false, i > 2));
	}
	else
		for (uint32_t i = 0, n = 1 + draw(3); i < n; ++i)
			s.input.push_back({ num("i", i), genInType(false) });
	auto addType = [&](TypeDef::Kind k, std::string name) {
		TypeDef t;
		t.kind = k;
		t.name = std::move(name);
		s.types.push_back(t);
		return (int)s.types.size() - 1;
	};
	s.query = addType(TypeDef::Object, "Query");
	if (o.mutation)
		s.mutation = addType(TypeDef::Object, "Mutation");
	if (o.subscription)
		s.subscription = addType(TypeDef::Object, "Subscription");
	std::vector<int> objs, ifaces, unions;
	const uint32_t nobj = 1 + draw(o.maxObjects);
	for (uint32_t i = 0; i < nobj; ++i)
		objs.push_back(addType(TypeDef::Object, num("T", i)));
	const uint32_t nif = draw(3);
	for (uint32_t i = 0; i < nif; ++i)
		ifaces.push_back(addType(TypeDef::Interface, num("I", i)));
	if (chance(1, 2))
		unions.push_back(addType(TypeDef::Union, "U0"));
	std::vector<int> composite = objs;
	composite.insert(composite.end(), ifaces.begin(), ifaces.end());
	composite.insert(composite.end(), unions.begin(), unions.end());
	const bool longNames = !o.rich && chance(1, 4);
	auto addField = [&](int forceObj) {
		FieldDef f;
		f.index = (int)s.fields.size();
		f.name = num(longNames ? "aFieldNameOfManyLetters_" : "f", f.index);
		static const Base b[] = { B_INT, B_OBJ, B_STR, B_OBJ, B_BOOL, B_OBJ, B_ENUM, B_JSON, B_FLOAT, B_ID };
		f.base = forceObj == 1 ? B_OBJ : forceObj == 0 ? B_INT : b[draw(10)];
		if (f.base == B_OBJ)
			f.type = composite[draw((uint32_t)composite.size())];
		f.mod = (Mod)draw(f.base >= B_FLOAT && f.base <= B_JSON ? 2 : 7);
		// every other field of a generated service is plain: that is where shortcuts would be taken
		const bool plain = o.rich && chance(1, 2);
		if (plain)
			f.mod = (Mod)draw(2);
		for (uint32_t i = 0, n = draw(o.rich ? plain ? 3 : 6 : 4); i + 1 < n; ++i)
			f.args.push_back(o.rich ? genRich(s, num("a", i), true, false) : ArgDef { num("a", i), genInType(true) });
		s.fields.push_back(f);
		return f.index;
	};
	for (int t : ifaces)
		for (uint32_t i = 0, n = 1 + draw(2); i < n; ++i)
			s.types[t].fields.push_back(addField(-1));
	for (size_t t = 0; t < s.types.size(); ++t)
	{
		if (s.types[t].kind != TypeDef::Object)
			continue;
		const bool root = (int)t == s.query || (int)t == s.mutation || (int)t == s.subscription;
		if (!root)
			for (int i : ifaces)
				if (chance(1, 2))
				{
					s.types[t].ifaces.push_back(i);
					s.types[i].possible.push_back((int)t);
					for (int f : s.types[i].fields)
						s.types[t].fields.push_back(f);
				}
		s.types[t].fields.push_back(addField(0));
		for (uint32_t i = 0, n = 1 + draw(o.maxFields); i < n; ++i)
			s.types[t].fields.push_back(addField(root && i == 0 ? 1 : -1));
	}
	for (int i : ifaces)
		if (s.types[i].possible.empty())
		{
			int t = objs[draw(nobj)];
			s.types[t].ifaces.push_back(i);
			s.types[i].possible.push_back(t);
			for (int f : s.types[i].fields)
				s.types[t].fields.push_back(f);
		}
	for (int u : unions)
		for (int t : objs)
			if (s.types[u].possible.empty() || chance(2, 3))
				s.types[u].possible.push_back(t);
	for (size_t t = 0; t < s.types.size(); ++t)
		if (s.types[t].kind == TypeDef::Object)
		{
			s.types[t].names.insert(s.types[t].name);
			for (size_t u = 0; u < s.types.size(); ++u)
				if (s.types[u].kind != TypeDef::Object)
					for (int p : s.types[u].possible)
						if (p == (int)t)
							s.types[t].names.insert(s.types[u].name);
		}
	return s;
}

J coerce(const SchemaDef& s, const InType& t, const J& v)
{
	if (v.k == J::Null)
		return v;
	if (t.list && v.k == J::List)
	{
		J l = J::list();
		InType e = t;
		e.list = false;
		for (auto& x : v.l)
			l.l.push_back(coerce(s, e, x));
		return l;
	}
	if (t.base == B_FLOAT && v.k == J::Int)
		return J::number(v.i);
	if (t.base == B_INPUT || t.base == B_INPUT1)
		return coerceArgs(s, t.base == B_INPUT ? s.input : s.input1, v);
	return v;
}

J coerceArgs(const SchemaDef& s, const std::vector<ArgDef>& defs, const J& given)
{
	J m = J::map();
	for (auto& a : defs)
	{
		const J* v = given.get(a.name);
		m.add(a.name, v ? coerce(s, a.type, *v) : a.hasDefault ? coerce(s, a.type, a.def) : J::null());
	}
	return m;
}

std::string literalText(const J& j)
{
	std::string t;
	char b[64];
	switch (j.k)
	{
		case J::Null: return "null";
		case J::Bool: return j.b ? "true" : "false";
		case J::Int: return std::to_string(j.i);
		case J::Float:
			snprintf(b, sizeof b, "%.17g", j.f);
			t = b;
			return t.find_first_of(".e") == t.npos ? t + ".0" : t;
		case J::Enum: return j.s;
		case J::Str:
			t = "\"";
			for (size_t k = 0; k < j.s.size(); ++k)
			{
				const char c = j.s[k];
				if ((unsigned char)c >= 0xf0)
				{
					// not a source character
					const uint32_t u = (c & 7u) << 18 | (j.s[k + 1] & 63u) << 12 | (j.s[k + 2] & 63u) << 6 | (j.s[k + 3] & 63u);
					snprintf(b, sizeof b, "\\u%04X\\u%04x", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff));
					t += b;
					k += 3;
				}
				else if (c == '"' || c == '\\')
				{
					t += '\\';
					t += c;
				}
				else if (c == '\t')
					t += "\\t";
				else if (c == '\n')
					t += "\\n";
				else if ((unsigned char)c < 32)
				{
					snprintf(b, sizeof b, "\\u%04x", c);
					t += b;
				}
				else
					t += c;
			}
			return t + "\"";
		case J::List:
			t = "[";
			for (auto& x : j.l)
				t += (t.size() > 1 ? ", " : "") + literalText(x);
			return t + "]";
		case J::Map:
			t = "{";
			for (auto& x : j.m)
				t += (t.size() > 1 ? ", " : "") + x.first + ": " + literalText(x.second);
			return t + "}";
	}
	return t;
}

// ---- documents -------------------------------------------------------------------------------------
J genValue(const SchemaDef& s, const InType& t)
{
	return genLit(s, t);
}

static const int ints[] = { 0, -1, 65536, 2147483647, -2147483647 - 1, 1000000007, -123456789 };
static const double floats[] = { 0.125, 0.1, -2.5, 1234567.891, 3.141592653589793, 1e300, -1.7976931348623157e308,
	2.2250738585072014e-308, 12345678901234567890.0, 1e-7, 16777217, 1e21 };
static const std::string strings[] = { "x", "", "two words", "q\"uote", "tab\there", "\xc3\xa9t\xc3\xa9", "back\\slash \\u0041 \\",
	"a\r\nb\b\f/", "\x01\x1f\x7f", "\xe2\x82\xac \xf0\x9f\x98\x80 \xe2\x80\xa8", std::string("nul\0l", 5), "{\"a\":[1,null]}",
	")gql\" R\"(", "\xef\xbf\xbf\xf4\x8f\xbf\xbf", "null", "12", "sixteen letters!", "a longer one: " + std::string(100, '-'),
	std::string(1100, 'z') };
template <typename T, size_t N>
static const T& pick(const T (&a)[N])
{
	return a[draw(N)];
}
template <typename T, size_t N>
static const T& pickBy(const T (&a)[N], uint64_t h)
{
	return a[h % N];
}

static J genAny(const SchemaDef& s, int depth)
{
	J j;
	switch (draw(depth > 0 ? 6 : 4))
	{
		case 1: return chance(1, 4) ? J::str(pick(strings)) : J::str("any");
		case 2: return J::boolean(draw(2));
		case 3: return chance(1, 4) ? J::number(pick(floats)) : J::number(draw(8) / 4.0 + 0.125);
		case 4:
			j = J::list();
			for (uint32_t i = 0, n = draw(3); i < n; ++i)
				j.l.push_back(genAny(s, depth - 1));
			return j;
		case 5:
			j = J::map();
			for (uint32_t i = 0, n = draw(3); i < n; ++i)
				j.add(num("m", i), genAny(s, depth - 1));
			return j;
		default: return J::integer((int)draw(100));
	}
}

static J genScalarLit(const SchemaDef& s, Base b)
{
	switch (b)
	{
		case B_INT: return J::integer(chance(1, 5) ? pick(ints) : (int)draw(100));
		case B_STR: return J::str(pick(strings));
		case B_BOOL: return J::boolean(draw(2));
		case B_FLOAT:
			if (chance(1, 5))
				return J::integer((int)draw(100));
			return J::number(chance(1, 3) ? pick(floats) : draw(16) / 4.0 + 0.125);
		case B_ID: return J::str("ZmFrZQ==");
		case B_ENUM: return J::enumv(s.enums[draw(3)]);
		case B_JSON: return genAny(s, 2);
		case B_INPUT:
		case B_INPUT1:
		{
			J m = J::map();
			for (auto& f : b == B_INPUT ? s.input : s.input1)
				if ((f.type.nonNull && !f.hasDefault) || chance(1, 2))
					m.add(f.name, genLit(s, f.type));
			return m;
		}
		default: return J::null();
	}
}

static J genLit(const SchemaDef& s, const InType& t, bool)
{
	if (!t.nonNull && chance(1, 6))
		return J::null();
	if (t.list)
	{
		J l = J::list();
		for (uint32_t i = 0, n = chance(1, 20) ? draw(24) : draw(4); i < n; ++i)
			l.l.push_back(!t.elemNonNull && chance(1, 6) ? J::null() : genScalarLit(s, t.base));
		return l;
	}
	return genScalarLit(s, t.base);
}

namespace {
struct Gen
{
	const SchemaDef& s;
	const DocOpts& o;
	Doc d;
	int budget;
	int aliases = 0;
	std::set<std::string> used, taken;
	bool fVars, fFrags, fDirs, fDups, fAlias, fFancy, fBig, fNames;

	Gen(const SchemaDef& sd, const DocOpts& od)
		: s(sd)
		, o(od)
		, budget(od.budget)
	{
		fVars = chance(2, 3);
		fFrags = chance(2, 3);
		fDirs = chance(1, 2);
		fDups = chance(1, 3);
		fAlias = chance(1, 2);
		fFancy = chance(1, 2);
		fBig = o.budget > 4 && chance(1, 10);
		fNames = chance(1, 2);
		if (fBig)
		{
			budget += 30;
			count(C_big_documents);
		}
	}

	// response names: short ones, long ones, names of other fields
	std::string alias(const char* prefix)
	{
		if (fNames && chance(1, 3))
		{
			const auto& f = s.fields[draw((uint32_t)s.fields.size())];
			if (!used.count(f.name) && taken.insert(f.name).second)
			{
				count(C_name_aliases);
				return f.name;
			}
		}
		return num(fNames && chance(1, 4) ? "aResponseNameOfManyLetters_" : prefix, aliases++);
	}

	Val value(const InType& t)
	{
		Val v;
		if (fVars && chance(1, 3))
		{
			v.k = Val::Var;
			std::vector<int> same;
			for (size_t i = 0; i < d.vars.size(); ++i)
				if (d.vars[i].type == t)
					same.push_back((int)i);
			if (!same.empty() && chance(1, 2))
			{
				v.var = same[draw((uint32_t)same.size())];
				return v;
			}
			VarDef x;
			x.name = num("v", d.vars.size());
			x.type = t;
			x.value = genLit(s, t);
			if (!t.nonNull && chance(1, 3))
			{
				x.hasDefault = true;
				x.def = genLit(s, t);
				x.provided = !chance(1, 2);
			}
			d.vars.push_back(x);
			v.var = (int)d.vars.size() - 1;
			return v;
		}
		v.lit = genLit(s, t);
		return v;
	}

	void skipDir(std::vector<Dir>& out)
	{
		Dir x;
		const bool skip = chance(1, 2);
		x.name = skip ? "skip" : "include";
		InType t;
		t.base = B_BOOL;
		t.nonNull = true;
		x.args.push_back({ "if", value(t) });
		out.push_back(x);
	}

	void dirs(std::vector<Dir>& out, bool canSkip, bool canVar = true)
	{
		if (!fDirs)
			return;
		if (canSkip && chance(1, 5))
			skipDir(out);
		if (canSkip && chance(1, 12) && (out.empty() || out[0].name == "skip"))
		{
			std::vector<Dir> more;
			skipDir(more);
			if (out.empty() || more[0].name != out[0].name)
				out.push_back(more[0]);
		}
		if (chance(1, 4))
		{
			Dir x;
			x.name = "tag";
			const bool keep = fVars;
			if (!canVar)
				fVars = false;
			if (chance(2, 3))
				x.args.push_back({ "n", value(InType { B_INT }) });
			if (chance(1, 2))
				x.args.push_back({ "s", value(InType { B_STR }) });
			fVars = keep;
			out.push_back(x);
		}
		if (chance(1, 6))
			out.push_back(Dir { "mark", {} });
	}

	bool composite(int field) const { return field >= 0 && s.fields[field].base == B_OBJ; }

	bool fieldSel(int type, int depth, Sel& x, int fragFrom)
	{
		const auto& t = s.types[type];
		std::vector<int> c;
		for (int f : t.fields)
			if (!composite(f) || (depth > 0 && budget > 1))
				c.push_back(f);
		x.k = Sel::Field;
		budget--;
		if (c.empty() || chance(1, 12))
		{
			x.field = -1;
			if (fAlias && chance(1, 4))
				x.alias = alias("t");
			return true;
		}
		x.field = c[draw((uint32_t)c.size())];
		const auto& f = s.fields[x.field];
		for (auto& a : f.args)
			if ((a.type.nonNull && !a.hasDefault) || chance(2, 3))
				x.args.push_back({ a.name, value(a.type) });
		if (x.args.size() > 1 && chance(1, 4))
			std::swap(x.args[0], x.args[1]);
		const bool must = ((!f.args.empty() || composite(x.field)) && used.count(f.name)) || taken.count(f.name);
		if (must || (fAlias && chance(1, 3)))
			x.alias = alias("r");
		else
			used.insert(f.name);
		dirs(x.dirs, true);
		if (composite(x.field))
			x.sub = selSet(f.type, depth - 1, fragFrom);
		return true;
	}

	std::vector<Sel> selSet(int type, int depth, int fragFrom)
	{
		if (fFrags || !fNames)
			return selections(type, depth, fragFrom);
		// without fragments every selection set has response names of its own
		const auto outer = std::make_tuple(used, taken, aliases);
		used.clear();
		taken.clear();
		aliases = 0;
		auto out = selections(type, depth, fragFrom);
		std::tie(used, taken, aliases) = outer;
		return out;
	}

	std::vector<Sel> selections(int type, int depth, int fragFrom)
	{
		std::vector<Sel> out;
		const uint32_t n = 1 + draw(4) + (fBig && chance(1, 2) ? draw(24) : 0);
		for (uint32_t i = 0; i < n && (budget > 0 || out.empty()); ++i)
		{
			const uint32_t k = fFrags ? draw(6) : 0;
			Sel x;
			if (k == 4 && depth > 0)
			{
				x.k = Sel::Inline;
				if (chance(4, 5))
				{
					std::vector<int> c;
					for (size_t t = 0; t < s.types.size(); ++t)
						if (s.overlap((int)t, type))
							c.push_back((int)t);
					x.cond = c[draw((uint32_t)c.size())];
				}
				dirs(x.dirs, true);
				x.sub = selSet(x.cond >= 0 ? x.cond : type, depth - 1, fragFrom);
				out.push_back(x);
				continue;
			}
			if (k == 5)
			{
				std::vector<int> c;
				for (size_t f = fragFrom; f < d.frags.size(); ++f)
					if (s.overlap(d.frags[f].type, type))
						c.push_back((int)f);
				if (!c.empty())
				{
					x.k = Sel::Spread;
					x.frag = c[draw((uint32_t)c.size())];
					dirs(x.dirs, true);
					out.push_back(x);
					continue;
				}
			}
			fieldSel(type, depth, x, fragFrom);
			out.push_back(x);
		}
		if (fDups && chance(1, 2))
		{
			const size_t i = draw((uint32_t)out.size());
			if (out[i].k == Sel::Field)
			{
				Sel c = out[i];
				c.dirs.clear();
				if (fDirs)
				{
					dirs(c.dirs, true);
					if (chance(1, 3))
					{
						out[i].dirs.clear();
						skipDir(out[i].dirs);
					}
				}
				out.insert(out.begin() + i + 1 + draw((uint32_t)(out.size() - i)), c);
				count(C_duplicates);
			}
		}
		return out;
	}

	void useVars(const Val& v, std::set<int>& vars)
	{
		if (v.k == Val::Var)
			vars.insert(v.var);
		for (auto& x : v.l)
			useVars(x, vars);
		for (auto& x : v.m)
			useVars(x.second, vars);
	}
	void useDirs(const std::vector<Dir>& ds, std::set<int>& vars)
	{
		for (auto& x : ds)
			for (auto& a : x.args)
				useVars(a.second, vars);
	}
	void use(const std::vector<Sel>& sel, std::set<int>& vars, std::set<int>& frags)
	{
		for (auto& x : sel)
		{
			useDirs(x.dirs, vars);
			for (auto& a : x.args)
				useVars(a.second, vars);
			if (x.k == Sel::Spread && frags.insert(x.frag).second)
			{
				useDirs(d.frags[x.frag].dirs, vars);
				use(d.frags[x.frag].sel, vars, frags);
			}
			use(x.sub, vars, frags);
		}
	}

	// variables in the directives of fragment definitions: those that every operation which uses the
	// fragment has already
	void fragmentVars()
	{
		if (!fVars || !fDirs)
			return;
		for (size_t f = 0; f < d.frags.size(); ++f)
		{
			auto common = [&](Base base) {
				std::vector<int> c;
				bool first = true;
				for (auto& op : d.ops)
				{
					std::set<int> vars, frags;
					use(op.sel, vars, frags);
					if (!frags.count((int)f))
						continue;
					std::vector<int> both;
					for (int v : op.vars)
						if (d.vars[v].type.base == base && !d.vars[v].type.list
							&& (first || std::find(c.begin(), c.end(), v) != c.end()))
							both.push_back(v);
					c = both;
					first = false;
				}
				return c;
			};
			auto& dirs = d.frags[f].dirs;
			if (std::none_of(dirs.begin(), dirs.end(), [](const Dir& x) { return x.name == "tag"; }) && chance(1, 2))
			{
				Dir x;
				x.name = "tag";
				for (auto base : { B_INT, B_STR })
					if (!common(base).empty())
						x.args.push_back({ base == B_INT ? "n" : "s", Val {} });
				if (!x.args.empty())
					dirs.push_back(x);
			}
			for (auto& x : dirs)
				for (auto& a : x.args)
				{
					const bool added = a.second.k != Val::Var && a.second.k == Val::Lit && a.second.lit.k == J::Null;
					if (a.second.k == Val::Var || (!added && !chance(1, 2)))
						continue;
					const auto c = common(a.first == "n" ? B_INT : B_STR);
					if (c.empty())
						continue;
					a.second = Val {};
					a.second.k = Val::Var;
					a.second.var = c[draw((uint32_t)c.size())];
					count(C_fragment_vars);
				}
		}
	}

	void make()
	{
		const uint32_t nf = fFrags ? draw(4) + (fBig ? draw(8) : 0) : 0;
		d.frags.resize(nf);
		// fragments only spread fragments with a higher index
		std::vector<int> comp;
		for (size_t t = 0; t < s.types.size(); ++t)
			if ((int)t != s.subscription || o.subscription)
				comp.push_back((int)t);
		for (uint32_t i = 0; i < nf; ++i)
		{
			d.frags[i].name = num("F", i);
			d.frags[i].type = comp[draw((uint32_t)comp.size())];
		}
		for (int i = (int)nf - 1; i >= 0; --i)
		{
			// a fragment on a subscription root may only hold one field
			if (d.frags[i].type == s.subscription)
			{
				Sel x;
				rootField(x, i + 1);
				d.frags[i].sel.push_back(x);
			}
			else
				d.frags[i].sel = selSet(d.frags[i].type, 2, i + 1);
			dirs(d.frags[i].dirs, false, false);
		}
		const uint32_t nops = o.multiOp && chance(1, 4) ? chance(1, 4) ? 3 : 2 : 1;
		d.kind = o.mutation ? OpDef::Mutation : o.subscription ? OpDef::Subscription : OpDef::Query;
		const bool mixed = nops > 1 && o.mixed && chance(1, 2);
		const uint32_t main = nops > 1 ? draw(nops) : 0;
		// names which are prefixes of each other, in any order
		std::vector<std::string> names { "Op", "Op1", "Op10" };
		if (fNames)
			for (size_t i = names.size(); i > 1; --i)
				std::swap(names[i - 1], names[draw((uint32_t)i)]);
		for (uint32_t i = 0; i < nops; ++i)
		{
			OpDef op;
			op.kind = d.kind;
			if (mixed && i != main)
			{
				const uint32_t k = draw(3);
				if (k == 1 && s.mutation >= 0)
					op.kind = OpDef::Mutation;
				else if (k == 2 && s.subscription >= 0)
					op.kind = OpDef::Subscription;
				else
					op.kind = OpDef::Query;
			}
			const int root = op.kind == OpDef::Mutation ? s.mutation
				: op.kind == OpDef::Subscription		? s.subscription
														: s.query;
			if (nops > 1 || chance(1, 2))
				op.name = fNames ? names[i] : num("Op", i);
			if (budget < 3)
				budget = 3;
			if (op.kind == OpDef::Subscription)
				op.sel = subscriptionRoot();
			else
				op.sel = selSet(root, o.depth, 0);
			dirs(op.dirs, false);
			std::set<int> vars, frags;
			use(op.sel, vars, frags);
			useDirs(op.dirs, vars);
			op.vars.assign(vars.begin(), vars.end());
			for (int f : frags)
				d.frags[f].used = true;
			d.ops.push_back(op);
		}
		fragmentVars();
		if (o.badVars)
			for (auto& v : d.vars)
				// directives on fields are not typed
				if (v.provided && v.type.base != B_JSON && !(v.type.base == B_BOOL && v.type.nonNull) && fchance(1, 4))
				{
					v.bad = true;
					v.value = badValue(v.type);
					count(C_bad_values);
				}
		printDoc(s, d, fFancy);
	}

	J badScalar(Base b)
	{
		switch (b)
		{
			case B_STR:
			case B_ID: return J::integer(5);
			case B_ENUM: return J::enumv("PURPLE");
			case B_BOOL: return J::integer(1);
			case B_INPUT:
			case B_INPUT1:
			{
				// a member that does not fit, or a missing one
				auto& in = b == B_INPUT ? s.input : s.input1;
				J m = J::map();
				bool done = false;
				for (auto& f : in)
				{
					if (!done && f.type.base != B_JSON && f.type.base != B_INPUT1 && fdraw(2))
					{
						done = true;
						m.add(f.name, badValue(f.type));
					}
					else if (f.type.nonNull && !f.hasDefault)
						m.add(f.name, genLit(s, f.type));
				}
				return done ? m : J::str("x");
			}
			default: return J::str("bad");
		}
	}

	J badValue(const InType& t)
	{
		if (t.nonNull && fchance(1, 4))
			return J::null();
		if (!t.list)
			return badScalar(t.base);
		if (fchance(1, 3))
			return J::str("no list");
		J l = J::list();
		InType e = t;
		e.list = false;
		e.nonNull = t.elemNonNull;
		l.l.push_back(genScalarLit(s, t.base));
		l.l.push_back(t.elemNonNull && fchance(1, 3) ? J::null() : badScalar(t.base));
		return l;
	}

	void rootField(Sel& x, int fragFrom)
	{
		do
		{
			x = Sel();
			const int keep = budget;
			budget = std::max(budget, 4);
			fieldSel(s.subscription, 3, x, fragFrom);
			budget = std::min(keep, budget);
		} while (x.field < 0);
		// the field must not be skipped
		if (!o.skipRoot)
			x.dirs.erase(std::remove_if(x.dirs.begin(), x.dirs.end(),
						 [](const Dir& y) { return y.name == "skip" || y.name == "include"; }),
			x.dirs.end());
	}

	std::vector<Sel> subscriptionRoot()
	{
		std::vector<Sel> out;
		Sel x;
		const uint32_t k = fFrags ? draw(4) : 0;
		std::vector<int> c;
		for (size_t f = 0; f < d.frags.size(); ++f)
			if (d.frags[f].type == s.subscription)
				c.push_back((int)f);
		if (k == 3 && !c.empty())
		{
			x.k = Sel::Spread;
			x.frag = c[draw((uint32_t)c.size())];
		}
		else if (k >= 2)
		{
			Sel y;
			rootField(y, 0);
			x.k = Sel::Inline;
			x.cond = chance(1, 2) ? s.subscription : -1;
			x.sub.push_back(y);
		}
		else
			rootField(x, 0);
		if (o.skipRoot && x.k != Sel::Field)
			dirs(x.dirs, true);
		out.push_back(x);
		return out;
	}
};

struct Printer
{
	const SchemaDef& s;
	Doc& d;
	bool fancy;
	std::string out;
	int line = 1, col = 1;

	void raw(const std::string& t)
	{
		for (char c : t)
		{
			out += c;
			if (c == '\n')
			{
				++line;
				col = 1;
			}
			else
				++col;
		}
	}
	void sp()
	{
		if (!fancy)
		{
			raw(" ");
			return;
		}
		static const char* const w[] = { " ", "  ", "\n", "\t", ",", " # c\n", "\n\n  ", " , " };
		raw(w[draw(8)]);
	}
	void opt()
	{
		if (fancy && chance(1, 4))
			sp();
	}
	void lit(const J& j)
	{
		switch (j.k)
		{
			case J::List:
				raw("[");
				for (auto& x : j.l)
				{
					opt();
					lit(x);
					sp();
				}
				raw("]");
				break;
			case J::Map:
				raw("{");
				for (auto& x : j.m)
				{
					raw(x.first + ":");
					opt();
					lit(x.second);
					sp();
				}
				raw("}");
				break;
			default: raw(literalText(j)); break;
		}
	}
	void val(const Val& v)
	{
		if (v.k == Val::Var)
			raw("$" + d.vars[v.var].name);
		else
			lit(v.lit);
	}
	void args(const std::vector<std::pair<std::string, Val>>& a)
	{
		if (a.empty())
			return;
		opt();
		raw("(");
		for (size_t i = 0; i < a.size(); ++i)
		{
			if (i)
				sp();
			raw(a[i].first);
			opt();
			raw(":");
			opt();
			val(a[i].second);
		}
		opt();
		raw(")");
	}
	void dirs(const std::vector<Dir>& ds)
	{
		for (auto& x : ds)
		{
			sp();
			raw("@" + x.name);
			args(x.args);
		}
	}
	void sels(std::vector<Sel>& v)
	{
		opt();
		raw("{");
		for (auto& x : v)
		{
			sp();
			x.line = line;
			x.col = col;
			if (x.k == Sel::Field)
			{
				if (!x.alias.empty())
				{
					raw(x.alias);
					opt();
					raw(":");
					opt();
				}
				raw(x.field < 0 ? "__typename" : s.fields[x.field].name);
				args(x.args);
				dirs(x.dirs);
				if (!x.sub.empty())
					sels(x.sub);
			}
			else if (x.k == Sel::Spread)
			{
				raw("...");
				opt();
				raw(d.frags[x.frag].name);
				dirs(x.dirs);
			}
			else
			{
				raw("...");
				if (x.cond >= 0)
				{
					sp();
					raw("on");
					sp();
					raw(s.types[x.cond].name);
				}
				dirs(x.dirs);
				sels(x.sub);
			}
		}
		sp();
		raw("}");
	}
	void go()
	{
		const bool fragsFirst = fancy && chance(1, 3);
		auto frags = [&] {
			for (auto& f : d.frags)
				if (f.used)
				{
					raw("fragment");
					sp();
					raw(f.name);
					sp();
					raw("on");
					sp();
					raw(s.types[f.type].name);
					dirs(f.dirs);
					sels(f.sel);
					raw("\n");
				}
		};
		if (fragsFirst)
			frags();
		for (auto& op : d.ops)
		{
			if (op.kind != OpDef::Query || !op.name.empty() || !op.vars.empty() || !op.dirs.empty()
				|| (fancy && chance(1, 2)))
			{
				raw(op.kind == OpDef::Query ? "query" : op.kind == OpDef::Mutation ? "mutation" : "subscription");
				if (!op.name.empty())
				{
					sp();
					raw(op.name);
				}
				if (!op.vars.empty())
				{
					raw("(");
					for (int v : op.vars)
					{
						opt();
						raw("$" + d.vars[v].name + ":");
						opt();
						raw(d.vars[v].type.text());
						if (d.vars[v].hasDefault)
						{
							opt();
							raw("=");
							opt();
							lit(d.vars[v].def);
						}
						sp();
					}
					raw(")");
				}
				dirs(op.dirs);
			}
			sels(op.sel);
			raw("\n");
		}
		if (!fragsFirst)
			frags();
		d.text = out;
	}
};
}

void printDoc(const SchemaDef& s, Doc& d, bool fancy)
{
	Printer p { s, d, fancy };
	p.go();
}

int Doc::pickOp(bool any) const
{
	std::vector<int> c;
	for (size_t i = 0; i < ops.size(); ++i)
		if (ops[i].kind == kind || (any && ops[i].kind != OpDef::Subscription))
			c.push_back((int)i);
	return c.size() > 1 ? c[draw((uint32_t)c.size())] : c[0];
}

Doc genDoc(const SchemaDef& s, const DocOpts& o)
{
	Gen g(s, o);
	g.make();
	return g.d;
}

Doc otherVariables(const SchemaDef& s, const Doc& d)
{
	Doc r = d;
	bool other = false;
	for (auto& v : r.vars)
	{
		v.bad = false;
		if (v.hasDefault)
			v.provided = !chance(1, 2);
		// mostly the opposite: directives decide what is selected
		v.value = v.type.base == B_BOOL && v.value.k == J::Bool ? J::boolean(chance(3, 4) != v.value.b) : genLit(s, v.type);
		other = true;
	}
	if (other)
		count(C_other_variables);
	return r;
}

namespace {
// the same change wherever the value appears: duplicates stay duplicates
void tweak(J& j)
{
	switch (j.k)
	{
		case J::Int: j.i ^= 1; break;
		case J::Bool: j.b = !j.b; break;
		case J::List:
			for (auto& x : j.l)
				tweak(x);
			break;
		case J::Map:
			for (auto& x : j.m)
				tweak(x.second);
			break;
		default: break;
	}
}
void tweak(Val& v)
{
	tweak(v.lit);
	for (auto& x : v.l)
		tweak(x);
	for (auto& x : v.m)
		tweak(x.second);
}
void tweak(std::vector<Dir>& dirs)
{
	for (auto& x : dirs)
		for (auto& a : x.args)
			tweak(a.second);
}
void tweak(std::vector<Sel>& sels)
{
	for (auto& x : sels)
	{
		for (auto& a : x.args)
			tweak(a.second);
		tweak(x.dirs);
		tweak(x.sub);
	}
}
} // namespace

Doc otherLiterals(const SchemaDef& s, const Doc& d)
{
	Doc r = d;
	for (auto& v : r.vars)
		tweak(v.def);
	for (auto& f : r.frags)
	{
		tweak(f.dirs);
		tweak(f.sel);
	}
	for (auto& o : r.ops)
	{
		tweak(o.dirs);
		tweak(o.sel);
	}
	printDoc(s, r, false);
	count(C_twin_documents);
	return r;
}

J providedVariables(const Doc& d)
{
	J m = J::map();
	for (auto& v : d.vars)
		if (v.provided)
			m.add(v.name, v.value);
	return m;
}

// ---- data -------------------------------------------------------------------------------------------
static RV scalarValue(const SchemaDef& s, const FieldDef& f, uint64_t h)
{
	RV v;
	v.k = RV::Scalar;
	switch (f.base)
	{
		case B_INT: v.j = J::integer(h >> 32 & 7 ? (int)(h % 2001) - 1000 : pickBy(ints, h)); break;
		case B_STR: v.j = J::str(h >> 32 & 3 ? num("s", h % 100000) : pickBy(strings, h)); break;
		case B_BOOL: v.j = J::boolean(h & 1); break;
		case B_FLOAT: v.j = J::number(h >> 32 & 3 ? (double)(h % 4096) / 8.0 : pickBy(floats, h)); break;
		case B_ID:
		{
			static const char* const ids[] = { "AA==", "AQI=", "AQID", "ZmFrZVRhc2tJZA==" };
			v.j = J::str(ids[h % 4]);
			break;
		}
		case B_ENUM: v.j = J::enumv(s.enums[h % 3]); break;
		case B_JSON:
			v.j = J::map();
			v.j.add("h", J::integer((int)(h % 1000)));
			if (h & 1024)
			{
				J l = J::list();
				l.l.push_back(J::boolean(h & 2));
				l.l.push_back(J::null());
				v.j.add("l", l);
			}
			break;
		default:
		{
			v.k = RV::Obj;
			auto p = s.possible(f.type);
			v.type = p[(h >> 8) % p.size()];
			v.obj = h;
			break;
		}
	}
	return v;
}

RV valueOf(const SchemaDef& s, const FieldDef& f, uint64_t obj, const J& args)
{
	uint64_t h = hmix(hmix(obj, (uint64_t)f.index + 17), hstr(5, print(args, true)));
	auto list = [&](uint64_t k, bool nullable, bool nested) {
		RV v;
		v.k = RV::List;
		uint64_t n = hmix(k, 1) % 4;
		// a few long lists
		if (f.base != B_OBJ && hmix(k, 2) % 16 == 0)
			n += hmix(k, 4) % 20;
		else if (f.base == B_OBJ && hmix(k, 2) % 40 == 0)
			n += hmix(k, 4) % 10;
		for (uint64_t i = 0; i < n; ++i)
		{
			const uint64_t e = hmix(k, 100 + i);
			if (nullable && e % 4 == 0)
				v.l.push_back({});
			else if (nested)
			{
				RV w;
				w.k = RV::List;
				for (uint64_t m = 0; m < e % 3; ++m)
					w.l.push_back(scalarValue(s, f, hmix(e, m)));
				v.l.push_back(w);
			}
			else
				v.l.push_back(scalarValue(s, f, e));
		}
		return v;
	};
	const bool null = hmix(h, 3) % 6 == 0;
	switch (f.mod)
	{
		case M_N: return scalarValue(s, f, h);
		case M_Q: return null ? RV() : scalarValue(s, f, h);
		case M_L: return list(h, false, false);
		case M_LQ: return list(h, true, false);
		case M_QL: return null ? RV() : list(h, false, false);
		case M_QLQ: return null ? RV() : list(h, true, false);
		case M_LL: return list(h, false, true);
	}
	return {};
}

// ---- reference execution -------------------------------------------------------------------------------
Beh drawBehaviour(const ExecOpts& o)
{
	Beh b;
	static const Mode order[] = { MODE_VALUE, MODE_DEFERRED, MODE_READY, MODE_LATER, MODE_ASYNC };
	uint32_t k = draw(8);
	Mode m = order[k < 5 ? k : k == 5 ? 3 : k == 6 ? 1 : 0];
	if (!(o.modes & (1u << m)))
		m = MODE_VALUE;
	b.mode = m;
	static const uint32_t delays[] = { 0, 100, 1000, 20000, 300000, 5000000, 1000000000 };
	if (m == MODE_LATER || m == MODE_ASYNC)
		b.delay = delays[draw(7)];
	if (chance(1, 4))
		b.yields = 1 + draw(3);
	if (o.failPer1000 && fdraw(1000) >= 1000 - o.failPer1000)
	{
		b.fail = (Fail)(1 + fdraw(6));
		b.failSync = m == MODE_VALUE || fdraw(2) == 0;
		if (b.fail == F_BROKEN && (b.failSync || (m != MODE_READY && m != MODE_LATER)))
			b.fail = F_STD;
	}
	return b;
}

namespace {
struct DirCtx
{
	J frag = J::map(), spread = J::map(), inl = J::map();
};
struct Exec
{
	const SchemaDef& s;
	const Doc& d;
	const ExecOpts& o;
	Plan& p;
	std::map<int, J> vars;
	J opDirs = J::map();
	int root = -1;
	int optional = 0;
	const char* prefix;

	J eval(const Val& v)
	{
		if (v.k == Val::Var)
			return vars[v.var];
		return v.lit;
	}
	J dirs(const std::vector<Dir>& ds)
	{
		J m = J::map();
		for (auto& x : ds)
		{
			J a = J::map();
			for (auto& e : x.args)
				a.add(e.first, eval(e.second));
			m.add(x.name, a);
		}
		return m;
	}
	static bool skipped(const J& dm)
	{
		if (auto* x = dm.get("skip"))
			if (x->get("if")->b)
				return true;
		if (auto* x = dm.get("include"))
			if (!x->get("if")->b)
				return true;
		return false;
	}
	static void merge(J& inner, const J& outer)
	{
		for (auto& e : outer.m)
			if (!inner.get(e.first))
				inner.add(e.first, e.second);
	}
	struct Collected
	{
		const Sel* sel;
		std::string key;
		J fieldDirs;
		DirCtx ctx;
	};
	void collect(int type, const std::vector<Sel>& sel, const DirCtx& ctx, std::vector<Collected>& out)
	{
		for (auto& x : sel)
		{
			J dm = dirs(x.dirs);
			if (x.k == Sel::Field)
			{
				if (skipped(dm))
				{
					count(C_skips);
					continue;
				}
				std::string key = !x.alias.empty() ? x.alias : x.field < 0 ? "__typename" : s.fields[x.field].name;
				bool dup = false;
				for (auto& c : out)
					dup = dup || c.key == key;
				if (dup)
				{
					count(C_merges);
					continue;
				}
				out.push_back({ &x, key, dm, ctx });
			}
			else
			{
				const int cond = x.k == Sel::Spread ? d.frags[x.frag].type : x.cond;
				if (cond >= 0 && !s.types[type].names.count(s.types[cond].name))
					continue;
				if (skipped(dm))
				{
					count(C_skips);
					continue;
				}
				DirCtx inner = ctx;
				count(C_spreads);
				if (x.k == Sel::Spread)
				{
					inner.spread = dm;
					merge(inner.spread, ctx.spread);
					inner.frag = dirs(d.frags[x.frag].dirs);
					merge(inner.frag, ctx.frag);
					collect(type, d.frags[x.frag].sel, inner, out);
				}
				else
				{
					inner.inl = dm;
					merge(inner.inl, ctx.inl);
					collect(type, x.sub, inner, out);
				}
			}
		}
	}

	J value(const RV& v, const FieldDef& f, const Sel& x, const std::string& path, const J& jpath)
	{
		switch (v.k)
		{
			case RV::Null: count(C_nulls); return J::null();
			case RV::Scalar: return v.j;
			case RV::List:
			{
				count(C_lists);
				J l = J::list();
				for (size_t i = 0; i < v.l.size(); ++i)
				{
					J jp = jpath;
					jp.l.push_back(J::integer((int)i));
					l.l.push_back(value(v.l[i], f, x, path + "/" + std::to_string(i), jp));
				}
				return l;
			}
			default: return object(v.type, v.obj, x.sub, path, jpath, &x);
		}
	}

	J object(int type, uint64_t obj, const std::vector<Sel>& sel, const std::string& path, const J& jpath,
		const Sel* field)
	{
		ObjExp e;
		e.path = path;
		e.type = type;
		e.obj = obj;
		e.root = root;
		e.optional = optional > 0;
		if (field && o.elemFailPer1000 && fdraw(1000) >= 1000 - o.elemFailPer1000)
		{
			e.beginFail = fdraw(4) != 3;
			e.endFail = !e.beginFail;
			e.token = num(prefix, 0) + num("elem", p.objs.size());
			count(C_fault_element);
		}
		p.objs[path] = e;
		if (e.beginFail)
		{
			p.errors.push_back({ e.token, field->line, field->col, jpath });
			return J::null();
		}
		std::vector<Collected> fields;
		collect(type, sel, DirCtx {}, fields);
		J m = J::map();
		optional += e.endFail;
		const size_t mark = p.errors.size();
		for (auto& c : fields)
		{
			if (path.empty() && !field)
			{
				root = (int)p.rootKeys.size();
				p.rootKeys.push_back(c.key);
			}
			J jp = jpath;
			jp.l.push_back(J::str(c.key));
			const std::string fp = path.empty() ? c.key : path + "/" + c.key;
			const Sel& x = *c.sel;
			if (x.field < 0)
			{
				count(C_typenames);
				m.add(c.key, J::str(s.types[type].name));
				continue;
			}
			const auto& f = s.fields[x.field];
			Call call;
			call.path = fp;
			call.id = (int)p.calls.size();
			call.type = type;
			call.obj = obj;
			call.field = x.field;
			call.args = J::map();
			for (auto& a : x.args)
				call.args.add(a.first, eval(a.second));
			call.typed = coerceArgs(s, f.args, call.args);
			call.fieldDirs = c.fieldDirs;
			call.opDirs = opDirs;
			call.fragDirs = c.ctx.frag;
			call.spreadDirs = c.ctx.spread;
			call.inlineDirs = c.ctx.inl;
			call.line = x.line;
			call.col = x.col;
			call.root = root;
			bool bad = false;
			if (o.typed)
				for (auto& a : x.args)
					bad |= a.second.k == Val::Var && d.vars[a.second.var].bad;
			if (bad)
			{
				// the accessor is not called
				m.add(c.key, J::null());
				p.errors.push_back({ "", x.line, x.col, jp });
				continue;
			}
			call.value = valueOf(s, f, obj, call.args);
			call.beh = drawBehaviour(o);
			const Fail fail = call.beh.fail;
			const std::string token = num(prefix, 0) + num("fail", call.id) + ".";
			call.token = token;
			call.optional = optional > 0;
			if ((int)p.calls.size() > o.maxCalls)
				p.tooBig = true;
			if (p.tooBig)
				return m;
			p.calls[fp] = call;
			if (fail == F_NONE)
			{
				m.add(c.key, value(call.value, f, x, fp, jp));
				continue;
			}
			m.add(c.key, J::null());
			switch (fail)
			{
				case F_ALLOC: p.errors.push_back({ "std::bad_alloc", x.line, x.col, jp }); break;
				case F_BROKEN: p.errors.push_back({ "Broken promise", x.line, x.col, jp }); break;
				case F_SCHEMA_OWN:
				{
					J own = J::list();
					own.l.push_back(J::str("own"));
					own.l.push_back(J::integer(7));
					p.errors.push_back({ token, 1000 + call.id, 5, own });
					break;
				}
				case F_SCHEMA_TWO:
					p.errors.push_back({ token + "a", x.line, x.col, jp });
					p.errors.push_back({ token + "b", x.line, x.col, jp });
					break;
				default: p.errors.push_back({ token, x.line, x.col, jp }); break;
			}
		}
		optional -= e.endFail;
		if (e.endFail)
		{
			// the accessors have been called, the results are dropped
			p.errors.resize(mark);
			p.errors.push_back({ e.token, field->line, field->col, jpath });
			return J::null();
		}
		return m;
	}
};
}

void execute(const SchemaDef& s, const Doc& d, int op, uint64_t rootObj, const ExecOpts& o, Plan& p,
	const char* prefix)
{
	p.schema = &s;
	p.doc = &d;
	p.op = op;
	Exec e { s, d, o, p };
	e.prefix = prefix;
	const auto& od = d.ops[op];
	for (int v : od.vars)
		e.vars[v] = d.vars[v].provided ? d.vars[v].value : d.vars[v].def;
	e.opDirs = e.dirs(od.dirs);
	const int type = od.kind == OpDef::Query ? s.query : od.kind == OpDef::Mutation ? s.mutation : s.subscription;
	p.context = od.kind == OpDef::Query ? 0 : od.kind == OpDef::Mutation ? 1 : 3;
	p.data = e.object(type, rootObj, od.sel, "", J::list(), nullptr);
}

std::string describe(const Call& c, const SchemaDef& s)
{
	return c.path + " (" + s.types[c.type].name + "." + s.fields[c.field].name + ")";
}

} // namespace sim
