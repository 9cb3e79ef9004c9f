#include "client_doc.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>

namespace sim {

static int score(const SchemaDef& s, const Doc& d, int k)
{
	if (d.text.size() > 2500 || d.text.empty())
		return -1;
	int n = 0;
	std::set<std::string> types;
	for (auto& v : d.vars)
	{
		types.insert(v.type.text());
		n += v.type.base == B_INPUT ? (k % 2 ? 8 : 5) : v.type.base == B_ENUM || v.type.base == B_JSON ? 4 : 1;
		n += v.type.list ? 4 : 0;
	}
	n += 2 * (int)types.size();
	for (auto& f : d.frags)
		n += f.used ? 3 : 0;
	struct
	{
		const SchemaDef& s;
		int composite = 0, lists = 0, inl = 0;
		void walk(const std::vector<Sel>& v)
		{
			for (auto& x : v)
			{
				if (x.k == Sel::Field && x.field >= 0)
				{
					composite += s.fields[x.field].base == B_OBJ;
					lists += s.fields[x.field].mod >= M_L;
				}
				inl += x.k == Sel::Inline;
				walk(x.sub);
			}
		}
	} w { s };
	for (auto& o : d.ops)
		w.walk(o.sel);
	return n + 2 * std::min(w.composite, 6) + 2 * std::min(w.lists, 4) + 2 * std::min(w.inl, 3)
		+ (k % 3 == 0 ? 5 * ((int)d.ops.size() - 1) : 0);
}

Doc clientDoc(const SchemaDef& s, int k, uint64_t seed)
{
	uint64_t* const keep = g_fixed;
	g_fixed = &seed;
	const auto kind = clientDocKind(k);
	DocOpts o;
	o.mixed = false;
	o.mutation = kind == OpDef::Mutation;
	o.subscription = kind == OpDef::Subscription;
	o.multiOp = !o.subscription;
	o.budget = 16;
	Doc d = genDoc(s, o);
	const bool first = s.types[s.query].name == "Query";
	for (size_t j = 0; j < d.ops.size(); ++j)
		// one document has an operation without a name; names are namespaces
		if (d.ops.size() > 1 || k != 1 || !first)
			d.ops[j].name = (first ? "Doc" : "Second") + std::to_string(k) + "_" + std::to_string(j);
		else
			d.ops[j].name.clear();
	for (auto& v : d.vars)
		v.provided = true;
	printDoc(s, d, k % 2);
	if (k == 2)
		d.text += " # not the end: )gql\" )gql1\"\n";
	g_fixed = keep;
	return d;
}

uint64_t clientSeed(const SchemaDef& s, int k)
{
	uint64_t best = 0;
	int top = -1;
	for (int i = 0; i < 60; ++i)
	{
		const uint64_t seed = 77 + 1000 * (uint64_t)k + i;
		const int n = score(s, clientDoc(s, k, seed), k);
		if (n > top)
		{
			top = n;
			best = seed;
		}
	}
	return best;
}

static void shape(const SchemaDef& s, const Doc& d, const std::vector<Sel>& sel, std::vector<Shape>& out)
{
	for (auto& x : sel)
	{
		if (x.k != Sel::Field)
		{
			shape(s, d, x.k == Sel::Spread ? d.frags[x.frag].sel : x.sub, out);
			continue;
		}
		Shape h;
		h.key = !x.alias.empty() ? x.alias : x.field < 0 ? "__typename" : s.fields[x.field].name;
		h.member = h.key == "__typename" ? "_typename" : h.key;
		h.field = x.field;
		bool dup = false;
		for (auto& y : out)
			dup = dup || y.key == h.key;
		if (dup)
			continue;
		shape(s, d, x.sub, h.sub);
		out.push_back(h);
	}
}

std::vector<Shape> shapeOf(const SchemaDef& s, const Doc& d, const std::vector<Sel>& sel)
{
	std::vector<Shape> out;
	shape(s, d, sel, out);
	return out;
}

// ---- typed values -----------------------------------------------------------------------------
// IDs may come without padding; the bits that are left over must be 0
static bool canonicalBase64(const std::string& t, std::string& out)
{
	static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	auto val = [&](char c) {
		return c ? abc.find(c) : std::string::npos;
	};
	std::string r = t;
	out.clear();
	while (r.size() >= 4 && r[3] != '=')
	{
		for (int i = 0; i < 4; ++i)
			if (val(r[i]) == std::string::npos)
				return false;
		out += r.substr(0, 4);
		r.erase(0, 4);
	}
	if (r.size() > 1)
	{
		const size_t n = r.size() > 2 && r[2] != '=' ? 3 : 2;
		for (size_t i = 0; i < n; ++i)
			if (val(r[i]) == std::string::npos)
				return false;
		if (val(r[n - 1]) & (n == 3 ? 3 : 15))
			return false;
		out += r.substr(0, n) + (n == 3 ? "=" : "==");
		r.erase(0, n);
	}
	return r.size() <= 2 && r.find_first_not_of('=') == std::string::npos;
}

static bool scalar(const SchemaDef& s, const Shape& h, const J& v, J& out)
{
	switch (h.field < 0 ? B_STR : s.fields[h.field].base)
	{
		case B_INT: out = v; return v.k == J::Int;
		case B_STR: out = v; return v.k == J::Str;
		case B_BOOL: out = v; return v.k == J::Bool;
		case B_FLOAT: out = v.k == J::Int ? J::number(v.i) : v; return v.k == J::Int || v.k == J::Float;
		case B_ID: out = J::str(""); return v.k == J::Str && canonicalBase64(v.s, out.s);
		case B_ENUM:
			out = J::enumv(v.s);
			return (v.k == J::Str || v.k == J::Enum) && std::find(s.enums.begin(), s.enums.end(), v.s) != s.enums.end();
		case B_JSON: out = v; return true;
		default: return typedOf(s, h.sub, v, out);
	}
}

static J defaultOf(const SchemaDef& s, const Shape& h)
{
	J x;
	switch (h.field < 0 ? B_STR : s.fields[h.field].base)
	{
		case B_INT: return J::integer(0);
		case B_BOOL: return J::boolean(false);
		case B_FLOAT: return J::number(0);
		case B_ENUM: return J::enumv(s.enums[0]);
		case B_JSON: return J::null();
		case B_OBJ: typedOf(s, h.sub, J::map(), x); return x;
		default: return J::str("");
	}
}

// levels: for each wrapper, from the outside, 'Q' (nullable) or 'L' (list)
static bool modified(const SchemaDef& s, const Shape& h, const char* mods, const J& v, J& out)
{
	if (*mods == 'Q')
	{
		if (v.k == J::Null)
		{
			out = J::null();
			return true;
		}
		return modified(s, h, mods + 1, v, out);
	}
	if (*mods == 'L')
	{
		out = J::list();
		if (v.k == J::List)
			for (auto& x : v.l)
			{
				out.l.emplace_back();
				if (!modified(s, h, mods + 1, x, out.l.back()))
					return false;
			}
		return true;
	}
	return scalar(s, h, v, out);
}

bool typedOf(const SchemaDef& s, const std::vector<Shape>& shape, const J& data, J& out)
{
	static const char* const mods[] = { "", "Q", "L", "LQ", "QL", "QLQ", "LL" };
	out = J::map();
	for (auto& h : shape)
	{
		const char* m = h.field < 0 ? "" : mods[s.fields[h.field].mod];
		const J* v = data.k == J::Map ? data.get(h.key) : nullptr;
		J x;
		if (!v)
			x = *m == 'Q' ? J::null() : *m == 'L' ? J::list() : defaultOf(s, h);
		else if (!modified(s, h, m, *v, x))
			return false;
		out.add(h.key, x);
	}
	return true;
}

J complete(const SchemaDef& s, const InType& t, const J& v)
{
	if (v.k == J::Null)
		return v;
	if (t.list)
	{
		InType e = t;
		e.list = false;
		e.nonNull = t.elemNonNull;
		J l = J::list();
		for (auto& x : v.l)
			l.l.push_back(complete(s, e, x));
		return l;
	}
	if (t.base == B_FLOAT && v.k == J::Int)
		return J::number(v.i);
	if (t.base != B_INPUT && t.base != B_INPUT1)
		return v;
	J m = J::map();
	for (auto& a : t.base == B_INPUT ? s.input : s.input1)
	{
		const J* x = v.get(a.name);
		m.add(a.name, complete(s, a.type, x ? *x : a.type.nonNull ? a.def : J::null()));
	}
	return m;
}

J weak(const J& j)
{
	J x = j;
	if (x.k == J::Enum)
		x.k = J::Str;
	for (auto& e : x.l)
		e = weak(e);
	for (auto& e : x.m)
		e.second = weak(e.second);
	return x;
}

// ---- JSON ---------------------------------------------------------------------------------------
namespace {
struct Decoder
{
	const std::string& t;
	size_t i = 0;

	bool at(char c) const { return i < t.size() && t[i] == c; }
	void ws()
	{
		while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\r' || t[i] == '\t'))
			++i;
	}
	bool word(const char* w)
	{
		const std::string s(w);
		if (t.compare(i, s.size(), s))
			return false;
		i += s.size();
		return true;
	}
	bool hex(unsigned& v)
	{
		v = 0;
		for (int k = 0; k < 4; ++k, ++i)
		{
			if (i >= t.size() || !isxdigit((unsigned char)t[i]))
				return false;
			v = v * 16 + (unsigned)(isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
		}
		return true;
	}
	static void utf8(std::string& s, unsigned c)
	{
		if (c < 0x80)
			s += (char)c;
		else if (c < 0x800)
		{
			s += (char)(0xc0 | c >> 6);
			s += (char)(0x80 | (c & 63));
		}
		else if (c < 0x10000)
		{
			s += (char)(0xe0 | c >> 12);
			s += (char)(0x80 | (c >> 6 & 63));
			s += (char)(0x80 | (c & 63));
		}
		else
		{
			s += (char)(0xf0 | c >> 18);
			s += (char)(0x80 | (c >> 12 & 63));
			s += (char)(0x80 | (c >> 6 & 63));
			s += (char)(0x80 | (c & 63));
		}
	}
	bool string(std::string& s)
	{
		++i;
		while (i < t.size())
		{
			const char c = t[i++];
			if (c == '"')
				return true;
			if ((unsigned char)c < 32)
				return false;
			if (c != '\\')
			{
				s += c;
				continue;
			}
			if (i >= t.size())
				return false;
			switch (t[i++])
			{
				case '"': s += '"'; break;
				case '\\': s += '\\'; break;
				case '/': s += '/'; break;
				case 'b': s += '\b'; break;
				case 'f': s += '\f'; break;
				case 'n': s += '\n'; break;
				case 'r': s += '\r'; break;
				case 't': s += '\t'; break;
				case 'u':
				{
					unsigned a, b;
					if (!hex(a))
						return false;
					if (a >= 0xd800 && a <= 0xdbff)
					{
						if (!word("\\u") || !hex(b) || b < 0xdc00 || b > 0xdfff)
							return false;
						a = ((a - 0xd800) << 10 | (b - 0xdc00)) + 0x10000;
					}
					utf8(s, a);
					break;
				}
				default: return false;
			}
		}
		return false;
	}
	bool digits()
	{
		const size_t from = i;
		while (i < t.size() && isdigit((unsigned char)t[i]))
			++i;
		return i > from;
	}
	bool number(J& out)
	{
		const size_t from = i;
		const bool minus = at('-');
		if (minus)
			++i;
		const size_t first = i;
		if (at('0'))
			++i;
		else if (!digits())
			return false;
		bool real = false;
		const size_t last = i;
		if (at('.'))
		{
			real = true;
			++i;
			if (!digits())
				return false;
		}
		if (at('e') || at('E'))
		{
			real = true;
			++i;
			if (at('+') || at('-'))
				++i;
			if (!digits())
				return false;
		}
		const std::string n = t.substr(from, i - from);
		const double d = strtod(n.c_str(), nullptr);
		if (!real)
		{
			if (last - first <= 10)
			{
				const long long v = atoll(n.c_str());
				out = J::integer((int)v);
				return v >= -2147483648ll && v <= 2147483647ll;
			}
			// integers that need more than 64 bits are read as floating point numbers
			const std::string abs = t.substr(first, last - first);
			const char* max = minus ? "9223372036854775808" : "18446744073709551615";
			const size_t len = minus ? 19 : 20;
			if (abs.size() < len || (abs.size() == len && abs <= max))
				return false;
		}
		out = J::number(d);
		return std::isfinite(d);
	}
	bool value(J& out)
	{
		ws();
		if (i >= t.size())
			return false;
		switch (t[i])
		{
			case 'n': out = J::null(); return word("null");
			case 't': out = J::boolean(true); return word("true");
			case 'f': out = J::boolean(false); return word("false");
			case '"': out = J::str(""); return string(out.s);
			case '[':
				++i;
				out = J::list();
				ws();
				if (at(']'))
				{
					++i;
					return true;
				}
				for (;;)
				{
					out.l.emplace_back();
					if (!value(out.l.back()))
						return false;
					ws();
					if (at(','))
						++i;
					else if (at(']'))
					{
						++i;
						return true;
					}
					else
						return false;
				}
			case '{':
				++i;
				out = J::map();
				ws();
				if (at('}'))
				{
					++i;
					return true;
				}
				for (;;)
				{
					std::string key;
					J v;
					ws();
					if (!at('"') || !string(key))
						return false;
					ws();
					if (!at(':'))
						return false;
					++i;
					if (!value(v))
						return false;
					if (!out.get(key))
						out.add(key, v);
					ws();
					if (at(','))
						++i;
					else if (at('}'))
					{
						++i;
						return true;
					}
					else
						return false;
				}
			default: return number(out);
		}
	}
};
}

bool decode(const std::string& text, J& out)
{
	Decoder d { text };
	if (!d.value(out))
		return false;
	d.ws();
	return d.i == text.size();
}

} // namespace sim
