#include "mutate.h"

#include "graphqlservice/GraphQLParse.h"

namespace sim {

static bool nameChar(char c)
{
	return isalnum((unsigned char)c) || c == '_';
}

static std::vector<std::string> tokenize(const std::string& t)
{
	std::vector<std::string> out;
	for (size_t i = 0; i < t.size();)
	{
		size_t j = i;
		if (t[i] == '#')
		{
			while (j < t.size() && t[j] != '\n')
				++j;
			i = j;
			continue;
		}
		if (isspace((unsigned char)t[i]) || t[i] == ',')
		{
			++i;
			continue;
		}
		if (t.compare(i, 3, "\"\"\"") == 0)
		{
			j = t.find("\"\"\"", i + 3);
			while (j != std::string::npos && t[j - 1] == '\\')
				j = t.find("\"\"\"", j + 3);
			j = j == std::string::npos ? t.size() : j + 3;
		}
		else if (t[i] == '"')
		{
			for (++j; j < t.size() && t[j] != '"'; ++j)
				if (t[j] == '\\')
					++j;
			++j;
		}
		else if (t.compare(i, 3, "...") == 0)
			j = i + 3;
		else if (nameChar(t[i]) || t[i] == '$' || t[i] == '-')
		{
			++j;
			while (j < t.size() && (nameChar(t[j]) || t[j] == '.'))
				++j;
		}
		else
			++j;
		out.push_back(t.substr(i, j - i));
		i = j;
	}
	return out;
}

static std::string join(const std::vector<std::string>& t)
{
	std::string o;
	int col = 0;
	for (auto& x : t)
	{
		o += x;
		o += ++col % 12 == 0 ? '\n' : ' ';
	}
	return o;
}

static bool parses(const std::string& text)
{
	try
	{
		auto a = peg::parseString(text);
		return a.root != nullptr;
	}
	catch (const std::exception&)
	{
		return false;
	}
}

static std::string mutateOnce(const SchemaDef& s, const std::string& text)
{
	auto t = tokenize(text);
	std::vector<size_t> names, vars;
	for (size_t i = 0; i < t.size(); ++i)
		if (isalpha((unsigned char)t[i][0]) || t[i][0] == '_')
			names.push_back(i);
		else if (t[i][0] == '$')
			vars.push_back(i);
	static const char* const pool[] = { "zz", "skip", "include", "if", "true", "null", "__typename", "__schema", "on",
		"String", "Int", "query", "subscription", "fragment", "In0", "i0", "E0" };
	switch (draw(13))
	{
		case 0: // another name of this document
		case 1:
			if (names.empty()) break;
			t[names[draw((uint32_t)names.size())]] = t[names[draw((uint32_t)names.size())]];
			break;
		case 2: // an unrelated name
			if (names.empty()) break;
			t[names[draw((uint32_t)names.size())]] = pool[draw(sizeof pool / sizeof *pool)];
			break;
		case 3: // a type or field of the schema
			if (names.empty()) break;
			t[names[draw((uint32_t)names.size())]] =
				draw(2) ? s.types[draw((uint32_t)s.types.size())].name : s.fields[draw((uint32_t)s.fields.size())].name;
			break;
		case 4:
			if (vars.empty()) break;
			t[vars[draw((uint32_t)vars.size())]] = draw(2) ? "$zz" : t[vars[draw((uint32_t)vars.size())]];
			break;
		case 5: // any token
			t[draw((uint32_t)t.size())] = t[draw((uint32_t)t.size())];
			break;
		case 6:
			t.erase(t.begin() + draw((uint32_t)t.size()));
			break;
		case 7:
		{
			const uint32_t i = draw((uint32_t)t.size());
			t.insert(t.begin() + i, t[i]);
			break;
		}
		case 8: // the whole document twice
		{
			auto u = t;
			t.insert(t.end(), u.begin(), u.end());
			break;
		}
		case 9:
		{
			static const char* const extra[] = { "fragment zz on Query { __typename }", "{ __typename }",
				"fragment za on Query { ... zb } fragment zb on Query { ... za } query zq { ... za }",
				"query zz ( $a : Int , $a : Int ) { __typename @ include ( if : $b ) }",
				"query zz ( $a : zz ) { __typename }", "fragment zz on E0 { zz }", "query zz { ... zz9 }",
				"query zz { __typename @ zz __typename @ skip }", "query zz ( $a : Int = \"x\" ) { a : __typename a : zz }",
				"subscription zz { __typename a : __typename }",
				"query zz { ... on Query { ... on zz { zz } } }", "query zz { __typename { zz } }",
				"fragment zx on Query { zz { zz } } query zz ( $a : [ In0 ! ] = [ { i0 : true , i0 : 1 } ] ) { ... zx }" };
			for (auto& x : tokenize(extra[draw(sizeof extra / sizeof *extra)]))
				t.push_back(x);
			break;
		}
		case 12: // another kind of operation
			for (auto& x : t)
				if (x == "query" || x == "mutation" || x == "subscription")
				{
					x = draw(2) ? "subscription" : "mutation";
					if (draw(2))
						break;
				}
			if (t[0] == "{")
				t.insert(t.begin(), draw(2) ? "subscription" : "mutation");
			break;
		case 10: // literal of another kind
			for (int k = 0; k < 20; ++k)
			{
				const uint32_t i = draw((uint32_t)t.size());
				if (isdigit((unsigned char)t[i][0]) || t[i][0] == '"' || t[i] == "true" || t[i] == "false" || t[i] == "null")
				{
					static const char* const lit[] = { "null", "\"x\"", "1", "1.5", "true", "[ 1 ]", "{ i0 : 1 }", "ZZ",
						"$zz" };
					t[i] = lit[draw(9)];
					break;
				}
			}
			break;
		case 11: // drop an argument list or sub-selection
		{
			const char open = draw(2) ? '(' : '{', close = open == '(' ? ')' : '}';
			std::vector<size_t> at;
			for (size_t i = 1; i < t.size(); ++i)
				if (t[i][0] == open)
					at.push_back(i);
			if (at.empty()) break;
			size_t i = at[draw((uint32_t)at.size())], j = i;
			for (int depth = 0; j < t.size(); ++j)
			{
				depth += t[j][0] == open;
				depth -= t[j][0] == close;
				if (!depth)
					break;
			}
			if (j < t.size())
				t.erase(t.begin() + i, t.begin() + j + 1);
			break;
		}
	}
	return join(t);
}

std::string mutateDoc(const SchemaDef& s, const std::string& text)
{
	Guard g;
	std::string cur = text;
	const int want = 1 + (int)draw(3);
	int done = 0;
	for (int k = 0; k < 12 && done < want; ++k)
	{
		auto next = mutateOnce(s, cur);
		if (parses(next))
		{
			cur = next;
			++done;
		}
	}
	return cur;
}

std::string errorList(const std::list<service::schema_error>& errors)
{
	std::string o;
	for (auto& e : errors)
	{
		o += e.message + " @" + std::to_string(e.location.line) + ":" + std::to_string(e.location.column);
		if (!e.path.empty())
			o += " path " + pathString(e.path);
		o += "\n";
	}
	return o;
}

std::string freshVerdict(const SchemaDef& s, const std::string& text)
{
	Guard g;
	Ctx ctx;
	ctx.s = &s;
	auto svc = makeService(ctx);
	auto a = peg::parseString(text);
	return errorList(svc->validate(a));
}

} // namespace sim
