// C14: files and strings are parsed by several threads while files are replaced and removed and
// opening, measuring, mapping or reading them fails.
#include "mutate.h"
#include "sdl.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/Grammar.h"
#include "graphqlservice/internal/SyntaxTree.h"

#include <memory>
#include <mutex>
#include <utility>

namespace sim {

namespace {

// ---- trees ------------------------------------------------------------------------------------
template <typename... T>
int typeIndex(const peg::ast_node& n)
{
	int i = 0, found = 0;
	((++i, !found && n.is_type<T>() ? (found = i, 0) : 0), ...);
	return found;
}

int typeOf(const peg::ast_node& n)
{
	using namespace peg;
	return typeIndex<operation_type, list_value, object_field_name, object_field, object_value, variable_value, integer_value,
		float_value, escaped_unicode, escaped_char, string_quote_character, block_escape_sequence,
		block_quote_character, string_value, true_keyword, false_keyword, null_keyword, enum_value, field_name,
		argument_name, argument, arguments, directive_name, directive, directives, variable, scalar_name,
		named_type, list_type, nonnull_type, default_value, operation_definition, fragment_definition,
		schema_definition, scalar_type_definition, object_type_definition, interface_type_definition,
		union_type_definition, enum_type_definition, input_object_type_definition, directive_definition,
		schema_extension, scalar_type_extension, object_type_extension, interface_type_extension,
		union_type_extension, enum_type_extension, input_object_type_extension, description, object_name,
		interface_name, union_name, enum_name, root_operation_definition, interface_type, input_field_definition,
		input_fields_definition, arguments_definition, field_definition, fields_definition, union_type,
		enum_value_definition, directive_location, operation_type_definition, variable_name, alias_name,
		operation_name, fragment_name, field, fragment_spread, inline_fragment, selection_set, type_condition>(n);
}

uint64_t walk(const peg::ast_node& n, bool typed, uint64_t h)
{
	const auto at = n.begin();
	if (!n.is_root())
		h = hmix(hmix(hmix(h, at.line), at.column), at.byte);
	h = hstr(h, n.string_view());
	if (typed)
		h = hmix(h, (uint64_t)typeOf(n));
	if (n.is_type<peg::string_value>())
		h = hstr(h, n.unescaped_view());
	h = hmix(h, n.children.size());
	for (auto& c : n.children)
		h = walk(*c, typed, h);
	return h;
}

void dump(const peg::ast_node& n, int depth, std::string& o)
{
	const auto at = n.begin();
	if (!n.is_root())
		o += std::string((size_t)depth, ' ') + std::to_string(typeOf(n)) + " " + std::to_string(at.line) + ":"
			+ std::to_string(at.column) + "+" + std::to_string(at.byte) + " "
			+ std::string(n.string_view().substr(0, 40)) + "\n";
	for (auto& c : n.children)
		dump(*c, depth + 1, o);
}

// ---- what a call may answer -------------------------------------------------------------------
struct Answer
{
	enum K { Tree, ParseError, Error, NotStd } k = Error;
	uint64_t hash = 0;
	size_t line = 0, column = 0, byte = 0;
	std::string what;
};

struct Seen
{
	int id = 0, thread = 0;
	int parser = 0;    // 0 executable, 1 schema
	int file = -1;     // or a string
	std::vector<int> content; // what the file held during the call, -1 = no file
	bool fault = false;
	Answer a;
};

struct File
{
	std::string name;
	std::vector<int> history;
};

struct Shared
{
	std::mutex lock;
	peg::ast ast;
	int seen = -1;
};

struct State
{
	SchemaDef s;
	std::vector<std::string> texts;
	std::vector<File> files;
	std::vector<Seen*> seen;
	uint64_t faults[8] = {};
	bool typed = false, validate = false, allocs = false, readFails = false;
	uint32_t faultOf = 0;
	std::shared_ptr<DynService> svc;
	struct Verdict
	{
		int content;
		std::string errors;
		std::vector<int> candidates;
	};
	std::vector<Verdict> verdicts;
};
State* g;
Shared* g_shared;
uint64_t g_hits[64]; // faults met, by thread

int decide(int op, const char* name, size_t size)
{
	const uint32_t n = g->faultOf;
	int e = 0;
	static const int opens[] = { EMFILE, EACCES, ENOENT, ENFILE, EINTR, EIO, ENOMEM };
	static const int maps[] = { ENOMEM, ENODEV, EAGAIN, EACCES };
	if (n)
		switch (op)
		{
			case VFS_OPEN:
				if (fchance(1, n))
					count(C_io_open_fail), e = opens[fdraw(7)];
				break;
			case VFS_STAT:
				if (fchance(1, n))
					count(C_io_stat_fail), e = fdraw(2) ? EIO : EOVERFLOW;
				break;
			case VFS_MMAP:
				if (fchance(1, n))
					count(C_io_map_fail), e = maps[fdraw(4)];
				break;
			case VFS_READ:
				if (g->readFails || fchance(1, n))
					switch (std::exchange(g->readFails, false) ? 0 : fdraw(3))
					{
						case 0: count(C_io_read_fail); e = EIO; break;
						case 1: count(C_io_eintr); e = EINTR; break;
						case 2:
							count(C_io_short);
							++g_hits[rt_self() & 63];
							g->readFails = fchance(1, 2);
							if (fchance(1, 2)) // between two definitions
								for (auto& f : g->files)
									if (f.name == name && f.history.back() >= 0)
									{
										auto& t = g->texts[(size_t)f.history.back()];
										const size_t cut = t.find('}', fdraw((uint32_t)t.size() + 1));
										if (cut != t.npos && cut + 1 < size)
											return -(int)(cut + 1);
									}
							if (size > 1)
								return -(int)(1 + fdraw((uint32_t)(size - 1)));
							return 0;
					}
				break;
		}
	rt_event("file %s op %d size %zu: %d", name, op, size, e);
	if (e)
		++g_hits[rt_self() & 63];
	return e;
}

// ---- contents ---------------------------------------------------------------------------------
std::string makeText()
{
	std::string t;
	switch (draw(6))
	{
		case 0:
		case 1:
		case 2:
		{
			DocOpts o;
			o.mutation = chance(1, 4);
			o.budget = 2 + (int)draw(10);
			t = genDoc(g->s, o).text;
			if (chance(1, 4))
				t = mutateDoc(g->s, t);
			break;
		}
		case 3:
		case 4:
		{
			SchemaOpts so;
			so.rich = true;
			so.subscription = draw(2);
			auto s = genSchema(so);
			t = sdl(s);
			if (t.size() > 3000 && draw(4)) // whole definitions of it
			{
				auto cut = t.find("\n}", t.size() > 2000 ? 1500 : 0);
				if (cut != std::string::npos)
					t.resize(cut + 3);
			}
			break;
		}
		case 5: // both kinds in one document
			t = genDoc(g->s, {}).text;
			t = chance(1, 2) ? t + "\ntype zz { a: Int }\n" : "\"x\" scalar zz\nextend type zy { b: [Int!] }\n" + t;
			break;
	}
	switch (draw(24))
	{
		case 15: // cut off
			t.resize(draw((uint32_t)t.size() + 1));
			count(C_io_truncated);
			break;
		case 14: // other line ends
		{
			std::string u;
			const uint32_t how = draw(3);
			for (char c : t)
				if (c == '\n')
					u += how == 0 ? "\r\n" : how == 1 ? "\r" : "\n\r\n";
				else
					u += c;
			t = u;
			break;
		}
		case 13:
			t = "\xEF\xBB\xBF" + t;
			break;
		case 12: // any byte
			if (!t.empty())
				t[draw((uint32_t)t.size())] = (char)draw(256);
			break;
		case 11:
		case 10: // exact pages
		{
			const size_t page = 4096 * (t.size() / 4096 + 1 + draw(2));
			const uint32_t how = draw(3);
			if (how == 0)
				t.resize(page, ' ');
			else if (how == 1)
				t = t + "#" + std::string(page - t.size() - 1, 'x');
			else
				t = std::string(page - t.size(), '\n') + t;
			break;
		}
		case 9:
			t = draw(2) ? "" : std::string(1 + draw(3), " \n,#"[draw(4)]);
			break;
		case 8:
			t += std::string("\0 {", draw(4));
			break;
		case 7: // a part is missing
			if (t.size() > 8)
			{
				const uint32_t at = draw((uint32_t)t.size());
				t.erase(at, 1 + draw(std::min<uint32_t>(40, (uint32_t)t.size() - at)));
			}
			break;
		case 6: // ends inside of a token
			t += std::vector<std::string> { "\"abc", "\"\"\"abc\"", "#", "{", "query q", "1.", "\"\\u12", "type", "\"\\" }[draw(9)];
			break;
	}
	return t;
}

// the literal operator borrows its text
peg::ast literal(const std::string& text)
{
	return graphql::operator""_graphql(text.data(), text.size());
}

Answer tryParse(int parser, const std::string& in, bool file, bool typed, peg::ast& keep, const std::string* lit = nullptr)
{
	Answer a;
	try
	{
		keep = lit ? literal(*lit)
			: file ? (parser ? peg::parseSchemaFile(in) : peg::parseFile(in))
					: (parser ? peg::parseSchemaString(in) : peg::parseString(in));
		if (!keep.root)
			rt_fail("tree", "the document has no root");
		a.hash = walk(*keep.root, typed, 7);
		a.k = Answer::Tree;
	}
	catch (const peg::parse_error& e)
	{
		a.k = Answer::ParseError;
		const auto& p = e.positions();
		if (!p.empty())
		{
			a.line = p.front().line;
			a.column = p.front().column;
			a.byte = p.front().byte;
		}
		Guard guard;
		a.what = e.what();
	}
	catch (const std::exception& e)
	{
		a.k = Answer::Error;
		Guard guard;
		a.what = e.what();
	}
	catch (...)
	{
		a.k = Answer::NotStd;
	}
	return a;
}

const char* kindName(Answer::K k)
{
	static const char* const n[] = { "a tree", "a parse error", "an error", "something thrown that is no std::exception" };
	return n[k];
}

struct Kept
{
	peg::ast ast;
	uint64_t hash = 0;
	int seen = -1;
};

void recheck(const Kept& k, const char* when)
{
	const uint64_t h = walk(*k.ast.root, g->typed, 7);
	if (h != k.hash)
		rt_fail("tree-changed", "the tree of call %d is another one %s", k.seen, when);
}

struct Op
{
	uint32_t kind, file, text, parser, pick, alloc;
};

void client(const std::vector<Op>& ops, int index)
{
	std::vector<Kept> kept;
	for (auto& op : ops)
	{
		switch (op.kind)
		{
			case 0:
			case 1:
			case 2:
			case 3: // parse a file, or a string
			{
				const bool file = op.kind < 3;
				Seen* s;
				size_t first = 0;
				int parser = 0;
				std::string in;
				uint64_t hits;
				{
					Guard guard;
					s = new Seen;
					s->id = (int)g->seen.size();
					s->thread = rt_self();
					s->parser = (int)op.parser;
					const int now = file ? g->files[op.file].history.back() : (int)op.text;
					if (op.parser == 2) // mostly the parser that fits
						s->parser = now >= 0 && g->texts[(size_t)now].find("type ") != std::string::npos;
					parser = s->parser;
					s->file = file ? (int)op.file : -1;
					g->seen.push_back(s);
					if (file)
						first = g->files[op.file].history.size() - 1;
					else
						s->content.push_back((int)op.text);
					rt_event("call %d: %s%s %s", s->id, parser ? "parseSchema" : "parse", file ? "File" : "String",
						file ? g->files[op.file].name.c_str() : "");
					hits = g_hits[rt_self() & 63];
				}
				in = file ? g->files[op.file].name : g->texts[op.text];
				const std::string* lit = !file && !parser && (op.pick & 3) == 1 ? &g->texts[op.text] : nullptr;
				if (lit)
					count(C_literals);
				const bool arm = g->allocs && !index && op.alloc;
				if (arm)
				{
					Guard guard;
					rt_expected_failstop = 1;
					rt_faults.only_thread = rt_self();
					rt_faults.alloc_count = 0;
					rt_faults.alloc_len = 1;
					rt_faults.alloc_failed = 0;
					rt_faults.alloc_at = op.alloc;
				}
				{
					Kept k;
					Answer a = tryParse(parser, in, file, g->typed, k.ast, lit);
					if (arm)
					{
						Guard guard;
						rt_faults.alloc_at = -1;
					}
					k.hash = a.hash;
					k.seen = s->id;
					const bool tree = a.k == Answer::Tree;
					if (tree)
						kept.push_back(std::move(k));
					Guard guard;
					s->a = a;
					s->fault = hits != g_hits[rt_self() & 63] || (arm && rt_faults.alloc_failed);
					if (arm && rt_faults.alloc_failed)
						count(C_fault_alloc);
					count(tree ? C_parse_ok : C_parse_error);
					if (file)
					{
						auto& h = g->files[op.file].history;
						s->content.assign(h.begin() + (long)first, h.end());
					}
					rt_event("call %d: %s%s%s", s->id, kindName(a.k), tree ? "" : ": ", a.what.c_str());
				}
				break;
			}
			case 4:
			case 5: // replace a file, or remove it
			{
				Guard guard;
				auto& f = g->files[op.file];
				const int to = op.kind == 5 && op.pick > 4 ? -1 : (int)op.text;
				f.history.push_back(to);
				if (to < 0)
					vfs_remove(f.name.c_str());
				else
					vfs_put(f.name.c_str(), g->texts[(size_t)to].data(), g->texts[(size_t)to].size());
				rt_event("%s is now content %d", f.name.c_str(), to);
				count(C_files);
				break;
			}
			case 6: // hand a tree to the others
				if (!kept.empty())
				{
					auto& k = kept[op.pick % kept.size()];
					std::lock_guard<std::mutex> l(g_shared->lock);
					g_shared->ast = k.ast;
					g_shared->seen = k.seen;
				}
				break;
			case 7: // take the one handed over
			{
				Kept k;
				{
					std::lock_guard<std::mutex> l(g_shared->lock);
					k.ast = op.pick & 1 ? std::move(g_shared->ast) : g_shared->ast;
					k.seen = g_shared->seen;
					if (op.pick & 1)
						g_shared->ast = {};
				}
				if (k.ast.root)
				{
					k.hash = g->seen[(size_t)k.seen]->a.hash;
					recheck(k, "in another thread");
					kept.push_back(std::move(k));
				}
				break;
			}
			case 8: // drop one
				if (!kept.empty())
					kept.erase(kept.begin() + (long)(op.pick % kept.size()));
				break;
			case 9: // look again
				for (auto& k : kept)
					recheck(k, "later");
				break;
			case 10: // validate
				if (g->svc && !kept.empty())
				{
					auto& k = kept[op.pick % kept.size()];
					if (g->seen[(size_t)k.seen]->parser)
						break;
					peg::ast copy = k.ast;
					copy.validated = false;
					const auto errors = errorList(g->svc->validate(copy));
					Guard guard;
					g->verdicts.push_back({ k.seen, std::string(errors.c_str()), {} });
				}
				break;
		}
	}
	for (auto& k : kept)
		recheck(k, "at the end");
}

struct Expected
{
	bool known = false;
	Answer a;
};

void judge()
{
	std::vector<Expected> exp[2];
	for (auto& e : exp)
		e.resize(g->texts.size());
	for (Seen* s : g->seen)
	{
		const std::string call = std::string(s->parser ? "parseSchema" : "parse") + (s->file < 0 ? "String" : "File");
		bool missing = false, fine = false, error = false;
		std::string say;
		for (int c : s->content)
		{
			if (c < 0)
			{
				missing = true;
				continue;
			}
			auto& e = exp[s->parser][(size_t)c];
			if (!e.known)
			{
				peg::ast a;
				e.a = tryParse(s->parser, g->texts[(size_t)c], false, g->typed, a);
				e.known = true;
			}
			if (say.size() < 12000)
				say += "content " + std::to_string(c) + ": " + kindName(e.a.k) + " " + e.a.what + "\n" + g->texts[(size_t)c] + "\n";
			if (e.a.k == Answer::Tree && s->a.k == Answer::Tree && e.a.hash == s->a.hash)
				fine = true;
			if (e.a.k != Answer::Tree)
			{
				error = true;
				if (s->a.k == Answer::ParseError && e.a.k == Answer::ParseError && e.a.line == s->a.line
					&& e.a.column == s->a.column && e.a.byte == s->a.byte)
					fine = true;
			}
		}
		switch (s->a.k)
		{
			case Answer::Tree:
				if (!fine)
					rt_fail("tree", "call %d, %s in thread %d, gives a tree that is not that of the content\n%s", s->id,
						call.c_str(), s->thread, say.c_str());
				break;
			case Answer::ParseError:
				if (!fine && !s->fault)
					rt_fail("error", "call %d, %s in thread %d, reports an error at %zu:%zu (byte %zu): %s; the content has %s\n%s",
						s->id, call.c_str(), s->thread, s->a.line, s->a.column, s->a.byte, s->a.what.c_str(),
						error ? "its error elsewhere" : "no error", say.c_str());
				break;
			case Answer::Error:
				if (s->a.what.empty())
					rt_fail("error", "call %d, %s, throws an exception without a message", s->id, call.c_str());
				if (!s->fault && !missing)
					rt_fail("error", "call %d, %s in thread %d, throws \"%s\" and nothing has failed\n%s", s->id, call.c_str(),
						s->thread, s->a.what.c_str(), say.c_str());
				break;
			case Answer::NotStd:
				rt_fail("error", "call %d, %s, throws what is no std::exception", s->id, call.c_str());
		}
	}
	for (auto& v : g->verdicts)
	{
		// the same tree is the tree of one of these contents
		Seen* s = g->seen[(size_t)v.content];
		bool fine = false;
		std::string want;
		for (int c : s->content)
			if (c >= 0 && exp[0][(size_t)c].known && exp[0][(size_t)c].a.k == Answer::Tree && exp[0][(size_t)c].a.hash == s->a.hash)
			{
				want = freshVerdict(g->s, g->texts[(size_t)c]);
				fine = fine || want == v.errors;
			}
		if (!fine)
			rt_fail("verdict", "the document of call %d is found to have these errors:\n%sthe same text from memory:\n%s", s->id,
				v.errors.c_str(), want.c_str());
	}
}

void runParse()
{
	uint32_t threads;
	std::vector<std::vector<Op>> plan;
	{
		Guard guard;
		g = new State;
		g_shared = nullptr;
		SchemaOpts so;
		so.mutation = true;
		g->s = genSchema(so);
		const uint32_t nt = 1 + draw(4), nf = 1 + draw(3);
		for (uint32_t i = 0; i < nt; ++i)
		{
			g->texts.push_back(makeText());
			rt_event("content %u: %s", i, g->texts.back().c_str());
		}
		if (chance(1, 4)) // one that differs only a little
			g->texts.push_back(g->texts[0] + "\n# " + std::string(draw(20), 'x'));
		for (uint32_t i = 0; i < nf; ++i)
		{
			File f;
			f.name = "/sim-fs/doc" + std::to_string(i) + ".graphql";
			const int c = (int)draw((uint32_t)g->texts.size() + 1) - 1;
			const int content = c < 0 && draw(8) ? 0 : c;
			f.history.push_back(content);
			if (content >= 0)
				vfs_put(f.name.c_str(), g->texts[(size_t)content].data(), g->texts[(size_t)content].size());
			g->files.push_back(std::move(f));
		}
		g->typed = chance(1, 3);
		g->validate = chance(1, 4);
		static const uint32_t of[] = { 0, 0, 20, 8, 4, 40 };
		g->faultOf = of[fdraw(6)];
		g->allocs = fchance(1, 4);
		threads = 1 + draw(4);
		for (uint32_t t = 0; t < threads; ++t)
		{
			std::vector<Op> ops;
			const uint32_t n = 1 + draw(6);
			for (uint32_t i = 0; i < n; ++i)
			{
				Op o;
				static const uint32_t kinds[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 1, 3, 10, 2 };
				o.kind = kinds[draw(16)];
				o.file = draw(nf);
				o.text = draw((uint32_t)g->texts.size());
				o.parser = chance(1, 6) ? draw(2) : 2;
				o.pick = draw(8);
				static const uint32_t upTo[] = { 8, 40, 200, 1000, 3000 };
				o.alloc = g->allocs ? fdraw(upTo[fdraw(5)]) : 0;
				ops.push_back(o);
			}
			plan.push_back(std::move(ops));
		}
		vfs_fault = decide;
	}
	Ctx ctx;
	ctx.s = &g->s;
	{
		Shared shared;
		g_shared = &shared;
		if (g->validate)
			g->svc = makeService(ctx);
		if (threads > 1)
		{
			count(C_concurrent_clients, threads);
			std::vector<std::thread> pool;
			for (uint32_t t = 1; t < threads; ++t)
				pool.emplace_back([&plan, t] { client(plan[t], (int)t); });
			client(plan[0], 0);
			for (auto& t : pool)
				t.join();
		}
		else
			client(plan[0], 0);
		g->svc.reset();
		shared.ast = {};
		g_shared = nullptr;
	}
	ctx.joinAll();
	Guard guard;
	if (const char* name = vfs_still_open())
		rt_fail("leak", "%s is still open", name);
	if (vfs_mapped())
		rt_fail("leak", "%d mappings of files are left", vfs_mapped());
	judge();
}

Workload c14("C14", runParse);

} // namespace
} // namespace sim
