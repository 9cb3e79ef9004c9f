// C12: generated clients and a generated service, in one process and over a faulty network.
#include "client.h"
#include "client_doc.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/JSONResponse.h"

#include <chrono>
#include <cstring>
#include <cmath>
#include <condition_variable>
#include <functional>

namespace sim {

namespace {

struct Req
{
	int id = 0;
	const ClientOp* op = nullptr;
	Doc doc;
	Plan plan, notify, unnotify;
	bool subscription = false;
	std::string field; // of a subscription
	std::string name;
	std::launch launch = std::launch::deferred;
	bool inProcess = false;
	std::vector<Shape> shape;
	J variables; // what the client fills in
	J sent;      // the request document on the wire
	std::vector<J> bodies; // answers of the service: the order of the errors can differ
	bool done = false;
	int attempts = 0, executions = 0;
};

struct Msg
{
	Req* r = nullptr;
	std::string bytes;
	int epoch = 0;
	bool damaged = false;
};

struct Server
{
	std::shared_ptr<service::Request> svc;
	std::mutex subscriptions;
};

// All messages, ordered by the time they arrive. Faults stop after a bounded number of messages.
struct Net
{
	std::mutex mutex;
	std::condition_variable arrived;
	std::multimap<uint64_t, Msg> requests;
	std::map<Req*, std::multimap<uint64_t, Msg>> responses;
	bool stop = false;
	int epoch = 0; // incremented when the server restarts
	std::shared_ptr<Server> server;
	int sent = 0;
	// drawn before the run
	int faulty = 0; // so many messages can be hit
	int crash[2] = { -1, -1 };
	int partitionAt = -1;
	uint64_t partitionFor = 0, partitionEnd = 0;
	uint32_t rate = 0; // of 8 messages
};

struct World
{
	const GenSchema* g;
	Ctx* ctx;
	GenShared* shared;
	Net net;
};

std::string visible(const std::string& s)
{
	std::string t;
	char b[8];
	for (unsigned char c : s)
	{
		if (c < 32 || c > 126)
		{
			snprintf(b, sizeof b, "\\x%02x", c);
			t += b;
		}
		else
			t += (char)c;
	}
	return t;
}

} // namespace

// ---- documents on the wire --------------------------------------------------------------------
// Reads the document with the library and checks that against the harness' own reader.
static bool receive(const char* who, const std::string& bytes, response::Value& value, J& j)
{
	bool valid;
	{
		Guard gd;
		valid = decode(bytes, j);
	}
	bool accepted = false;
	std::string problem;
	try
	{
		value = response::parseJSON(bytes);
		accepted = true;
	}
	catch (const std::exception& e)
	{
		Guard gd;
		problem = e.what();
	}
	if (!accepted)
	{
		Guard gd;
		count(C_rejected);
		if (valid)
			rt_fail("rejected", "%s: a valid document is rejected: %s\n  %s", who, problem.c_str(), visible(bytes).c_str());
		return false;
	}
	const J got = fromValue(value);
	Guard gd;
	count(C_accepted);
	if (!valid)
		rt_fail("accepted", "%s: accepted something that is not one complete JSON document\n  %s\n  as %s", who,
			visible(bytes).c_str(), print(got).c_str());
	if (!sameJ(got, j))
		rt_fail("decoded", "%s: the document does not say what was read\n  %s\n  as %s", who, visible(bytes).c_str(),
			print(got).c_str());
	return true;
}

static void written(const char* who, const std::string& bytes, const J& meant)
{
	Guard gd;
	J j;
	if (!decode(bytes, j))
		rt_fail("written", "%s: wrote an invalid document\n  %s", who, visible(bytes).c_str());
	if (!sameJ(j, weak(meant)))
		rt_fail("written", "%s: wrote a document that says something else\n  %s\n  meant %s", who, visible(bytes).c_str(),
			print(meant).c_str());
}

// ---- network ------------------------------------------------------------------------------------
static std::string damage(const std::string& s)
{
	std::string t = s;
	if (t.empty())
		return "x";
	const size_t at = fdraw((uint32_t)t.size());
	switch (fdraw(9))
	{
		case 0: t.resize(at); count(C_msg_truncated); break;
		case 1: t[at] = (char)(t[at] ^ (1 << fdraw(8))); count(C_msg_corrupted); break;
		case 2: t[at] = "\"{}[]:,0\\ \n-.ex"[fdraw(15)]; count(C_msg_corrupted); break;
		case 3: t.erase(at, 1 + fdraw(4)); count(C_msg_corrupted); break;
		case 4: t.insert(at, t, fdraw((uint32_t)t.size()), 1 + fdraw(8)); count(C_msg_corrupted); break;
		// what another message left in the buffer
		case 5: t += t.substr(at); count(C_msg_corrupted); break;
		case 6: t[at] = (char)fdraw(256); count(C_msg_corrupted); break;
		case 7: t.resize(at); t.resize(s.size(), '\0'); count(C_msg_truncated); break;
		case 8: // another number
		{
			static const char* const numbers[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
				"4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e308", "1e309", "-0",
				"1E5", "0.1e-400", "01", "1.", "-", "+1", "1e", "0x10", "NaN" };
			std::vector<size_t> where;
			bool text = false;
			for (size_t k = 1; k < t.size(); ++k)
			{
				if (t[k] == '"')
					text = !text;
				else if (text && t[k] == '\\')
					++k;
				else if (!text && strchr("-0123456789", t[k]) && strchr(":[, ", t[k - 1]))
					where.push_back(k);
			}
			if (where.empty())
				break;
			size_t i = where[fdraw((uint32_t)where.size())], j = i;
			while (j < t.size() && strchr("0123456789.eE+-", t[j]))
				++j;
			t.replace(i, j - i, numbers[fdraw(sizeof numbers / sizeof *numbers)]);
			count(C_msg_corrupted);
			break;
		}
	}
	return t;
}

// The same document as another implementation may write it: white space and escapes.
static std::string rewrite(const std::string& s)
{
	static const char* const space[] = { " ", "\n", "\t", "\r\n  " };
	std::string t;
	char b[16];
	const uint32_t rate = 1 + fdraw(8);
	bool text = false;
	for (size_t i = 0; i < s.size(); ++i)
	{
		const unsigned char c = s[i];
		if (!text)
		{
			t += c;
			text = c == '"';
			if (strchr("{}[]:,", c) && fdraw(rate) == 1)
				t += space[fdraw(4)];
			continue;
		}
		if (c == '\\')
		{
			t += c;
			t += s[++i];
			continue;
		}
		if (c == '"')
		{
			t += c;
			text = false;
			if (fdraw(rate) == 1)
				t += space[fdraw(4)];
			continue;
		}
		const int more = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		if (fdraw(rate) != 1)
		{
			t.append(s, i, more + 1);
			i += more;
			continue;
		}
		uint32_t u = more ? c & (0x3f >> more) : c;
		for (int k = 0; k < more; ++k)
			u = u << 6 | ((unsigned char)s[++i] & 0x3f);
		if (u == '/')
			snprintf(b, sizeof b, "\\/");
		else if (u > 0xffff)
			snprintf(b, sizeof b, fdraw(2) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((u - 0x10000) >> 10),
				0xdc00 + ((u - 0x10000) & 0x3ff));
		else
			snprintf(b, sizeof b, fdraw(2) ? "\\u%04x" : "\\u%04X", u);
		t += b;
	}
	count(C_msg_rewritten);
	return t;
}

static void restart(World& w)
{
	auto server = std::make_shared<Server>();
	server->svc = w.g->make(*w.ctx, *w.shared, true);
	count(C_services_created);
	std::shared_ptr<Server> old;
	{
		std::lock_guard<std::mutex> lock(w.net.mutex);
		old = std::move(w.net.server);
		w.net.server = server;
		if (old)
		{
			// what was waiting for it is lost
			w.net.epoch++;
			count(C_msg_dropped, w.net.requests.size());
			w.net.requests.clear();
			count(C_services_dropped);
		}
	}
}

static void put(World& w, bool toServer, Msg m)
{
	Net& n = w.net;
	bool crash = false;
	{
		std::lock_guard<std::mutex> lock(n.mutex);
		count(C_msg_sent);
		const int k = n.sent++;
		crash = k == n.crash[0] || k == n.crash[1];
		const uint64_t now = rt_now();
		if (k == n.partitionAt)
			n.partitionEnd = now + n.partitionFor;
		const bool faulty = k < n.faulty && fdraw(8) < n.rate;
		if (now < n.partitionEnd || !toServer && m.epoch != n.epoch)
		{
			count(C_msg_dropped);
			rt_event("message %d of request %d lost", k, m.r->id);
		}
		else
		{
			uint64_t due = now + 1000 + 1000 * draw(50);
			int copies = 1;
			if (faulty)
				switch (fdraw(7))
				{
					case 6: m.bytes = rewrite(m.bytes); break;
					case 0: copies = 0; count(C_msg_dropped); break;
					case 1: copies = 2; count(C_msg_duplicated); break;
					case 2: due += 10000000ull * fdraw(500); count(C_msg_delayed); break;
					default: m.bytes = damage(m.bytes); m.damaged = true; break;
				}
			if (faulty)
				rt_event("message %d of request %d: fault", k, m.r->id);
			for (int i = 0; i < copies; ++i)
			{
				auto& q = toServer ? n.requests : n.responses[m.r];
				if (!q.empty() && q.rbegin()->first > due)
					count(C_msg_reordered);
				q.emplace(due, m);
				due += 1000 + 100000ull * fdraw(100);
			}
		}
	}
	n.arrived.notify_all();
	if (crash)
	{
		rt_event("server restarts");
		restart(w);
	}
}

template <typename Q>
static bool take(Q& q, Msg& m, uint64_t& next)
{
	if (q.empty())
		return false;
	if (q.begin()->first > rt_now())
	{
		next = std::min(next, q.begin()->first);
		return false;
	}
	m = std::move(q.begin()->second);
	q.erase(q.begin());
	return true;
}

static void waitUntil(Net& n, std::unique_lock<std::mutex>& lock, uint64_t t)
{
	const uint64_t now = rt_now();
	if (t == ~0ull)
		n.arrived.wait(lock);
	else
		n.arrived.wait_for(lock, std::chrono::nanoseconds(t > now ? t - now : 0));
}

// ---- service ------------------------------------------------------------------------------------
// executes a request that has arrived undamaged; each time on plans of its own
static response::Value serve(World& w, Server& server, Req& r, peg::ast& ast, const std::string& name,
	response::Value&& variables)
{
	Plan *plan, *notify = nullptr, *unnotify = nullptr;
	{
		Guard gd;
		plan = new Plan(r.plan);
		r.executions++;
		if (r.subscription)
		{
			notify = new Plan(r.notify);
			unnotify = new Plan(r.unnotify);
		}
		count(C_requests);
	}
	response::Value out;
	if (!r.subscription)
	{
		auto state = std::make_shared<SimState>(plan);
		out = server.svc->resolve(r.launch, state, ast, name, std::move(variables)).get();
	}
	else
	{
		// an event reaches all subscriptions of the field
		std::lock_guard<std::mutex> one(server.subscriptions);
		auto state = std::make_shared<SimState>(nullptr);
		{
			Guard gd;
			state->events[r.id] = plan;
			state->notify = notify;
			state->unnotify = unnotify;
		}
		service::SubscriptionParams params { std::move(state), peg::ast { ast }, std::string { name }, std::move(variables) };
		int answers = 0;
		auto key = server.svc->subscribe(std::move(params), [&](std::future<response::Value> f) {
			out = f.get();
			answers++;
		});
		count(C_subscribe_ok);
		service::SubscriptionFilterCallback all = [](response::MapType::const_reference) {
			return true;
		};
		count(C_deliver);
		server.svc->deliver(r.launch, r.field, all, all, w.g->event(*w.ctx, *w.shared, r.id));
		server.svc->unsubscribe(key);
		Guard gd;
		if (answers != 1)
			rt_fail("deliver", "request %d: %d responses to one event", r.id, answers);
	}
	{
		checkCalls(*plan);
	}
	return out;
}

static void serverThread(World& w)
{
	for (;;)
	{
		Msg m;
		std::shared_ptr<Server> server;
		int epoch;
		{
			std::unique_lock<std::mutex> lock(w.net.mutex);
			for (;;)
			{
				uint64_t next = ~0ull;
				if (take(w.net.requests, m, next))
					break;
				if (w.net.stop)
					return;
				waitUntil(w.net, lock, next);
			}
			server = w.net.server;
			epoch = w.net.epoch;
		}
		response::Value request;
		J j;
		if (!receive("service", m.bytes, request, j))
			continue;
		{
			Guard gd;
			// a checksum would notice
			if (!sameJ(j, m.r->sent))
			{
				count(C_msg_stale);
				continue;
			}
		}
		auto members = request.release<response::MapType>();
		std::string text, name;
		response::Value variables { response::Type::Map };
		for (auto& x : members)
		{
			if (x.first == "query")
				text = x.second.release<response::StringType>();
			else if (x.first == "operationName")
				name = x.second.release<response::StringType>();
			else
				variables = std::move(x.second);
		}
		auto ast = peg::parseString(text);
		auto out = serve(w, *server, *m.r, ast, name, std::move(variables));
		const J body = fromValue(out);
		Msg answer;
		answer.bytes = response::toJSON(std::move(out));
		written("service", answer.bytes, body);
		{
			Guard gd;
			m.r->bodies.push_back(weak(body));
		}
		answer.r = m.r;
		answer.epoch = epoch;
		put(w, false, std::move(answer));
	}
}

// ---- client ---------------------------------------------------------------------------------------
static J errorsOf(const graphql::client::ServiceResponse& r)
{
	J l = J::list();
	for (auto& e : r.errors)
	{
		J locations = J::list(), path = J::list();
		for (auto& x : e.locations)
			locations.l.push_back(jm({ { "line", J::integer(x.line) }, { "column", J::integer(x.column) } }));
		for (auto& x : e.path)
			path.l.push_back(std::holds_alternative<response::IntType>(x) ? J::integer(std::get<response::IntType>(x))
																		  : J::str(std::get<response::StringType>(x)));
		l.l.push_back(jm({ { "message", J::str(e.message) }, { "locations", locations }, { "path", path } }));
	}
	return l;
}

// What the client makes of a document must be what the document says. Returns true if that is the
// answer of the service.
static bool understand(Req& r, response::Value&& value, const J& said)
{
	auto response = graphql::client::parseServiceResponse(std::move(value));
	const J data = fromValue(response.data);
	const J errors = errorsOf(response);
	J want;
	bool fits;
	{
		Guard gd;
		const J* d = said.k == J::Map ? said.get("data") : nullptr;
		if (!sameJ(data, d ? *d : J::null()))
			rt_fail("client", "request %d: response data read as\n  %s\n  from %s", r.id, print(data).c_str(), print(said).c_str());
		fits = typedOf(*r.plan.schema, r.shape, data, want);
	}
	J typed;
	bool threw = false;
	std::string what;
	try
	{
		typed = r.op->parse(std::move(response.data));
	}
	catch (const std::exception& e)
	{
		Guard gd;
		threw = true;
		what = e.what();
	}
	Guard gd;
	count(threw ? C_parse_error : C_parse_ok);
	if (threw && fits)
		rt_fail("client", "request %d: the client throws \"%s\" for\n  %s", r.id, what.c_str(), print(data).c_str());
	if (!threw && !fits)
		rt_fail("client", "request %d: the client accepts data of the wrong types as\n  %s\n  data %s", r.id,
			print(typed).c_str(), print(data).c_str());
	if (!threw && !sameJ(typed, want))
		rt_fail("client", "request %d: typed response\n  got      %s\n  expected %s\n  data     %s\n  document %s", r.id,
			print(typed).c_str(), print(want).c_str(), print(data).c_str(), r.doc.text.c_str());
	bool whole = false;
	for (auto& b : r.bodies)
		whole = whole || sameJ(weak(said), b);
	if (!whole)
		return false;
	// undamaged: the answer the plan asks for, with every error
	J all = J::map();
	all.add("data", weak(data));
	if (!errors.l.empty())
		all.add("errors", errors);
	Plan p = r.plan;
	p.data = weak(p.data);
	auto d = diffResponse(p, all);
	if (d.first)
		rt_fail(d.first, "client: %s", d.second.c_str());
	return true;
}

static void overNetwork(World& w, Req& r)
{
	std::string bytes;
	{
		response::Value request { response::Type::Map };
		std::string text(r.op->text()), name(r.name);
		request.emplace_back("query", response::Value { std::move(text) });
		request.emplace_back("operationName", response::Value { std::move(name) });
		request.emplace_back("variables", r.op->variables(r.variables));
		bytes = response::toJSON(std::move(request));
	}
	written("client", bytes, r.sent);
	uint64_t timeout = 200000000;
	int quiet = 0; // attempts since the network is reliable
	while (!r.done)
	{
		Msg m;
		m.r = &r;
		m.bytes = bytes;
		r.attempts++;
		count(C_requests);
		if (r.attempts > 1)
			count(C_retries);
		{
			std::lock_guard<std::mutex> lock(w.net.mutex);
			quiet += w.net.sent >= w.net.faulty && rt_now() >= w.net.partitionEnd && w.net.sent > w.net.partitionAt
				&& w.net.sent > w.net.crash[0] && w.net.sent > w.net.crash[1];
		}
		if (quiet > 12)
			rt_fail("liveness", "request %d: no answer to %d attempts, %d of them after the last fault", r.id, r.attempts, quiet);
		put(w, true, std::move(m));
		const uint64_t end = rt_now() + timeout;
		timeout *= 2;
		while (!r.done && rt_now() < end)
		{
			Msg a;
			{
				std::unique_lock<std::mutex> lock(w.net.mutex);
				uint64_t next = end;
				if (!take(w.net.responses[&r], a, next))
				{
					waitUntil(w.net, lock, next);
					continue;
				}
			}
			response::Value value;
			J said;
			if (!receive("client", a.bytes, value, said))
				continue;
			r.done = understand(r, std::move(value), said);
			if (!r.done && !a.damaged)
			{
				Guard gd;
				rt_fail("response", "request %d: not an answer of the service: %s", r.id, print(said).c_str());
			}
			if (!r.done)
				count(C_msg_stale);
		}
	}
}

static void inProcess(World& w, Req& r)
{
	std::shared_ptr<Server> server;
	{
		std::lock_guard<std::mutex> lock(w.net.mutex);
		server = w.net.server;
	}
	peg::ast ast { r.op->object() };
	std::string name(r.name);
	auto out = serve(w, *server, r, ast, name, r.op->variables(r.variables));
	const J body = fromValue(out);
	{
		Guard gd;
		r.bodies.push_back(weak(body));
	}
	if (!understand(r, std::move(out), body))
		rt_fail("response", "request %d: cannot happen", r.id);
}

// ---- set up -----------------------------------------------------------------------------------------
static std::string prefixed(const std::string& text)
{
	// clientgen writes the trimmed document line by line
	size_t a = text.find_first_not_of(" \t\n\r\f\v"), b = text.find_last_not_of(" \t\n\r\f\v");
	std::string t = "\n", in = text.substr(a, b + 1 - a) + "\n", line;
	for (char c : in)
	{
		if (c != '\n')
		{
			line += c;
			continue;
		}
		t += "\t\t" + line + "\n";
		line.clear();
	}
	return t + "\t";
}

static void shift(std::vector<Sel>& v)
{
	for (auto& x : v)
	{
		x.line += 1;
		x.col += 2;
		shift(x.sub);
	}
}

static Req* makeReq(const SchemaDef& s, const ClientOp& op, int id)
{
	auto* r = new Req;
	r->id = id;
	r->op = &op;
	r->doc = clientDoc(s, op.doc, op.seed);
	for (auto& o : r->doc.ops)
		shift(o.sel);
	for (auto& f : r->doc.frags)
		shift(f.sel);
	const auto& od = r->doc.ops[op.op];
	r->name = od.name;
	r->subscription = od.kind == OpDef::Subscription;
	r->launch = drawLaunch();
	r->inProcess = draw(3) == 2;
	r->shape = shapeOf(s, r->doc, od.sel);
	r->variables = J::map();
	for (int v : od.vars)
	{
		auto& x = r->doc.vars[v];
		x.value = complete(s, x.type, genValue(s, x.type));
		r->variables.add(x.name, x.value);
	}
	rt_event("request %d: document %d, %s %s, variables %s", id, op.doc, od.name.c_str(),
		r->inProcess ? "in process" : "over the network", print(r->variables).c_str());
	const std::string text = prefixed(r->doc.text);
	r->sent = J::map();
	r->sent.add("query", J::str(text));
	r->sent.add("operationName", J::str(r->name));
	r->sent.add("variables", weak(r->variables));
	static const uint32_t modes[] = { 31, 1, 5, 26 };
	ExecOpts eo;
	eo.failPer1000 = eo.elemFailPer1000 = fdraw(3) == 2 ? 150 : 0;
	eo.maxCalls = 40;
	eo.typed = true;
	eo.modes = modes[draw(4)] | 1;
	auto plan = [&](Plan& p, const char* kind, uint64_t root, int context, const ExecOpts& e) {
		p.id = id;
		execute(s, r->doc, op.op, root, e, p, ("r" + std::to_string(id) + kind).c_str());
		if (context >= 0)
			p.context = context;
		if (p.tooBig)
			rt_finish(RT_DISCARD, "too big", "-");
	};
	if (r->subscription)
	{
		const uint64_t root = rootObj(s, s.subscription);
		plan(r->plan, "e", root + 1000 * (uint64_t)id, 3, eo);
		ExecOpts no = eo;
		no.failPer1000 = no.elemFailPer1000 = 0;
		plan(r->notify, "n", root, 2, no);
		plan(r->unnotify, "u", root, 4, no);
		const Sel* x = &od.sel[0];
		while (x->k != Sel::Field)
			x = x->k == Sel::Spread ? &r->doc.frags[x->frag].sel[0] : &x->sub[0];
		r->field = s.fields[x->field].name;
	}
	else
	{
		r->plan.checkSerial = od.kind == OpDef::Mutation;
		plan(r->plan, "t", rootObj(s, od.kind == OpDef::Mutation ? s.mutation : s.query), -1, eo);
		count(od.kind == OpDef::Mutation ? C_mutations : C_queries);
	}
	return r;
}

static void c12()
{
	g_floatTolerance = 1e-14; // the reader rounds differently in the last digit
	World w;
	w.g = GenSchema::all[draw(3) == 2 ? 2 : 0];
	SchemaDef* s;
	auto* clients = new std::vector<std::vector<Req*>>;
	uint32_t servers;
	{
		Guard gd;
		s = new SchemaDef(w.g->def());
		const uint32_t nc = 1 + draw(3);
		count(C_concurrent_clients, nc);
		std::vector<ClientOp*> ops;
		for (auto* o : ClientOp::all())
			if (o->schema == w.g->index)
				ops.push_back(o);
		int id = 1;
		bool net = false;
		for (uint32_t c = 0; c < nc; ++c)
		{
			clients->emplace_back();
			for (uint32_t k = 0, n = 1 + draw(nc > 1 ? 2 : 3); k < n; ++k)
			{
				clients->back().push_back(makeReq(*s, *ops[draw((uint32_t)ops.size())], id++));
				net |= !clients->back().back()->inProcess;
			}
		}
		servers = net ? 1 + draw(3) : 0;
		auto& n = w.net;
		n.faulty = (int)fdraw(24);
		n.rate = 1 + fdraw(8);
		for (int i = 0; i < 2; ++i)
			if (fchance(1, 4))
				n.crash[i] = (int)fdraw(20);
		if (fchance(1, 4))
		{
			n.partitionAt = (int)fdraw(16);
			n.partitionFor = 1000000ull * (1 + fdraw(3000));
		}
	}
	for (auto& c : *clients)
		for (auto* r : c)
		{
			const std::string& text = r->op->text();
			Guard gd;
			const std::string want = r->sent.get("query")->s;
			if (text != want)
				rt_fail("text", "request text differs from the document\n  got      %s\n  expected %s", visible(text).c_str(),
					visible(want).c_str());
		}
	{
		Ctx ctx;
		ctx.s = s;
		GenShared shared;
		shared.on = draw(2);
		w.ctx = &ctx;
		w.shared = &shared;
		restart(w);
		std::vector<std::thread> serving, asking;
		for (uint32_t i = 0; i < servers; ++i)
			serving.emplace_back([&] {
				serverThread(w);
			});
		auto client = [&](std::vector<Req*>& reqs) {
			for (auto* r : reqs)
				if (r->inProcess)
					inProcess(w, *r);
				else
					overNetwork(w, *r);
		};
		for (size_t i = 1; i < clients->size(); ++i)
			asking.emplace_back([&, i] {
				client((*clients)[i]);
			});
		client((*clients)[0]);
		for (auto& t : asking)
			t.join();
		{
			std::lock_guard<std::mutex> lock(w.net.mutex);
			w.net.stop = true;
			w.net.requests.clear();
		}
		w.net.arrived.notify_all();
		for (auto& t : serving)
			t.join();
		ctx.joinAll();
		w.net.server.reset();
	}
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE))
		rt_fail("leak", "%ld objects, %ld states and %ld services are still alive", live(L_OBJECT), live(L_STATE),
			live(L_SERVICE));
}

static Workload w12("C12", c12);

} // namespace sim
