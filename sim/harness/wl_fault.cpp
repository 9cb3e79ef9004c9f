// C10: allocations and thread creation fail at any point.
#include <sstream>
#include "mutate.h"

#include "graphqlservice/GraphQLParse.h"

#include <memory>

namespace sim {
namespace {

enum OpKind { O_PARSE, O_VALIDATE, O_RESOLVE, O_SUBSCRIBE, O_DELIVER, O_UNSUBSCRIBE, O_COUNT };
const char* const opNames[] = { "parse", "validate", "resolve", "subscribe", "deliver", "unsubscribe" };

struct FOp
{
	OpKind kind = O_RESOLVE;
	bool async = false;
	std::launch launch = std::launch::deferred;
	uint32_t at = 0, len = 1; // fraction of the operation's allocations or threads, in 1/65536
	int what = 0;             // 0 allocation, 1 thread, 2 both
	int take = 0;             // resolve: 0 get, 1 drop
};

struct NoFault
{
	NoFault() { rt_nofault(1); }
	~NoFault() { rt_nofault(-1); }
};

struct FSub
{
	int id = 0;
	Doc* doc = nullptr;
	std::string field;
	std::map<int, Plan*> events;
	Plan* notify = nullptr;
	Plan* unnotify = nullptr;
	bool live = false, maybe = false;
	service::SubscriptionKey key = 0;
	int called = 0;
	std::vector<J> got;
	int failed = 0; // callbacks whose future threw
	long alive = 0;
};

struct Tok : Counted<L_CALLBACK>
{
	FSub* sub;
	explicit Tok(FSub* s)
		: sub(s)
	{
		Guard g;
		sub->alive++;
	}
	Tok(const Tok& o)
		: Counted(o)
		, sub(o.sub)
	{
		Guard g;
		sub->alive++;
	}
	~Tok()
	{
		Guard g;
		sub->alive--;
	}
	Tok& operator=(const Tok&) = delete;
};

struct Model
{
	SchemaDef* s = nullptr;
	Doc* doc = nullptr;
	int op = 0;
	std::string text, invalid, verdict;
	std::vector<Plan*> plans; // one per execution
	size_t nextPlan = 0;
	std::vector<FSub> subs;
	int nextEvent = 1;
	std::shared_ptr<DynService> svc;
	Ctx* ctx = nullptr;
	peg::ast ast, bad;
	bool dry = false;
};

// where does the response fall short of the fault-free one?
void shortfall(const J& want, const J& got, const J& path, std::vector<J>& nulled, std::string& wrong)
{
	if (print(want) == print(got))
		return;
	if (got.k == J::Null)
	{
		nulled.push_back(path);
		return;
	}
	if (want.k == J::Map && got.k == J::Map && want.m.size() == got.m.size())
	{
		for (size_t i = 0; i < want.m.size(); ++i)
		{
			if (want.m[i].first != got.m[i].first)
				break;
			J p = path;
			p.l.push_back(J::str(want.m[i].first));
			shortfall(want.m[i].second, got.m[i].second, p, nulled, wrong);
			if (i + 1 == want.m.size())
				return;
		}
	}
	else if (want.k == J::List && got.k == J::List && want.l.size() == got.l.size())
	{
		for (size_t i = 0; i < want.l.size(); ++i)
		{
			J p = path;
			p.l.push_back(J::integer((int)i));
			shortfall(want.l[i], got.l[i], p, nulled, wrong);
		}
		return;
	}
	wrong += "\n    at " + print(path) + ": " + print(got) + " instead of " + print(want);
}

void checkFaulty(const Plan& p, const J& got, const char* what)
{
	if (rt_faults.alloc_failed + rt_faults.thread_failed == 0)
	{
		auto d = diffResponse(p, got);
		if (d.first)
			rt_fail(d.first, "%s", d.second.c_str());
		return;
	}
	const J* data = got.get("data");
	const J* errors = got.get("errors");
	std::vector<J> nulled;
	std::string wrong;
	if (!data || got.k != J::Map)
		rt_fail("response", "%s: malformed response %s", what, print(got).c_str());
	shortfall(p.data, *data, J::list(), nulled, wrong);
	if (!wrong.empty())
		rt_fail("response", "%s: silently altered response%s\n  document: %s\n  response: %s", what, wrong.c_str(),
			p.doc->text.c_str(), print(got).c_str());
	for (auto& n : nulled)
	{
		bool reported = false;
		if (errors && errors->k == J::List)
			for (auto& e : errors->l)
			{
				auto* path = e.get("path");
				// whatever could not be computed is reported, at its place or - if even that failed - without a place
				reported |= !path || print(*path) == print(n);
			}
		if (!reported)
			rt_fail("response", "%s: %s is null, but no error reports it\n  document: %s\n  expected %s\n  response %s", what,
				print(n).c_str(), p.doc->text.c_str(), print(p.data).c_str(), print(got).c_str());
	}
}

void callback(FSub& sub, std::future<response::Value>&& f)
{
	bool ok = true;
	response::Value doc;
	try
	{
		doc = f.get();
	}
	catch (std::exception&)
	{
		ok = false;
	}
	NoFault n;
	J j = fromValue(doc);
	Guard g;
	rt_event("callback %d%s", sub.id, ok ? "" : " without a response");
	count(C_delivered_callbacks);
	sub.called++;
	if (ok)
		sub.got.push_back(std::move(j));
	else
		sub.failed++;
}

service::SubscriptionParams subParams(FSub& sub)
{
	auto state = std::make_shared<SimState>(nullptr);
	{
		Guard g;
		state->events = sub.events;
		state->notify = new Plan(*sub.notify); // a failed subscribe may be repeated
		state->unnotify = sub.unnotify;
	}
	return { std::move(state), peg::parseString(sub.doc->text), std::string(), toValue(providedVariables(*sub.doc)) };
}

void subscribe(Model& m, FSub& sub, bool async, std::launch launch)
{
	service::SubscriptionCallback cb = [token = Tok(&sub)](std::future<response::Value> f) {
		callback(*token.sub, std::move(f));
	};
	sub.key = async ? m.svc->subscribe(launch, subParams(sub), std::move(cb)).get()
					: m.svc->subscribe(subParams(sub), std::move(cb));
	sub.live = true;
}

std::string resolveOnce(Model& m, const peg::ast& a, std::launch launch, bool drop, bool strict, const char* what)
{
	Plan* p;
	{
		Guard g;
		p = m.plans.at(m.nextPlan++);
	}
	auto& ast = const_cast<peg::ast&>(a);
	std::future<response::Value> f;
	{
		auto state = std::make_shared<SimState>(p);
		response::Value vars = toValue(providedVariables(*m.doc));
		f = m.svc->resolve(launch, state, ast, m.doc->ops[m.op].name, std::move(vars));
	}
	if (drop)
	{
		f = {};
		return {};
	}
	auto doc = f.get();
	f = {};
	NoFault n;
	if (strict)
	{
		checkResponse(*p, doc);
		return {};
	}
	J j = fromValue(doc);
	Guard g;
	checkFaulty(*p, j, what);
	return {};
}

// the same errors; std::ostringstream ignores that it ran out of memory, so messages may be cut short
bool sameErrors(const std::string& want, const std::string& got)
{
	std::istringstream a(want), b(got);
	std::string x, y;
	for (;;)
	{
		const bool m = !!std::getline(a, x), n = !!std::getline(b, y);
		if (!m || !n)
			return m == n;
		const auto at = x.rfind(" @"), at2 = y.rfind(" @");
		if (at == x.npos || at2 == y.npos || x.substr(at) != y.substr(at2) || x.compare(0, at2, y, 0, at2) != 0)
			return false;
	}
}

// the operation whose allocations or threads fail
void perform(Model& m, const FOp& o, FSub& target, int event)
{
	switch (o.kind)
	{
		case O_PARSE:
		{
			auto a = peg::parseString(m.text);
			NoFault n;
			m.ast = std::move(a);
			break;
		}
		case O_VALIDATE:
		{
			if (m.verdict.empty() || !o.async)
			{
				auto errors = m.svc->validate(m.ast);
				NoFault n;
				const std::string got = errorList(errors);
				Guard g;
				if (!got.empty())
					rt_fail("verdict", "validate under faults rejects a valid document: %s\n%s", got.c_str(), m.text.c_str());
			}
			if (!m.verdict.empty() && (o.async || o.take))
			{
				auto e = m.svc->validate(m.bad);
				NoFault n;
				const std::string v = errorList(e);
				Guard g;
				if (!sameErrors(m.verdict, v))
					rt_fail("verdict", "validate under faults reports\n%sinstead of\n%s%s", v.c_str(), m.verdict.c_str(),
						m.invalid.c_str());
			}
			break;
		}
		case O_RESOLVE: resolveOnce(m, m.ast, o.launch, o.take == 1, false, "resolve under faults"); break;
		case O_SUBSCRIBE: subscribe(m, target, o.async, o.launch); break;
		case O_DELIVER:
		{
			auto obj = std::make_shared<DynObject>(*m.ctx, m.s->subscription,
				rootObj(*m.s, m.s->subscription) + 1000 * (uint64_t)event, event);
			m.svc->deliver(o.launch, target.field, obj);
			break;
		}
		case O_UNSUBSCRIBE:
			if (o.async)
				m.svc->unsubscribe(o.launch, target.key).get();
			else
				m.svc->unsubscribe(target.key);
			break;
		default: break;
	}
}

// event to every live subscription, without faults
void deliverAll(Model& m, int event, std::launch launch, const char* when)
{
	std::set<std::string> fields;
	{
		Guard g;
		for (auto& sub : m.subs)
		{
			fields.insert(sub.field);
			sub.called = sub.failed = 0;
			sub.got.clear();
		}
	}
	for (auto& f : fields)
	{
		auto obj = std::make_shared<DynObject>(*m.ctx, m.s->subscription,
			rootObj(*m.s, m.s->subscription) + 1000 * (uint64_t)event, event);
		m.svc->deliver(launch, f, obj);
	}
	Guard g;
	for (auto& sub : m.subs)
	{
		if (sub.maybe ? sub.called > 1 : sub.called != (sub.live ? 1 : 0))
			rt_fail("delivery", "%s, event %d was delivered %d times to subscription %d, which %s\n  document: %s", when, event,
				sub.called, sub.id, sub.live ? "is live" : "does not exist", sub.doc->text.c_str());
		if (sub.failed)
			rt_fail("delivery", "%s, the response of event %d for subscription %d is an exception", when, event, sub.id);
		for (auto& j : sub.got)
		{
			auto d = diffResponse(*sub.events.at(event), j);
			if (d.first)
				rt_fail(d.first, "%s, %s", when, d.second.c_str());
		}
	}
}

void prepare(Model& m)
{
	m.svc = makeService(*m.ctx, true);
	m.ast = peg::parseString(m.text);
	if (!m.verdict.empty())
		m.bad = peg::parseString(m.invalid);
	subscribe(m, m.subs[0], false, std::launch::deferred);
}

void c10()
{
	Model* m[2] = { new Model, new Model };
	std::vector<FOp> ops;
	bool bystander = false, twice = false;
	std::launch byLaunch = std::launch::deferred, after = std::launch::deferred;
	Plan* byPlan = nullptr;
	static const int EVENTS = 5;
	{
		Guard g;
		g_noBoth = true;
		rt_expected_failstop = 1;
		SchemaOpts so;
		so.subscription = true;
		so.maxObjects = 2;
		so.maxFields = 3;
		auto* s = new SchemaDef(genSchema(so));
		static const uint32_t modes[] = { 1, 31, 5, 26, 16, 3 };
		ExecOpts eo;
		eo.maxCalls = 20;
		eo.modes = modes[draw(6)] | 1;
		DocOpts o;
		o.budget = 2 + (int)draw(8);
		auto* doc = new Doc(genDoc(*s, o));
		const int op = doc->pickOp();
		std::vector<Plan> plans;
		for (int i = 0; i < 4; ++i)
		{
			Plan p;
			p.id = i;
			execute(*s, *doc, op, rootObj(*s, s->query), eo, p, "q");
			if (p.tooBig)
				rt_finish(RT_DISCARD, "too big", "-");
			plans.push_back(p);
		}
		rt_event("document %s", doc->text.c_str());
		std::string invalid, verdict;
		if (chance(1, 2))
		{
			invalid = mutateDoc(*s, doc->text);
			verdict = freshVerdict(*s, invalid);
		}
		struct SubModel
		{
			Doc* doc;
			std::vector<Plan> plans;
			std::string field;
		};
		std::vector<SubModel> subs(2);
		for (int i = 0; i < 2; ++i)
		{
			DocOpts so2;
			so2.subscription = true;
			so2.multiOp = false;
			so2.budget = 1 + (int)draw(4);
			so2.depth = 3;
			auto& x = subs[i];
			x.doc = new Doc(genDoc(*s, so2));
			for (int e = 0; e < EVENTS + 2; ++e)
			{
				Plan p;
				p.id = 100 * (i + 1) + e;
				const bool notify = e >= EVENTS;
				execute(*s, *x.doc, 0, rootObj(*s, s->subscription) + (notify ? 0 : 1000 * (uint64_t)e), eo, p, "e");
				if (notify)
					p.context = e == EVENTS ? 2 : 4;
				if (p.tooBig)
					rt_finish(RT_DISCARD, "too big", "-");
				x.plans.push_back(p);
			}
			auto& c = x.plans[0].calls.at(x.plans[0].rootKeys.at(0));
			x.field = s->fields[c.field].name;
			rt_event("subscription %d field %s: %s", i, x.field.c_str(), x.doc->text.c_str());
		}
		for (int k = 0; k < 2; ++k)
		{
			Model& y = *m[k];
			y.dry = k == 0;
			y.s = s;
			y.doc = doc;
			y.op = op;
			y.text = doc->text;
			y.invalid = invalid;
			y.verdict = verdict;
			for (auto& p : plans)
				y.plans.push_back(new Plan(p));
			y.subs.resize(2);
			for (int i = 0; i < 2; ++i)
			{
				FSub& f = y.subs[i];
				f.id = i;
				f.doc = subs[i].doc;
				f.field = subs[i].field;
				for (int e = 0; e < EVENTS; ++e)
					f.events[e] = new Plan(subs[i].plans[e]);
				f.notify = new Plan(subs[i].plans[EVENTS]);
				f.unnotify = new Plan(subs[i].plans[EVENTS + 1]);
			}
		}
		twice = chance(1, 3);
		for (int i = 0; i <= (int)twice; ++i)
		{
			FOp f;
			static const OpKind kinds[] = { O_RESOLVE, O_VALIDATE, O_RESOLVE, O_SUBSCRIBE, O_DELIVER, O_UNSUBSCRIBE, O_PARSE,
				O_DELIVER };
			f.kind = kinds[draw(8)];
			f.async = chance(1, 2);
			f.launch = drawLaunch();
			f.take = chance(1, 8) ? 1 : 0;
			f.at = fdraw(65536);
			static const uint32_t lens[] = { 1, 1, 1, 2, 3, 10, 100, 100000 };
			f.len = lens[fdraw(8)];
			const uint32_t w = fdraw(8);
			f.what = w < 6 ? 0 : w == 6 ? 1 : 2;
			ops.push_back(f);
		}
		bystander = chance(1, 3);
		byLaunch = drawLaunch();
		after = drawLaunch();
		byPlan = new Plan(plans[3]);
	}
	{
		Ctx ctx;
		ctx.s = m[0]->s;
		ctx.checkCalls = false;
		// a fault-free run counts the allocations and threads of every operation
		std::vector<int64_t> allocs, threads;
		for (int k = 0; k < 2; ++k)
		{
			Model& y = *m[k];
			y.ctx = &ctx;
			prepare(y);
			std::thread by;
			peg::ast byAst;
			if (!y.dry && bystander)
			{
				byAst = peg::parseString(y.text);
				by = std::thread([&y, &byAst, byLaunch, byPlan] {
					auto state = std::make_shared<SimState>(byPlan);
					auto f = y.svc->resolve(byLaunch, state, byAst, y.doc->ops[y.op].name,
						toValue(providedVariables(*y.doc)));
					state.reset();
					auto doc = f.get();
					checkResponse(*byPlan, doc);
				});
			}
			for (size_t i = 0; i < ops.size(); ++i)
			{
				const FOp& o = ops[i];
				FSub& target = o.kind == O_SUBSCRIBE || (i == 1 && y.subs[1].live) ? y.subs[1] : y.subs[0];
				if ((o.kind == O_SUBSCRIBE && (target.live || target.maybe)) || (o.kind == O_UNSUBSCRIBE && !target.live))
				{
					Guard g;
					allocs.push_back(0);
					threads.push_back(0);
					continue;
				}
				const int event = 1 + (int)i;
				const int before = target.called;
				{
					Guard g;
					auto& f = rt_faults;
					f.alloc_count = f.thread_count = 0;
					f.alloc_failed = f.thread_failed = 0;
					f.only_thread = bystander ? rt_self() : -1;
					if (y.dry)
					{
						f.alloc_at = f.thread_at = INT64_MAX / 2;
						f.alloc_len = f.thread_len = 1;
					}
					else
					{
						f.alloc_at = o.what != 1 ? allocs[i] * (int64_t)o.at / 65536 : -1;
						f.alloc_len = o.len;
						// a bystander needs its threads
						f.thread_at = o.what != 0 && !bystander ? threads[i] * (int64_t)o.at / 65536 : -1;
						f.thread_len = o.len;
						rt_event("operation %s%s %s", opNames[o.kind], o.async ? " async" : "", launchName(o.launch));
						if (o.kind == O_DELIVER && target.live)
							count(C_deliver);
					}
				}
				bool ok = true;
				try
				{
					perform(y, o, target, event);
				}
				catch (std::exception&)
				{
					ok = false;
				}
				{
					Guard g;
					auto& f = rt_faults;
					if (y.dry)
					{
						allocs.push_back(f.alloc_count);
						threads.push_back(f.thread_count);
						if (!ok)
							rt_fail("harness", "operation %s fails without faults", opNames[o.kind]);
					}
					f.alloc_at = f.thread_at = -1;
					count(C_fault_alloc, (uint64_t)f.alloc_failed);
					count(C_fault_thread, (uint64_t)f.thread_failed);
					rt_event("operation %s %s", opNames[o.kind], ok ? "returned" : "failed");
					if (!ok && !f.alloc_failed && !f.thread_failed && !y.dry)
						rt_fail("operation", "operation %s failed without a fault", opNames[o.kind]);
					switch (o.kind)
					{
						case O_UNSUBSCRIBE:
							if (!ok)
								target.maybe = true;
							target.live = false;
							break;
						case O_DELIVER:
							for (auto& sub : y.subs)
							{
								for (auto& j : sub.got)
									if (sub.events.count(event))
										checkFaulty(*sub.events.at(event), j, "deliver under faults");
								sub.got.clear();
							}
							if (ok && target.live && target.called != before + 1)
								rt_fail("delivery", "deliver under faults returned, but the callback was called %d times",
									target.called - before);
							break;
						default: break;
					}
				}
				if (o.kind == O_PARSE && !ok && !y.dry)
					y.ast = peg::parseString(y.text);
			}
			if (by.joinable())
				by.join();
			ctx.joinAll();
			if (y.dry)
			{
				for (auto& sub : y.subs)
					if (sub.live)
						y.svc->unsubscribe(sub.key);
				y.svc.reset();
				y.ast = {};
				y.bad = {};
				continue;
			}
			// as good as new
			resolveOnce(y, y.ast, after, false, true, "retry");
			auto fresh = peg::parseString(y.text);
			y.ast = {};
			resolveOnce(y, fresh, after, false, true, "retry");
			auto bad = peg::parseString(y.invalid.empty() ? y.text : y.invalid);
			const std::string got = errorList(y.svc->validate(bad));
			{
				Guard g;
				if (got != y.verdict)
					rt_fail("verdict", "after the faults, validate reports\n%sinstead of\n%s%s", got.c_str(), y.verdict.c_str(),
						y.invalid.c_str());
			}
			if (!y.verdict.empty())
			{
				const std::string again = errorList(y.svc->validate(y.bad));
				Guard g;
				if (again != y.verdict)
					rt_fail("verdict", "after the faults, validate reports\n%sfor the same document instead of\n%s%s", again.c_str(),
						y.verdict.c_str(), y.invalid.c_str());
			}
			deliverAll(y, 3, after, "after the faults");
			for (auto& sub : y.subs)
				if (sub.live)
				{
					y.svc->unsubscribe(sub.key);
					sub.live = false;
				}
			deliverAll(y, 4, std::launch::deferred, "after unsubscribing");
			for (auto& sub : y.subs)
			{
				Guard g;
				if (!sub.maybe && sub.alive)
					rt_fail("leak", "the callback of subscription %d is still alive", sub.id);
			}
			y.svc.reset();
		}
	}
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE) || live(L_CALLBACK))
		rt_fail("leak", "%ld objects, %ld states, %ld services and %ld callbacks are still alive", live(L_OBJECT),
			live(L_STATE), live(L_SERVICE), live(L_CALLBACK));
}
Workload w10("C10", c10);

} // namespace
} // namespace sim
