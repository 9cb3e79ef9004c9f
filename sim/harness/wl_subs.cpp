// Subscriptions: C07 (delivery) and C08 (registration, failures, re-entrancy).
#include "dyn.h"
#include "workloads.h"

#include "graphqlservice/GraphQLParse.h"

#include <algorithm>
#include <memory>

namespace sim {
namespace {

struct World;
struct Op
{
	enum K { Subscribe, Unsubscribe, Deliver, UnsubscribeUnknown } k = Deliver;
	int index = 0;
	bool async = false;
	std::launch launch = std::launch::deferred;
	bool drop = false; // drop the future of an async subscribe
	bool hold = false; // take it at the end
};

enum Bad { GOOD, BAD_ROOTS, BAD_NAME, BAD_KIND, BAD_SYNTAX };

struct Sub
{
	int id = 0;
	Doc* doc = nullptr;
	int op = 0;
	int shared = -1; // the document object of the pool
	std::string text, opName;
	Bad bad = GOOD;
	std::string field;
	J args, dirs; // of the root field
	std::map<int, Plan*> events;
	Plan* notify = nullptr;
	Plan* unnotify = nullptr;
	int take = 0; // callback: 0 get, 1 keep the future, 2 drop it
	bool throws = false;
	std::vector<Op> nested; // at the first callback
	std::vector<Op> last;	// when the callback is destroyed
	struct World* world = nullptr;
	// history
	uint64_t subStart = 0, subEnd = 0, unStart = 0, unEnd = 0;
	bool registered = false, nestedDone = false;
	service::SubscriptionKey key = 0;
	int entered = 0, completed = 0;
	bool lost = false; // its key was dropped
	std::future<service::SubscriptionKey> heldKey;
	std::future<void> heldEnd;
	long alive = 0; // copies of the callback
	std::vector<J> got;
	std::vector<std::future<response::Value>> kept;
};

struct Event
{
	int id = 0;
	std::string name;
	int kind = 0; // overload
	bool launchOverload = false, defaultObject = false, throwingFilter = false;
	std::launch launch = std::launch::deferred;
	J args, dirs;
	uint64_t start = 0, end = 0;
	bool failed = false; // ended with an exception that is not a callback's
	bool matches(const Sub& s) const;
	bool accepts(std::string_view name, const J& v) const
	{
		return hmix(hstr(hstr((uint64_t)id + 11, name), print(v)), 7) % 4 != 0;
	}
};

bool Event::matches(const Sub& s) const
{
	auto in = [](const J& have, const J& required) {
		for (auto& r : required.m)
		{
			auto* h = have.get(r.first);
			if (!h || print(*h) != print(r.second))
				return false;
		}
		return true;
	};
	auto all = [&](const J& required) {
		for (auto& r : required.m)
			if (!accepts(r.first, r.second))
				return false;
		return true;
	};
	switch (kind)
	{
		case 0: return true;
		case 1: return in(args, s.args);
		case 2: return in(args, s.args) && in(dirs, s.dirs);
		case 3: return all(s.args);
		default: return all(s.args) && all(s.dirs);
	}
}

struct CallbackError : std::runtime_error
{
	CallbackError()
		: std::runtime_error("callback")
	{
	}
};
struct FilterError : std::runtime_error
{
	FilterError()
		: std::runtime_error("filter")
	{
	}
};

struct World
{
	const SchemaDef* s = nullptr;
	bool defaultObject = true;
	std::vector<Sub*> subs;
	std::vector<Event*> events;
	std::vector<Op> before, after;
	std::vector<std::vector<Op>> threads;
	std::vector<int> unsubbed; // subscriptions with an unsubscribe operation somewhere
	std::vector<std::pair<std::string, peg::ast>> pool; // documents that several subscriptions share
	uint64_t clock = 0;
	DynService* svc = nullptr;
	Ctx* ctx = nullptr;
	bool open = false; // callbacks may use the service

	void run(const std::vector<Op>& ops)
	{
		for (auto& o : ops)
			run(o);
	}
	void run(const Op& o)
	{
		switch (o.k)
		{
			case Op::Subscribe: subscribe(*subs[o.index], o); break;
			case Op::Unsubscribe: unsubscribe(*subs[o.index], o); break;
			case Op::Deliver: deliver(*events[o.index]); break;
			case Op::UnsubscribeUnknown: unknown(o); break;
		}
	}
	bool threadFault() const { return rt_faults.thread_failed > 0; }

	void subscribe(Sub& sub, const Op& o);
	void unsubscribe(Sub& sub, const Op& o);
	void unknown(const Op& o);
	void deliver(Event& e);
	void callback(Sub& sub, std::future<response::Value>&& f);
	void check(bool final);
};

// one per copy of a callback
struct Token : Counted<L_CALLBACK>
{
	Sub* sub;
	explicit Token(Sub* s)
		: sub(s)
	{
		add(1);
	}
	Token(const Token& o)
		: Counted(o)
		, sub(o.sub)
	{
		add(1);
	}
	~Token();
	Token& operator=(const Token&) = delete;
	void add(int n)
	{
		Guard g;
		sub->alive += n;
	}
};

// what a callback owns may use the service when it is destroyed
Token::~Token()
{
	bool again;
	{
		Guard g;
		sub->alive--;
		again = !sub->alive && sub->world->open && !sub->last.empty();
	}
	if (!again)
		return;
	std::vector<Op> ops;
	{
		Guard g;
		ops.swap(sub->last);
		rt_event("end of callback %d", sub->id);
		count(C_reentrant_calls);
	}
	sub->world->run(ops);
	Guard g;
	ops = {};
}

int evaluated(const Sub& s, const Event& e)
{
	auto i = s.events.find(e.id);
	if (i == s.events.end())
		return 0;
	auto& p = *i->second;
	if (p.rootKeys.empty())
		return 0;
	auto c = p.calls.find(p.rootKeys.at(0));
	return c == p.calls.end() ? 0 : c->second.called;
}

void World::callback(Sub& sub, std::future<response::Value>&& f)
{
	bool nest = false;
	{
		Guard g;
		rt_event("callback %d", sub.id);
		count(C_delivered_callbacks);
		sub.entered++;
		if (!sub.alive)
			rt_fail("lifetime", "callback of subscription %d called after it was destroyed", sub.id);
		nest = !sub.nestedDone && !sub.nested.empty();
		sub.nestedDone = true;
	}
	auto done = [&] {
		Guard g;
		rt_event("callback %d done", sub.id);
		sub.completed++;
	};
	if (nest && sub.take != 1)
	{
		count(C_reentrant_calls);
		run(sub.nested);
		nest = false;
	}
	switch (sub.take)
	{
		case 0:
		{
			auto doc = f.get();
			J j = fromValue(doc);
			Guard g;
			sub.got.push_back(std::move(j));
			break;
		}
		case 1:
		{
			Guard g;
			sub.kept.push_back(std::move(f));
			break;
		}
		default:
		{
			std::future<response::Value> gone(std::move(f));
			count(C_dropped_before);
			break;
		}
	}
	if (nest)
	{
		count(C_reentrant_calls);
		run(sub.nested);
	}
	done();
	if (sub.throws)
	{
		count(C_fault_callback_throw);
		throw CallbackError();
	}
}

void World::subscribe(Sub& sub, const Op& o)
{
	const bool notified = o.async && defaultObject;
	const bool mustFail = sub.bad != GOOD || (notified && !sub.notify->errors.empty());
	auto state = std::make_shared<SimState>(nullptr);
	{
		Guard g;
		state->events = sub.events;
		state->notify = sub.notify;
		state->unnotify = sub.unnotify;
	}
	std::string text(sub.text), name(sub.opName);
	service::SubscriptionParams params { std::move(state),
		sub.shared < 0 ? peg::parseString(text) : pool[sub.shared].second, std::move(name),
		toValue(providedVariables(*sub.doc)) };
	{
		Guard g;
		sub.subStart = ++clock;
		rt_event("subscribe %d%s %s", sub.id, o.async ? " async" : "", launchName(o.launch));
	}
	bool ok = false;
	std::string errors;
	try
	{
		service::SubscriptionCallback cb = [this, token = Token(&sub)](std::future<response::Value> f) {
			callback(*token.sub, std::move(f));
		};
		service::SubscriptionKey key = 0;
		if (o.async)
		{
			auto f = svc->subscribe(o.launch, std::move(params), std::move(cb));
			if (o.drop)
			{
				f = {};
				count(C_dropped_running);
				sub.lost = true;
				return; // registered or not
			}
			if (o.hold)
			{
				Guard g;
				sub.heldKey = std::move(f);
				return;
			}
			key = f.get();
		}
		else
			key = svc->subscribe(std::move(params), std::move(cb));
		ok = true;
		Guard g;
		sub.key = key;
	}
	catch (service::schema_exception& ex)
	{
		std::string what = ex.what();
		auto v = fromValue(ex.getErrors());
		Guard g;
		errors = print(v);
		const J* first = v.l.empty() ? nullptr : v.l[0].get("message");
		if (!first || first->s != what)
			rt_fail("error", "the exception of subscribe says '%s', its errors are %s", what.c_str(), errors.c_str());
	}
	catch (std::exception& ex)
	{
		Guard g;
		errors = std::string("std: ") + ex.what();
	}
	Guard g;
	sub.subEnd = ++clock;
	rt_event("subscribe %d %s", sub.id, ok ? ("key " + std::to_string(sub.key)).c_str() : errors.c_str());
	if (!ok && mustFail)
	{
		count(C_subscribe_failed);
		if (sub.bad == GOOD)
		{
			count(C_fault_notify);
			for (auto& x : sub.notify->errors)
				if (errors.find(x.token) == std::string::npos && !threadFault())
					rt_fail("errors", "subscribe %d does not report the error of its notification: %s\n  reported: %s",
						sub.id, x.token.c_str(), errors.c_str());
		}
		else if (errors.empty())
			rt_fail("errors", "subscribe %d fails without an error", sub.id);
		return;
	}
	if (ok && mustFail)
		rt_fail("subscribe", "subscribe %d succeeds although %s\n  document: %s", sub.id,
			sub.bad == GOOD ? "its notification failed" : "it must be rejected", sub.text.c_str());
	if (!ok)
	{
		if (!threadFault())
			rt_fail("subscribe", "subscribe %d failed: %s\n  document: %s\n  variables: %s", sub.id, errors.c_str(),
				sub.text.c_str(), print(providedVariables(*sub.doc)).c_str());
		count(C_subscribe_failed);
		return;
	}
	count(C_subscribe_ok);
	sub.registered = true;
	for (auto* x : subs)
		if (x != &sub && x->registered && !x->unStart && x->key == sub.key)
			rt_fail("key", "subscriptions %d and %d have the same key %zu", x->id, sub.id, sub.key);
	if (notified && !threadFault())
		checkCalls(*sub.notify);
}

void World::unsubscribe(Sub& sub, const Op& o)
{
	service::SubscriptionKey key;
	{
		Guard g;
		if (!sub.registered || sub.unStart)
			return;
		sub.unStart = ++clock;
		key = sub.key;
		count(C_unsubscribe);
		rt_event("unsubscribe %d key %zu%s %s", sub.id, key, o.async ? " async" : "", launchName(o.launch));
	}
	bool ok = true;
	try
	{
		if (o.async)
		{
			auto f = svc->unsubscribe(o.launch, key);
			if (o.hold)
			{
				Guard g;
				sub.heldEnd = std::move(f);
				return;
			}
			f.get();
		}
		else
			svc->unsubscribe(key);
	}
	catch (std::exception& ex)
	{
		Guard g;
		ok = false;
		rt_event("unsubscribe %d: %s", sub.id, ex.what());
		if (!o.async || (sub.unnotify->errors.empty() && !threadFault()))
			rt_fail("unsubscribe", "unsubscribe %d failed: %s", sub.id, ex.what());
	}
	Guard g;
	rt_event("unsubscribe %d done", sub.id);
	if (ok)
	{
		sub.unEnd = ++clock;
		if (o.async && defaultObject && !threadFault())
			checkCalls(*sub.unnotify);
	}
}

void World::unknown(const Op& o)
{
	count(C_unknown_key);
	try
	{
		if (o.async)
			svc->unsubscribe(o.launch, 1000000 + (service::SubscriptionKey)o.index).get();
		else
			svc->unsubscribe(1000000 + (service::SubscriptionKey)o.index);
	}
	catch (std::exception& ex)
	{
		Guard g;
		rt_event("unsubscribe unknown: %s", ex.what());
	}
}

void World::deliver(Event& e)
{
	std::shared_ptr<service::Object> obj;
	if (!e.defaultObject)
		obj = std::make_shared<DynObject>(*ctx, s->subscription, rootObj(*s, s->subscription) + 1000 * (uint64_t)e.id,
			e.id);
	service::SubscriptionArguments args, dirs;
	for (auto& a : e.args.m)
		args.emplace(std::string_view(a.first), toValue(a.second));
	for (auto& a : e.dirs.m)
		dirs.emplace(std::string_view(a.first), toValue(a.second));
	service::SubscriptionFilterCallback filter = [&e](response::MapType::const_reference r) {
		J v = fromValue(r.second);
		rt_yield();
		if (e.throwingFilter)
		{
			count(C_fault_filter_throw);
			throw FilterError();
		}
		Guard g;
		return e.accepts(r.first, v);
	};
	{
		Guard g;
		if (e.start)
			return;
		e.start = ++clock;
		count(C_deliver);
		rt_event("deliver %d %s kind %d %s", e.id, e.name.c_str(), e.kind, launchName(e.launch));
	}
	const std::string name(e.name);
	bool callbackThrew = false, filterThrew = false;
	std::string other;
	try
	{
		if (e.launchOverload)
			switch (e.kind)
			{
				case 0: svc->deliver(e.launch, name, obj); break;
				case 1: svc->deliver(e.launch, name, args, obj); break;
				case 2: svc->deliver(e.launch, name, args, dirs, obj); break;
				case 3: svc->deliver(e.launch, name, filter, obj); break;
				default: svc->deliver(e.launch, name, filter, filter, obj); break;
			}
		else
			switch (e.kind)
			{
				case 0: svc->deliver(name, obj); break;
				case 1: svc->deliver(name, args, obj); break;
				case 2: svc->deliver(name, args, dirs, obj); break;
				case 3: svc->deliver(name, filter, obj); break;
				default: svc->deliver(name, filter, filter, obj); break;
			}
	}
	catch (CallbackError&)
	{
		callbackThrew = true;
	}
	catch (FilterError&)
	{
		filterThrew = true;
	}
	catch (std::exception& ex)
	{
		Guard g;
		other = ex.what();
		if (other.empty())
			other = "?";
	}
	Guard g;
	e.end = ++clock;
	rt_event("deliver %d done%s%s %s", e.id, callbackThrew ? " callback threw" : "", filterThrew ? " filter threw" : "",
		other.c_str());
	e.failed = filterThrew || !other.empty();
	if (e.defaultObject && !defaultObject)
	{
		if (other.empty())
			rt_fail("deliver", "deliver %d without any subscription object succeeds", e.id);
		return;
	}
	if (!other.empty() && !threadFault())
		rt_fail("deliver", "deliver %d failed: %s", e.id, other.c_str());
	if (filterThrew && !e.throwingFilter)
		rt_fail("deliver", "deliver %d lets another event's filter throw", e.id);
	if (callbackThrew)
	{
		bool any = false;
		for (auto* sub : subs)
			any |= sub->throws && evaluated(*sub, e);
		if (!any)
			rt_fail("deliver", "deliver %d reports the exception of a callback it did not call", e.id);
	}
	if (e.failed)
		return;
	for (auto* sub : subs)
	{
		if (sub->field != e.name || sub->bad != GOOD)
			continue;
		const int n = evaluated(*sub, e);
		const bool must = sub->registered && sub->subEnd < e.start && !sub->unStart && e.matches(*sub);
		if (must && !n)
			rt_fail("delivery", "event %d did not reach subscription %d (key %zu)\n  overload %d\n  document: %s\n"
				"  event arguments: %s directives: %s\n  subscription arguments: %s directives: %s", e.id, sub->id,
				sub->key, e.kind, sub->text.c_str(), print(e.args).c_str(), print(e.dirs).c_str(),
				print(sub->args).c_str(), print(sub->dirs).c_str());
		// every delivery that has returned has completed its callbacks
		int finished = 0;
		for (auto* x : events)
			if (x->end && !x->failed)
				finished += evaluated(*sub, *x);
		if (sub->completed < finished)
			rt_fail("delivery", "deliver %d returned, but of %d callbacks of subscription %d only %d have completed", e.id,
				finished, sub->id, sub->completed);
	}
}

// after everything has ended
void World::check(bool final)
{
	Guard g;
	for (auto* sub : subs)
	{
		int sure = 0, most = 0;
		std::vector<Event*> open;
		for (auto* e : events)
		{
			const int n = evaluated(*sub, *e);
			if (n > 1)
				rt_fail("delivery", "event %d was evaluated %d times for subscription %d", e->id, n, sub->id);
			if (!n)
				continue;
			if (!e->matches(*sub))
				rt_fail("delivery", "event %d does not match subscription %d but reached it\n  overload %d\n  document: %s\n"
					"  event arguments: %s directives: %s\n  subscription arguments: %s directives: %s", e->id, sub->id,
					e->kind, sub->text.c_str(), print(e->args).c_str(), print(e->dirs).c_str(),
					print(sub->args).c_str(), print(sub->dirs).c_str());
			if (!sub->subStart || sub->subStart > e->end)
				rt_fail("delivery", "event %d reached subscription %d before it was made", e->id, sub->id);
			if (sub->subEnd && !sub->registered && sub->subEnd < e->start)
				rt_fail("delivery", "event %d reached subscription %d although subscribing failed", e->id, sub->id);
			if (sub->unEnd && sub->unEnd < e->start)
				rt_fail("delivery", "event %d reached subscription %d after unsubscribe had returned", e->id, sub->id);
			open.push_back(e);
			most++;
			sure += !e->failed;
		}
		if (sub->entered != sub->completed || sub->entered < sure || sub->entered > most)
			rt_fail("delivery", "%d events reached subscription %d, but its callback was called %d times (%d completed)",
				most, sub->id, sub->entered, sub->completed);
		if (!final)
			continue;
		for (auto& j : sub->got)
		{
			auto* errors = threadFault() ? j.get("errors") : nullptr;
			if (errors && print(*errors).find("temporarily unavailable") != std::string::npos)
				continue; // C10 looks at these
			// events can have equal responses: prefer one whose calls have been made
			std::pair<const char*, std::string> first { nullptr, {} };
			std::string problem;
			auto best = open.end();
			for (auto i = open.begin(); i != open.end(); ++i)
			{
				auto& p = *sub->events.at((*i)->id);
				auto d = diffResponse(p, j);
				if (d.first)
				{
					if (!first.first)
						first = d;
					continue;
				}
				best = i;
				problem = callsProblem(p);
				if (problem.empty())
					break;
			}
			if (best == open.end())
				rt_fail(first.first ? first.first : "delivery", "subscription %d got a response that fits none of its events\n  %s",
					sub->id, first.second.c_str());
			if (!problem.empty() && !threadFault())
				rt_fail("call", "%s", problem.c_str());
			open.erase(best);
		}
	}
}

Op drawOp(World& w, SubsMode mode)
{
	Op o;
	const uint32_t k = draw(mode == SUBS_REGISTER ? 8 : 7);
	const bool haveSubs = !w.subs.empty();
	o.k = k < 3 ? Op::Deliver : k < 5 ? Op::Subscribe : k < 7 ? Op::Unsubscribe : Op::UnsubscribeUnknown;
	if (!haveSubs && o.k != Op::UnsubscribeUnknown)
		o.k = Op::Deliver;
	switch (o.k)
	{
		case Op::Deliver: o.index = (int)draw((uint32_t)w.events.size()); break;
		case Op::Subscribe:
		case Op::Unsubscribe: o.index = (int)draw((uint32_t)w.subs.size()); break;
		default: o.index = (int)draw(3); break;
	}
	o.async = chance(1, 3);
	o.launch = drawLaunch();
	o.drop = o.k == Op::Subscribe && o.async && mode != SUBS_DELIVER && chance(1, 8);
	o.hold = o.async && !o.drop && mode == SUBS_LIFE && chance(1, 2);
	return o;
}

} // namespace

void subscriptions(SubsMode mode)
{
	const bool c08 = mode == SUBS_REGISTER, life = mode == SUBS_LIFE;
	World* w = new World;
	bool dropService;
	uint32_t endMode;
	{
		Guard g;
		if (c08 && fchance(1, 8))
		{
			g_noBoth = true;
			rt_faults.thread_at = (int64_t)fdraw(12);
			rt_faults.thread_len = 1 + (int64_t)fdraw(2);
		}
		SchemaOpts so;
		so.subscription = true;
		so.maxObjects = 2;
		so.maxFields = 3;
		auto* s = new SchemaDef(genSchema(so));
		w->s = s;
		auto& roots = s->types[s->subscription].fields;
		if (roots.size() > 2)
			roots.erase(roots.begin() + 2, roots.end());
		if (roots.size() > 1 && chance(1, 2))
			roots.erase(roots.begin());
		w->defaultObject = !chance(1, 4);
		static const uint32_t modes[] = { 31, 1, 5, 26, 16, 31 };
		ExecOpts eo;
		eo.failPer1000 = draw(3) == 2 ? 200 : 0;
		eo.maxCalls = 12;
		eo.modes = modes[draw(6)] | 1;
		const uint32_t nsub = 1 + (chance(1, 10) ? 4 + draw(12) : draw(4)), nev = 1 + draw(4);
		for (uint32_t i = 0; i < nev; ++i)
		{
			auto* e = new Event;
			e->id = (int)i + 1;
			w->events.push_back(e);
		}
		if (chance(1, 3))
		{
			w->events[0]->defaultObject = true;
			w->events[0]->id = 0;
		}
		for (uint32_t i = 0; i < nsub; ++i)
		{
			auto* sub = new Sub;
			sub->id = (int)i;
			sub->world = w;
			DocOpts o;
			o.subscription = true;
			o.budget = 1 + (int)draw(5);
			o.depth = 3;
			o.skipRoot = chance(1, 4);
			const bool again = i && chance(1, 4);
			sub->doc = new Doc(again ? otherVariables(*s, *w->subs[draw(i)]->doc) : genDoc(*s, o));
			sub->op = sub->doc->pickOp();
			sub->text = sub->doc->text;
			sub->opName = sub->doc->ops.size() > 1 || draw(2) ? sub->doc->ops[sub->op].name : std::string();
			auto plan = [&](const std::string& prefix, uint64_t obj, int context, const ExecOpts& x) {
				auto* p = new Plan;
				p->id = (int)i * 100 + context;
				execute(*s, *sub->doc, sub->op, obj, x, *p, prefix.c_str());
				p->context = context;
				if (p->tooBig)
					rt_finish(RT_DISCARD, "too big", "-");
				return p;
			};
			const std::string t = "s" + std::to_string(i);
			const uint64_t root = rootObj(*s, s->subscription);
			for (auto* e : w->events)
			{
				auto* p = sub->events[e->id] =
					plan(t + "e" + std::to_string(e->id) + "t", root + 1000 * (uint64_t)e->id, 3, eo);
				p->id = (int)i * 1000 + e->id * 10;
				if (p->rootKeys.empty())
				{
					// skipped: there is no event for it
					count(C_subscription_skipped, e == w->events[0]);
					continue;
				}
				auto& c = p->calls.at(p->rootKeys.at(0));
				sub->field = s->fields[c.field].name;
				sub->args = c.args;
				sub->dirs = c.fieldDirs;
			}
			ExecOpts no = eo;
			no.failPer1000 = c08 && fdraw(3) == 2 ? 400 : 0;
			sub->notify = plan(t + "nt", root, 2, no);
			sub->unnotify = plan(t + "ut", root, 4, no);
			sub->notify->id = (int)i * 1000 + 2;
			sub->unnotify->id = (int)i * 1000 + 4;
			sub->take = chance(1, life ? 2 : 3) ? 1 + (int)draw(2) : 0;
			if (c08)
			{
				sub->throws = fchance(1, 5);
				if (fchance(1, 5))
				{
					sub->bad = (Bad)(1 + fdraw(4));
					switch (sub->bad)
					{
						case BAD_ROOTS:
							sub->opName = "Bad";
							sub->text += " subscription Bad { x1: " + s->fields[roots[0]].name + " { __typename } x2: "
								+ s->fields[roots[0]].name + " { __typename } }";
							break;
						case BAD_NAME: sub->opName = "Unknown"; break;
						case BAD_KIND:
							sub->opName = "Kind";
							sub->text = "query Kind { __typename }";
							break;
						default:
							sub->opName = "Bad";
							sub->text += " subscription Bad { unknownField }";
							break;
					}
				}
			}
			rt_event("subscription %d field %s: %s", sub->id, sub->field.c_str(), sub->text.c_str());
			w->subs.push_back(sub);
		}
		for (auto* e : w->events)
		{
			const Sub& target = *w->subs[draw(nsub)];
			e->name = chance(1, 16) ? s->fields[roots[draw((uint32_t)roots.size())]].name : target.field;
			if (chance(1, 24) || e->name.empty())
				e->name = "unknown";
			e->kind = (int)draw(5);
			e->launchOverload = chance(1, 2);
			if (e->launchOverload)
				e->launch = drawLaunch();
			auto vary = [&](const J& from) {
				J m = J::map();
				const uint32_t how = draw(5);
				for (auto& x : from.m)
					m.m.push_back(x);
				if (how == 3 && !m.m.empty())
					m.m.erase(m.m.begin() + draw((uint32_t)m.m.size()));
				else if (how == 4 && !m.m.empty())
					m.m[draw((uint32_t)m.m.size())].second = J::str("another");
				else if (how == 2)
					m.add("zz", J::integer(1));
				return m;
			};
			e->args = vary(target.args);
			e->dirs = vary(target.dirs);
			e->throwingFilter = c08 && fchance(1, 10);
		}
		for (uint32_t i = 0; i < nsub; ++i)
			if (draw(4) != 3)
			{
				Op o;
				o.k = Op::Subscribe;
				o.index = (int)i;
				o.async = chance(1, 4);
				if (o.async)
					o.launch = drawLaunch();
				w->before.push_back(o);
			}
		const uint32_t nt = draw(4);
		count(C_concurrent_clients, nt + 1);
		for (uint32_t t = 0; t <= nt; ++t)
		{
			std::vector<Op> ops;
			for (uint32_t k = 0, n = 1 + draw(nt ? 3 : 6); k < n; ++k)
				ops.push_back(drawOp(*w, mode));
			w->threads.push_back(std::move(ops));
		}
		if (c08)
			for (auto* sub : w->subs)
				if (chance(1, 3))
					for (uint32_t k = 0, n = 1 + draw(2); k < n; ++k)
					{
						Op o = drawOp(*w, mode);
						if (o.k == Op::Unsubscribe && draw(2))
							o.index = sub->id;
						sub->nested.push_back(o);
					}
		if (c08)
			for (auto* sub : w->subs)
				if (chance(1, 4))
				{
					Op o = drawOp(*w, mode);
					if (o.k != Op::Subscribe)
						sub->last.push_back(o);
				}
		for (uint32_t k = 0, n = life ? 0 : draw(3); k < n; ++k)
			w->after.push_back(drawOp(*w, mode));
		// an operation on a subscription that an earlier one has made or removed is skipped at run time;
		// make each subscription at most once
		if (!life && chance(1, 2))
			for (auto* a : w->subs)
				for (auto* b : w->subs)
					if (a->id < b->id && a->text == b->text && b->shared < 0)
					{
						if (a->shared < 0)
						{
							a->shared = (int)w->pool.size();
							w->pool.emplace_back(a->text, peg::ast {});
						}
						b->shared = a->shared;
					}
		std::set<int> made;
		auto once = [&](std::vector<Op>& ops) {
			ops.erase(std::remove_if(ops.begin(), ops.end(),
						  [&](const Op& o) {
							  return o.k == Op::Subscribe && !made.insert(o.index).second;
						  }),
				ops.end());
		};
		once(w->before);
		for (auto& t : w->threads)
			once(t);
		for (auto* sub : w->subs)
			once(sub->nested);
		once(w->after);
		dropService = chance(1, 4);
		endMode = draw(2);
	}
	{
		Ctx ctx;
		ctx.s = w->s;
		w->ctx = &ctx;
		auto svc = makeService(ctx, w->defaultObject);
		w->svc = svc.get();
		w->open = true;
		for (auto& x : w->pool)
		{
			std::string text(x.first);
			x.second = peg::parseString(text);
		}
		w->run(w->before);
		{
			std::vector<std::thread> threads;
			for (size_t i = 1; i < w->threads.size(); ++i)
				try
				{
					threads.emplace_back([w, i, mine = svc] {
						w->run(w->threads[i]);
					});
				}
				catch (std::system_error&)
				{
				}
			auto mine = svc;
			if (life)
				svc.reset();
			w->run(w->threads[0]);
			mine.reset();
			for (auto& t : threads)
				t.join();
		}
		w->run(w->after);
		w->open = false;
		w->check(false);
		// with the futures that callbacks kept, in any order with the end of the service
		for (auto* sub : w->subs)
			if (svc && endMode && sub->registered && !sub->unStart)
			{
				Op o;
				o.k = Op::Unsubscribe;
				w->unsubscribe(*sub, o);
			}
		if (dropService || life)
		{
			svc.reset();
			count(C_service_released_early);
		}
		for (auto* sub : w->subs)
		{
			try
			{
				if (sub->heldKey.valid() && endMode)
					sub->heldKey.get();
				if (sub->heldEnd.valid() && endMode)
					sub->heldEnd.get();
			}
			catch (std::exception& ex)
			{
				Guard g;
				rt_event("held: %s", ex.what());
			}
			sub->heldKey = {};
			sub->heldEnd = {};
		}
		for (auto* sub : w->subs)
			for (auto& f : sub->kept)
			{
				auto doc = f.get();
				J j = fromValue(doc);
				{
					Guard g;
					sub->got.push_back(std::move(j));
				}
				f = {};
			}
		ctx.joinAll();
		if (svc)
			for (auto* sub : w->subs)
			{
				Guard g;
				if (sub->unEnd && sub->alive)
					rt_fail("leak", "the callback of subscription %d is still alive after unsubscribe", sub->id);
				if (sub->subEnd && !sub->registered && !sub->lost && sub->alive)
					rt_fail("leak", "the callback of subscription %d is alive although subscribing failed", sub->id);
			}
		for (auto& x : w->pool)
			x.second = {};
	}
	w->check(true);
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE) || live(L_CALLBACK))
		rt_fail("leak", "%ld objects, %ld states, %ld services and %ld callbacks are still alive", live(L_OBJECT),
			live(L_STATE), live(L_SERVICE), live(L_CALLBACK));
}

static void c07()
{
	subscriptions(SUBS_DELIVER);
}
static void c08()
{
	subscriptions(SUBS_REGISTER);
}
static Workload w07("C07", c07);
static Workload w08("C08", c08);

} // namespace sim
