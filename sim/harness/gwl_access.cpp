// C06: accessors of generated services.
#include "gen.h"

#include "graphqlservice/GraphQLParse.h"

namespace sim {

namespace {
struct Req
{
	int id = 0;
	Doc* doc = nullptr;
	Plan* plan = nullptr;
	std::launch launch = std::launch::deferred;
	// subscriptions: one event
	Plan* notify = nullptr;
	Plan* unnotify = nullptr;
	std::string field;
	bool async = false;
	int responses = 0;
};
}

static void query(service::Request& svc, Req& r)
{
	const auto& op = r.doc->ops[r.plan->op];
	std::string text(r.doc->text), name(op.name);
	count(C_requests);
	auto state = std::make_shared<SimState>(r.plan);
	auto ast = peg::parseString(text);
	auto f = svc.resolve(r.launch, state, ast, name, toValue(providedVariables(*r.doc)));
	auto doc = f.get();
	checkResponse(*r.plan, doc);
	checkCalls(*r.plan);
}

static void subscription(const GenSchema& g, Ctx& ctx, GenShared& shared, service::Request& svc, Req& r)
{
	std::string text(r.doc->text), name(r.doc->ops[0].name), field(r.field);
	count(C_requests);
	auto state = std::make_shared<SimState>(nullptr);
	{
		Guard gd;
		state->events[r.id] = r.plan;
		state->notify = r.notify;
		state->unnotify = r.unnotify;
	}
	service::SubscriptionParams params { std::move(state), peg::parseString(text), std::move(name),
		toValue(providedVariables(*r.doc)) };
	service::SubscriptionCallback cb = [&r](std::future<response::Value> f) {
		auto doc = f.get();
		const J got = fromValue(doc);
		Guard gd;
		// only responses to this subscription's event are checked: events of others reach it too
		if (!r.responses && callsProblem(*r.plan).empty())
		{
			auto d = diffResponse(*r.plan, got);
			if (d.first)
				rt_fail(d.first, "%s", d.second.c_str());
			r.responses++;
			count(C_delivered_callbacks);
		}
	};
	service::SubscriptionKey key = 0;
	if (r.async)
	{
		key = svc.subscribe(r.launch, std::move(params), std::move(cb)).get();
		checkCalls(*r.notify);
	}
	else
		key = svc.subscribe(std::move(params), std::move(cb));
	count(C_subscribe_ok);
	service::SubscriptionFilterCallback all = [](response::MapType::const_reference) {
		return true;
	};
	count(C_deliver);
	svc.deliver(r.launch, field, all, all, g.event(ctx, shared, r.id));
	checkCalls(*r.plan);
	{
		Guard gd;
		if (!r.responses)
			rt_fail("response", "request %d: no response to its event\n  document: %s", r.id, r.doc->text.c_str());
	}
	if (r.async)
	{
		svc.unsubscribe(r.launch, key).get();
		checkCalls(*r.unnotify);
	}
	else
		svc.unsubscribe(key);
}

static void c06()
{
	const GenSchema& g = *GenSchema::all[draw(3)];
	SchemaDef* s;
	auto* clients = new std::vector<std::vector<Req*>>;
	bool share, defaultEvent;
	{
		Guard gd;
		s = new SchemaDef(g.def());
		const uint32_t nc = 1 + draw(3);
		count(C_concurrent_clients, nc);
		static const uint32_t modes[] = { 31, 1, 5, 26, 16, 31 };
		const uint32_t fail = fdraw(4) == 3 ? 150 : 0;
		share = draw(2);
		defaultEvent = true;
		bool subscribed = false;
		int id = 1;
		for (uint32_t c = 0; c < nc; ++c)
		{
			clients->emplace_back();
			for (uint32_t k = 0, n = 1 + draw(nc > 1 ? 2 : 3); k < n; ++k)
			{
				auto* r = new Req;
				r->id = id++;
				DocOpts o;
				const uint32_t kind = draw(6);
				o.mutation = kind == 4;
				// all events reach every subscription of the field: one at a time
				o.subscription = kind == 5 && !subscribed;
				subscribed |= o.subscription;
				o.budget = 3 + (int)draw(nc > 1 ? 8 : 14);
				o.multiOp = !o.subscription;
				o.badVars = fchance(1, 4);
				const Req* earlier = k ? clients->back()[0] : nullptr;
				if (earlier && !o.subscription && !earlier->notify && earlier->plan->checkSerial == o.mutation && chance(1, 3))
					r->doc = new Doc(otherVariables(*s, *earlier->doc));
				else
					r->doc = new Doc(genDoc(*s, o));
				rt_event("request %d document %s", r->id, r->doc->text.c_str());
				r->launch = drawLaunch();
				const int op = r->doc->pickOp();
				ExecOpts eo;
				eo.failPer1000 = fail;
				eo.elemFailPer1000 = fail;
				eo.maxCalls = 40;
				eo.typed = true;
				eo.modes = modes[draw(6)] | 1;
				auto plan = [&](const char* kind, uint64_t root, int context, const ExecOpts& e) {
					auto* p = new Plan;
					p->id = r->id;
					execute(*s, *r->doc, op, root, e, *p, ("r" + std::to_string(r->id) + kind).c_str());
					if (context >= 0)
						p->context = context;
					if (p->tooBig)
						rt_finish(RT_DISCARD, "too big", "-");
					return p;
				};
				if (o.subscription)
				{
					const uint64_t root = rootObj(*s, s->subscription);
					r->plan = plan("e", root + 1000 * (uint64_t)r->id, 3, eo);
					ExecOpts no = eo;
					no.failPer1000 = no.elemFailPer1000 = 0;
					r->notify = plan("n", root, 2, no);
					r->unnotify = plan("u", root, 4, no);
					r->async = draw(2) && r->notify->errors.empty();
					// the root field
					const Sel* x = &r->doc->ops[0].sel[0];
					while (x->k != Sel::Field)
						x = x->k == Sel::Spread ? &r->doc->frags[x->frag].sel[0] : &x->sub[0];
					r->field = s->fields[x->field].name;
				}
				else
				{
					r->plan = plan("t", rootObj(*s, o.mutation ? s->mutation : s->query), -1, eo);
					r->plan->checkSerial = o.mutation;
					count(o.mutation ? C_mutations : C_queries);
				}
				clients->back().push_back(r);
			}
		}
	}
	{
		Ctx ctx;
		ctx.s = s;
		GenShared shared;
		shared.on = share;
		auto svc = g.make(ctx, shared, defaultEvent);
		count(C_services_created);
		auto client = [&](std::vector<Req*>& reqs) {
			for (auto* r : reqs)
				if (r->notify)
					subscription(g, ctx, shared, *svc, *r);
				else
					query(*svc, *r);
		};
		std::vector<std::thread> threads;
		for (size_t i = 1; i < clients->size(); ++i)
			threads.emplace_back([&, i] {
				client((*clients)[i]);
			});
		client((*clients)[0]);
		for (auto& t : threads)
			t.join();
		ctx.joinAll();
	}
	if (live(L_OBJECT) || live(L_STATE))
		rt_fail("leak", "%ld objects and %ld states are still alive", live(L_OBJECT), live(L_STATE));
}

static Workload w06("C06", c06);

} // namespace sim
