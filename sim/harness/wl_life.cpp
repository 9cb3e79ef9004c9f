// C09: callers drop results, services and states while work is in flight.
#include "dyn.h"
#include "workloads.h"

#include "graphqlservice/GraphQLParse.h"

#include <memory>

namespace sim {
namespace {

struct Req
{
	int id = 0;
	Doc* doc = nullptr;
	std::string opName;
	Plan* plan = nullptr;
	std::launch launch = std::launch::deferred;
	int copies = 0;     // 0 own parse, 1 a copy that shares the nodes
	bool moveDoc = false;
	bool isMutation = false;
	bool dropService = false; // before the result is taken
	uint32_t wait = 0;        // yields before the next step
	uint64_t sleep = 0;
	int take = 0; // 0 get, 1 drop, 2 get in another thread, 3 drop in another thread, 4 poll, then get, 5 poll, then drop
};

void consume(Req& r, std::future<response::Value>& f, bool drop)
{
	if (drop)
	{
		count(C_dropped_running);
		f = {};
		return;
	}
	auto doc = f.get();
	f = {};
	checkResponse(*r.plan, doc);
	checkCalls(*r.plan);
}

void perform(Ctx& ctx, std::shared_ptr<DynService>& svc, Req& r)
{
	{
		Guard g;
		rt_event("request %d launch %s take %d%s", r.id, launchName(r.launch), r.take,
			r.dropService ? " drops the service" : "");
		count(C_requests);
	}
	auto ast = std::make_unique<peg::ast>(peg::parseString(std::string(r.doc->text)));
	if (r.copies)
	{
		auto copy = std::make_unique<peg::ast>(*ast);
		ast = std::move(copy);
	}
	std::future<response::Value> f;
	{
		auto state = std::make_shared<SimState>(r.plan);
		response::Value vars = toValue(providedVariables(*r.doc));
		f = svc->resolve(r.launch, state, *ast, r.opName, std::move(vars));
	}
	if (r.dropService)
	{
		svc.reset();
		count(C_service_released_early);
	}
	if (r.moveDoc)
	{
		count(C_document_moved);
		auto moved = std::make_unique<peg::ast>(std::move(*ast));
		ast = std::move(moved);
	}
	for (uint32_t i = 0; i < r.wait; ++i)
		rt_yield();
	if (r.sleep)
		rt_sleep(r.sleep);
	const bool drop = r.take & 1;
	if (r.take == 2 || r.take == 3)
	{
		std::thread t([&r, drop, fut = std::move(f)]() mutable {
			consume(r, fut, drop);
		});
		t.join();
	}
	else
	{
		if (r.take >= 4 && f.wait_for(std::chrono::nanoseconds(r.sleep)) == std::future_status::timeout)
			rt_yield();
		consume(r, f, drop);
	}
	// the document only has to outlive the results
	ast.reset();
	(void)ctx;
}

void requests()
{
	SchemaDef* s;
	auto* clients = new std::vector<std::vector<Req*>>;
	uint32_t early;
	{
		Guard g;
		SchemaOpts so;
		so.mutation = chance(1, 3);
		so.maxObjects = 3;
		so.maxFields = 4;
		s = new SchemaDef(genSchema(so));
		const uint32_t nc = 1 + draw(3);
		count(C_concurrent_clients, nc);
		static const uint32_t modes[] = { 31, 24, 5, 26, 16, 31 };
		const uint32_t fail = draw(3) == 2 ? 200 : 0, elem = draw(3) == 2 ? 100 : 0;
		int id = 0;
		for (uint32_t c = 0; c < nc; ++c)
		{
			std::vector<Req*> rs;
			for (uint32_t k = 0, n = 1 + draw(nc == 1 ? 4 : 2); k < n; ++k)
			{
				auto* r = new Req;
				r->id = id++;
				DocOpts o;
				o.mutation = so.mutation && chance(1, 2);
				o.budget = 3 + (int)draw(8);
				if (k && rs[0]->isMutation == o.mutation && chance(1, 4))
					r->doc = new Doc(otherVariables(*s, *rs[0]->doc));
				else
					r->doc = new Doc(genDoc(*s, o));
				r->isMutation = o.mutation;
				const int op = r->doc->pickOp();
				r->opName = r->doc->ops[op].name;
				r->plan = new Plan;
				r->plan->id = r->id;
				ExecOpts eo;
				eo.failPer1000 = fail;
				eo.elemFailPer1000 = elem;
				eo.maxCalls = 25;
				eo.modes = modes[draw(6)] | 1;
				execute(*s, *r->doc, op, rootObj(*s, o.mutation ? s->mutation : s->query), eo, *r->plan,
					("r" + std::to_string(r->id) + "t").c_str());
				if (r->plan->tooBig)
					rt_finish(RT_DISCARD, "too big", "-");
				rt_event("document %d: %s", r->id, r->doc->text.c_str());
				r->launch = drawLaunch();
				r->copies = (int)draw(2);
				r->moveDoc = chance(1, 3);
				r->wait = draw(4) == 3 ? draw(40) : 0;
				static const uint64_t sleeps[] = { 0, 0, 0, 50, 2000, 400000 };
				r->sleep = sleeps[draw(6)];
				r->take = (int)draw(6);
				rs.push_back(r);
			}
			rs.back()->dropService = chance(1, 2);
			clients->push_back(rs);
		}
		early = draw(2);
	}
	{
		Ctx ctx;
		ctx.s = s;
		auto svc = makeService(ctx);
		{
			std::vector<std::thread> threads;
			for (size_t i = 1; i < clients->size(); ++i)
				threads.emplace_back([&ctx, svc, clients, i]() mutable {
					for (auto* r : (*clients)[i])
						perform(ctx, svc, *r);
				});
			auto mine = svc;
			if (early)
				svc.reset();
			for (auto* r : (*clients)[0])
				perform(ctx, mine, *r);
			mine.reset();
			for (auto& t : threads)
				t.join();
		}
		svc.reset();
		ctx.joinAll();
	}
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE))
		rt_fail("leak", "%ld objects, %ld states and %ld services are still alive", live(L_OBJECT), live(L_STATE),
			live(L_SERVICE));
}

void c09()
{
	if (draw(3) == 2)
		subscriptions(SUBS_LIFE);
	else
		requests();
}
Workload w09("C09", c09);

} // namespace
} // namespace sim
