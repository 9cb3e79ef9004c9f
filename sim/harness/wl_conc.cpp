// Workloads with several requests on one service: C04 (isolation), C05 (validation verdicts).
#include "mutate.h"

#include "graphqlservice/GraphQLParse.h"

#include <memory>

namespace sim {

struct PoolDoc
{
	Doc* doc = nullptr;
	std::string text;
	std::string verdict; // validation errors on a fresh service
	bool mutated = false;
};

struct Req
{
	int id = 0;
	PoolDoc* doc = nullptr;
	const Doc* vars = nullptr; // the document with the variables of this request
	Plan* plan = nullptr; // null: must be rejected
	std::string opName;
	std::launch launch = std::launch::deferred;
	int ast = 0;  // 0 parse again, 1 copy of the shared parse, 2 the shared parse itself (validated before)
	int take = 0; // 0 get at once, 1 get after the other requests of this client, 2 drop
	bool unvalidated = false;
};

struct Client
{
	std::vector<Req*> reqs;
};

static void makePool(const SchemaDef& s, std::vector<PoolDoc>& pool, uint32_t n, bool mutations, uint32_t invalidOf8)
{
	for (uint32_t i = 0; i < n; ++i)
	{
		PoolDoc p;
		DocOpts o;
		o.mutation = mutations && chance(1, 4);
		o.budget = 3 + (int)draw(8);
		p.doc = new Doc(genDoc(s, o));
		p.text = p.doc->text;
		if (chance(invalidOf8, 8))
		{
			p.text = mutateDoc(s, p.text);
			p.mutated = true;
		}
		rt_event("document %u: %s", i, p.text.c_str());
		pool.push_back(std::move(p));
	}
	// equal text, another document object
	if (n < 6 && chance(1, 3))
		pool.push_back(pool[draw((uint32_t)pool.size())]);
}

static void finish(const Req& r, std::future<response::Value>& fut)
{
	auto doc = fut.get();
	if (r.plan)
	{
		checkResponse(*r.plan, doc);
		checkCalls(*r.plan);
		return;
	}
	const std::string got = errorsText(doc);
	Guard g;
	if (got.empty())
		rt_fail("verdict", "request %d: an invalid document was executed\n%s\nexpected errors:\n%s", r.id,
			r.doc->text.c_str(), r.doc->verdict.c_str());
}

static void issue(DynService& svc, Req& r, std::vector<peg::ast>& shared, size_t docIndex,
	std::vector<std::pair<Req*, std::future<response::Value>>>& later)
{
	std::string name, text;
	{
		Guard g;
		rt_event("request %d document %zu launch %s ast %d take %d", r.id, docIndex, launchName(r.launch), r.ast, r.take);
	}
	name = r.opName;
	text = r.doc->text;
	count(C_requests);
	auto state = std::make_shared<SimState>(r.plan);
	response::Value vars = toValue(providedVariables(*r.vars));
	peg::ast own;
	peg::ast* a = &shared[docIndex];
	if (r.ast == 0)
	{
		own = peg::parseString(text);
		a = &own;
	}
	else if (r.ast == 1)
	{
		own = *a;
		a = &own;
	}
	std::future<response::Value> f;
	if (r.unvalidated)
	{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
		f = svc.resolve(r.launch, state, *a->root, name, std::move(vars));
#pragma GCC diagnostic pop
	}
	else
		f = svc.resolve(r.launch, state, *a, name, std::move(vars));
	state.reset();
	if (r.take == 2)
	{
		count(C_dropped_before);
		f = {};
		// the document must outlive its results: it does, the future is gone
	}
	else if (r.take == 1 && r.ast != 0)
		later.emplace_back(&r, std::move(f));
	else
		finish(r, f);
	if (later.size() > 1)
	{
		finish(*later.front().first, later.front().second);
		later.erase(later.begin());
	}
}

static void c04()
{
	SchemaDef* s;
	auto* pool = new std::vector<PoolDoc>;
	auto* clients = new std::vector<Client>;
	size_t nshared = 0;
	{
		Guard g;
		SchemaOpts so;
		so.mutation = true;
		so.subscription = chance(1, 3);
		so.maxObjects = 3;
		so.maxFields = 4;
		s = new SchemaDef(genSchema(so));
		// documents of one shape, parsed, executed and destroyed in turn, so that they lie where others were
		const bool twins = chance(1, 4), oldApi = twins && chance(1, 3);
		makePool(*s, *pool, twins ? 1 : 1 + draw(3), true, twins ? 0 : 2);
		if (twins)
		{
			for (uint32_t i = 1 + draw(2); i; --i)
			{
				PoolDoc p;
				p.doc = new Doc(otherLiterals(*s, *(*pool)[0].doc));
				p.text = p.doc->text;
				rt_event("document %zu: %s", pool->size(), p.text.c_str());
				pool->push_back(std::move(p));
			}
			if (pool->size() > 2)
			{
				auto& p = pool->back();
				p.doc = new Doc(otherVariables(*s, *(*pool)[0].doc));
				p.text = p.doc->text;
			}
		}
		const uint32_t nc = 1 + draw(4);
		count(C_concurrent_clients, nc);
		static const uint32_t modes[] = { 31, 1, 5, 26, 16, 31 };
		const uint32_t fail = draw(3) == 2 ? 200 : 0;
		int id = 0;
		for (uint32_t c = 0; c < nc; ++c)
		{
			Client cl;
			for (uint32_t k = 0, n = 1 + draw(twins ? 5 : 3); k < n; ++k)
			{
				auto* r = new Req;
				r->id = id++;
				const uint32_t di = draw((uint32_t)pool->size());
				r->doc = &(*pool)[di];
				cl.reqs.push_back(r);
			}
			clients->push_back(std::move(cl));
		}
		for (auto& p : *pool)
			if (p.mutated)
			{
				p.verdict = freshVerdict(*s, p.text);
				count(p.verdict.empty() ? C_valid_documents : C_invalid_documents);
			}
		for (auto& cl : *clients)
			for (auto* r : cl.reqs)
			{
				if (r->doc->mutated && r->doc->verdict.empty())
				{
					// valid but unknown to the model: use the original text
					r->doc->text = r->doc->doc->text;
					r->doc->mutated = false;
				}
				r->launch = drawLaunch();
				r->ast = twins ? 0 : (int)draw(3);
				r->take = chance(1, 8) ? 2 : (int)draw(2);
				r->vars = twins || chance(1, 2) ? r->doc->doc : new Doc(otherVariables(*s, *r->doc->doc));
				const Doc& d = *r->vars;
				const int op = d.pickOp(true);
				r->opName = d.ops[op].name;
				if (r->doc->mutated)
					continue;
				r->unvalidated = twins ? oldApi : chance(1, 8);
				r->plan = new Plan;
				r->plan->id = r->id;
				r->plan->checkSerial = d.ops[op].kind == OpDef::Mutation;
				ExecOpts eo;
				eo.failPer1000 = fail;
				eo.maxCalls = 30;
				eo.modes = modes[draw(6)] | 1;
				execute(*s, d, op, rootObj(*s, d.ops[op].kind == OpDef::Mutation ? s->mutation : s->query), eo, *r->plan,
					("r" + std::to_string(r->id) + "t").c_str());
				if (r->plan->tooBig)
					rt_finish(RT_DISCARD, "too big", "-");
			}
		nshared = pool->size();
	}
	{
		Ctx ctx;
		ctx.s = s;
		auto svc = makeService(ctx);
		std::vector<peg::ast> shared;
		for (size_t i = 0; i < nshared; ++i)
		{
			std::string text((*pool)[i].text);
			shared.push_back(peg::parseString(text));
			// sharing one parsed object needs its validated flag to be settled
			bool settle = false;
			for (auto& cl : *clients)
				for (auto* r : cl.reqs)
					settle |= r->doc == &(*pool)[i] && r->ast == 2 && !r->unvalidated;
			if (settle)
			{
				svc->validate(shared.back());
				if (!shared.back().validated) // an invalid one is never settled: parse it again for each request
					for (auto& cl : *clients)
						for (auto* r : cl.reqs)
							if (r->doc == &(*pool)[i] && r->ast == 2)
								r->ast = 1;
			}
		}
		auto client = [&](Client& cl) {
			std::vector<std::pair<Req*, std::future<response::Value>>> later;
			for (auto* r : cl.reqs)
				issue(*svc, *r, shared, r->doc - pool->data(), later);
			for (auto& l : later)
				finish(*l.first, l.second);
		};
		{
			std::vector<std::thread> threads;
			for (size_t i = 1; i < clients->size(); ++i)
				threads.emplace_back([&client, clients, i] {
					client((*clients)[i]);
				});
			client((*clients)[0]);
			for (auto& t : threads)
				t.join();
		}
		ctx.joinAll();
	}
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE))
		rt_fail("leak", "%ld objects, %ld states and %ld services are still alive", live(L_OBJECT), live(L_STATE),
			live(L_SERVICE));
}
static Workload w04("C04", c04);

// ---- C05 ------------------------------------------------------------------------------------------
struct VOp
{
	int doc = 0;
	int how = 0;  // 0 validate, 1 validate twice, 2 resolve, 3 subscribe, 4 findOperationDefinition
	int ast = 0;  // 0 own parse, 1 copy of the shared one
	std::launch launch = std::launch::deferred;
};

static void c05()
{
	SchemaDef* s;
	auto* pool = new std::vector<PoolDoc>;
	auto* clients = new std::vector<std::vector<VOp>>;
	{
		Guard g;
		SchemaOpts so;
		so.mutation = chance(1, 3);
		so.subscription = chance(1, 2);
		so.maxObjects = 3;
		so.maxFields = 4;
		s = new SchemaDef(genSchema(so));
		makePool(*s, *pool, 2 + draw(4), so.mutation, 5);
		for (auto& p : *pool)
		{
			p.verdict = freshVerdict(*s, p.text);
			count(p.verdict.empty() ? C_valid_documents : C_invalid_documents);
			if (!p.mutated && !p.verdict.empty())
				rt_fail("harness", "the library rejects a generated document: %s\n%s", p.text.c_str(), p.verdict.c_str());
		}
		const uint32_t nc = 1 + draw(4);
		count(C_concurrent_clients, nc);
		for (uint32_t c = 0; c < nc; ++c)
		{
			std::vector<VOp> ops;
			for (uint32_t k = 0, n = 1 + draw(nc == 1 ? 6 : 3); k < n; ++k)
			{
				VOp o;
				o.doc = (int)draw((uint32_t)pool->size());
				o.how = (int)draw(5);
				o.ast = (int)draw(2);
				o.launch = drawLaunch();
				ops.push_back(o);
			}
			clients->push_back(std::move(ops));
		}
	}
	{
		Ctx ctx;
		ctx.s = s;
		ctx.checkCalls = false;
		auto svc = makeService(ctx);
		std::vector<peg::ast> shared;
		for (auto& p : *pool)
			shared.push_back(peg::parseString(std::string(p.text)));
		auto compare = [&](const VOp& o, const std::list<service::schema_error>& errors, const char* call) {
			const std::string got = errorList(errors);
			Guard g;
			const auto& p = (*pool)[o.doc];
			rt_event("%s document %d: %zu errors", call, o.doc, errors.size());
			if (got != p.verdict)
				rt_fail("verdict", "%s of document %d reports\n%sbut on a fresh service\n%sdocument: %s", call, o.doc,
					got.empty() ? "no error\n" : got.c_str(), p.verdict.empty() ? "no error\n" : p.verdict.c_str(),
					p.text.c_str());
		};
		auto client = [&](const std::vector<VOp>& ops) {
			for (auto& o : ops)
			{
				const auto& p = (*pool)[o.doc];
				const bool valid = p.verdict.empty();
				peg::ast a;
				if (o.ast)
					a = shared[o.doc];
				else
					a = peg::parseString(std::string(p.text));
				count(C_requests);
				switch (o.how)
				{
					case 0:
					case 1:
						for (int k = 0; k <= o.how; ++k)
						{
							compare(o, svc->validate(a), "validate");
							if (a.validated != valid)
								rt_fail("verdict", "the validated flag of document %d is wrong", o.doc);
						}
						break;
					case 2:
						if (valid)
							compare(o, svc->validate(a), "validate");
						else
						{
							auto doc =
								svc->resolve(o.launch, nullptr, a, std::string(), response::Value(response::Type::Map)).get();
							const std::string got = errorsText(doc);
							Guard g;
							rt_event("resolve document %d", o.doc);
							// every message of the verdict is reported
							std::string want = p.verdict.substr(0, p.verdict.find(" @"));
							if (got.find(print(J::str(want))) == std::string::npos)
								rt_fail("verdict", "resolve of invalid document %d reports %s, on a fresh service %s", o.doc,
									got.c_str(), p.verdict.c_str());
						}
						break;
					case 3:
						if (valid)
							compare(o, svc->validate(a), "validate");
						else
							try
							{
								service::SubscriptionParams params { nullptr, std::move(a), std::string(),
									response::Value(response::Type::Map) };
								svc->subscribe(std::move(params), [](std::future<response::Value>) {});
								rt_fail("verdict", "invalid document %d was registered as a subscription", o.doc);
							}
							catch (service::schema_exception& ex)
							{
								std::string what = ex.what();
								auto errors = ex.getStructuredErrors();
								if (errors.empty() || errors.front().message != what)
									rt_fail("verdict", "the exception of subscribe says '%s', not its first error", what.c_str());
								compare(o, std::move(errors), "subscribe");
							}
						break;
					default:
						try
						{
							svc->findOperationDefinition(a, std::string_view());
							compare(o, {}, "findOperationDefinition");
						}
						catch (service::schema_exception& ex)
						{
							compare(o, ex.getStructuredErrors(), "findOperationDefinition");
						}
						break;
				}
			}
		};
		std::vector<std::thread> threads;
		for (size_t i = 1; i < clients->size(); ++i)
			threads.emplace_back([&client, clients, i] {
				client((*clients)[i]);
			});
		client((*clients)[0]);
		for (auto& t : threads)
			t.join();
		// validated objects stay valid, and the service is as good as new
		for (size_t i = 0; i < pool->size(); ++i)
		{
			VOp o;
			o.doc = (int)i;
			peg::ast a = peg::parseString(std::string((*pool)[i].text));
			compare(o, svc->validate(a), "final validate");
		}
	}
	if (live(L_OBJECT) || live(L_SERVICE))
		rt_fail("leak", "%ld objects and %ld services are still alive", live(L_OBJECT), live(L_SERVICE));
}
static Workload w05("C05", c05);

} // namespace sim
