// Workloads on queries and mutations: C01 (fault-free), C02 (failing accessors), C03 (mutations).
#include "dyn.h"

#include "graphqlservice/GraphQLParse.h"

namespace sim {

struct QueryOpts
{
	bool mutation = false, serial = true;
	uint32_t fail = 0, elemFail = 0;
};

static void runOne(const QueryOpts& q)
{
	SchemaDef* s;
	Doc* d;
	Plan* p;
	std::string text;
	{
		Guard g;
		SchemaOpts so;
		so.mutation = q.mutation || chance(1, 3);
		so.subscription = chance(1, 3);
		s = new SchemaDef(genSchema(so));
		DocOpts dops;
		dops.mutation = q.mutation;
		dops.budget = 4 + (int)draw(14);
		d = new Doc(genDoc(*s, dops));
		p = new Plan;
		p->checkSerial = q.mutation && q.serial;
		ExecOpts eo;
		eo.failPer1000 = q.fail;
		eo.elemFailPer1000 = q.elemFail;
		eo.maxCalls = 60;
		static const uint32_t modes[] = { 31, 1, 5, 31, 10, 26, 31, 8 };
		eo.modes = modes[draw(8)] | 1;
		const int op = d->pickOp();
		const auto& od = d->ops[op];
		execute(*s, *d, op, rootObj(*s, od.kind == OpDef::Mutation ? s->mutation : s->query), eo, *p, "t");
		if (p->tooBig)
			rt_finish(RT_DISCARD, "too big", "-");
		rt_event("document %s", d->text.c_str());
		count(q.mutation ? C_mutations : C_queries);
		if (q.mutation)
			count(C_mutation_fields, p->rootKeys.size());
	}
	text = d->text;
	const std::launch launch = drawLaunch();
	const bool unvalidated = chance(1, 8);
	count(C_requests);
	{
		Ctx ctx;
		ctx.s = s;
		auto svc = makeService(ctx);
		peg::ast ast;
		switch (draw(8))
		{
			case 1: // (borrows the text)
				count(C_literals);
				ast = graphql::operator""_graphql(text.data(), text.size());
				break;
			case 2:
			{
				{
					Guard g;
					count(C_files);
					vfs_put("/sim-fs/query.graphql", text.data(), text.size());
				}
				ast = peg::parseFile("/sim-fs/query.graphql");
				Guard g;
				vfs_remove("/sim-fs/query.graphql");
				break;
			}
			default: ast = peg::parseString(text); break;
		}
		auto state = std::make_shared<SimState>(p);
		const std::string name = d->ops[p->op].name;
		const std::string opName = d->ops.size() > 1 || draw(2) ? name : std::string();
		auto vars = toValue(providedVariables(*d));
		rt_event("launch %s", launchName(launch));
		std::future<response::Value> f;
		if (unvalidated)
		{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
			f = svc->resolve(launch, state, *ast.root, opName, std::move(vars));
#pragma GCC diagnostic pop
		}
		else if (launch == std::launch::deferred && draw(2))
			f = svc->resolve(state, ast, opName, std::move(vars));
		else
			f = svc->resolve(launch, state, ast, opName, std::move(vars));
		auto doc = f.get();
		checkResponse(*p, doc);
		checkCalls(*p);
		ctx.joinAll();
	}
	if (live(L_OBJECT) || live(L_STATE) || live(L_SERVICE))
		rt_fail("leak", "%ld objects, %ld states and %ld services are still alive", live(L_OBJECT), live(L_STATE),
			live(L_SERVICE));
}

// One response key, selected twice with different sub-selections: the response has to hold both.
static void runMerge()
{
	SchemaDef* s;
	Doc* d;
	Plan* p;
	std::string text, second;
	{
		Guard g;
		auto leaf = [&](int i) {
			const auto& f = s->fields[i];
			return f.base != B_OBJ && f.args.empty();
		};
		int root = -1;
		std::vector<int> leaves;
		for (int tries = 0; root < 0; ++tries)
		{
			if (tries == 200)
				rt_finish(RT_DISCARD, "no schema", "-");
			s = new SchemaDef(genSchema({}));
			for (int f : s->types[s->query].fields)
			{
				const auto& def = s->fields[f];
				if (def.base != B_OBJ || !def.args.empty() || def.mod > M_Q || s->types[def.type].kind != TypeDef::Object)
					continue;
				leaves.clear();
				for (int l : s->types[def.type].fields)
					if (leaf(l))
						leaves.push_back(l);
				if (leaves.size() > 1)
				{
					root = f;
					break;
				}
			}
		}
		const auto& name = s->fields[root].name;
		const auto &a = s->fields[leaves[0]].name, &b = s->fields[leaves[1]].name;
		d = new Doc;
		d->ops.resize(1);
		d->ops[0].sel.resize(1);
		d->ops[0].sel[0].field = root;
		d->ops[0].sel[0].sub.resize(2);
		d->ops[0].sel[0].sub[0].field = leaves[0];
		d->ops[0].sel[0].sub[1].field = leaves[1];
		p = new Plan;
		ExecOpts eo;
		execute(*s, *d, 0, rootObj(*s, s->query), eo, *p, "t");
		text = chance(1, 2) ? "{ " + name + " { " + a + " } " + name + " { " + b + " } }"
							: "{ " + name + " { " + a + " } ...F } fragment F on " + s->types[s->query].name + " { " + name
				+ " { " + b + " } }";
		d->text = text;
		second = b;
	}
	count(C_requests);
	Ctx ctx;
	ctx.s = s;
	ctx.checkCalls = false; // some accessors are not called
	auto svc = makeService(ctx);
	auto ast = peg::parseString(text);
	auto doc = svc->resolve(drawLaunch(), std::make_shared<SimState>(p), ast, "", response::Value(response::Type::Map)).get();
	const J got = fromValue(doc);
	ctx.joinAll();
	Guard g;
	const auto problem = diffResponse(*p, got);
	if (!problem.first)
		return;
	J& object = p->data.m[0].second;
	for (size_t i = 0; i < object.m.size(); ++i)
		if (object.m[i].first == second)
			object.m.erase(object.m.begin() + i);
	if (!diffResponse(*p, got).first)
		rt_fail("merge", "of a response key that is selected twice only the first sub-selection is answered");
	rt_fail(problem.first, "%s", problem.second.c_str());
}

static Workload c01m("C01-merge", [] {
	runMerge();
});
static Workload c01("C01", [] {
	runOne({});
});
static Workload c02("C02", [] {
	static const uint32_t f[] = { 150, 60, 400, 0 }, e[] = { 0, 100, 300, 200 };
	const uint32_t k = draw(4), m = draw(4);
	QueryOpts q;
	q.mutation = chance(1, 4);
	q.serial = false;
	q.fail = f[k];
	q.elemFail = e[m];
	runOne(q);
});
static Workload c03("C03", [] {
	QueryOpts q;
	q.mutation = true;
	if (chance(1, 3))
		q.fail = 150;
	runOne(q);
});

} // namespace sim
