// A service whose types, data and behaviour come from the model at run time. It uses the same
// library entry points as generated code: service::Object resolver maps, ModifiedResult
// conversions, and schemas built with schema::*.
#pragma once
#include "model.h"

#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"

#include <memory>
#include <thread>

namespace sim {

namespace service = graphql::service;
namespace response = graphql::response;
namespace peg = graphql::peg;
namespace schema = graphql::schema;

enum Live { L_OBJECT, L_STATE, L_SERVICE, L_CALLBACK, L_COUNT };
long live(Live k);
void liveAdd(Live k, int n);

// counts instances
template <Live K>
struct Counted
{
	Counted() { liveAdd(K, 1); }
	Counted(const Counted&) { liveAdd(K, 1); }
	~Counted() { liveAdd(K, -1); }
	Counted& operator=(const Counted&) = default;
};

// What the accessors of one request consult.
struct SimState : service::RequestState, Counted<L_STATE>
{
	explicit SimState(Plan* p)
		: only(p)
	{
	}
	Plan* only;
	std::map<int, Plan*> events; // subscription: by event number
	Plan* notify = nullptr;
	Plan* unnotify = nullptr;
	Plan* find(service::ResolverContext c, int event) const;
};

// threads started by accessors
struct Ctx
{
	const SchemaDef* s = nullptr;
	std::vector<std::thread>* threads = nullptr;
	bool checkCalls = true;
	Ctx();
	~Ctx();
	void spawn(std::function<void()> f);
	void joinAll();
};

// what accessors and notifications check and record
Call* noteCall(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event, int index,
	const J& args, const J& fieldDirs, bool typed);
void noteBegin(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event);
void noteEnd(const Ctx& ctx, const service::SelectionSetParams& params, int type, uint64_t obj, int event);

// creates the objects accessors answer with
struct DynEnv
{
	Ctx& ctx;
	int event;
};

class DynObject : public service::Object, Counted<L_OBJECT>
{
public:
	// what generated accessors deduce
	using Lock = std::unique_lock<std::decay_t<decltype(_resolverMutex)>>;
	DynObject(Ctx& c, int type, uint64_t obj, int event);
	~DynObject() override;

	Ctx& ctx;
	const int type;
	const uint64_t obj;
	const int event;
	using Env = DynEnv;
	Env env() const { return { ctx, event }; }

protected:
	void beginSelectionSet(const service::SelectionSetParams& params) const override;
	void endSelectionSet(const service::SelectionSetParams& params) const override;

private:
	std::future<service::ResolverResult> field(int index, service::ResolverParams&& params);
};

class DynService : public service::Request, Counted<L_SERVICE>
{
public:
	DynService(service::TypeMap&& ops, const std::shared_ptr<schema::Schema>& sch)
		: service::Request(std::move(ops), sch)
	{
	}
};

std::shared_ptr<schema::Schema> buildSchema(const SchemaDef& s);
// with subscriptionDefault the subscription root has a default object
std::shared_ptr<DynService> makeService(Ctx& c, bool subscriptionDefault = true);
uint64_t rootObj(const SchemaDef& s, int type);

response::Value toValue(const J& j);
J fromValue(const response::Value& v);
std::vector<uint8_t> unbase64(const std::string& s);
std::string pathString(const service::error_path& p);

// response == plan? also checks that every expected accessor call was made, once
void checkResponse(const Plan& p, const response::Value& doc);
void checkCalls(const Plan& p);
std::string callsProblem(const Plan& p); // empty if every call was made, once
std::pair<const char*, std::string> diffResponse(const Plan& p, const J& got);
// the text of an error response {data:null, errors:[...]}, or empty
std::string errorsText(const response::Value& doc);

// libstdc++'s std::async(async | deferred) passes moved-from arguments on if it cannot create a
// thread; do not combine that policy with failing thread creation
extern bool g_noBoth;
std::launch drawLaunch();
const char* launchName(std::launch l);

// keep the instrumentation off while touching harness state from accessors
} // namespace sim
