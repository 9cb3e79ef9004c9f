#include "client.h"

namespace sim {

std::vector<ClientOp*>& ClientOp::all()
{
	static std::vector<ClientOp*> v;
	return v;
}

ClientOp::ClientOp(int s, int d, int o, uint64_t x, const std::string& (*t)() noexcept, const peg::ast& (*obj)() noexcept,
	response::Value (*v)(const J&), J (*p)(response::Value&&))
	: schema(s)
	, doc(d)
	, op(o)
	, seed(x)
	, text(t)
	, object(obj)
	, variables(v)
	, parse(p)
{
	all().push_back(this);
}

} // namespace sim
