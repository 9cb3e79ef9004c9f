#include "gen.h"

namespace sim {

GenSchema* GenSchema::all[4];

GenSchema::GenSchema(int i, const char* n, SchemaDef (*d)(), std::shared_ptr<service::Request> (*m)(Ctx&, GenShared&, bool),
	std::shared_ptr<service::Object> (*e)(Ctx&, GenShared&, int), std::shared_ptr<schema::Schema> (*s)(), bool in)
	: index(i)
	, name(n)
	, def(d)
	, make(m)
	, event(e)
	, schema(s)
	, introspection(in)
{
	all[i] = this;
}

std::string base64(const std::vector<uint8_t>& v)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string s;
	for (size_t i = 0; i < v.size(); i += 3)
	{
		const uint32_t x = (uint32_t)v[i] << 16 | (i + 1 < v.size() ? v[i + 1] << 8 : 0) | (i + 2 < v.size() ? v[i + 2] : 0);
		s += t[x >> 18];
		s += t[x >> 12 & 63];
		s += i + 1 < v.size() ? t[x >> 6 & 63] : '=';
		s += i + 2 < v.size() ? t[x & 63] : '=';
	}
	return s;
}

} // namespace sim
