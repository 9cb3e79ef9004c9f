// The request documents clientgen gets, and what the types it makes of them hold.
#pragma once
#include "model.h"

namespace sim {

enum { CLIENT_DOCS = 8 };
// document k: the same for emit, which looks for the seed, and in every run
uint64_t clientSeed(const SchemaDef& s, int k);
Doc clientDoc(const SchemaDef& s, int k, uint64_t seed);
inline OpDef::Kind clientDocKind(int k)
{
	return k == CLIENT_DOCS - 1 ? OpDef::Subscription : k >= CLIENT_DOCS - 3 ? OpDef::Mutation : OpDef::Query;
}

// a selection set as the generated struct has it: fields of all fragments, first one wins
struct Shape
{
	std::string key, member;
	int field = -1;
	std::vector<Shape> sub;
};
std::vector<Shape> shapeOf(const SchemaDef& s, const Doc& d, const std::vector<Sel>& sel);
// the typed value for response data; false: the data does not fit the types
bool typedOf(const SchemaDef& s, const std::vector<Shape>& shape, const J& data, J& out);
// sets every member of input objects: what a client struct can say
J complete(const SchemaDef& s, const InType& t, const J& v);
// enum values as strings
J weak(const J& j);
// bytes of a JSON document, independent of the library; false: not exactly one valid document
bool decode(const std::string& text, J& out);

} // namespace sim
