// Random schemas, data, documents, and a small reference executor for them.
#pragma once
#include "common.h"

#include <memory>

namespace sim {

enum Base { B_INT, B_STR, B_BOOL, B_FLOAT, B_ID, B_ENUM, B_JSON, B_OBJ, B_INPUT, B_INPUT1 };
enum Mod { M_N, M_Q, M_L, M_LQ, M_QL, M_QLQ, M_LL };

struct InType
{
	Base base = B_INT;
	bool nonNull = false, list = false, elemNonNull = false;
	bool operator==(const InType& o) const
	{
		return base == o.base && nonNull == o.nonNull && list == o.list && elemNonNull == o.elemNonNull;
	}
	std::string text() const;
};
struct ArgDef
{
	std::string name;
	InType type;
	bool hasDefault = false;
	J def = {};
};
struct Note // what introspection tells about a definition
{
	std::string desc;
	bool deprecated = false;
	std::string reason;
};
struct FieldDef
{
	int index = 0;
	std::string name;
	Base base = B_INT;
	int type = -1; // composite type for B_OBJ
	Mod mod = M_N;
	std::vector<ArgDef> args;
};
struct TypeDef
{
	enum Kind { Object, Interface, Union } kind = Object;
	std::string name;
	std::vector<int> fields;
	std::vector<int> ifaces;   // of an object
	std::vector<int> possible; // of an interface or union
	std::set<std::string> names; // type conditions an object satisfies
	Note note = {};
	std::vector<Note> fieldNotes = {}; // of fields, in order
};
struct SchemaDef
{
	std::vector<FieldDef> fields;
	std::vector<TypeDef> types;
	std::vector<std::string> enums;
	std::vector<ArgDef> input;  // In0
	std::vector<ArgDef> input1; // In1, only in rich schemas
	int query = -1, mutation = -1, subscription = -1;
	Note tag, any, en; // the directive, the custom scalar, the enum
	std::vector<Note> values;
	std::vector<int> possible(int t) const;
	bool overlap(int a, int b) const;
};

struct SchemaOpts
{
	bool mutation = false, subscription = false;
	uint32_t maxObjects = 4, maxFields = 5;
	bool rich = false; // for generated services: default values, more argument types
};
SchemaDef genSchema(const SchemaOpts& o);
// the value an accessor gets for what the request says; complete input objects, null where absent
J coerce(const SchemaDef& s, const InType& t, const J& v);
J coerceArgs(const SchemaDef& s, const std::vector<ArgDef>& defs, const J& given);
std::string literalText(const J& j);
J genValue(const SchemaDef& s, const InType& t); // a value that fits

// ---- documents --------------------------------------------------------------------------------
struct Val
{
	enum K { Lit, Var, List, Obj } k = Lit;
	J lit;
	int var = -1;
	std::vector<Val> l;
	std::vector<std::pair<std::string, Val>> m;
};
struct Dir
{
	std::string name;
	std::vector<std::pair<std::string, Val>> args;
};
struct Sel
{
	enum K { Field, Spread, Inline } k = Field;
	std::string alias;
	int field = -1; // -1: __typename
	std::vector<std::pair<std::string, Val>> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
	int frag = -1, cond = -1;
	int line = 0, col = 0;
};
struct FragDef
{
	std::string name;
	int type = 0;
	std::vector<Dir> dirs;
	std::vector<Sel> sel;
	bool used = false;
};
struct VarDef
{
	std::string name;
	InType type;
	bool hasDefault = false, provided = true;
	bool bad = false; // the value does not fit the type
	J def, value;
};
struct OpDef
{
	enum Kind { Query, Mutation, Subscription } kind = Query;
	std::string name;
	std::vector<int> vars;
	std::vector<Dir> dirs;
	std::vector<Sel> sel;
};
struct Doc
{
	std::vector<OpDef> ops;
	std::vector<FragDef> frags;
	std::vector<VarDef> vars;
	std::string text;
	OpDef::Kind kind = OpDef::Query; // what was asked for; other operations may be of other kinds
	int pickOp(bool any = false) const; // one of that kind, or any which is not a subscription
};
struct DocOpts
{
	bool mutation = false, subscription = false;
	bool multiOp = true;
	int budget = 14;
	int depth = 4;
	bool skipRoot = false; // directives wherever the root field of a subscription is selected
	bool mixed = true;	  // operations of other kinds in one document
	bool badVars = false; // give some variables values that do not fit their types
};
Doc genDoc(const SchemaDef& s, const DocOpts& o);
// the same document for a request with other variables
Doc otherVariables(const SchemaDef& s, const Doc& d);
// a document of the same shape with other literals
Doc otherLiterals(const SchemaDef& s, const Doc& d);
// request variables of the document
J providedVariables(const Doc& d);
void printDoc(const SchemaDef& s, Doc& d, bool fancy);

// ---- expectations ------------------------------------------------------------------------------
enum Mode { MODE_VALUE, MODE_READY, MODE_DEFERRED, MODE_LATER, MODE_ASYNC };
enum Fail { F_NONE, F_STD, F_SCHEMA, F_SCHEMA_OWN, F_SCHEMA_TWO, F_ALLOC, F_BROKEN };
struct Beh
{
	Mode mode = MODE_VALUE;
	Fail fail = F_NONE;
	bool failSync = false; // throw before a future exists
	uint32_t delay = 0;    // simulated nanoseconds
	uint32_t yields = 0;
};
struct RV // resolved value
{
	enum K { Null, Scalar, Obj, List } k = Null;
	J j;
	int type = -1;
	uint64_t obj = 0;
	std::vector<RV> l;
};
struct Err
{
	std::string token;
	int line = 0, col = 0;
	J path;
	bool exact = false;
};
struct Call
{
	std::string path;
	int id = 0;
	int type = -1;
	uint64_t obj = 0;
	int field = -1;
	J args, typed, fieldDirs, opDirs, fragDirs, spreadDirs, inlineDirs;
	RV value;
	Beh beh;
	int line = 0, col = 0;
	int root = 0; // index of the root field it belongs to
	std::string token;     // text of its failure
	bool optional = false; // below an object whose end notification fails
	int called = 0, completed = 0;
};
struct ObjExp
{
	std::string path;
	int type = -1;
	uint64_t obj = 0;
	int root = 0;
	bool beginFail = false, endFail = false;
	std::string token;
	bool optional = false;
	int begins = 0, ends = 0, active = 0;
};
struct ExecOpts
{
	uint32_t modes = 31;      // allowed accessor modes
	uint32_t failPer1000 = 0; // accessor failures
	uint32_t elemFailPer1000 = 0;
	int maxCalls = 150;
	bool threadsAllowed = true;
	bool typed = false; // accessors with typed arguments: values that do not fit are errors
};
struct Plan
{
	int id = 0;
	const SchemaDef* schema = nullptr;
	const Doc* doc = nullptr;
	int op = 0;
	J data;
	std::vector<Err> errors;
	std::map<std::string, Call> calls;
	std::map<std::string, ObjExp> objs;
	std::vector<std::string> rootKeys;
	int context = 0; // service::ResolverContext
	bool tooBig = false;
	bool checkSerial = false;
	int lastRoot = -1;
};
// Executes the operation on the model and draws the behaviour of every accessor call.
void execute(const SchemaDef& s, const Doc& d, int op, uint64_t rootObj, const ExecOpts& o, Plan& p,
	const char* prefix = "");

RV valueOf(const SchemaDef& s, const FieldDef& f, uint64_t obj, const J& args);
std::string describe(const Call& c, const SchemaDef& s);
Beh drawBehaviour(const ExecOpts& o);

} // namespace sim
