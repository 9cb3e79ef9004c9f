// Documents that (mostly) do not validate, made from valid ones.
#pragma once
#include "dyn.h"

namespace sim {
// A document that parses; whether it validates is for the library to say.
std::string mutateDoc(const SchemaDef& s, const std::string& text);
// The errors the library reports on a fresh service for a fresh parse of the document.
// Runs unobserved and alone; call it before any other thread exists.
std::string freshVerdict(const SchemaDef& s, const std::string& text);
std::string errorList(const std::list<service::schema_error>& errors);
} // namespace sim
