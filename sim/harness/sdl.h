// A schema in the schema definition language.
#pragma once
#include "model.h"

namespace sim {
// draws descriptions and deprecations and notes them in s
std::string sdl(SchemaDef& s);
}
