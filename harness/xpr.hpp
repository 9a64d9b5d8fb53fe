// Regexes built from expressions.
#pragma once
#include "common.hpp"
#include <type_traits>

namespace x = meta::xpr;
using namespace meta::xpr::operators;
using meta::match_mode;
using meta::regex_flag;
