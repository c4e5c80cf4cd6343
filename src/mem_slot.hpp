#pragma once
#include "engine.hpp"
struct MemSlot { mc::Query q; int method; long states, calls, leak_checks, def_checks; char what[300]; };
