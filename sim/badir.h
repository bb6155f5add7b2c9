#pragma once
#include "function_registry.h"
namespace world { bool RegisterBadIr(jitfusion::FunctionRegistry& reg); }
