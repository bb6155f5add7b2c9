// Driver interface: zygote processes that fork one child per simulated run.
#pragma once
#include <string>
#include "rt.h"
#include "world.h"

namespace drv {
// second executable (restarted process): send a request, receive its answer
std::string CallRestarted(const std::string& payload, std::string* crash);
}  // namespace drv

namespace props {
extern world::Registry* g_reg;       // filled before any simulated thread exists
void Warm();                          // initialise LLVM and lazily initialised state
void Run(const std::string& prop);    // one simulated run; every choice derives from sim::spec.seed
std::string Restarted(const std::string& payload);   // body executed in the second executable
const char* Rule(const std::string& prop);
}  // namespace props
