#pragma once
#include "props.h"
namespace props {
std::string RootFunc(const Program& p, size_t i);
Program BadProgram(const Program& good, Rng& r, std::string* name);
std::string BadText(Rng& r);
St CompileText(Eng& e, const Program& p, const std::string& t, Rng& r);
Call ServeCall(Rng& r, const Program& p, const world::RecOpts& ro);
bool MarkSeen(const Outcome& o, int32_t mark);
bool IrHas(const std::string& ir, int32_t mark);
void CheckEmpty(Eng& e, Rng& r, const Program& shape, const world::RecOpts& ro, const std::string& where);
// bytes of p compiled and saved by another process
std::string WriteArtifact(Kind kind, ExecEngineOption o, const Program& p, int fp);
// outcomes of p in a fresh engine of another process, compiled there or loaded from `artifact`
std::vector<Outcome> FreshOutcomes(Kind kind, ExecEngineOption o, const Program& p, int fp, const std::vector<Call>& calls, const std::string* artifact);
}  // namespace props
