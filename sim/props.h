#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "driver.h"
#include "gen.h"
#include "rt.h"
#include "world.h"

namespace props {
using namespace jitfusion;
using gen::Kind;
using gen::Program;
using gen::VT;
using sim::Rng;
using world::Call;
using world::Eng;
using world::Outcome;
using world::Rec;
using world::Registry;
using world::St;

ExecEngineOption RandOpt(Rng& r, bool save, bool dump_ir = false);
// the number of entries of a batch or pipeline set: n, or sometimes many small ones
int Entries(Rng& r, gen::Opts& o, int n);
gen::Opts RandGen(Rng& r);
gen::Opts InterpGen(Rng& r);
Call RandCall(Rng& r, const Program& p, const world::RecOpts& ro);
world::RecOpts RandRec(Rng& r, bool interp);
Kind RandKind(Rng& r);
void CompileGood(Eng& e, const Program& p, const Registry& reg, const char* what = "program");
std::vector<Outcome> SoloOutcomes(Eng& e, const Program& p, const std::vector<Call>& calls);
void Check(const Outcome& want, const Outcome& got, const Call& c, const char* cls, const std::string& where, const Program& p, bool exact = true);
void CheckErrors(const Outcome& o, const Call& c, const Program& p, bool exact_text);
void LogOutcome(const Outcome& o);
void Config(uint64_t v);
std::map<int32_t, int> TokenEntry(const Program& p);
void C04(Rng r);
void C05(Rng r);
void C06(Rng r);
void C07(Rng r);
void C09(Rng r);
void C10(Rng r);
void C11(Rng r);
void C12(Rng r);
void C13(Rng r);
void C14(Rng r);
void C15(Rng r);
void C24(Rng r);
}  // namespace props
