#pragma once
#include "model.h"
struct Ctx {
    Params p; int tier = 0;
    const sim::Trace* replay = nullptr;
    std::vector<std::pair<std::string, std::string>> viol;     // class, message
    std::string skip;                                          // why the run decided nothing
    std::map<std::string, uint64_t> probe;                     // rare conditions reached
    std::map<std::string, uint64_t> fault;                     // faults that actually fired
    void bad(const std::string& cls, const std::string& msg) { viol.emplace_back(cls, msg); }
};
typedef void (*Scenario)(Ctx&);
struct ScenDef { const char* id; Scenario fn; const char* what; };
extern const ScenDef scenarios[];
extern const int nScenarios;
// ---- shared by the scenarios
void startSim(Ctx& x, bool fine = true);
int threads(Ctx& x);
sim::Outcome simOne(Ctx& x, const std::function<void()>& f);
bool wellConditioned(Ctx& x, int model, BuildOpts o, const std::function<Out(Inst&)>& f, const Out& ref, double tol);
void hashOut(const Out& o);
bool simRanks(Ctx& x, int ranks, const std::function<void(int)>& f);
extern const std::vector<long> REG;
