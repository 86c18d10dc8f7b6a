// Deterministic simulator core: one process, real OS threads handed a baton one
// at a time; a seeded PRNG (or a recorded trace) takes every decision.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {                       // splitmix64: tiny, seedable, portable
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return u01() < p; }
    double normal();
};

// ---- trace: every non-default decision, keyed by (kind, ordinal) ----------
// kinds: 'p' preempt at point P -> thread T        (default: keep running)
//        's' K-th forced switch -> index           (default: 0, lowest id)
//        'm' K-th wildcard receive -> index        (default: 0)
//        'r' K-th standard send is rendezvous      (default: 0, eager)
//        'd' K-th message delay in ticks           (default: 0)
//        'b' K-th collective: early-leaver waits   (default: 0)
//        'o' K-th reduction order rotation         (default: 0)
//        'a' K-th allocation fails                 (default: 0)
//        'c' K-th stop poll returns true (latched) (default: 0)
struct Trace {
    std::map<char, std::map<uint64_t, int64_t>> d;
    bool get(char k, uint64_t ord, int64_t& v) const;
    void put(char k, uint64_t ord, int64_t v) { d[k][ord] = v; }
    size_t size() const;
    std::string str() const;               // "p 12 3;c 4 1;..."
    static Trace parse(const std::string&);
};

struct Policy {                     // swarm knobs, drawn per run
    int style = 0;                  // see sched.cpp
    double pSeam = 0.0;             // preemption probability at a seam
    double meanGap = 0;             // mean accesses between preemptions (0: none)
    double pHot = 0.0;              // preemption probability at a conflicting access
    double pRendezvous = 0.0;
    double pDelay = 0.0; int maxDelay = 0;
    double pWait = 0.0;
    int stalled = -1;               // thread starved while anybody else can run
    int stallTicks = 0;
};

struct Stats {
    uint64_t points = 0, seams = 0, switches = 0, preempts = 0, forced = 0, hotPcs = 0, conflicts = 0;
    uint64_t teams = 0, maxTeam = 0, ticks = 0;
    uint64_t sends = 0, rendezvous = 0, delayed = 0, wildcardChoices = 0, reordered = 0, collectives = 0, waitsForced = 0;
    uint64_t allocs = 0, allocFails = 0, polls = 0, cancels = 0, lapack = 0, lapackAfterStop = 0, dists = 0, distsAfterStop = 0;
    uint64_t sigHash = 1469598103934665603ull;   // FNV of the switch sequence
    uint64_t evHash = 1469598103934665603ull;    // FNV of the full event history
};
extern Stats st;

enum Outcome { OK = 0, DEADLOCK, STEPCAP, CRASH };

// ---- control ----------------------------------------------------------------
void init(uint64_t seed, const Policy& p, const Trace* replay);   // once per child
bool replaying();
const Trace& recorded();
Rng& rng();
// run root tasks to completion under the scheduler
struct Root { std::function<void()> fn; int rank; };
Outcome run(const std::vector<Root>& roots, uint64_t pointCap);
const std::string& outcomeText();
bool active();
int self();                       // simulated thread id, -1 outside
int selfRank();                   // rank of the calling thread's root, -1 outside
int liveThreads();
void preemption(bool on);         // enable/disable preemption globally (nested)

// ---- scheduling primitives ---------------------------------------------------
void seam(const char* what);      // possible switch at a coarse seam
void access(const void* a, unsigned sz, bool w, const void* pc);
void block(const std::function<bool()>& ready, const char* why);
int spawn(std::function<void()> fn, int rank);     // returns id
bool done(int id);
uint64_t tick();
// earliest future tick at which something can happen (in-flight messages)
extern std::function<uint64_t()> nextTimer;

// generic decision: random source draws, replay source looks up, default 0
int64_t decide(char kind, const std::function<int64_t(Rng&)>& draw);

void event(const char* kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0); // history hash
[[noreturn]] void violationExit(const std::string& what);   // from inside the runtime
extern void (*onFatal)(const std::string& cls, const std::string& what);     // set by driver

// ---- threads/teams ------------------------------------------------------------
struct Team; Team* team();
extern int defaultOmpThreads;     // what omp_get_max_threads() says in this run
extern int threadLimit;           // runtime delivers at most this many threads
// the simulator's own bookkeeping: never preempted, never failed
extern thread_local int t_rt;
extern bool dying;                // the driver is reporting a fatal outcome (from a signal handler, maybe)
struct Rt { Rt() { ++t_rt; } ~Rt() { --t_rt; } };
// ---- allocation faults ----------------------------------------------------------
void allocArm(bool on);           // count / fail only inside armed sections
extern uint64_t allocFailAt;      // 0 none, else ordinal from arm
extern uint64_t gslFailAt;        // 0 none, else countdown over the allocations of GSL
extern size_t allocMinSize;       // smaller requests (bookkeeping strings) never fail
extern int allocFailMode;         // 0 single, 1 all later ones too
void allocFill(unsigned char f);  // pattern of fresh memory
extern bool stopSeen;             // a stop poll has answered true
uint64_t allocLive();             // live bytes of instrumented allocations
uint64_t allocLiveBlocks();
uint64_t allocOrdinal();
void allocReset();

struct NetKnobs { double pRendezvous = 0, pDelay = 0, pWait = 0, pOrder = 0; int maxDelay = 0; long eagerLimit = 1L << 60; };
extern NetKnobs net;
// ---- MPI -------------------------------------------------------------------------
namespace mpi { void reset(int nranks); std::string leftovers(); }
}
