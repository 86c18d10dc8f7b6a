#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <memory>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <dlfcn.h>

namespace sim {

Stats st;
std::function<uint64_t()> nextTimer;
void (*onFatal)(const std::string&, const std::string&) = nullptr;
int defaultOmpThreads = 4;
int threadLimit = 64;

double Rng::normal()
{
    double u = u01(), v = u01();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
}

bool Trace::get(char k, uint64_t ord, int64_t& v) const
{
    auto i = d.find(k);
    if (i == d.end()) return false;
    auto j = i->second.find(ord);
    if (j == i->second.end()) return false;
    v = j->second;
    return true;
}
size_t Trace::size() const { size_t n = 0; for (auto& k : d) n += k.second.size(); return n; }
std::string Trace::str() const
{
    std::string s;
    for (auto& k : d) for (auto& e : k.second) {
        if (!s.empty()) s += ';';
        s += k.first; s += ' '; s += std::to_string(e.first); s += ' '; s += std::to_string(e.second);
    }
    return s;
}
Trace Trace::parse(const std::string& t)
{
    Trace r;
    size_t i = 0;
    while (i < t.size()) {
        size_t j = t.find(';', i); if (j == std::string::npos) j = t.size();
        char k; unsigned long long a; long long b;
        if (sscanf(t.substr(i, j - i).c_str(), "%c %llu %lld", &k, &a, &b) == 3) r.put(k, a, b);
        i = j + 1;
    }
    return r;
}

enum State { READY, BLOCKED, DONE };
struct Thread {
    int id; int rank; State state = READY;
    sem_t sem; std::function<void()> fn; std::function<bool()> pred; const char* why = "";
    uint64_t prio = 0;
};
struct Worker { pthread_t t; sem_t go; Thread* job = nullptr; };

static Rng g_rng(1);
static Policy g_pol;
static bool g_replay = false;
static Trace g_in, g_out;
static std::map<char, uint64_t> g_ord;
static std::vector<Thread*> g_th;          // by id; kept until run() ends
static std::deque<Worker*> g_idle;
static Thread* g_cur = nullptr;
static thread_local Thread* t_self = nullptr;
static bool g_active = false;
static int g_live = 0;
static int g_noPreempt = 0;
static uint64_t g_next = ~0ull;            // next geometric / replayed preemption point
static uint64_t g_cap = ~0ull;
static uint64_t g_tick = 0;
static sem_t g_mainSem;
static Outcome g_outcome = OK;
static std::string g_text;
static uint64_t g_pctNext = 0;

bool haveBaton() { return !g_active || t_self == g_cur; }
bool active() { return g_active && t_self != nullptr; }
int self() { return t_self ? t_self->id : -1; }
int selfRank() { return t_self ? t_self->rank : -1; }
int liveThreads() { return g_live; }
bool replaying() { return g_replay; }
const Trace& recorded() { return g_out; }
Rng& rng() { return g_rng; }
const std::string& outcomeText() { return g_text; }
uint64_t tick() { return g_tick; }
void preemption(bool on) { if (on) { if (g_noPreempt) --g_noPreempt; } else ++g_noPreempt; }

static inline void fnv(uint64_t& h, uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v & 255); h *= 1099511628211ull; v >>= 8; } }
void event(const char* k, uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t h = 0; for (const char* p = k; *p; ++p) h = h * 131 + (unsigned char)*p;
    fnv(st.evHash, h); fnv(st.evHash, a); fnv(st.evHash, b); fnv(st.evHash, c); fnv(st.evHash, (uint64_t)self());
}

int64_t decide(char kind, const std::function<int64_t(Rng&)>& draw)
{
    Rt rt;
    uint64_t o = ++g_ord[kind];
    int64_t v = 0;
    if (g_replay) g_in.get(kind, o, v);
    else v = draw(g_rng);
    if (v) g_out.put(kind, o, v);
    return v;
}

static uint64_t replayNextPreempt(uint64_t after)
{
    auto i = g_in.d.find('p');
    if (i == g_in.d.end()) return ~0ull;
    auto j = i->second.upper_bound(after);
    return j == i->second.end() ? ~0ull : j->first;
}
static void scheduleNext()
{
    if (g_replay) { g_next = replayNextPreempt(st.points); return; }
    if (g_pol.meanGap <= 0) { g_next = ~0ull; return; }
    double u = g_rng.u01(); if (u < 1e-12) u = 1e-12;
    g_next = st.points + 1 + (uint64_t)(-std::log(u) * g_pol.meanGap);
}

void init(uint64_t seed, const Policy& p, const Trace* replay)
{
    g_rng = Rng(seed ^ 0xD1B54A32D192ED03ull);
    g_pol = p; g_replay = replay != nullptr; g_in = replay ? *replay : Trace(); g_out = Trace();
    g_ord.clear(); st = Stats(); g_tick = 0; g_noPreempt = 0;
    scheduleNext();
    g_pctNext = 0;
}

// ---- baton -------------------------------------------------------------------
static void fatal(Outcome o, const std::string& text)
{
    g_outcome = o; g_text = text;
    if (onFatal) onFatal(o == DEADLOCK ? "deadlock" : o == STEPCAP ? "stepcap" : "crash", text);
    sem_post(&g_mainSem);
    for (;;) pause();
}
void violationExit(const std::string& what) { fatal(CRASH, what); abort(); }

static void collectReady(std::vector<Thread*>& r, Thread* except)
{
    r.clear();
    for (Thread* t : g_th) {
        if (!t || t == except) continue;
        if (t->state == READY || (t->state == BLOCKED && t->pred())) r.push_back(t);
    }
}
static Thread* pick(std::vector<Thread*>& r, char kind)
{
    // starve one thread while anybody else can run
    if (!g_replay && g_pol.stalled >= 0 && g_tick < (uint64_t)g_pol.stallTicks && r.size() > 1) {
        for (size_t i = 0; i < r.size(); i++) if (r[i]->id % 8 == g_pol.stalled) { r.erase(r.begin() + i); break; }
    }
    (void)kind;
    if (g_pol.style == 4 && !g_replay) {
        Thread* b = r[0];
        for (Thread* t : r) if (t->prio > b->prio) b = t;
        return b;
    }
    return r[g_rng.below(r.size())];
}
static void handTo(Thread* t)
{
    Thread* me = t_self;
    if (t->state == BLOCKED) { t->state = READY; t->pred = nullptr; }
    if (t == me) { g_cur = t; return; }
    st.switches++;
    fnv(st.sigHash, (uint64_t)t->id);
    g_cur = t;
    sem_post(&t->sem);
    if (me && me->state != DONE) { while (sem_wait(&me->sem)) {} }
}
static std::string describe()
{
    std::string s;
    for (Thread* t : g_th) if (t && t->state == BLOCKED) {
        char b[200]; snprintf(b, sizeof b, "%sthread %d (rank %d) waits in %s", s.empty() ? "" : "; ", t->id, t->rank, t->why); s += b;
    }
    return s;
}
// the current thread cannot continue: choose somebody else (or finish / deadlock)
static void forced()
{
    Rt rt;
    // static: after handTo() returns in a finished thread somebody else holds the baton,
    // so nothing may be freed here
    static std::vector<Thread*>& r = *new std::vector<Thread*>();
    for (;;) {
        ++g_tick; st.ticks = g_tick;
        collectReady(r, nullptr);
        if (!r.empty()) break;
        if (g_live == 0) { sem_post(&g_mainSem); return; }
        uint64_t t = nextTimer ? nextTimer() : ~0ull;
        if (t != ~0ull && t > g_tick) { g_tick = t; continue; }
        if (t != ~0ull) continue;
        fatal(DEADLOCK, "no thread can make progress: " + describe());
    }
    st.forced++;
    Thread* t;
    if (r.size() == 1) t = r[0];
    else {
        uint64_t o = ++g_ord['s'];
        int64_t v = 0;
        if (g_replay) { g_in.get('s', o, v); if (v >= (int64_t)r.size()) v = 0; t = r[v]; }
        else { std::vector<Thread*> rr = r; t = pick(rr, 's'); for (size_t i = 0; i < r.size(); i++) if (r[i] == t) v = (int64_t)i; }
        if (v) g_out.put('s', o, v);
    }
    handTo(t);
}
static void preemptTo(Thread* t)
{
    // long runs: after the budget, preempt twenty times more rarely (the run must end)
    if (!g_replay && ++st.preempts == 60000) { g_pol.meanGap *= 20; g_pol.pHot /= 20; g_pol.pSeam /= 20; }
    else if (g_replay) st.preempts++; ++g_tick;
    g_out.put('p', st.points, t->id);
    handTo(t);
}
static void preempt()
{
    if (t_rt) return;
    Rt rt;
    if (g_replay) {
        int64_t v = -1;
        if (g_in.get('p', st.points, v) && v >= 0 && v < (int64_t)g_th.size()) {
            Thread* t = g_th[v];
            if (t && t != t_self && (t->state == READY || (t->state == BLOCKED && t->pred()))) preemptTo(t);
        }
    } else {
        std::vector<Thread*> r; collectReady(r, t_self);
        if (!r.empty()) {
            if (g_pol.style == 4) {     // PCT: demote the running thread
                t_self->prio = g_rng.below(1000);
                Thread* b = t_self; for (Thread* t : r) if (t->prio > b->prio) b = t;
                if (b != t_self) preemptTo(b);
            } else preemptTo(pick(r, 'p'));
        }
    }
}

void seam(const char* what)
{
    (void)what;
    if (t_rt || !active()) return;
    st.seams++;
    if (g_live <= 1) return;
    ++st.points;
    if (st.points >= g_cap) fatal(STEPCAP, "step cap reached");
    if (g_noPreempt) return;
    bool doit;
    if (g_replay) doit = st.points == g_next;
    else doit = st.points >= g_next || (g_pol.pSeam > 0 && g_rng.chance(g_pol.pSeam));
    // the next point is drawn first: preempt() returns only when this thread runs again
    if (doit) { if (g_replay || st.points >= g_next) scheduleNext(); preempt(); }
}

// ---- access-level preemption and conflict tracking ---------------------------
// exact open-addressing table: only equality of granules matters, so decisions do not
// depend on where memory happens to be mapped
struct Cell { uint64_t key; const void* pc; uint64_t epoch; int tid; bool w; };
static Cell* g_cells = nullptr; static const size_t CELLS = 1u << 17; static size_t g_used = 0; static bool g_trackOff = false;
static Cell* cell(uint64_t k)
{
    if (!g_cells) g_cells = (Cell*)calloc(CELLS, sizeof(Cell));
    size_t i = (k * 0x9E3779B97F4A7C15ull) >> 47;
    while (g_cells[i].key != k && g_cells[i].key) i = (i + 1) & (CELLS - 1);
    if (!g_cells[i].key) {
        if (g_used * 2 > CELLS) { g_trackOff = true; return nullptr; }
        g_used++; g_cells[i].key = k;
    }
    return &g_cells[i];
}
static std::unordered_set<const void*>& hot() { static auto* h = new std::unordered_set<const void*>(); return *h; }
static uint64_t g_epoch = 1;
void newEpoch() { ++g_epoch; }

void access(const void* a, unsigned sz, bool w, const void* pc)
{
    (void)sz;
    if (!g_active || g_live <= 1 || t_rt) return;
    Thread* me = t_self;
    if (!me) return;
    ++st.points;
    if (st.points >= g_cap) fatal(STEPCAP, "step cap reached");
    bool doit = false;
    if (g_replay) { if (st.points != g_next) return; doit = true; }
    else {
        if (st.points >= g_next) doit = true;
        if (g_pol.pHot > 0) {
            Rt rt;
            Cell* c = g_trackOff ? nullptr : cell((uint64_t)a >> 3);
            if (c) {
                if (c->epoch == g_epoch) {
                    if (c->tid != me->id && (c->w || w)) { st.conflicts++; hot().insert(c->pc); hot().insert(pc); }
                    if (c->tid != me->id || w || !c->w) { c->tid = me->id; c->w = w; c->pc = pc; }
                } else { c->tid = me->id; c->w = w; c->pc = pc; c->epoch = g_epoch; }
            }
            if (!doit && !hot().empty() && hot().count(pc)) { st.hotPcs = hot().size(); if (g_rng.chance(g_pol.pHot)) doit = true; }
        }
    }
    if (!doit) return;
    if (g_replay || st.points >= g_next) scheduleNext();
    if (!g_noPreempt) preempt();
}

void block(const std::function<bool()>& ready, const char* why)
{
    if (!active()) { if (!ready()) { fprintf(stderr, "block outside simulation: %s\n", why); abort(); } return; }
    Rt rt;
    if (ready()) return;
    Thread* me = t_self;
    me->state = BLOCKED; me->pred = ready; me->why = why;
    forced();
}

bool done(int id) { return g_th[id] == nullptr || g_th[id]->state == DONE; }

static void threadBody(Thread* t)
{
    t_self = t;
    while (sem_wait(&t->sem)) {}
    try { t->fn(); }
    catch (...) { std::terminate(); }
    Rt rt;
    t->state = DONE; g_live--;
    newEpoch();
}
static void* workerMain(void* p)
{
    Worker* w = (Worker*)p;
    for (;;) {
        while (sem_wait(&w->go)) {}
        Thread* t = w->job;
        threadBody(t);
        { Rt rt; g_idle.push_back(w); forced(); }     // still holding the baton
        t_self = nullptr;
    }
    return nullptr;
}

int spawn(std::function<void()> fn, int rank)
{
    Rt rt;
    Thread* t = new Thread();
    t->id = (int)g_th.size(); t->rank = rank; t->fn = std::move(fn);
    t->prio = 1000 + (g_replay ? 0 : (g_pol.style == 4 ? g_rng.below(1000000) : 0));
    sem_init(&t->sem, 0, 0);
    g_th.push_back(t); g_live++;
    newEpoch();
    Worker* w;
    if (!g_idle.empty()) { w = g_idle.front(); g_idle.pop_front(); }
    else {
        w = new Worker(); sem_init(&w->go, 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
        // real pthread_create, not our interposed one
        using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
        if (real(&w->t, &at, workerMain, w)) { perror("pthread_create"); _exit(97); }
    }
    w->job = t;
    sem_post(&w->go);
    return t->id;
}

Outcome run(const std::vector<Root>& roots, uint64_t pointCap)
{
    sem_init(&g_mainSem, 0, 0);
    g_th.clear(); g_live = 0; g_outcome = OK; g_text.clear();
    g_cap = st.points + pointCap;
    g_active = true; g_cur = nullptr;
    for (auto& r : roots) spawn(r.fn, r.rank);
    t_self = nullptr;
    forced();
    while (sem_wait(&g_mainSem)) {}
    g_active = false;
    return g_outcome;
}
} // namespace sim
