// Simulated OpenMP runtime (libgomp ABI + omp_* API) on top of the scheduler.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>

namespace sim {
void newEpoch();
struct Team {
    int n; Team* parent; void (*fn)(void*); void* data;
    int barArrived = 0; uint64_t barGen = 0;
    // work sharing: per construct, indexed by each thread's construct counter
    struct WS { long long start = 0, end = 0, incr = 1, chunk = 1, next = 0; bool init = false; int kind = 0; bool up = true; int left = 0; bool singleTaken = false; void* copy = nullptr; int sections = 0, nextSec = 1; unsigned long long un = 0, ucount = 0; bool ordered = false; };
    std::map<uint64_t, WS> ws;
    std::vector<uint64_t> wsCount;
    std::map<uint64_t, uint64_t> singles; 
    int level = 1;
    Team(int n_) : n(n_), parent(nullptr), fn(nullptr), data(nullptr), wsCount(n_, 0) {}
};
struct TCtx { Team* team = nullptr; int tid = 0; long long staticTrip = 0; Team::WS* cur = nullptr; };
static thread_local TCtx t_ctx;
Team* team() { return t_ctx.team; }
}
using namespace sim;

static int g_ompNum = 0;   // omp_set_num_threads

static void runTeam(void (*fn)(void*), void* data, int n)
{
    TCtx saved = t_ctx;
    ++t_rt; std::unique_ptr<Team> tmp(new Team(n)); Team& tm = *tmp; --t_rt; tm.parent = saved.team; tm.fn = fn; tm.data = data; tm.level = saved.team ? saved.team->level + 1 : 1;
    st.teams++; if ((uint64_t)n > st.maxTeam) st.maxTeam = n;
    std::vector<int> ids;
    if (n > 1) {
        Rt rt;
        for (int i = 1; i < n; i++) {
            Team* p = &tm;
            ids.push_back(spawn([p, i]() {
                t_ctx = TCtx(); t_ctx.team = p; t_ctx.tid = i;
                p->fn(p->data);
                t_ctx = TCtx();
            }, selfRank()));
        }
    }
    t_ctx = TCtx(); t_ctx.team = &tm; t_ctx.tid = 0;
    seam("omp-begin");
    fn(data);
    if (n > 1) block([&ids]() { for (int i : ids) if (!done(i)) return false; return true; }, "omp parallel end");
    newEpoch();
    t_ctx = saved;
    seam("omp-end");
}
static int teamSize(unsigned req)
{
    if (!active()) return 1;
    if (t_ctx.team && t_ctx.team->n > 1) return 1;      // nested parallelism off (default)
    int n = req ? (int)req : (g_ompNum ? g_ompNum : defaultOmpThreads);
    if (n < 1) n = 1;
    if (n > threadLimit) n = threadLimit;
    return n;
}
static void barrierWait()
{
    Team* t = t_ctx.team;
    if (!t || t->n == 1 || !active()) return;
    seam("omp-barrier");
    uint64_t g = t->barGen;
    if (++t->barArrived == t->n) { t->barArrived = 0; t->barGen++; newEpoch(); }
    else block([t, g]() { return t->barGen != g; }, "omp barrier");
}
static Team::WS& nextWS()
{
    Rt rt;
    Team* t = t_ctx.team;
    static Team solo(1);
    if (!t) { t = &solo; }
    uint64_t k = t->wsCount[t_ctx.tid]++;
    Team::WS& w = t->ws[k];
    t_ctx.cur = &w;
    return w;
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned)
{ runTeam(fn, data, teamSize(num_threads)); }
static void (*g_psFn)(void*);
void GOMP_parallel_start(void (*)(void*), void*, unsigned) { fprintf(stderr, "GOMP_parallel_start unsupported\n"); _Exit(96); }
void GOMP_parallel_end(void) {}
void GOMP_barrier(void) { barrierWait(); }
bool GOMP_barrier_cancel(void) { barrierWait(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// locks as (owner, depth) keyed by address
static std::map<void*, std::pair<int, int>>& locks() { static auto* m = new std::map<void*, std::pair<int, int>>(); return *m; }
static void acquire(void* k, bool nested, const char* why)
{
    if (!active()) return;
    seam(why);
    Rt rt;
    auto& L = locks();
    int me = self();
    auto it = L.find(k);
    if (it != L.end() && it->second.second > 0 && it->second.first == me && nested) { it->second.second++; return; }
    block([k]() { auto& l = locks(); auto i = l.find(k); return i == l.end() || i->second.second == 0; }, why);
    L[k] = { me, 1 };
    newEpoch();
}
static void release(void* k, const char* why)
{
    if (!active()) return;
    { Rt rt; auto& L = locks();
    if (L[k].second > 0) L[k].second--; }
    newEpoch();
    seam(why);
}
static char critKey, atomKey;
void GOMP_critical_start(void) { acquire(&critKey, false, "omp critical"); }
void GOMP_critical_end(void) { release(&critKey, "omp critical end"); }
void GOMP_critical_name_start(void** p) { acquire(p, false, "omp critical"); }
void GOMP_critical_name_end(void** p) { release(p, "omp critical end"); }
void GOMP_atomic_start(void) { acquire(&atomKey, false, "omp atomic"); }
void GOMP_atomic_end(void) { release(&atomKey, "omp atomic end"); }
typedef struct { void* x; } lk;
void omp_init_lock(void* l) { locks().erase(l); }
void omp_destroy_lock(void* l) { locks().erase(l); }
void omp_set_lock(void* l) { acquire(l, false, "omp lock"); }
void omp_unset_lock(void* l) { release(l, "omp unlock"); }
int omp_test_lock(void* l) { if (!active()) return 1; auto& L = locks(); auto i = L.find(l); if (i != L.end() && i->second.second > 0) { seam("omp test lock"); return 0; } L[l] = { self(), 1 }; return 1; }
void omp_init_nest_lock(void* l) { locks().erase(l); }
void omp_destroy_nest_lock(void* l) { locks().erase(l); }
void omp_set_nest_lock(void* l) { acquire(l, true, "omp nest lock"); }
void omp_unset_nest_lock(void* l) { release(l, "omp nest unlock"); }

int omp_get_thread_num(void) { return t_ctx.team ? t_ctx.tid : 0; }
int omp_get_num_threads(void) { return t_ctx.team ? t_ctx.team->n : 1; }
int omp_get_max_threads(void) { return g_ompNum ? g_ompNum : (active() ? defaultOmpThreads : 1); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return t_ctx.team && t_ctx.team->n > 1; }
void omp_set_num_threads(int n) { g_ompNum = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return t_ctx.team ? t_ctx.team->level : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_thread_limit(void) { return threadLimit; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtime(void) { return (double)st.points * 1e-6; }
double omp_get_wtick(void) { return 1e-6; }

bool GOMP_single_start(void) { Team::WS& w = nextWS(); if (w.singleTaken) return false; w.singleTaken = true; return true; }
void* GOMP_single_copy_start(void) { Team::WS& w = nextWS(); if (!w.singleTaken) { w.singleTaken = true; w.left = 1; return nullptr; } Team::WS* p = &w; block([p]() { return p->left == 2; }, "omp single copyprivate"); return w.copy; }
void GOMP_single_copy_end(void* d) { t_ctx.cur->copy = d; t_ctx.cur->left = 2; newEpoch(); barrierWait(); }
bool GOMP_has_masked_thread_num(unsigned) { return true; }
int GOMP_masked(int f) { return omp_get_thread_num() == f; }

// --- work-shared loops (dynamic/guided/runtime/ordered treated as dynamic) ----
static bool loopNext(long* s, long* e)
{
    seam("omp loop next");
    Team::WS* w = t_ctx.cur;
    if (w->kind == 1) {        // static
        Team* t = t_ctx.team; int n = t ? t->n : 1, id = t_ctx.tid;
        long long cnt = w->incr > 0 ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / -w->incr;
        if (cnt < 0) cnt = 0;
        long long trip = t_ctx.staticTrip++;
        if (w->chunk <= 0) {
            if (trip) return false;
            long long q = cnt / n, r = cnt % n, lo = id * q + (id < r ? id : r), hi = lo + q + (id < r);
            if (lo >= hi) return false;
            *s = w->start + lo * w->incr; *e = w->start + hi * w->incr; return true;
        }
        long long lo = (trip * n + id) * w->chunk, hi = lo + w->chunk;
        if (lo >= cnt) return false; if (hi > cnt) hi = cnt;
        *s = w->start + lo * w->incr; *e = w->start + hi * w->incr; return true;
    }
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long long c = (w->chunk > 0 ? w->chunk : 1) * w->incr;
    long long e2 = w->next + c;
    if (w->incr > 0 ? e2 > w->end : e2 < w->end) e2 = w->end;
    *s = w->next; *e = e2; w->next = e2;
    newEpoch();
    return true;
}
static void loopInit(long s, long e, long i, long c, int kind)
{
    Team::WS& w = nextWS();
    if (!w.init) { w.init = true; w.start = s; w.end = e; w.incr = i; w.chunk = c; w.next = s; w.kind = kind; }
    t_ctx.staticTrip = 0;
}
#define LOOP(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { loopInit(s, e, i, c, KIND); return loopNext(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loopNext(is, ie); }
LOOP(static, 1) LOOP(dynamic, 0) LOOP(guided, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 0)
LOOP(ordered_static, 1) LOOP(ordered_dynamic, 0) LOOP(ordered_guided, 0)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { loopInit(s, e, i, 1, 0); return loopNext(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loopNext(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(ordered_runtime)
void GOMP_loop_end(void) { barrierWait(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrierWait(); return false; }
void GOMP_ordered_start(void) { acquire(&critKey, false, "omp ordered"); }
void GOMP_ordered_end(void) { release(&critKey, "omp ordered end"); }
typedef unsigned long long ull;
static bool ullNext(ull* s, ull* e)
{
    seam("omp loop next");
    Team::WS* w = t_ctx.cur;
    ull total = w->ucount;
    if (w->kind == 1) {
        Team* t = t_ctx.team; ull n = t ? t->n : 1, id = t_ctx.tid; ull trip = t_ctx.staticTrip++;
        ull lo, hi;
        if (w->chunk <= 0) { if (trip) return false; ull q = total / n, r = total % n; lo = id * q + (id < r ? id : r); hi = lo + q + (id < r); if (lo >= hi) return false; }
        else { lo = (trip * n + id) * (ull)w->chunk; hi = lo + w->chunk; if (lo >= total) return false; if (hi > total) hi = total; }
        *s = (ull)w->start + lo * (ull)w->incr; *e = (ull)w->start + hi * (ull)w->incr; return true;
    }
    if (w->un >= total) return false;
    ull lo = w->un, hi = lo + (w->chunk > 0 ? (ull)w->chunk : 1); if (hi > total) hi = total;
    w->un = hi;
    *s = (ull)w->start + lo * (ull)w->incr; *e = (ull)w->start + hi * (ull)w->incr;
    if (hi == total) *e = (ull)w->end;
    newEpoch();
    return true;
}
static void ullInit(bool up, ull s, ull e, ull i, ull c, int kind)
{
    Team::WS& w = nextWS();
    if (!w.init) {
        w.init = true; w.start = (long long)s; w.end = (long long)e; w.incr = (long long)i; w.chunk = (long long)c; w.kind = kind; w.un = 0;
        if (up) w.ucount = s < e ? (e - s + i - 1) / i : 0; else { ull d = (ull)0 - i; w.ucount = s > e ? (s - e + d - 1) / d : 0; }
    }
    t_ctx.staticTrip = 0;
}
#define ULOOP(NAME, KIND) \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { ullInit(up, s, e, i, c, KIND); return ullNext(is, ie); } \
bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return ullNext(is, ie); }
ULOOP(static, 1) ULOOP(dynamic, 0) ULOOP(guided, 0) ULOOP(nonmonotonic_dynamic, 0) ULOOP(nonmonotonic_guided, 0)
ULOOP(ordered_static, 1) ULOOP(ordered_dynamic, 0) ULOOP(ordered_guided, 0)
#define ULOOPR(NAME) \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { ullInit(up, s, e, i, 1, 0); return ullNext(is, ie); } \
bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return ullNext(is, ie); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
// combined parallel loops
struct PL { void (*fn)(void*); void* data; long s, e, i, c; int kind; };
static void plThunk(void* p) { PL* q = (PL*)p; loopInit(q->s, q->e, q->i, q->c, q->kind); q->fn(q->data); }
#define PLOOP(NAME, KIND) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { PL q{ fn, d, s, e, i, c, KIND }; runTeam(plThunk, &q, teamSize(n)); }
PLOOP(static, 1) PLOOP(dynamic, 0) PLOOP(guided, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 0)
#define PLOOPR(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL q{ fn, d, s, e, i, 1, 0 }; runTeam(plThunk, &q, teamSize(n)); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned c) { Team::WS& w = nextWS(); if (!w.init) { w.init = true; w.sections = (int)c; w.nextSec = 1; } seam("omp sections"); return w.nextSec <= w.sections ? (unsigned)w.nextSec++ : 0; }
unsigned GOMP_sections_next(void) { seam("omp sections"); Team::WS* w = t_ctx.cur; return w->nextSec <= w->sections ? (unsigned)w->nextSec++ : 0; }
struct PS { void (*fn)(void*); void* d; unsigned c; };
static void psThunk(void* p) { PS* q = (PS*)p; Team::WS& w = nextWS(); if (!w.init) { w.init = true; w.sections = (int)q->c; w.nextSec = 1; } q->fn(q->d); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { PS q{ fn, d, c }; runTeam(psThunk, &q, teamSize(n)); }
void GOMP_sections_end(void) { barrierWait(); }
void GOMP_sections_end_nowait(void) {}
// reductions of parallel regions (no task reductions)
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { int k = teamSize(n); runTeam(fn, d, k); return (unsigned)k; }
// tasks: executed immediately by the encountering thread (a legal schedule)
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
    seam("omp task");
    if (cpyfn) { std::vector<char> b(sz + al + 16); char* p = b.data(); p += (al - ((uintptr_t)p % al)) % al; cpyfn(p, data); fn(p); }
    else { std::vector<char> b(sz + al + 16); char* p = b.data(); if (al) p += (al - ((uintptr_t)p % al)) % al; memcpy(p, data, sz); fn(p); }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { seam("omp taskyield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
}
