#include "scen.h"
#include "gwmodelpp/utils/armampi.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include "mpi.h"
#include <cmath>
#include <algorithm>
#include <sstream>
using namespace gwm; using namespace arma;
using std::string; using std::vector;


static const uint64_t CAP = 400ull * 1000 * 1000;

void startSim(Ctx& x, bool fine) {
    auto& p = x.p; sim::Policy pol;
    pol.style = (int)p.i("style", 0, 4);
    static const double seams[] = { 0.0, 0.05, 0.3, 0.7, 0.0 };
    pol.pSeam = seams[p.i("pseam", 0, 3)];
    static const double gaps[] = { 0, 30, 300, 3000, 30000 };
    pol.meanGap = fine ? gaps[p.i("gap", 1, 4)] : 0;
    pol.pHot = fine && p.b("hot", 0.6) ? (p.b("hot2", 0.5) ? 0.5 : 0.05) : 0;
    if (p.b("stall", 0.2)) { pol.stalled = (int)p.i("stalled", 1, 5); pol.stallTicks = (int)p.pick("stallticks", { 20, 200, 2000 }); }
    sim::init(p.seed, pol, x.replay);
    if (pol.stalled >= 0) x.fault["stalled-thread"]++;
}
int threads(Ctx& x) {
    int t = (int)x.p.pick("threads", { 2, 2, 3, 4, 5, 8 }); if (x.p.b("manythr", 0.05)) t = (int)x.p.pick("threadsmany", { 13, 34 });
    if (x.p.b("limited", 0.2)) { sim::threadLimit = (int)x.p.i("limit", 1, 4); if (sim::threadLimit < t) x.fault["fewer-threads-than-requested"]++; } else sim::threadLimit = 64;
    sim::defaultOmpThreads = (int)x.p.i("dflthr", 1, 6);
    return t;
}
// one root thread, faults = schedule
sim::Outcome simOne(Ctx& x, const std::function<void()>& f) {
    sim::mpi::reset(1);
    auto o = sim::run({ { f, 0 } }, CAP);
    if (o != sim::OK) x.bad(o == sim::DEADLOCK ? "deadlock" : o == sim::STEPCAP ? "stepcap" : "crash", sim::outcomeText());
    return o;
}
extern const vector<long> REG;
const vector<long> REG = { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_GTWR, M_GWDR };

// is the serial result itself stable under rounding-size changes of the data?
bool wellConditioned(Ctx& x, int model, BuildOpts o, const std::function<Out(Inst&)>& f, const Out& ref, double tol) {
    {   // the same serial computation once more: a result that is not repeatable is not a matter of conditioning
        Params pp = x.p; auto in = build(model, pp, "", o); sim::allocFill(0x3B); Out r = f(*in); sim::allocFill(0xA5);
        string d = diff(ref, r, tol * 0.3); if (!d.empty()) { x.bad("not-repeatable", string(modelName[model]) + ": two identical serial runs differ: " + d); return false; }
    }
    for (int s = 1; s <= 3; s++) {
        BuildOpts q = o; q.perturb = s; Params pp = x.p; auto in = build(model, pp, "", q);
        Out r = f(*in);
        if (!diff(ref, r, tol * 0.3).empty()) return false;
    }
    return true;
}
void hashOut(const Out& o) {
    sim::Rt g; uint64_t h = 1469598103934665603ull;
    auto mix = [&](const void* q, size_t n) { for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char*)q)[i]; h *= 1099511628211ull; } };
    for (auto& e : o.v) { mix(e.first.data(), e.first.size()); mix(e.second.memptr(), e.second.n_elem * sizeof(double)); }
    mix(o.what.data(), o.what.size()); sim::event("out", h, o.threw, o.status);
}
// run the same operation serially (outside the simulator) and in parallel (inside); compare
static void serialVsOmp(Ctx& x, int model, BuildOpts o, const std::function<void(Inst&, Out&)>& op, const string& what, double tol = 1e-6) {
    auto f = [&](Inst& in) { return callGuarded(in, [&](Out& out) { op(in, out); }); };
    auto a = build(model, x.p, "", o);
    a->par(SerialOnly, 1);
    Out ref = f(*a);
    if (ref.threw) x.probe["serial-raises"]++;
    int th = threads(x);
    startSim(x);
    auto b = build(model, x.p, "", o);
    Out got;
    if (simOne(x, [&] { b->par(OpenMP, th); got = f(*b); }) != sim::OK) return;
    hashOut(got);
    if (sim::st.maxTeam > 1) x.probe["team>1"]++;
    string d = diff(ref, got, tol);
    if (d.empty()) return;
    if (!wellConditioned(x, model, o, [&](Inst& in) { in.par(SerialOnly, 1); return f(in); }, ref, tol)) { x.skip = "ill-conditioned instance"; return; }
    x.bad("parallel-differs", string(modelName[model]) + " " + what + ": " + d);
}

// ---------------------------------------------------------------- C01 .. C03
static void fitOmp(Ctx& x) {
    int model = (int)x.p.pick("model", REG);
    BuildOpts o; if (x.p.b("failing", 0.12)) { o.singular = true; x.fault["failing-local-model"]++; }
    else if ((model == M_BASIC || model == M_ROBUST || model == M_MULTI) && x.p.b("hard", 0.12)) { o.hardSearch = true; x.fault["failing-candidate"]++; }
    serialVsOmp(x, model, o, [](Inst& in, Out& out) { in.run(out); }, "fit with OpenMP");
}
static void summaryOmp(Ctx& x) {
    int model = (int)x.p.pick("model", { M_GWSSA, M_GWSSC, M_GWSSC, M_GWDA });
    serialVsOmp(x, model, {}, [](Inst& in, Out& o) { in.run(o); }, "run with OpenMP");
}
static void predictOmp(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_LCR, M_GTWR, M_POISSON, M_BINOM });
    BuildOpts o; o.noAuto = true; o.forceHat = true;
    bool fitFirst = x.p.b("fitfirst", 0.5);
    serialVsOmp(x, model, o, [&](Inst& in, Out& out) { if (fitFirst) in.run(out); out.add("prediction", in.predict()); }, "predict with OpenMP");
}
static void predictOrSummary(Ctx& x) { if (x.p.b("summary", 0.5)) summaryOmp(x); else predictOmp(x); }

static void criterionOmp(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_POISSON, M_BINOM, M_LCR, M_GTWR, M_GWDR, M_MULTI });
    BuildOpts o; o.forceHat = true;
    if (model == M_MULTI) {   // criteria are only reachable through selection
        serialVsOmp(x, model, o, [](Inst& in, Out& out) { in.run(out); }, "bandwidth selection with OpenMP"); return;
    }
    o.noAuto = true;
    if (model != M_POISSON && model != M_BINOM && x.p.b("failing", 0.2)) { o.singular = true; x.fault["failing-local-model"]++; }
    bool var = (model == M_BASIC || model == M_GWDR) && x.p.b("varcrit", 0.4);
    double f = x.p.r("critfrac", 0.9, 1.3); long bits = x.p.i("varbits", 1, 7); bool again = x.p.b("again", 0.3);
    serialVsOmp(x, model, o, [&](Inst& in, Out& out) {
        if (in.bwNeedsFit()) { in.run(out); out.v.clear(); }
        Out t; in.collectBw(t); double bw = t.bandwidths[0] * f; if (bw > 1e6) bw = t.bandwidths[0];
        if (!var) out.add("criterion", mat(1, 1).fill(in.bwCriterion(bw)));
        else {
            vector<size_t> vs; size_t first = in.intercept() ? 1 : 0;
            for (size_t j = first; j < in.varCount(); j++) if (bits >> (j - first) & 1) vs.push_back(j);
            if (vs.empty()) vs.push_back(in.varCount() - 1);
            out.add("criterion", mat(1, 1).fill(in.varCriterion(vs)));
        }
        if (again) out.add("criterion2", mat(1, 1).fill(in.bwCriterion(bw)));
    }, var ? "variable-selection criterion with OpenMP" : "bandwidth criterion with OpenMP");
}


// ---------------------------------------------------------------- C04 .. C07: MPI
static void netKnobs(Ctx& x) {
    auto& p = x.p; sim::net = sim::NetKnobs();
    static const double r[] = { 0, 0.3, 1.0 };
    sim::net.pRendezvous = r[p.i("net.rdv", 0, 2)];
    if (p.b("net.limit", 0.3)) sim::net.eagerLimit = p.pick("net.eager", { 0, 16, 200, 1000 });
    if (p.b("net.delay", 0.6)) { sim::net.pDelay = p.b("net.delay2", 0.5) ? 0.7 : 0.2; sim::net.maxDelay = (int)p.pick("net.maxdelay", { 3, 30, 300 }); }
    sim::net.pWait = p.b("net.wait", 0.5) ? 0.5 : 0;
    sim::net.pOrder = p.b("net.order", 0.5) ? 0.5 : 0;
}
// every rank runs f(rank); returns false when the run was cut short
bool simRanks(Ctx& x, int ranks, const std::function<void(int)>& f) {
    netKnobs(x);
    sim::mpi::reset(ranks);
    vector<sim::Root> roots; for (int r = 0; r < ranks; r++) roots.push_back({ [&f, r] { f(r); }, r });
    auto o = sim::run(roots, CAP);
    if (o != sim::OK) { x.bad(o == sim::DEADLOCK ? "deadlock" : o == sim::STEPCAP ? "stepcap" : "crash", sim::outcomeText()); return false; }
    string l = sim::mpi::leftovers();
    if (!l.empty()) { x.bad("leftover-message", l); return false; }
    return true;
}
static int rankCount(Ctx& x, long n) {
    int r = (int)x.p.pick("ranks", { 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8 });
    long c = n / r + (n % r ? 1 : 0); if ((r - 1) * c >= n) x.probe["rank-without-samples"]++;
    return r;
}
struct MpiJob { int model; BuildOpts o; std::function<void(Inst&, Out&)> op; string what; bool blankable = false; };
static void mpiVsSerial(Ctx& x, const MpiJob& j, bool compare) {
    auto f = [&](Inst& in) { return callGuarded(in, [&](Out& out) { j.op(in, out); }); };
    auto a = build(j.model, x.p, "", j.o);
    a->par(SerialOnly, 1);
    Out ref = f(*a);
    if (ref.threw) x.probe["serial-raises"]++;
    int ranks = rankCount(x, (long)a->d.coords.n_rows);
    bool mp = x.p.b("mp", 0.35); int th = mp ? threads(x) : 1;
    bool blank = j.blankable && x.p.b("blank", 0.5);
    startSim(x, mp || x.p.b("fine", 0.3));
    vector<std::unique_ptr<Inst>> in; vector<Out> got(ranks);
    for (int r = 0; r < ranks; r++) { in.push_back(build(j.model, x.p, "", j.o)); if (r && blank) in[r]->blankData(); }
    if (!simRanks(x, ranks, [&](int r) { in[r]->par(mp ? MPI_MP : MPI_Serial, th, r, ranks); got[r] = f(*in[r]); })) return;
    for (auto& g : got) hashOut(g);
    if (sim::st.wildcardChoices) x.probe["wildcard-choice"]++;
    for (int r = 1; r < ranks; r++) if (got[r].threw != got[0].threw) { x.bad("ranks-disagree", "rank " + std::to_string(r) + (got[r].threw ? " raised '" + got[r].what + "'" : " returned") + " but rank 0 " + (got[0].threw ? "raised '" + got[0].what + "'" : "returned")); return; }
    if (!compare) return;
    for (int r = 0; r < ranks; r++) {
        string d = diff(ref, got[r], 1e-6, ";S;C;");
        if (d.empty()) continue;
        if (!wellConditioned(x, j.model, j.o, [&](Inst& q) { q.par(SerialOnly, 1); return f(q); }, ref, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
        x.bad("mpi-differs", string(modelName[j.model]) + " " + j.what + " on rank " + std::to_string(r) + " of " + std::to_string(ranks) + ": " + d); return;
    }
}
static MpiJob basicJob(Ctx& x) {
    MpiJob j; j.model = M_BASIC; j.o.isMpi = true; j.what = "fit with MPI"; j.blankable = true;
    long kind = x.p.pick("mkind", { 0, 0, 0, 1, 2, 3 });
    if (kind < 2 && x.p.b("hard", 0.15)) { j.o.hardSearch = true; x.fault["failing-candidate"]++; }
    if (kind == 0) j.op = [](Inst& in, Out& o) { in.run(o); };
    else if (kind == 1) { j.what = "fit and predict with MPI"; j.op = [](Inst& in, Out& o) { in.run(o); o.add("prediction", in.predict()); }; }
    else {
        double f = x.p.r("critfrac", 0.9, 1.3); bool var = kind == 3; j.o.noAuto = true; j.o.forceHat = true; long bits = x.p.i("varbits", 1, 7);
        j.what = var ? "variable-selection criterion with MPI" : "bandwidth criterion with MPI";
        j.op = [=](Inst& in, Out& out) {
            in.run(out); Out t; in.collectBw(t); double bw = t.bandwidths[0] * f; if (bw > 1e6) bw = t.bandwidths[0];
            if (!var) { out.add("criterion", mat(1, 1).fill(in.bwCriterion(bw))); return; }
            vector<size_t> vs; size_t first = in.intercept() ? 1 : 0;
            for (size_t q = first; q < in.varCount(); q++) if (bits >> (q - first) & 1) vs.push_back(q);
            if (vs.empty()) vs.push_back(in.varCount() - 1);
            out.add("criterion", mat(1, 1).fill(in.varCriterion(vs)));
        };
    }
    return j;
}
static MpiJob multiJob(Ctx& x) { MpiJob j; j.model = M_MULTI; j.o.isMpi = true; j.what = "fit with MPI"; j.op = [](Inst& in, Out& o) { in.run(o); }; if (x.p.b("hard", 0.2)) { j.o.hardSearch = true; x.fault["failing-candidate"]++; } return j; }
static void mpiBasic(Ctx& x) { mpiVsSerial(x, basicJob(x), true); }
static void mpiMulti(Ctx& x) { mpiVsSerial(x, multiJob(x), true); }
static mat bigRand(sim::Rng& r, uword a, uword b) { mat m(a, b); for (auto& v : m) v = r.normal(); return m; }
static void mpiMatMul(Ctx& x) {
    int np = (int)x.p.pick("ranks", { 1, 2, 3, 4, 5, 6, 8 });
    sim::Rng r(x.p.i("dseed", 1, 1000000)); vector<uword> rows(np); uword N = 0;
    for (int i = 0; i < np; i++) { rows[i] = (uword)x.p.i("rows" + std::to_string(i), 0, 6); if (i == 0 && rows[i] == 0) rows[i] = 1; if (!rows[i]) x.probe["rank-without-rows"]++; N += rows[i]; }
    uword M = (uword)(x.p.b("square", 0.6) ? N : (uword)x.p.i("M", 1, 9));
    mat A = bigRand(r, N, N), B = bigRand(r, N, M), C = A * B;
    startSim(x, x.p.b("fine", 0.5));
    bool reps = x.p.b("repeat", 0.4); vector<mat> c(np), a(np), b(np); vector<string> err(np);
    uword at = 0; for (int i = 0; i < np; i++) { a[i] = rows[i] ? mat(A.rows(at, at + rows[i] - 1)) : mat(0, N); b[i] = rows[i] ? mat(B.rows(at, at + rows[i] - 1)) : mat(0, M); at += rows[i]; }
    auto a0 = a, b0 = b;
    if (!simRanks(x, np, [&](int i) { try { mat_mul_mpi(a[i], b[i], c[i], i, np, (N + np - 1) / np); if (reps) mat_mul_mpi(a[i], b[i], c[i], i, np, (N + np - 1) / np); } catch (const std::exception& e) { sim::Rt g; err[i] = e.what(); } })) return;
    at = 0;
    for (int i = 0; i < np; i++) {
        if (!err[i].empty()) { x.bad("raised", "rank " + std::to_string(i) + ": " + err[i]); return; }
        mat e = rows[i] ? mat(C.rows(at, at + rows[i] - 1)) : mat(0, M); at += rows[i];
        string d = diffMat("product rows of rank " + std::to_string(i), e, c[i], 1e-9);
        if (d.empty()) d = diffMat("input a", a0[i], a[i], 0); if (d.empty()) d = diffMat("input b", b0[i], b[i], 0);
        if (!d.empty()) { x.bad("product-differs", d); return; }
    }
}
// a distributed run which one of its processes (or several) is asked to stop
static void mpiCancel(Ctx& x, const MpiJob& j) {
    auto f = [&](Inst& in) { return callGuarded(in, [&](Out& out) { j.op(in, out); }); };
    Recorder r0; auto a = build(j.model, x.p, "", j.o); a->par(SerialOnly, 1); a->alg()->setTelegram(makeTelegram(&r0));
    Out ref = f(*a); if (ref.threw) { x.skip = "job raises by itself"; return; }
    uint64_t n = a->d.coords.n_rows; int ranks = rankCount(x, (long)n);
    bool mp = x.p.b("mp", 0.35); int th = mp ? threads(x) : 1;
    vector<Recorder> rec(ranks); int who = (int)x.p.i("who", 0, ranks - 1); bool many = x.p.b("whomany", 0.2);
    double polls = (double)r0.polls / (j.model == M_MULTI || x.p.b("farat", 0.3) ? 1 : ranks);
    for (int r = 0; r < ranks; r++) if (r == who || (many && x.p.b("who" + std::to_string(r), 0.5))) rec[r].cancelAt = x.p.b("early" + std::to_string(r), 0.2) ? x.p.i("cancelAt" + std::to_string(r), 1, 4) : 1 + (long)(x.p.r("cancelFrac" + std::to_string(r), 0, 1.05) * polls);
    bool blank = j.blankable && x.p.b("blank", 0.5);
    startSim(x, mp || x.p.b("fine", 0.3));
    vector<std::unique_ptr<Inst>> in; vector<Out> got(ranks);
    for (int r = 0; r < ranks; r++) { in.push_back(build(j.model, x.p, "", j.o)); if (r && blank) in[r]->blankData(); in[r]->alg()->setTelegram(makeTelegram(&rec[r])); }
    if (!simRanks(x, ranks, [&](int r) { in[r]->par(mp ? MPI_MP : MPI_Serial, th, r, ranks); got[r] = f(*in[r]); })) return;
    for (auto& g : got) hashOut(g);
    int by = -1; for (int r = 0; r < ranks; r++) if (rec[r].stopped) by = r;
    if (by < 0) { x.probe["finished-before-cancel"]++; } else x.fault["cancel-of-a-distributed-run"]++;
    string what = string(modelName[j.model]) + " " + j.what + ", " + (by < 0 ? "not cancelled" : "rank " + std::to_string(by) + " cancelled in stage '" + rec[by].cancelStage + "'") + ": ";
    for (int r = 0; r < ranks; r++) {
        string me = what + "rank " + std::to_string(r) + " of " + std::to_string(ranks);
        if (got[r].threw) { x.bad("cancel-raises", me + " raised '" + got[r].what + "'"); return; }
        if (got[r].status != (int)(by < 0 ? Status::Success : Status::Terminated)) { x.bad("cancel-status", me + " ended with status " + std::to_string(got[r].status)); return; }
    }
    if (by >= 0 && sim::st.distsAfterStop > 3 * n * ranks + 2 * (uint64_t)th * ranks) x.bad("cancel-late", what + std::to_string(sim::st.distsAfterStop) + " more local models were prepared after the request (" + std::to_string(n) + " samples, " + std::to_string(ranks) + " ranks)");
}
static void mpiLive(Ctx& x) {
    bool multi = x.p.b("multi", 0.4), cancel = x.p.b("mcancel", 0.3); if (cancel && x.p.pick("mkind", { 0, 0, 0, 1, 2, 3 }) == 1) x.p.set("mkind", 0);
    MpiJob j = multi ? multiJob(x) : basicJob(x);
    if (cancel) { mpiCancel(x, j); return; }
    if (!j.o.hardSearch && x.p.b("failing", 0.35)) { j.o.singular = true; x.fault["failing-local-model"]++; }
    mpiVsSerial(x, j, false);
}

extern void cancelScen(Ctx&), progressScen(Ctx&), failScen(Ctx&), reuseScen(Ctx&), selectScen(Ctx&), isolateScen(Ctx&), oomScen(Ctx&), leakScen(Ctx&), valueScen(Ctx&), refineScen(Ctx&);
const ScenDef scenarios[] = {
    { "C01", fitOmp, "OpenMP fit vs serial fit" },
    { "C02", predictOrSummary, "OpenMP prediction / summaries vs serial" },
    { "C03", criterionOmp, "OpenMP selection criteria vs serial" },
    { "C04", mpiBasic, "MPI GWRBasic on every rank vs serial" },
    { "C05", mpiMulti, "MPI GWRMultiscale on every rank vs serial" },
    { "C06", mpiMatMul, "distributed matrix product" },
    { "C07", mpiLive, "MPI jobs finish on every rank and leave no message behind" },
    { "C08", cancelScen, "cancellation" },
    { "C12", reuseScen, "jobs on an object with a history" },
    { "C13", selectScen, "selection of bandwidths and variables" },
    { "C10", failScen, "unsolvable local models" },
    { "C14", isolateScen, "independent objects on concurrent threads" },
    { "C15", oomScen, "allocation failures" },
    { "C16", leakScen, "memory given back" },
    { "C09", refineScen, "results against a reference model" },
    { "C17", valueScen, "spatial weights and distances as values" },
    { "C11", progressScen, "progress reports and telegram lifetime" },
};
const int nScenarios = sizeof scenarios / sizeof *scenarios;
