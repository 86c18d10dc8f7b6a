// Scenarios over the life of one object: cancellation, progress, failures, reuse, exhaustion.
#include "scen.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <algorithm>
#include <sstream>
#include <set>
using namespace gwm; using namespace arma;
using std::string; using std::vector;

static const vector<long> POLLED = { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA };

struct Job { bool predict = false; const char* name() const { return predict ? "predict" : "fit"; } void run(Inst& in, Out& o) const { if (predict) o.add("prediction", in.predict()); else in.run(o); } };

// local models a job may still prepare without asking whether to stop, when the request comes while
// it is in a stage and has already prepared `done` of them there: the rest of the sweeps of that
// stage which never ask (distance bounds of a search, local R2, polynomial bandwidths, initial fit)
static uint64_t unasked(int model, const string& stage, bool predict, uint64_t n, uint64_t done, uint64_t dims) {
    auto rest = [&](uint64_t sweeps) { return sweeps * n > done ? sweeps * n - done : 0; };
    switch (model) {
    case M_GWSSA: case M_GWSSC: case M_GWPCA: return 0;
    case M_SCAL: return predict ? 2 * n : stage == "Model fitting" || stage == "Initializing" ? n : 2 * n;
    case M_POISSON: case M_BINOM: return !predict && (stage == "Bandwidth selection" || stage == "Preparing") ? rest(1) : 2 * n;
    case M_MULTI: return stage == "Model fitting" || stage == "Model Diagnostic" ? 0 : stage == "Calculating initial betas" ? rest(1) : 2 * n;
    }
    if (predict) return 0;
    if (stage == "Bandwidth selection" || stage == "Bandwidth optimization") return rest(model == M_GWDR ? 2 * dims : 1);
    if (model == M_LCR) return stage == "Model fitting" ? 0 : n;
    if (stage == "Model Diagnostic") return rest(model == M_GWDR ? dims : 1);
    if (stage == "Model fitting" || stage == "Independent variable selection" || stage == "Lambda optimization") return 0;
    return (model == M_GWDR ? 2 * dims : 1) * n;
}
// ---------------------------------------------------------------- C08
void cancelScen(Ctx& x) {
    int model = (int)x.p.pick("model", POLLED);
    BuildOpts o; Job op;
    auto probe = build(model, x.p, "", o);
    if (probe->canPredict() && x.p.b("predict", 0.2)) { op.predict = true; o.noAuto = true; o.forceHat = true; probe = build(model, x.p, "", o); }
    bool omp = probe->parallel() && x.p.b("omp", 0.7); int th = omp ? threads(x) : 1;
    auto prep = [&](Inst& in, Recorder* r) { in.par(omp ? OpenMP : SerialOnly, th); if (op.predict) { Out t; in.run(t); } in.alg()->setTelegram(makeTelegram(r)); };
    // dry run: how many stop polls does this job make
    uint64_t d0 = 0;
    Recorder r0; { auto a = build(model, x.p, "", o); a->par(SerialOnly, 1); if (op.predict) callGuarded(*a, [&](Out& t) { a->run(t); }); a->alg()->setTelegram(makeTelegram(&r0)); d0 = sim::st.dists; Out q = callGuarded(*a, [&](Out& t) { op.run(*a, t); }); if (q.threw) { x.skip = "job raises by itself"; return; } }
    uint64_t D = sim::st.dists - d0;
    if (!r0.polls) { x.skip = "job makes no stop poll"; return; }
    uint64_t P = r0.polls;
    long at = x.p.b("early", 0.15) ? x.p.i("cancelAt", 1, std::min<long>(4, P)) : 1 + (long)(x.p.r("cancelFrac", 0, 1) * P);
    bool byWork = D > 0 && x.p.b("byWork", 0.5); long atD = 1 + (long)(x.p.r("workFrac", 0, 1) * D);
    Recorder r; if (!byWork) r.cancelAt = at; Out got;
    startSim(x);
    sim::Outcome oc = simOne(x, [&] {
        auto a = build(model, x.p, "", o); 
        try { prep(*a, &r); } catch (const std::exception& e) { sim::Rt g; x.skip = "preparation raises"; return; }
        sim::st.dists = sim::st.lapack = 0; if (byWork) { cancelAtDist = atD; cancelRec = &r; }
        got = callGuarded(*a, [&](Out& t) { op.run(*a, t); });
        a.reset();
    });
    if (oc != sim::OK || !x.skip.empty()) return;
    hashOut(got);
    string who = string(modelName[model]) + " " + op.name() + (omp ? " with OpenMP" : "") + ", cancelled in stage '" + r.cancelStage + "': ";
    if (!r.stopped) { if (got.threw) x.bad("raised", string(modelName[model]) + " raised '" + got.what + "' without cancellation"); else if (got.status != 0) x.bad("status", string(modelName[model]) + " status not Success without cancellation"); x.probe["finished-before-cancel"]++; return; }
    x.fault["cancel-in-" + (r.cancelStage.empty() ? string("start") : r.cancelStage)]++;
    if (getenv("GWSIM_SHOW")) fprintf(stderr, "%s W=%d auto=%d P=%lu at=%ld th=%d pollsAfter=%lu progAfter=%lu dists=%lu WS=%lu n=%lu distsAfter=%lu lapackAfter=%lu threw=%d %s st=%d\n", who.c_str(), byWork, (int)x.p.used["autobw"], P, at, th, r.pollsAfter, r.progressAfter, sim::st.dists, r.workInStage, (unsigned long)probe->d.coords.n_rows, sim::st.distsAfterStop, sim::st.lapackAfterStop, got.threw, got.what.c_str(), got.status);
    if (got.threw) { x.bad("cancel-raises", who + "raised '" + got.what + "'"); return; }
    auto n2s = [](uint64_t v) { return std::to_string(v); };
    if (got.status != (int)Status::Terminated && !(byWork && r.pollsAfter == 0)) { x.bad("cancel-status", who + "asked " + n2s(r.pollsAfter) + " more times whether to stop, yet its status is not Terminated"); return; }
    if (r.progressAfter > (uint64_t)th + 2) x.bad("cancel-late", who + n2s(r.progressAfter) + " progress reports after the request (" + n2s(th) + " threads)");
    uint64_t n = probe->d.coords.n_rows, A = !byWork ? 0 : unasked(model, r.cancelStage, op.predict, n, r.workInStage, probe->d.coords.n_cols);
    if (sim::st.distsAfterStop > A + 2 * (uint64_t)th + 2) x.bad("cancel-late", who + n2s(sim::st.distsAfterStop) + " more local models were prepared after the request (" + n2s(n) + " samples, " + n2s(th) + " threads)");
    if (!byWork && sim::st.lapackAfterStop > 3 * (uint64_t)th + 3) x.bad("cancel-late", who + n2s(sim::st.lapackAfterStop) + " more matrix factorisations after the request (" + n2s(th) + " threads)");
}

// ---------------------------------------------------------------- C11
// what is wrong with the reports of one job; "" when nothing
static string reportsWrong(const Recorder& r, int model, bool omp, bool complete, const string& who) {
    struct Seen { uint64_t last = 0; bool first = true; vector<uint64_t> count; };
    std::map<std::pair<string, uint64_t>, Seen> per; std::ostringstream s;
    bool halves = model == M_SCAL;
    for (auto& e : r.ev) {
        if (e.kind == 'F' && !(e.p >= 0 && e.p <= 1)) { s << who << "progress percentage " << e.p << " reported by " << e.fn << " is outside [0,1]"; return s.str(); }
        if (e.kind == 'P' && (e.a > 7 || e.fn.empty())) { s << who << "message with level " << e.a << " from '" << e.fn << "'"; return s.str(); }
        if (e.kind != 'G') continue;
        if (e.b == 0 || e.a > e.b || (e.a == 0 && !halves)) { s << who << "progress " << e.a << " of " << e.b << " reported by " << e.fn; return s.str(); }
        auto& q = per[{ e.fn, e.b }]; if (q.count.size() <= e.b) q.count.resize(e.b + 1); q.count[e.a]++;
        if (!omp && !q.first) {
            bool ok = halves ? (e.a == q.last || e.a == q.last + 1 || e.a <= 1) : (e.a == q.last + 1 || e.a == 1);
            if (!ok) { s << who << e.fn << " reports progress " << e.a << " of " << e.b << " after " << q.last; return s.str(); }
        }
        q.first = false; q.last = e.a;
    }
    if (complete && !halves) for (auto& k : per) {
        uint64_t c1 = k.second.count[1];
        for (uint64_t i = 1; i <= k.first.second; i++) if (k.second.count[i] != c1) { s << who << k.first.first << " reports step " << i << " of " << k.first.second << " " << k.second.count[i] << " times but step 1 " << c1 << " times"; return s.str(); }
    }
    return "";
}
void progressScen(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA });
    BuildOpts o; auto probe = build(model, x.p, "", o); Job op;
    if (probe->canPredict() && x.p.b("predict", 0.25)) { op.predict = true; o.noAuto = true; o.forceHat = true; probe = build(model, x.p, "", o); }
    bool omp = probe->parallel() && x.p.b("omp", 0.7); int th = omp ? threads(x) : 1;
    bool swap = x.p.b("swap", 0.5), cancel = model != M_GWDA && x.p.b("cancelled", 0.2); long at = x.p.i("cancelAt", 1, 120);
    Recorder r[3]; Out got[2]; for (auto& q : r) q.keep = true;
    if (cancel) r[0].cancelAt = at;
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o); a->par(omp ? OpenMP : SerialOnly, th);
        if (op.predict) callGuarded(*a, [&](Out& t) { a->run(t); });
        a->alg()->setTelegram(makeTelegram(&r[0]));
        got[0] = callGuarded(*a, [&](Out& t) { op.run(*a, t); });
        if (swap) { a->alg()->setTelegram(makeTelegram(&r[1])); if (x.p.b("again", 0.5)) { a->resetData(); a->resetBandwidth(); got[1] = callGuarded(*a, [&](Out& t) { op.run(*a, t); }); } }
        a.reset();
    }) != sim::OK) return;
    string who = string(modelName[model]) + " " + op.name() + (omp ? " with OpenMP: " : ": ");
    if (r[0].stopped) x.probe["cancelled"]++;
    for (int i = 0; i < 2; i++) {
        if (i && !swap) break;
        sim::event("reports", r[i].nEv);
        if (r[i].ev.size() >= 200000) { x.probe["event-list-full"]++; continue; }
        bool complete = !got[i].threw && !r[i].stopped && !x.p.used["autobw"] && !x.p.used["autovar"] && !x.p.used["autolambda"] && model != M_MULTI;
        string w = reportsWrong(r[i], model, omp, complete, who); if (!w.empty()) { x.bad("progress", w); return; }
        if (r[i].destroyed != 1) { x.bad("telegram-lifetime", who + "the telegram was destroyed " + std::to_string(r[i].destroyed) + " times"); return; }
        if (r[i].callsAfterDestroy) { x.bad("telegram-lifetime", who + std::to_string(r[i].callsAfterDestroy) + " calls after the telegram was replaced or the model destroyed"); return; }
    }
}

// ---------------------------------------------------------------- C12
// a job on an object with any history gives what a fresh object gives
void reuseScen(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA });
    BuildOpts o; auto probe = build(model, x.p, "", o); bool predict = false;
    if (probe->canPredict() && x.p.b("predict", 0.4)) { predict = true; o.noAuto = true; o.forceHat = true; probe = build(model, x.p, "", o); }
    bool crit = probe->hasBwCriterion() && !probe->bwNeedsFit() && x.p.b("criterion", 0.15); if (crit) { o.noAuto = true; o.forceHat = true; probe = build(model, x.p, "", o); }
    double cf = x.p.r("critfrac", 0.9, 1.3);
    auto job = [&](Inst& in, Out& out) {
        if (crit) { Out t; in.collectBw(t); double bw = t.bandwidths[0] * cf; if (bw > 1e6) bw = t.bandwidths[0]; out.add("criterion", mat(1, 1).fill(in.bwCriterion(bw))); return; }
        in.run(out); if (predict) out.add("prediction", in.predict());
    };
    bool omp = probe->parallel() && x.p.b("omp", 0.4); int th = omp ? threads(x) : 1;
    auto f = [&](Inst& in) { return callGuarded(in, [&](Out& out) { job(in, out); }); };
    Out ref; { auto a = build(model, x.p, "", o); a->par(SerialOnly, 1); ref = f(*a); }
    if (ref.threw) { x.skip = "job raises by itself"; return; }
    int ops = (int)x.p.i("ops", 1, 4); bool needReset = false;
    vector<int> hist; for (int i = 0; i < ops; i++) hist.push_back((int)x.p.pick("op" + std::to_string(i), { 0, 0, 1, 1, 2, 3, 4, 5, 6 }));
    bool reset = x.p.b("reset", 0.6);
    // a second data set of the same shape of problem
    std::unique_ptr<Inst> other; { Params q = x.p; q.seed = x.p.seed ^ 0x5bd1e995; auto keep = q.over; q.over = keep; BuildOpts oo = o; Params* leak = new Params(q); leak->set("k", (double)x.p.used["k"]); leak->set("intercept", x.p.used["intercept"]); leak->set("groups", x.p.used.count("groups") ? x.p.used["groups"] : 2); other = build(model, *leak, "", oo); }
    Out got; string what; vector<Recorder> recs(8);
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o);
        for (int i = 0; i < ops; i++) {
            bool mt = a->parallel() && x.p.b("omp" + std::to_string(i), 0.5); a->par(mt ? OpenMP : SerialOnly, mt ? (int)x.p.pick("hth" + std::to_string(i), { 2, 3, 4, 7 }) : 1);
            Recorder& r = recs[i]; Out t; string nm;
            switch (hist[i]) {
            case 0: nm = "fit"; t = callGuarded(*a, [&](Out& q) { a->run(q); }); if (x.p.used["autobw"] || x.p.used["autovar"] || x.p.used["autolambda"] || model == M_MULTI) needReset = true; break;
            case 1: nm = "cancelled fit"; r.cancelAt = x.p.i("cancel" + std::to_string(i), 1, 150); a->alg()->setTelegram(makeTelegram(&r)); t = callGuarded(*a, [&](Out& q) { a->run(q); });
                a->alg()->setTelegram(makeTelegram(&recs[6])); needReset |= x.p.used["autobw"] || x.p.used["autovar"] || x.p.used["autolambda"] || model == M_MULTI; if (r.stopped) { sim::Rt g; x.fault["cancelled-earlier-job"]++; } break;
            case 2: if (a->canPredict()) { nm = "predict"; callGuarded(*a, [&](Out& q) { q.add("p", a->predict()); }); } break;
            case 3: if (a->canPredict()) { nm = "cancelled predict"; r.cancelAt = x.p.i("cancel" + std::to_string(i), 1, 12); a->alg()->setTelegram(makeTelegram(&r)); callGuarded(*a, [&](Out& q) { q.add("p", a->predict()); }); a->alg()->setTelegram(makeTelegram(&recs[6])); if (r.stopped) { sim::Rt g; x.fault["cancelled-earlier-job"]++; } } break;
            case 4: { nm = "failing fit"; needReset = true; auto keep = a->d; a->d.x.fill(0.0); a->resetData(); t = callGuarded(*a, [&](Out& q) { a->run(q); }); a->d = keep; a->resetData(); if (t.threw) { sim::Rt g; x.fault["failed-earlier-job"]++; } break; }
            case 5: { nm = "fit on other data"; needReset = true; auto keep = a->d; a->d = other->d; a->resetData(); t = callGuarded(*a, [&](Out& q) { a->run(q); }); a->d = keep; a->resetData(); break; }
            case 6: if (a->hasBwCriterion() && !a->bwNeedsFit()) { nm = "criterion"; callGuarded(*a, [&](Out& q) { Out b; a->collectBw(b); double bw = b.bandwidths[0]; q.add("c", mat(1, 1).fill(a->bwCriterion(bw))); }); } break;
            }
            if (!nm.empty()) { sim::Rt g; what += (what.empty() ? "" : ", ") + nm; }
        }
        if (needReset || reset) { a->resetData(); a->resetBandwidth(); }
        a->par(omp ? OpenMP : SerialOnly, th);
        a->alg()->setTelegram(makeTelegram(&recs[7]));
        if (crit && a->alg()->status() != Status::Success) { sim::Rt g; x.skip = "criterion asked of a cancelled model"; return; }
        got = f(*a);
    }) != sim::OK || !x.skip.empty()) return;
    hashOut(got);
    string d = diff(ref, got, 1e-6);
    if (d.empty()) return;
    if (!wellConditioned(x, model, o, [&](Inst& in) { in.par(SerialOnly, 1); return f(in); }, ref, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
    x.bad("history-matters", string(modelName[model]) + (omp ? " with OpenMP" : "") + " after [" + what + "]: " + d);
}

// ---------------------------------------------------------------- C13
// selection of bandwidths and variables: scripted criteria that fail, stop or raise at seeded
// evaluations, and whole models whose selection is cancelled
struct StubBw : IBandwidthSelectable {
    Ctx& x; int shape; double lo, up, m; bool adaptive; int kern; long stopAt, throwAt, failAt; int failKind; double scale;
    struct E { double bw, v; bool ok; }; vector<E> ev; string bad; long after = 0; bool ended = false; bool asyncSeam;
    explicit StubBw(Ctx& c) : x(c) {}
    double value(double b) const {
        double u = up > lo ? (b - lo) / (up - lo) : 0, q = u - m;
        auto h = [&](double z) { uint64_t w; memcpy(&w, &z, 8); sim::Rng r(w ^ x.p.seed); r.next(); return r.u01(); };
        switch (shape) {
        case 0: return 10 + scale * q * q;
        case 1: return 10 - scale * u;
        case 2: return 10 + scale * u;
        case 3: return scale * h(b);
        case 4: return 10;
        case 5: return 10 + scale * std::fabs(q);
        case 6: return scale * (u < m ? 3 : 1);
        default: return -scale / (1 + 50 * q * q) + scale * 0.3 * std::sin(9 * u);
        }
    }
    Status getCriterion(BandwidthWeight* w, double& v) override {
        long e = (long)ev.size() + 1; sim::seam("criterion");
        sim::Rt g;
        if (ended) after++;
        double b = w->bandwidth();
        if (bad.empty() && !(std::isfinite(b) && b >= lo - 1e-9 * std::max(1.0, up) && b <= up + 1e-9 * std::max(1.0, up))) { std::ostringstream s; s << "candidate bandwidth " << b << " outside [" << lo << ", " << up << "]"; bad = s.str(); }
        if (bad.empty() && (w->adaptive() != adaptive || (int)w->kernel() != kern)) bad = "candidate has another kernel or kind than the bandwidth to optimise";
        if (bad.empty() && adaptive && b != std::floor(b)) bad = "adaptive candidate is not a whole number of neighbours";
        if (e > 4000) { v = DBL_MAX; return Status::Terminated; }
        if (e == throwAt) { ev.push_back({ b, 0, false }); x.fault["criterion-raises"]++; ended = true; throw std::runtime_error("criterion failed"); }
        if (e == stopAt) { ev.push_back({ b, 0, false }); x.fault["criterion-cancelled"]++; ended = true; return Status::Terminated; }
        if (stopAt && e > stopAt) { ev.push_back({ b, 0, false }); return Status::Terminated; }
        bool fail = failKind == 1 ? (b - lo) < 0.4 * (up - lo) : failKind == 2 ? true : failKind == 3 ? (e == failAt) : failKind == 4 ? (b - lo) > 0.7 * (up - lo) : false;
        v = fail ? DBL_MAX : value(b); if (fail) x.fault["criterion-unsolvable"]++;
        ev.push_back({ b, v, !fail }); return Status::Success;
    }
};
static void selectBw(Ctx& x) {
    auto& p = x.p; StubBw s(x);
    s.adaptive = p.b("adaptive", 0.6); s.kern = (int)p.i("kern", 0, 4); s.shape = (int)p.i("shape", 0, 7); s.m = p.r("min", -0.1, 1.1);
    if (s.adaptive) { s.lo = p.i("lo", 1, 25); s.up = s.lo + p.pick("width", { 0, 1, 2, 3, 5, 10, 40, 100, 400, 5000 }); }
    else { s.lo = p.b("lo0", 0.5) ? 0 : p.r("lor", 0, 50); s.up = s.lo + std::pow(10.0, p.r("widthlog", -3, 5)); }
    s.scale = std::pow(10.0, p.r("scale", -3, 5));
    int f = (int)p.pick("fault", { 0, 0, 0, 1, 2, 3, 3 });     // none, stop, raise, unsolvable
    s.stopAt = f == 1 ? p.i("stopAt", 1, 25) : 0; s.throwAt = f == 2 ? p.i("throwAt", 1, 25) : 0; s.failKind = f == 3 ? (int)p.i("failKind", 1, 4) : 0; s.failAt = p.i("failAt", 1, 12);
    BandwidthWeight bw0(p.r("bw0", 1, 100), s.adaptive, (BandwidthWeight::KernelFunctionType)s.kern);
    double b0 = bw0.bandwidth(); BandwidthWeight* res = nullptr; bool threw = false; string what; BandwidthCriterionList list;
    startSim(x, false);
    if (simOne(x, [&] {
        BandwidthSelector sel(&bw0, s.lo, s.up);
        try { res = sel.optimize(&s); } catch (const std::exception& e) { sim::Rt g; threw = true; what = e.what(); }
        list = sel.bandwidthCriterion();
    }) != sim::OK) return;
    sim::event("sel", s.ev.size(), threw, res ? (uint64_t)(res->bandwidth() * 1e6) : 0);
    auto bad = [&](const string& m) { x.bad("bandwidth-selection", m); };
    auto str = [](double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); };
    if (!s.bad.empty()) return bad(s.bad);
    if (s.ev.size() > 150) return bad(std::to_string(s.ev.size()) + " evaluations for one selection");
    if (s.after > 1) return bad(std::to_string(s.after) + " more evaluations after one was cancelled or raised");
    if (bw0.bandwidth() != b0 || bw0.adaptive() != s.adaptive || (int)bw0.kernel() != s.kern) return bad("the bandwidth given was changed");
    if (s.throwAt && s.ended) { if (!threw || what != "criterion failed") bad("an exception of the criterion was swallowed"); return; }
    if (s.stopAt && s.ended) { if (threw) return bad("cancelled selection raised '" + what + "'"); if (res != &bw0) return bad("cancelled selection did not keep the original bandwidth"); return; }
    if (s.ev.size() >= 2 && !s.ev[0].ok && !s.ev[1].ok) { if (!threw) return bad("no error although neither initial candidate can be solved"); x.probe["no-initial"]++; return; }
    if (threw) return bad("raised '" + what + "'");
    if (!res || res == &bw0) return bad("no new bandwidth although every evaluation succeeded");
    double best = DBL_MAX, got = DBL_MAX; for (auto& e : s.ev) { best = std::min(best, e.v); if (e.bw == res->bandwidth()) got = std::min(got, e.v); }
    if (got > best) return bad("selected bandwidth " + str(res->bandwidth()) + " has score " + (got == DBL_MAX ? string("none") : str(got)) + " but " + str(best) + " was evaluated");
    if (res->adaptive() != s.adaptive || (int)res->kernel() != s.kern) return bad("selected bandwidth has another kernel or kind");
    std::map<double, double> seen; for (auto& e : s.ev) if (e.ok) seen[e.bw] = e.v;
    bool same = seen.size() == list.size(); size_t k = 0; for (auto& q : seen) { if (!same) break; same = list[k].first == q.first && list[k].second == q.second; k++; }
    if (!same) return bad("the list of evaluated bandwidths is not what was evaluated (" + std::to_string(list.size()) + " entries, " + std::to_string(seen.size()) + " distinct successful evaluations)");
    // strictly unimodal score: the search ends at the minimum
    if (!s.adaptive && s.failKind == 0 && (s.shape == 0 || s.shape == 5 || s.shape == 1 || s.shape == 2)) {
        double m = s.shape == 1 ? 1 : s.shape == 2 ? 0 : std::min(1.0, std::max(0.0, s.m)), at = s.lo + m * (s.up - s.lo);
        double v1 = DBL_MAX, v2 = DBL_MAX; for (auto& q : seen) { if (q.second < v1) { v2 = v1; v1 = q.second; } else if (q.second < v2) v2 = q.second; }
        if (v2 - v1 > 1e-4 && std::fabs(res->bandwidth() - at) > 1e-3) return bad("single-minimum score: selected " + str(res->bandwidth()) + ", minimum at " + str(at));
    }
    if (res != &bw0) delete res;
}
struct StubVar : IVarialbeSelectable {
    Ctx& x; long stopAt, throwAt; int failKind; vector<size_t> vars; double gain, scale; bool ended = false; long after = 0; int round = 0;
    struct E { vector<size_t> v; double s; bool ok; }; vector<E> ev;
    explicit StubVar(Ctx& c) : x(c) {}
    vector<size_t> selectedVariables() override { return {}; }
    Status getCriterion(const std::vector<std::size_t>& v, double& c) override {
        long e = (long)ev.size() + 1; sim::seam("criterion"); sim::Rt g;
        if (ended) after++;
        if (e > 2000) return Status::Terminated;
        if (e == throwAt) { ended = true; ev.push_back({ v, 0, false }); x.fault["criterion-raises"]++; throw std::runtime_error("criterion failed"); }
        if (e == stopAt || ended) { if (!ended) x.fault["criterion-cancelled"]++; ended = true; ev.push_back({ v, 0, false }); return Status::Terminated; }
        double val = 100; uint64_t h = 0; for (auto q : v) { sim::Rng r(q * 977 + x.p.seed); r.next(); val -= gain * (r.u01() - 0.2); h += q * q + 3 * q; }
        { sim::Rng r(h * 31 + x.p.seed); r.next(); val += 0.5 * scale * r.u01(); }
        if (round) val = std::floor(val);
        bool fail = false; sim::Rng r(h + x.p.seed * 7); r.next();
        if (failKind == 1) fail = r.chance(0.3); else if (failKind == 2) fail = v.size() == vars.size(); else if (failKind == 3) fail = true; else if (failKind == 4) fail = v.size() > 1; else if (failKind == 5) fail = std::find(v.begin(), v.end(), vars[0]) != v.end();
        if (fail) x.fault["criterion-unsolvable"]++;
        c = fail ? DBL_MAX : val; ev.push_back({ v, c, !fail }); return Status::Success;
    }
};
static void selectVar(Ctx& x) {
    auto& p = x.p; StubVar s(x); int n = (int)p.i("nvar", 1, 7); size_t v = 0;
    for (int i = 0; i < n; i++) { v += (size_t)(i == 0 ? p.i("first", 0, 3) : p.b("contiguous", 0.5) ? 1 : p.i("step" + std::to_string(i), 1, 4)); s.vars.push_back(v); }
    s.gain = p.pick("gain", { 0, 1, 5, 30 }); s.scale = p.pick("noise", { 0, 1, 10 }); s.round = (int)p.b("ties", 0.2);
    int f = (int)p.pick("fault", { 0, 0, 0, 1, 2, 3, 3 });
    s.stopAt = f == 1 ? p.i("stopAt", 1, n * (n + 1) / 2) : 0; s.throwAt = f == 2 ? p.i("throwAt", 1, n * (n + 1) / 2) : 0; s.failKind = f == 3 ? (int)p.i("failKind", 1, 5) : 0;
    double thr = p.pick("thr", { 0, 1, 3, 3, 10, 1000 }) * 1.0;
    vector<size_t> res; bool threw = false; string what; VariablesCriterionList list;
    startSim(x, false);
    if (simOne(x, [&] {
        VariableForwardSelector sel(s.vars, thr);
        try { res = sel.optimize(&s); } catch (const std::exception& e) { sim::Rt g; threw = true; what = e.what(); }
        list = sel.indepVarsCriterion();
    }) != sim::OK) return;
    uint64_t h = 0; for (auto q : res) h = h * 31 + q + 1; sim::event("sel", s.ev.size(), threw, h);
    auto show = [](const vector<size_t>& q) { string o = "{"; for (auto i : q) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "}"; };
    auto bad = [&](const string& m) { x.bad("variable-selection", m); };
    if (s.after) return bad(std::to_string(s.after) + " more evaluations after one was cancelled or raised");
    // forward search: every level tries each remaining variable on top of the best of the level before
    vector<size_t> base, rest = s.vars; size_t at = 0; bool allTies = false;
    while (at < s.ev.size()) {
        size_t m = rest.size(); vector<size_t> tried; double best = DBL_MAX; vector<size_t> bestV; bool any = false, tie = false;
        for (size_t j = 0; j < m && at < s.ev.size(); j++, at++) {
            auto& e = s.ev[at]; vector<size_t> head(e.v.begin(), e.v.end() - (e.v.empty() ? 0 : 1));
            std::set<size_t> A(e.v.begin(), e.v.end()), B(base.begin(), base.end());
            if (e.v.size() != base.size() + 1 || A.size() != e.v.size() || !std::includes(A.begin(), A.end(), B.begin(), B.end())) return bad("evaluated " + show(e.v) + " while " + show(base) + " was the best so far");
            size_t add = 0; for (auto q : A) if (!B.count(q)) add = q;
            if (std::find(rest.begin(), rest.end(), add) == rest.end() || std::find(tried.begin(), tried.end(), add) != tried.end()) return bad("evaluated " + show(e.v) + " although variable " + std::to_string(add) + " is not available");
            tried.push_back(add);
            if (s.ended && at + 1 == s.ev.size()) break;
            if (e.s == best) tie = true;
            if (!any || e.s < best) { if (!any || e.s < best) tie = false; best = e.s; bestV = e.v; any = true; }
        }
        if (s.ended && at + 1 >= s.ev.size()) break;
        if (tie) { allTies = true; break; }
        vector<size_t> r2; for (auto q : rest) if (std::find(bestV.begin(), bestV.end(), q) == bestV.end()) r2.push_back(q);
        base = bestV; rest = r2; if (rest.empty()) { if (at < s.ev.size()) return bad("evaluations go on after all variables are in"); break; }
    }
    if (s.throwAt) { if (!threw || what != "criterion failed") bad("an exception of the criterion was swallowed"); return; }
    if (threw) return bad("raised '" + what + "'");
    if (s.stopAt) { if (res != s.vars) bad("cancelled selection returns " + show(res) + " instead of all variables"); return; }
    if (!allTies && s.ev.size() != (size_t)n * (n + 1) / 2) return bad(std::to_string(s.ev.size()) + " combinations evaluated of " + std::to_string(n * (n + 1) / 2));
    bool anyOk = false; const StubVar::E* sel = nullptr; for (auto& e : s.ev) { anyOk |= e.ok; std::set<size_t> A(e.v.begin(), e.v.end()), B(res.begin(), res.end()); if (A == B) sel = &e; }
    if (!sel) return bad("selected combination " + show(res) + " was never evaluated");
    if (anyOk && !sel->ok) return bad("selected combination " + show(res) + " could not be solved although others could");
    if (list.size() != s.ev.size()) return bad("the list has " + std::to_string(list.size()) + " combinations, " + std::to_string(s.ev.size()) + " were evaluated");
    std::map<std::set<size_t>, double> ref; for (auto& e : s.ev) ref[std::set<size_t>(e.v.begin(), e.v.end())] = e.s;
    size_t pos = 0; for (size_t lev = 1; lev <= (size_t)n; lev++) for (size_t j = 0; j < (size_t)n - lev + 1; j++, pos++) {
        auto it = ref.find(std::set<size_t>(list[pos].first.begin(), list[pos].first.end()));
        if (it == ref.end() || it->second != list[pos].second) return bad("list entry " + show(list[pos].first) + " does not carry its score");
        if (list[pos].first.size() != lev) return bad("list entry " + show(list[pos].first) + " is out of order");
        if (j && list[pos].second > list[pos - 1].second) return bad("list is not ordered by score within " + std::to_string(lev) + " variables");
    }
    if (s.failKind == 0 && !s.round) {
        size_t pick = list.size() - 1; for (size_t i = list.size() - 1; i > 0; i--) if (list[i - 1].second - list[i].second >= thr) { pick = i; break; }
        std::set<size_t> A(list[pick].first.begin(), list[pick].first.end()), B(res.begin(), res.end());
        if (A != B) return bad("selected " + show(res) + " although " + show(list[pick].first) + " is the last to improve by the threshold");
    }
}
// the space-time ratio: a search that is cancelled or fails leaves the one configured, one that ends keeps the best it met inside the range
static void selectLambda(Ctx& x) {
    int model = M_GTWR; x.p.set("autobw", 0); x.p.set("autolambda", 1); x.p.set("kern", x.p.pick("kernL", { 0, 1 }));
    bool omp = x.p.b("omp", 0.5); int th = omp ? threads(x) : 1; bool cancel = x.p.b("cancelled", 0.5);
    Recorder r; r.cancelAt = cancel ? x.p.i("cancelAt", 1, 2500) : 0; r.keep = true;
    double before = 0, after = 0, best = 0; Out got; vector<Out> other(2);
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, ""); a->par(omp ? OpenMP : SerialOnly, th); before = a->metric(); a->alg()->setTelegram(makeTelegram(&r));
        got = callGuarded(*a, [&](Out& t) { a->run(t); }); after = a->metric();
        if (!got.threw && !r.stopped) { double g = (std::sqrt(5.0) - 1) / 2; BuildOpts o; o.noAuto = true; for (int i = 0; i < 2; i++) { auto b = build(model, x.p, "", o); b->setLambda(i ? g : 1 - g); b->par(SerialOnly, 1); other[i] = callGuarded(*b, [&](Out& t) { b->run(t); }); } }
    }) != sim::OK) return;
    hashOut(got); string who = string(modelName[model]) + (omp ? " with OpenMP: " : ": ");
    auto str = [](double v) { std::ostringstream s; s.precision(12); s << v; return s.str(); };
    if (r.stopped && r.cancelStage == "Lambda optimization") { x.fault["cancelled-lambda-selection"]++;
        if (std::fabs(after - before) > 1e-9 * (1 + before)) x.bad("model-selection", who + "cancelled during the selection of the space-time ratio, yet the distance between the same two places is now " + str(after) + " and not the original " + str(before)); return; }
    if (got.threw || r.stopped) { x.skip = "cancelled elsewhere"; return; }
    auto r2 = [](const Out& o) { for (auto& e : o.v) if (e.first == "diagnostic") return e.second(5); return -DBL_MAX; };
    best = r2(got); for (auto& o : other) if (!o.threw && std::isfinite(r2(o)) && r2(o) > best + 1e-6) { x.bad("model-selection", who + "the space-time ratio selected gives an R squared of " + str(best) + ", one that was tried " + str(r2(o))); return; }
    x.probe["lambda-selected"]++;
}
static void selectModel(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_GTWR, M_GWDR, M_GWDR });
    bool dim = model == M_GWDR && x.p.b("dimensions", 0.6);            // one bandwidth per dimension, searched together
    bool var = (model == M_GWDR && !dim) || ((model == M_BASIC || model == M_ROBUST) && x.p.b("autovar", 0.4));
    x.p.set("autobw", model != M_GWDR || dim); x.p.set("autovar", var); if (dim) x.p.set("adaptive", x.p.b("dimAdaptive", 0.3)); if (model == M_POISSON || model == M_BINOM) x.p.set("adaptive", 1);
    BuildOpts o; if (!var && (model == M_BASIC || model == M_ROBUST || model == M_MULTI || model == M_GTWR || model == M_LCR) && x.p.b("hard", 0.4)) { o.hardSearch = true; x.fault["failing-candidate"]++; }
    auto probe = build(model, x.p, "", o);
    double n = probe->d.coords.n_rows; bool omp = x.p.b("omp", 0.6); int th = omp ? threads(x) : 1;
    Out init; probe->collectBw(init);
    Recorder r; bool cancel = x.p.b("cancelled", 0.4); r.cancelAt = cancel ? x.p.i("cancelAt", 1, 300) : 0; r.keep = true;
    Out got, after; string range; vector<double> lo, up, start; mat tried; double sStart = 0, sEnd = 0;
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o); a->par(omp ? OpenMP : SerialOnly, th); a->alg()->setTelegram(makeTelegram(&r));
        if (dim) { sim::Rt g; start = init.bandwidths; for (uword m = 0; m < start.size(); m++) {          // out of range: it starts at 0.618 of the largest
            double l = probe->spec().adaptive ? probe->d.x.n_cols + 1.0 : 0.0, u = probe->spec().adaptive ? n : max(probe->d.coords.col(m)) - min(probe->d.coords.col(m));
            if (start[m] <= l || start[m] >= u) start[m] = u * 0.618; } }
        got = callGuarded(*a, [&](Out& t) { a->run(t); }); a->collectBw(after); tried = a->bwList(); a->searchRange(lo, up);
        if (dim && !got.threw && !r.stopped) { a->par(SerialOnly, 1); sStart = a->bwCriterionAt(start); sEnd = a->bwCriterionAt(after.bandwidths); }
    }) != sim::OK) return;
    hashOut(got);
    string who = string(modelName[model]) + (omp ? " with OpenMP: " : ": ");
    auto bad = [&](const string& m) { x.bad("model-selection", who + m); };
    auto str = [](double v) { std::ostringstream s; s.precision(12); s << v; return s.str(); };
    // a search that met a bandwidth it could score ends with one
    if (got.threw && !r.stopped && tried.n_rows) { double best = 0; for (uword i = 0; i < tried.n_rows; i++) if (!i || tried(i, 1) < tried(uword(best), 1)) best = i; return bad("raised '" + got.what + "' although bandwidth " + str(tried(uword(best), 0)) + " was scored " + str(tried(uword(best), 1))); }
    if (dim && (got.threw || r.stopped) && (r.curStage == "Bandwidth selection" || r.cancelStage == "Bandwidth selection")) {
        for (size_t m = 0; m < start.size(); m++) if (after.bandwidths[m] != init.bandwidths[m] && std::fabs(after.bandwidths[m] - start[m]) > 1e-9 * start[m]) return bad(string(got.threw ? "the search raised '" + got.what + "'" : "cancelled during bandwidth selection") + ", yet bandwidth " + std::to_string(m + 1) + " is " + str(after.bandwidths[m]) + " and not the original " + str(init.bandwidths[m]));
        x.probe[got.threw ? "failed-search" : "cancelled-search"]++;
    }
    if (got.threw) { x.skip = "job raises by itself"; return; }
    if (after.bandwidths.size() != init.bandwidths.size()) return bad("number of bandwidths changed");
    if (dim && !r.stopped) {
        if (sStart < DBL_MAX && !(sEnd < DBL_MAX) && !probe->spec().adaptive) return bad("the bandwidths selected cannot be scored, those the search started from score " + str(sStart));
        if (!probe->spec().adaptive && sEnd > sStart + 1e-6 * (1 + std::fabs(sStart))) return bad("the bandwidths selected score " + str(sEnd) + ", those the search started from " + str(sStart));
        x.probe["dimensions-searched"]++;
    }
    if (r.stopped) {
        if (model != M_MULTI && !dim && (r.cancelStage == "Bandwidth selection" || r.cancelStage == "Bandwidth optimization") && !x.p.used["autolambda"] && r.pollsAfter > 0) {
            x.fault["cancelled-bandwidth-selection"]++;
            if (after.bandwidths[0] != init.bandwidths[0]) return bad("cancelled during bandwidth selection, yet the bandwidth is " + str(after.bandwidths[0]) + " and not the original " + str(init.bandwidths[0]));
        }
        return;
    }
    if (got.status != (int)Status::Success) return bad("nothing was cancelled, yet the job ended with status " + std::to_string(got.status));
    bool adaptive = (x.p.used["adaptive"] != 0 && !o.hardSearch) || model == M_POISSON || model == M_BINOM;
    for (size_t i = 0; i < after.bandwidths.size(); i++) {
        double b = after.bandwidths[i]; bool selected = model == M_MULTI ? x.p.used.count("minit") && i < lo.size() && lo[i] <= up[i] : model != M_GWDR;
        if (!std::isfinite(b) || b < 0) return bad("selected bandwidth " + str(b));
        if (!selected || i >= lo.size()) continue;
        if (b < lo[i] - 1e-9 || b > up[i] * (1 + 1e-9)) return bad("selected bandwidth " + str(b) + " outside the range searched [" + str(lo[i]) + ", " + str(up[i]) + "]");
        if (adaptive && b != std::floor(b)) return bad("selected adaptive bandwidth " + str(b));
        if (b == 0) return bad("selected bandwidth 0");
    }
    for (auto& e : got.v) {
        if (e.first == "bwlist") {
            if (!e.second.n_rows) return bad("no evaluated bandwidths listed");
            double best = DBL_MAX, mine = DBL_MAX; for (uword i = 0; i < e.second.n_rows; i++) { best = std::min(best, e.second(i, 1)); if (e.second(i, 0) == after.bandwidths[0]) mine = e.second(i, 1); if (i && e.second(i, 0) <= e.second(i - 1, 0)) return bad("evaluated bandwidths not in order"); }
            if (mine > best) return bad("selected bandwidth " + str(after.bandwidths[0]) + " is not the best of those evaluated");
        }
        if (e.first == "vars") { uword k = probe->d.x.n_cols - (probe->intercept() ? 1 : 0); if (e.second.n_elem < 1 || e.second.n_elem > k) return bad(std::to_string(e.second.n_elem) + " of " + std::to_string(k) + " variables selected"); for (double v : e.second) if (v < (probe->intercept() ? 1 : 0) || v >= probe->d.x.n_cols) return bad("selected variable " + str(v)); }
        if (e.first == "varlist") { uword k = probe->d.x.n_cols - (probe->intercept() ? 1 : 0); if (e.second.n_rows != k * (k + 1) / 2) return bad(std::to_string(e.second.n_rows) + " variable combinations listed"); }
    }
    x.probe["model-selected"]++; (void)n;
}
void selectScen(Ctx& x) {
    switch (x.p.pick("part", { 0, 0, 1, 1, 2, 2, 2, 2, 2, 3 })) { case 0: selectBw(x); break; case 1: selectVar(x); break; case 3: selectLambda(x); break; default: selectModel(x); }
}

// ---------------------------------------------------------------- C10
// a local model that cannot be solved is reported, in every mode, and the object survives it
// a prediction location out of reach of every sample cannot be solved either
static void failPredict(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_ROBUST, M_POISSON, M_BINOM });
    x.p.set("adaptive", 0); x.p.set("kern", x.p.pick("kernP", { 2, 3, 4 })); BuildOpts o; o.noAuto = true; o.forceHat = true;
    auto probe = build(model, x.p, "", o); bool omp = x.p.b("omp", 0.7); int th = omp ? threads(x) : 1;
    auto job = [&](Inst& in) { return callGuarded(in, [&](Out& t) { in.run(t); t.add("prediction", in.predict()); }); };
    Out ref; { auto a = build(model, x.p, "", o); a->par(SerialOnly, 1); ref = job(*a); }
    if (ref.threw) { x.skip = "job raises by itself"; return; }
    long nl = probe->d.loc.n_rows, m = x.p.i("badn", 1, 3), at = x.p.i("badat", 0, nl - 1); mat far = probe->d.loc;
    for (long s = 0; s < m; s++) { long i = (at + s) % nl; if (x.p.used["dist"] == 1) { far(i, 0) = 100; far(i, 1) = -40; } else { far(i, 0) = 7000 + s; far(i, 1) = 7000; } }
    Out first, second;
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o); a->par(omp ? OpenMP : SerialOnly, th); Out t; try { a->run(t); } catch (const std::exception&) { sim::Rt g; x.skip = "preparation raises"; return; }
        mat keep = a->d.loc; a->d.loc = far; first = callGuarded(*a, [&](Out& q) { q.add("prediction", a->predict()); });
        a->d.loc = keep; second = job(*a);
    }) != sim::OK || !x.skip.empty()) return;
    hashOut(first); hashOut(second); x.fault["unreachable-location"]++;
    string who = string(modelName[model]) + (omp ? " with OpenMP" : "") + ": ";
    if (!first.threw) { x.bad("silent-failure", who + "predict returned normally although a location is out of reach of every sample"); return; }
    if (first.what == "non-standard exception") { x.bad("silent-failure", who + "predict raised something that is not a std::exception"); return; }
    if (second.threw) { x.bad("unusable-afterwards", who + "after a failed predict, the next jobs raise '" + second.what + "'"); return; }
    string d = diff(ref, second, 1e-6); if (d.empty()) return;
    if (!wellConditioned(x, model, o, [&](Inst& in) { in.par(SerialOnly, 1); return job(in); }, ref, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
    x.bad("unusable-afterwards", who + "after a failed predict, the next jobs differ: " + d);
}
void failScen(Ctx& x) {
    if (x.p.b("failPredict", 0.15)) return failPredict(x);
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_POISSON, M_BINOM, M_GTWR, M_GWDR, M_SCAL, M_LCR });
    x.p.set("mgold", 1); BuildOpts good; good.noAuto = true; BuildOpts o = good; o.singular = true;
    auto probe = build(model, x.p, "", o);
    bool omp = x.p.b("omp", 0.7); int th = omp ? threads(x) : 1;
    Out ref; { Params q = x.p; auto a = build(model, q, "", good); a->par(SerialOnly, 1); ref = runInst(*a); }
    if (ref.threw) { x.skip = "job raises by itself"; return; }
    // is some local design matrix singular by construction?
    Out serial; { Params q = x.p; auto a = build(model, q, "", o); a->par(SerialOnly, 1); serial = runInst(*a); }
    Recorder r; r.keep = true; Out got, next; int again = (int)x.p.i("again", 1, 2); vector<Out> rep(3);
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o); a->par(omp ? OpenMP : SerialOnly, th); a->alg()->setTelegram(makeTelegram(&r));
        for (int i = 0; i < again; i++) rep[i] = callGuarded(*a, [&](Out& t) { a->run(t); });
        auto b = build(model, x.p, "", good); a->d = b->d; a->resetData(); a->adoptConfig(*b); a->resetBandwidth();
        next = callGuarded(*a, [&](Out& t) { a->run(t); });
    }) != sim::OK) return;
    got = rep[again - 1]; hashOut(got); hashOut(next); x.fault["unsolvable-local-model"]++;
    string who = string(modelName[model]) + (omp ? " with OpenMP" : "") + ": ";
    for (int i = 0; i < again; i++) if (!rep[i].threw) { x.bad("silent-failure", who + "returned normally although a local model cannot be solved" + (serial.threw ? " (the serial run raises '" + serial.what + "')" : "")); return; }
    if (got.what == "non-standard exception") { x.bad("silent-failure", who + "raised something that is not a std::exception"); return; }
    if (next.threw) { x.bad("unusable-afterwards", who + "after a failed fit, a fit on good data raises '" + next.what + "'"); return; }
    string d = diff(ref, next, 1e-6); if (d.empty()) return;
    if (!wellConditioned(x, model, good, [&](Inst& in) { in.par(SerialOnly, 1); return runInst(in); }, ref, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
    x.bad("unusable-afterwards", who + "after a failed fit, a fit on good data differs: " + d);
}

// ---------------------------------------------------------------- C14
// independent objects on concurrent threads of the caller
void isolateScen(Ctx& x) {
    int N = (int)x.p.i("inst", 2, 3); vector<int> model(N); vector<bool> omp(N), pred(N); vector<int> th(N), job(N); vector<Out> ref(N), got(N); vector<BuildOpts> o(N); vector<Recorder> rec(N);
    bool same = x.p.b("same", 0.5);
    for (int i = 0; i < N; i++) {
        string q = "i" + std::to_string(i) + ".";
        model[i] = same && i ? model[0] : (int)x.p.pick(q + "model", { M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA });
        x.p.set(q + "nbig", 0); x.p.set(q + "n", x.p.i(q + "nn", 24, 30));
        auto a = build(model[i], x.p, q, o[i]); pred[i] = a->canPredict() && x.p.b(q + "predict", 0.3); if (pred[i]) { o[i].noAuto = true; o[i].forceHat = true; a = build(model[i], x.p, q, o[i]); }
        omp[i] = a->parallel() && x.p.b(q + "omp", 0.5); th[i] = omp[i] ? (int)x.p.i(q + "th", 2, 4) : 1;
        rec[i].cancelAt = x.p.b(q + "cancelled", 0.15) ? x.p.i(q + "cancelAt", 1, 60) : 0;
        a->par(SerialOnly, 1); ref[i] = callGuarded(*a, [&](Out& t) { a->run(t); if (pred[i]) t.add("prediction", a->predict()); });
    }
    threads(x); sim::threadLimit = 64; startSim(x); sim::mpi::reset(1);
    vector<sim::Root> roots;
    for (int i = 0; i < N; i++) roots.push_back({ [&, i] {
        string q = "i" + std::to_string(i) + "."; std::unique_ptr<Inst> a; { sim::Rt g; a = build(model[i], x.p, q, o[i]); }
        a->par(omp[i] ? OpenMP : SerialOnly, th[i]); a->alg()->setTelegram(makeTelegram(&rec[i]));
        Out t = callGuarded(*a, [&](Out& t) { a->run(t); if (pred[i]) t.add("prediction", a->predict()); });
        sim::Rt g; got[i] = t;
        a.reset();
    }, 0 });
    auto oc = sim::run(roots, 600ull * 1000 * 1000);
    if (oc != sim::OK) { x.bad(oc == sim::DEADLOCK ? "deadlock" : oc == sim::STEPCAP ? "stepcap" : "crash", sim::outcomeText()); return; }
    for (int i = 0; i < N; i++) hashOut(got[i]);
    for (int i = 0; i < N; i++) {
        string others; for (int j = 0; j < N; j++) if (j != i) others += (others.empty() ? "" : ", ") + string(modelName[model[j]]);
        string who = string(modelName[model[i]]) + (omp[i] ? " with OpenMP" : "") + (pred[i] ? " fit and predict" : "") + " beside " + others + ": ";
        if (rec[i].stopped) { x.fault["one-of-them-cancelled"]++; if (got[i].threw && !ref[i].threw) { x.bad("interference", who + "cancelled, raised '" + got[i].what + "'"); return; } continue; }
        string d = diff(ref[i], got[i], 1e-6); if (d.empty()) continue;
        string q = "i" + std::to_string(i) + "."; bool stable = true;
        for (int s = 1; s <= 3 && stable; s++) { BuildOpts oo = o[i]; oo.perturb = s; Params pp = x.p; auto a = build(model[i], pp, q, oo); a->par(SerialOnly, 1); Out r = callGuarded(*a, [&](Out& t) { a->run(t); if (pred[i]) t.add("prediction", a->predict()); }); stable = diff(ref[i], r, 3e-7).empty(); }
        if (!stable) { x.probe["ill-conditioned"]++; continue; }
        x.bad("interference", who + d); return;
    }
}

// ---------------------------------------------------------------- C15
// memory runs out inside a job
extern void valueScen(Ctx&);
void oomScen(Ctx& x) {
    if (x.p.b("values", 0.08)) { x.p.set("faulty", 1); valueScen(x); return; }
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA });
    x.p.set("nbig", 0);
    BuildOpts o; auto probe = build(model, x.p, "", o); Job op;
    if (probe->canPredict() && x.p.b("predict", 0.25)) { op.predict = true; o.noAuto = true; o.forceHat = true; probe = build(model, x.p, "", o); }
    bool omp = probe->parallel() && x.p.b("omp", 0.6); int th = omp ? threads(x) : 1;
    auto prep = [&](Inst& in) { in.par(omp ? OpenMP : SerialOnly, th); if (op.predict) { Out t; in.run(t); } };
    Out ref; uint64_t count = 0;
    { auto a = build(model, x.p, "", o); a->par(SerialOnly, 1); if (op.predict) callGuarded(*a, [&](Out& t) { a->run(t); }); armLibrary = true; sim::allocReset(); ref = callGuarded(*a, [&](Out& t) { op.run(*a, t); }); armLibrary = false; count = sim::allocOrdinal(); }
    if (ref.threw) { x.skip = "job raises by itself"; return; }
    uint64_t at = 1 + (uint64_t)(x.p.r("allocFrac", 0, 1) * count); int mode = (int)x.p.b("persistent", 0.3);
    bool early = x.p.b("early", 0.3); if (early) at = x.p.i("allocAt", 1, std::max<long>(1, std::min<long>(200, (long)count)));
    Out got, next; bool fired = false; Recorder r;
    startSim(x);
    if (simOne(x, [&] {
        auto a = build(model, x.p, "", o);
        try { prep(*a); } catch (const std::exception&) { sim::Rt g; x.skip = "preparation raises"; return; }
        a->alg()->setTelegram(makeTelegram(&r));
        sim::allocReset(); sim::allocFailAt = at; sim::allocFailMode = mode; armLibrary = true;
        got = callGuarded(*a, [&](Out& t) { op.run(*a, t); });
        armLibrary = false; sim::allocFailAt = 0; fired = sim::st.allocFails > 0;
        { a->resetData(); a->resetBandwidth(); a->par(omp ? OpenMP : SerialOnly, th); next = callGuarded(*a, [&](Out& t) { if (op.predict) a->run(t); op.run(*a, t); }); }
        a.reset();
    }) != sim::OK || !x.skip.empty()) return;
    hashOut(got); hashOut(next);
    if (!fired) { x.probe["finished-before-failure"]++; return; }
    x.fault[mode ? "memory-exhausted" : "allocation-failed"]++;
    string who = string(modelName[model]) + " " + op.name() + (omp ? " with OpenMP" : "") + (mode ? ", memory exhausted: " : ", one allocation failed: ");
    if (got.threw && got.what == "non-standard exception") { x.bad("oom-raises", who + "raised something that is not a std::exception"); return; }
    bool chooses = x.p.used["autobw"] || x.p.used["autovar"] || x.p.used["autolambda"] || model == M_MULTI || model == M_SCAL;
    string d, w2;
    if (!got.threw && !chooses) { d = diff(ref, got, 1e-6); w2 = "returned normally with a wrong result: "; }
    if (d.empty()) { if (next.threw) { x.bad("oom-afterwards", who + "the next job raises '" + next.what + "'"); return; } if (!op.predict) { d = diff(ref, next, 1e-6); w2 = "the next job on the object differs: "; } }
    if (d.empty()) { x.probe[got.threw ? "reported" : "survived"]++; return; }
    auto f = [&](Inst& in) { in.par(SerialOnly, 1); if (op.predict) callGuarded(in, [&](Out& t) { in.run(t); }); return callGuarded(in, [&](Out& t) { op.run(in, t); }); };
    if (!wellConditioned(x, model, o, f, ref, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
    x.bad(w2[0] == 'r' ? "oom-silent" : "oom-afterwards", who + w2 + d);
}

// ---------------------------------------------------------------- C16
// a whole life of an object gives back all its memory
void leakScen(Ctx& x) {
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_ROBUST, M_MULTI, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA });
    x.p.set("nbig", 0);
    BuildOpts o; int ops = (int)x.p.i("ops", 1, 3); bool omp = x.p.b("omp", 0.5); int th = omp ? threads(x) : 1; string what;
    long blocks[4] = { 0, 0, 0, 0 }, bytes[4] = { 0, 0, 0, 0 }; vector<long> inside;
    long oom = 0;       // Armadillo's own constructors drop their block when a nested allocation fails: two blocks each are not held against the library
    auto life = [&](int c) {
        oom = 0; auto a = build(model, x.p, "", o); if (c == 0) { sim::Rt g; what.clear(); }
        for (int i = 0; i < ops; i++) {
            string s = std::to_string(i); a->par(a->parallel() && omp ? OpenMP : SerialOnly, th); Recorder r; Out t; string nm;
            switch (x.p.pick("op" + s, { 0, 0, 1, 1, 2, 3, 4 })) {
            case 0: nm = "fit"; t = runInst(*a); break;
            case 1: nm = "cancelled fit"; r.cancelAt = x.p.i("cancel" + s, 1, 120); a->alg()->setTelegram(makeTelegram(&r)); t = runInst(*a); a->alg()->setTelegram(std::unique_ptr<ITelegram>(new Logger)); if (r.stopped && c == 0) { sim::Rt g; x.fault["cancelled-job"]++; } break;
            case 2: if (a->canPredict()) { nm = "predict"; callGuarded(*a, [&](Out& q) { q.add("p", a->predict()); }); } break;
            case 3: { nm = "failing fit"; auto keep = a->d; a->d.x.fill(0.0); a->resetData(); t = runInst(*a); a->d = keep; a->resetData(); if (t.threw && c == 0) { sim::Rt g; x.fault["failed-job"]++; } break; }
            case 4: { nm = "fit out of memory"; sim::allocReset(); sim::allocFailAt = x.p.i("alloc" + s, 1, 400); armLibrary = true; t = runInst(*a); armLibrary = false; sim::allocFailAt = 0; oom++; if (c == 0 && sim::st.allocFails) { sim::Rt g; x.fault["allocation-failed"]++; } break; }
            }
            a->resetData(); a->resetBandwidth();
            if (c == 0) { sim::Rt g; what += (what.empty() ? "" : ", ") + nm; }
        }
        if (x.p.b("assign", 0.3)) { auto b = build(model, x.p, "", o); b->d = a->d; b->resetData(); b->resetBandwidth(); }
    };
    startSim(x, false);
    if (simOne(x, [&] { for (int c = 0; c < 4; c++) { life(c); blocks[c] = (long)sim::allocLiveBlocks(); bytes[c] = (long)sim::allocLive(); } }) != sim::OK) return;
    sim::event("live", blocks[1] - blocks[0], blocks[2] - blocks[1], bytes[3] - bytes[2]);
    if (blocks[2] > blocks[1] + 2 * oom && blocks[3] > blocks[2] + 2 * oom) x.bad("leak", string(modelName[model]) + (omp ? " with OpenMP" : "") + " life of [" + what + "]: " + std::to_string(blocks[3] - blocks[2]) + " blocks, " + std::to_string(bytes[3] - bytes[2]) + " bytes not given back");
}
