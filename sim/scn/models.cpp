#include "model.h"
#include <cmath>
#include <sstream>
#include <algorithm>
using namespace gwm;
using namespace arma;
using std::string; using std::vector;

const char* modelName[] = { "GWRBasic", "GWRRobust", "GWRMultiscale", "GWRGeneralized-Poisson", "GWRGeneralized-Binomial", "GWRLocalCollinearity", "GWRScalable", "GTWR", "GWDR", "GWSS-Average", "GWSS-Correlation", "GWPCA", "GWDA" };

// ---------------------------------------------------------------- parameters
sim::Rng Params::rngFor(const string& name) const {
    uint64_t h = 1469598103934665603ull;
    for (char c : name) { h ^= (unsigned char)c; h *= 1099511628211ull; }
    sim::Rng r(seed * 0x9E3779B97F4A7C15ull + h); r.next(); return r;
}
long Params::i(const string& name, long lo, long hi) {
    auto it = over.find(name); long v;
    if (it != over.end()) v = (long)it->second;
    else { auto r = rngFor(name); v = lo + (long)r.below((uint64_t)(hi - lo + 1)); }
    used[name] = (double)v; return v;
}
double Params::r(const string& name, double lo, double hi) {
    auto it = over.find(name); double v;
    if (it != over.end()) v = it->second;
    else { auto r = rngFor(name); v = lo + (hi - lo) * r.u01(); }
    used[name] = v; return v;
}
bool Params::b(const string& name, double p) {
    auto it = over.find(name); bool v;
    if (it != over.end()) v = it->second != 0; else { auto r = rngFor(name); v = r.chance(p); }
    used[name] = v; return v;
}
long Params::pick(const string& name, const vector<long>& c) {
    auto it = over.find(name); long v;
    if (it != over.end()) v = (long)it->second; else { auto r = rngFor(name); v = c[r.below(c.size())]; }
    used[name] = (double)v; return v;
}
string Params::str() const {
    std::ostringstream s; s.precision(17); bool f = true;
    for (auto& k : used) { if (!f) s << ","; f = false; s << k.first << "=" << k.second; }
    return s.str();
}

// ---------------------------------------------------------------- comparison
static bool same(double a, double b, double scale, double tol) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(scale, 1e-12);
}
string diffMat(const string& name, const mat& a, const mat& b, double tol) {
    std::ostringstream s; s.precision(12);
    if (a.n_rows != b.n_rows || a.n_cols != b.n_cols) {
        s << name << ": size " << b.n_rows << "x" << b.n_cols << " expected " << a.n_rows << "x" << a.n_cols; return s.str();
    }
    double sc = 0; for (double v : a) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v));
    uword bad = 0; string first;
    for (uword j = 0; j < a.n_cols; j++) for (uword i = 0; i < a.n_rows; i++)
        if (!same(a(i, j), b(i, j), std::max(sc * 1e-3, std::fabs(a(i, j))), tol)) {
            if (!bad++) { std::ostringstream t; t.precision(12); t << name << "(" << i << "," << j << ")=" << b(i, j) << " expected " << a(i, j); first = t.str(); }
        }
    if (!bad) return "";
    s << first << " (" << bad << " of " << a.n_elem << " entries differ)"; return s.str();
}
string diff(const Out& ref, const Out& got, double tol, const char* skip) {
    if (ref.threw != got.threw) return got.threw ? "raised '" + got.what + "' where the serial run returns" : "returned normally where the serial run raises '" + ref.what + "'";
    if (ref.threw) return "";
    if (ref.status != got.status) return "status " + std::to_string(got.status) + " expected " + std::to_string(ref.status);
    for (auto& e : ref.v) {
        if (skip && string(skip).find(";" + e.first + ";") != string::npos) continue;
        const mat* m = nullptr; for (auto& g : got.v) if (g.first == e.first) m = &g.second;
        if (!m) return e.first + " missing";
        string d = diffMat(e.first, e.second, *m, tol); if (!d.empty()) return d;
    }
    if (ref.bandwidths.size() == got.bandwidths.size()) { string d = diffMat("bandwidth", mat(vec(ref.bandwidths)), mat(vec(got.bandwidths)), std::max(tol, 1e-6)); if (!d.empty()) return d; }
    return "";
}

// ---------------------------------------------------------------- telegram
struct Tele : ITelegram {
    Recorder* r; explicit Tele(Recorder* r_) : r(r_) {}
    ~Tele() { r->destroyed++; }
    void rec(Ev e) {
        sim::Rt g; if (r->destroyed) r->callsAfterDestroy++; e.thread = sim::self(); e.seq = sim::st.points;
        r->nEv++;
        if (r->keep && r->ev.size() < 200000) r->ev.push_back(e);
        if (r->hook) r->hook(e);
    }
    void print(string m, LogLevel l, string fn, string) override {
        { sim::Rt g; if (m.rfind("#stage ", 0) == 0) { r->curStage = m.substr(7); r->stageDists = sim::st.dists; } r->lastLevel = (int)l; if (r->stopped) r->printsAfter++; if ((int)l <= 3) r->errors++; rec({ 'P', 0, 0, (uint64_t)l, 0, 0, m, fn }); }
        sim::seam("print");
    }
    void progress(size_t c, size_t t, string fn, string) override {
        { sim::Rt g; if (r->stopped) r->progressAfter++; rec({ 'G', 0, 0, c, t, 0, "", fn }); }
        sim::event("G", c, t);
        sim::seam("progress");
    }
    void progress(double p, string fn, string) override { { sim::Rt g; rec({ 'F', 0, 0, 0, 0, p, "", fn }); } sim::seam("progress"); }
    bool stop() override {
        bool ans;
        { sim::Rt g; r->polls++; sim::st.polls++;
          if (r->stopped) r->pollsAfter++;
          if (!r->stopped && r->cancelAt && r->polls >= r->cancelAt) { r->stopped = true; sim::stopSeen = true; sim::st.cancels++; r->cancelStage = r->curStage; r->workInStage = sim::st.dists - r->stageDists; r->solvesAtStop = sim::st.lapack; r->evAtStop = r->nEv; sim::event("C", r->polls); }
          ans = r->stopped; }
        sim::seam("stop");
        return ans;
    }
};
std::unique_ptr<ITelegram> makeTelegram(Recorder* r) { return std::unique_ptr<ITelegram>(new Tele(r)); }

// ---------------------------------------------------------------- data
static mat diagMat(const RegressionDiagnostic& d) { return mat(rowvec({ d.RSS, d.AIC, d.AICc, d.ENP, d.EDF, d.RSquare, d.RSquareAdjust })); }
static mat cubeMat(const cube& c) { mat m(c.n_elem, 1); for (uword i = 0; i < c.n_elem; i++) m(i) = c(i); return m; }
static mat listMat(const BandwidthCriterionList& l) { mat m(l.size(), 2); for (size_t i = 0; i < l.size(); i++) { m(i, 0) = l[i].first; m(i, 1) = l[i].second; } return m; }
static mat varMat(const vector<size_t>& v) { mat m(v.size(), 1); for (size_t i = 0; i < v.size(); i++) m(i) = (double)v[i]; return m; }
static mat varListMat(const VariablesCriterionList& l) { mat m(l.size(), 2); for (size_t i = 0; i < l.size(); i++) { double h = 0; for (auto q : l[i].first) h = h * 31 + q + 1; m(i, 0) = h; m(i, 1) = l[i].second; } return m; }

uint64_t cancelAtDist = 0; Recorder* cancelRec = nullptr;
static void noteDist() {
    sim::Rt g; sim::st.dists++;
    if (sim::stopSeen) sim::st.distsAfterStop++;
    else if (cancelAtDist && cancelRec && sim::st.dists >= cancelAtDist) { auto r = cancelRec; r->stopped = true; sim::stopSeen = true; sim::st.cancels++; r->cancelStage = r->curStage; r->workInStage = sim::st.dists - r->stageDists; r->evAtStop = r->nEv; sim::event("C", sim::st.dists); }
}
// distance metrics that count the local models asked for
template <class D> struct Cnt : D {
    explicit Cnt(const D& d) : D(d) {}
    Distance* clone() const override { return new Cnt(*this); }
    vec distance(uword f) override { noteDist(); return D::distance(f); }
};
struct Cfg {
    long n, k; bool intercept, adaptive, geo, autobw, autovar, aic, hat; int kern, dist; double bw; double poly, theta; double upper = 0;
    std::unique_ptr<Distance> distance() const {
        if (dist == 1) return std::unique_ptr<Distance>(new Cnt<CRSDistance>(CRSDistance(true)));
        if (dist == 2) return std::unique_ptr<Distance>(new Cnt<MinkwoskiDistance>(MinkwoskiDistance(poly, theta)));
        return std::unique_ptr<Distance>(new Cnt<CRSDistance>(CRSDistance(false)));
    }
    BandwidthWeight weight() const { return BandwidthWeight(bw, adaptive, (BandwidthWeight::KernelFunctionType)kern); }
    SpatialWeight sw() const { auto d = distance(); BandwidthWeight w = weight(); return SpatialWeight(&w, d.get()); }
};

// largest distance to the q-th nearest data point over all focus points
static double reach(const mat& coords, const mat& focus, const Cfg& c, long q) {
    auto d = c.distance(); d->makeParameter({ focus, coords });
    double best = 0; for (uword i = 0; i < focus.n_rows; i++) { vec v = sort(d->distance(i)); best = std::max(best, v(std::min<uword>(q, v.n_elem) - 1)); }
    return best;
}

static void makeData(int model, Params& p, const string& pre, const BuildOpts& o, Cfg& c, Data& d) {
    bool needAuto = !o.noAuto;
    c.autobw = needAuto && p.b(pre + "autobw", 0.3);
    c.autovar = needAuto && (model == M_BASIC || model == M_GWDR || model == M_ROBUST) && p.b(pre + "autovar", 0.2);
    c.aic = p.b(pre + "aic", 0.5);
    c.hat = o.forceHat || p.b(pre + "hat", 0.75);
    c.k = p.i(pre + "k", model == M_LCR || model == M_GWDA || model == M_GWPCA ? 2 : 1, 3);
    if (c.autovar && c.k < 2) c.k = 2;
    c.n = p.b(pre + "nbig", 0.06) ? p.i(pre + "nlarge", 60, 130) : p.i(pre + "n", 24, 40);
    if (model == M_BINOM) c.n += 16;
    c.intercept = p.b(pre + "intercept", 0.8);
    c.adaptive = p.b(pre + "adaptive", 0.5);
    c.kern = (int)p.i(pre + "kern", 0, 4);
    c.dist = (int)p.pick(pre + "dist", { 0, 0, 1, 2 });
    c.poly = p.pick(pre + "poly", { 1, -1, 2, 3 }); if (c.poly == 2 && p.b(pre + "frac", 0.5)) c.poly = 1.5; c.theta = p.b(pre + "rot", 0.5) ? 0.4 : 0;
    if (model == M_GTWR || model == M_GWDR) c.dist = 0;
    if (model == M_LCR || model == M_SCAL) c.intercept = true;
    if (o.singular || o.hardSearch) { c.adaptive = false; c.kern = (int)p.pick(pre + "kernS", { 2, 3, 4 }); c.autobw = o.hardSearch; c.autovar = false; }
    // a box kernel scores whole ranges of bandwidths equally: which of them a search returns depends on rounding
    if (c.kern == 4 && (o.hardSearch || (model == M_MULTI && needAuto))) c.kern = 2;
    sim::Rng r(p.i(pre + "dseed", 1, 1000000) * 7919 + 17);
    long n = c.n;
    d.coords.set_size(n, 2); d.x.set_size(n, c.k + 1); d.y.set_size(n); d.times.set_size(n);
    double ext = c.dist == 1 ? 10.0 : 100.0;
    double off = c.dist == 1 ? 20.0 : 0.0;
    for (long i = 0; i < n; i++) {
        d.coords(i, 0) = off + ext * r.u01(); d.coords(i, 1) = off + ext * r.u01();
        d.times(i) = 1 + std::floor(20 * r.u01());
        d.x(i, 0) = 1;
        for (long j = 1; j <= c.k; j++) d.x(i, j) = r.normal() + (j == 2 ? 0.3 * d.x(i, 1) : 0) + 0.5;
    }
    // repeated measurements: several samples at one location
    if (!o.singular && !o.hardSearch && p.b(pre + "dups", 0.15)) for (long t = 0, m = 2 + (long)(4 * r.u01()); t < m; t++) { long i = (long)(n * r.u01()), j = (long)(n * r.u01()); d.coords.row(i) = d.coords.row(j); }
    long nloc = p.i(pre + "nloc", 1, 12);
    d.loc.set_size(nloc, 2);
    for (long i = 0; i < nloc; i++) { d.loc(i, 0) = off + ext * (0.1 + 0.8 * r.u01()); d.loc(i, 1) = off + ext * (0.1 + 0.8 * r.u01()); }
    // coefficients of both signs, varying over space
    vec b0(c.k + 1), bu(c.k + 1), bv(c.k + 1);
    for (long j = 0; j <= c.k; j++) { b0(j) = 2.0 * r.normal(); bu(j) = r.normal(); bv(j) = r.normal(); }
    for (long i = 0; i < n; i++) {
        double u = (d.coords(i, 0) - off) / ext, v = (d.coords(i, 1) - off) / ext, m = 0;
        for (long j = 0; j <= c.k; j++) m += d.x(i, j) * (b0(j) + bu(j) * u + bv(j) * v);
        d.y(i) = m + 0.7 * r.normal();
        if (model == M_POISSON) { double l = std::exp(0.25 * std::max(-6.0, std::min(6.0, m)) + 1.2); double L = std::exp(-l), q = 1; int kk = 0; do { q *= r.u01(); kk++; } while (q > L && kk < 60); d.y(i) = kk - 1; }
        if (model == M_BINOM) d.y(i) = r.u01() < 1 / (1 + std::exp(-0.35 * std::max(-4.0, std::min(4.0, m)))) ? 1 : 0;
    }
    if (!c.intercept) { d.x = d.x.cols(1, c.k); if (d.x.n_cols == 1) d.x.col(0) += 1.0; }
    if (model == M_GWSSA || model == M_GWSSC || model == M_GWPCA || model == M_GWDA) {
        d.x = randu<mat>(0, 0); d.x.set_size(n, c.k + 1);
        for (long i = 0; i < n; i++) for (long j = 0; j <= c.k; j++) d.x(i, j) = r.normal() + (j ? 0.4 * d.x(i, 0) : 0) + 0.02 * d.coords(i, j % 2);
    }
    if (model == M_GWDA) {
        d.group.resize(n); int g = (int)p.i(pre + "groups", 2, 3);
        for (long i = 0; i < n; i++) { int gi = (int)(i % g); d.group[i] = string(1, (char)('a' + gi)); d.x.row(i) += 0.8 * gi; }
    }
    if (o.perturb) { sim::Rng q(o.perturb * 7777 + 5); for (auto& v : d.y) v *= 1 + 4e-14 * q.normal(); for (auto& v : d.x) if (v != 1 && v != 0) v *= 1 + 4e-14 * q.normal(); if (model == M_POISSON || model == M_BINOM) for (auto& v : d.y) v = std::round(v); }
    long need = 2 * (long)d.x.n_cols + 5;
    if (model == M_BINOM) need = n / 2 + 6;
    if (model == M_POISSON) need = n / 2;
    if (model == M_GWDA) need = n / 2;
    if (model == M_GTWR || model == M_GWDR) need = n / 2 + 2;
    double frac = p.r(pre + "bwfrac", 0, 1);
    long q = std::min<long>(n, need + (long)(frac * (n - need)));
    if (q < need) q = need;
    if (c.kern >= 2) q = std::min<long>(n, q + 3);          // compact kernels: the farthest neighbour gets weight 0
    c.bw = c.adaptive ? (double)q : 1.05 * std::max(reach(d.coords, d.coords, c, q), reach(d.coords, d.loc, c, q));
    if (c.adaptive && p.b(pre + "bwbig", 0.1)) c.bw = n + 3;
    if ((model == M_GWSSA || model == M_GWSSC) && !o.singular && p.b(pre + "tiny", 0.25)) { c.adaptive = true; c.bw = p.i(pre + "tinybw", 4, 7); }
    if (c.autobw && !o.hardSearch) { c.kern = c.kern == 4 ? 0 : c.kern; if (!c.adaptive) c.kern = (int)p.pick(pre + "kernA", { 0, 1 }); if (n < 28) c.n = n; }
    if (o.singular || o.hardSearch) {
        // a far-away cluster whose local design matrix has an all-zero column
        long m = p.i(pre + "badn", 1, 3), at = p.i(pre + "badat", 0, n - 1);
        for (long s = 0; s < m; s++) {
            long i = (at + s) % n; d.coords(i, 0) = off + ext * (model == M_GTWR ? 60 : 6) + s * ext * 0.01; d.coords(i, 1) = off + (c.dist == 1 ? ext * 2 : ext * 6);
            d.x(i, d.x.n_cols - 1) = 0;
        }
        if (model == M_SCAL) d.x.col(d.x.n_cols - 1).zeros();   // every local model holds all samples
        mat far = d.coords; Cfg cc = c; mat near; uvec keep = find(d.coords.col(0) < off + ext * 3);
        c.bw = 1.05 * reach(d.coords, d.coords.rows(keep), c, std::min<long>(q, n - m));
        // a search range whose lower candidates leave the cluster on its own and whose upper ones reach everything
        if (o.hardSearch) c.upper = p.r(pre + "upfac", 1.6, 2.2) * reach(d.coords, d.coords, c, n);
    }
}

// ---------------------------------------------------------------- adapters
bool armLibrary = false;
struct Armed { bool on; Armed() : on(armLibrary) { if (on) sim::allocArm(true); } ~Armed() { if (on) sim::allocArm(false); } };
template <class F> static auto lib(F f) { Armed a; return f(); }       // allocations fail only inside calls of the library
template <class A> struct Reg : Inst {
    A a; Cfg c;
    Algorithm* alg() override { return &a; }
    void adoptConfig(Inst& o) override { c = dynamic_cast<Reg<A>&>(o).c; }
    double bw0() override { return c.bw; }
    Spec spec() override { Spec s; s.dist = c.dist; s.poly = c.poly; s.theta = c.theta; s.adaptive = c.adaptive; s.kern = c.kern; s.intercept = c.intercept; s.aic = c.aic; s.hat = c.hat; return s; }
};

struct IBasic : Reg<GWRBasic> {
    mat bwList() override { return listMat(a.bandwidthSelectionCriterionList()); }
    void par(ParallelType t, int th, int rank, int ranks) override { a.setParallelType(t); a.setOmpThreadNum(th); if (t & (MPI_Serial | MPI_MP)) { a.setWorkerId(rank); a.setWorkerNum(ranks); } }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); collect(o);
    }
    void collect(Out& o) {
        o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic()));
        if (a.hasHatMatrix()) { o.add("betasSE", a.betasSE()); o.add("shat", a.sHat()); o.add("qdiag", a.qDiag()); if (a.isStoreS()) o.add("S", a.s()); if (a.isStoreC()) o.add("C", cubeMat(a.c())); }
        collectBw(o);
        if (a.isAutoselectBandwidth()) o.add("bwlist", listMat(a.bandwidthSelectionCriterionList()));
        if (a.isAutoselectIndepVars()) { o.add("vars", varMat(a.selectedVariables())); o.add("varlist", varListMat(a.indepVarsSelectionCriterionList())); }
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override {
        a.createDistanceParameter(); BandwidthWeight w(*a.spatialWeight().weight<BandwidthWeight>()); w.setBandwidth(b); double v = 0; bwStatus = (int)a.GWRBasic::getCriterion(&w, v); return v;
    }
    bool hasVarCriterion() override { return true; }
    double varCriterion(const vector<size_t>& vs) override { a.createDistanceParameter(); double v = 0; bwStatus = (int)a.GWRBasic::getCriterion(vs, v); return v; }
    size_t varCount() override { return a.independentVariables().n_cols; }
    bool intercept() override { return a.hasIntercept(); }
    void blankData() override { a.setCoords(mat()); a.setIndependentVariables(mat()); a.setDependentVariable(vec()); }
    void searchRange(vector<double>& lo, vector<double>& up) override { auto s = c.sw(); double mx = 0; if (!c.adaptive) { s.distance()->makeParameter({ d.coords, d.coords }); mx = s.distance()->maxDistance(); } lo = { glo.value_or(c.adaptive ? 20 : 0) }; up = { gup.value_or(c.adaptive ? c.n : mx) }; }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
    void setup(GWRBasic& g, bool forPredict) {
        g.setCoords(d.coords); g.setIndependentVariables(d.x); g.setDependentVariable(d.y); g.setHasIntercept(c.intercept);
        auto s = c.sw(); g.setSpatialWeight(s); g.setHasHatMatrix(c.hat);
        g.setIsAutoselectBandwidth(c.autobw); g.setBandwidthSelectionCriterion(c.aic ? GWRBasic::AIC : GWRBasic::CV);
        g.setIsAutoselectIndepVars(c.autovar); g.setIndepVarSelectionThreshold(p->r(pre + "varthr", 0.1, 5.0));
        if (c.autobw && (c.upper > 0 || !p->b(pre + "nogold", 0.2))) { double ext = c.dist == 1 ? 1000 : 100; if (c.adaptive) { g.setGoldenLowerBounds(*(glo = std::min<double>(c.n / 2 + 2, 20))); g.setGoldenUpperBounds(*(gup = c.n)); } else { g.setGoldenLowerBounds(*(glo = c.bw * 0.6)); g.setGoldenUpperBounds(*(gup = c.upper > 0 ? c.upper : c.bw * 3)); } (void)ext; }
        if (c.hat) { g.setStoreS(p->b(pre + "storeS", 0.3)); g.setStoreC(p->b(pre + "storeC", 0.3)); }
    }
};

struct IRobust : Reg<GWRRobust> {
    mat bwList() override { return listMat(a.bandwidthSelectionCriterionList()); }
    bool intercept() override { return a.hasIntercept(); }
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic()));
        if (a.hasHatMatrix()) { o.add("betasSE", a.betasSE()); o.add("shat", a.sHat()); o.add("qdiag", a.qDiag()); o.add("S", a.s()); }
        collectBw(o);
        if (a.isAutoselectBandwidth()) o.add("bwlist", listMat(a.bandwidthSelectionCriterionList()));
        if (a.isAutoselectIndepVars()) o.add("vars", varMat(a.selectedVariables()));
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override { a.createDistanceParameter(); BandwidthWeight w(*a.spatialWeight().weight<BandwidthWeight>()); w.setBandwidth(b); double v = 0; bwStatus = (int)a.GWRBasic::getCriterion(&w, v); return v; }
    void searchRange(vector<double>& lo, vector<double>& up) override { auto s = c.sw(); double mx = 0; if (!c.adaptive) { s.distance()->makeParameter({ d.coords, d.coords }); mx = s.distance()->maxDistance(); } lo = { glo.value_or(c.adaptive ? 20 : 0) }; up = { gup.value_or(c.adaptive ? c.n : mx) }; }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IMulti : Reg<GWRMultiscale> {
    vector<SpatialWeight> sws;
    void adoptConfig(Inst& o) override { auto& q = dynamic_cast<IMulti&>(o); c = q.c; sws = q.sws; inits = q.inits; glo = q.glo; gup = q.gup; a.setGoldenLowerBounds(glo.value()); a.setGoldenUpperBounds(gup.value());
        a.setPreditorCentered(q.a.preditorCentered()); }
    void par(ParallelType t, int th, int rank, int ranks) override { a.setParallelType(t); a.setOmpThreadNum(th); if (t & (MPI_Serial | MPI_MP)) { a.setWorkerId(rank); a.setWorkerNum(ranks); } }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); if (a.hasHatMatrix()) o.add("diagnostic", diagMat(a.diagnostic())); collectBw(o);
    }
    void collectBw(Out& o) override { o.bandwidths.clear(); for (auto& s : a.spatialWeights()) o.bandwidths.push_back(s.weight<BandwidthWeight>()->bandwidth()); }
    void blankData() override { a.setCoords(mat()); a.setIndependentVariables(mat()); a.setDependentVariable(vec()); }
    vector<GWRMultiscale::BandwidthInitilizeType> inits;
    void searchRange(vector<double>& lo, vector<double>& up) override {
        for (size_t j = 0; j < sws.size(); j++) {
            if (inits[j] == GWRMultiscale::Specified) { lo.push_back(1); up.push_back(0); continue; }
            auto s = c.sw(); double mx = 0; if (!c.adaptive) { s.distance()->makeParameter({ d.coords, d.coords }); mx = s.distance()->maxDistance(); }
            lo.push_back(glo.value_or(c.adaptive ? a.adaptiveLower() : 0)); up.push_back(gup.value_or(c.adaptive ? c.n : mx));
        }
    }
    void resetBandwidth() override { a.setSpatialWeights(sws); a.setBandwidthInitilize(inits); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IGen : Reg<GWRGeneralized> {
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    mat bwList() override { return listMat(a.mBandwidthSelectionCriterionList); }
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas());
        if (a.hasHatMatrix()) { auto g = a.getDiagnostic(); o.add("diagnostic", rowvec({ g.RSS, g.AIC, g.AICc, g.RSquare })); }
        auto q = a.getGLMDiagnostic(); o.add("glm", rowvec({ q.NullDev, q.Dev, q.AIC, q.AICc, q.RSquare }));
        o.add("wt2", a.getWtMat2());
        collectBw(o); if (a.autoselectBandwidth()) o.add("bwlist", listMat(a.mBandwidthSelectionCriterionList));
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override { a.createDistanceParameter(); BandwidthWeight w(*a.spatialWeight().weight<BandwidthWeight>()); w.setBandwidth(b); double v = 0; bwStatus = (int)a.getCriterion(&w, v); return v; }
    bool bwNeedsFit() override { return true; }
    void searchRange(vector<double>& lo, vector<double>& up) override { auto s = c.sw(); double mx = 0; if (!c.adaptive) { s.distance()->makeParameter({ d.coords, d.coords }); mx = s.distance()->maxDistance(); } lo = { c.adaptive ? 20.0 : 0.0 }; up = { c.adaptive ? (double)c.n : mx }; }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct ILcr : Reg<GWRLocalCollinearity> {
    mat bwList() override { return listMat(a.bandwidthSelectionCriterionList()); }
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic())); collectBw(o);
        if (a.isAutoselectBandwidth()) o.add("bwlist", listMat(a.bandwidthSelectionCriterionList()));
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override { a.createDistanceParameter(); BandwidthWeight w(*a.spatialWeight().weight<BandwidthWeight>()); w.setBandwidth(b); double v = 0; bwStatus = (int)a.getCriterion(&w, v); return v; }
    void searchRange(vector<double>& lo, vector<double>& up) override { auto s = c.sw(); double mx = 0; if (!c.adaptive) { s.distance()->makeParameter({ d.coords, d.coords }); mx = s.distance()->maxDistance(); } lo = { c.adaptive ? 20.0 : 0.0 }; up = { c.adaptive ? (double)c.n : mx }; }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IScal : Reg<GWRScalable> {
    bool parallel() override { return false; }
    void par(ParallelType, int, int, int) override {}
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic()));
        o.add("sp", rowvec({ a.scale(), a.penalty(), a.cv() })); o.add("rss", rowvec({ a.diagnostic().RSS, a.diagnostic().RSquare }));
        collectBw(o);
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IGtwr : Reg<GTWR> {
    mat bwList() override { return listMat(a.bandwidthSelectionCriterionList()); }
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic()));
        if (a.hasHatMatrix()) { o.add("betasSE", a.betasSE()); o.add("shat", a.sHat()); o.add("qdiag", a.qDiag()); o.add("S", a.s()); }
        collectBw(o); if (a.isAutoselectBandwidth()) o.add("bwlist", listMat(a.bandwidthSelectionCriterionList()));
    }
    void collectBw(Out& o) override { o.bandwidths = { a.spatialWeight().weight<BandwidthWeight>()->bandwidth() }; }
    bool canPredict() override { return true; }
    mat predict() override { return lib([&] { return a.predict(d.loc); }); }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override {
        a.spatialWeight().distance()->makeParameter({ d.coords, d.coords, d.times, d.times }); BandwidthWeight w(*a.spatialWeight().weight<BandwidthWeight>()); w.setBandwidth(b); double v = 0; bwStatus = (int)a.getCriterion(&w, v); return v;
    }
    double lambda0 = 0.5, angle0 = 1.5;
    double metric() override { auto* q = a.spatialWeight().distance(); mat at = { { 0, 0 }, { 3, 4 } }; vec t = { 0, 2 }; q->makeParameter({ at, at, t, t }); return std::min(double(q->distance(0)(1)), double(q->distance(1)(0))); }
    void setLambda(double v) override { lambda0 = v; auto s = mkSw(); a.setSpatialWeight(s); }
    Spec spec() override { Spec s = Reg<GTWR>::spec(); s.lambda = lambda0; s.angle = angle0; return s; }
    SpatialWeight mkSw() { CRSDistance s(false); OneDimDistance t; Cnt<CRSSTDistance> dd(CRSSTDistance(&s, &t, lambda0, angle0)); BandwidthWeight w = c.weight(); return SpatialWeight(&w, &dd); }
    void resetBandwidth() override { auto s = mkSw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords, d.times); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IGwdr : Reg<GWDR> {
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        mat r = lib([&] { return a.fit(); }); o.add("returned", r); o.add("betas", a.betas()); o.add("diagnostic", diagMat(a.diagnostic()));
        if (a.hasHatMatrix()) { o.add("betasSE", a.betasSE()); o.add("shat", a.sHat()); o.add("qdiag", a.qDiag()); o.add("S", a.s()); }
        collectBw(o); if (c.autovar) { o.add("vars", varMat(a.selectedIndepVars())); o.add("varlist", varListMat(a.indepVarCriterionList())); }
    }
    void collectBw(Out& o) override { o.bandwidths.clear(); for (auto& s : a.spatialWeights()) o.bandwidths.push_back(s.weight<BandwidthWeight>()->bandwidth()); }
    bool hasBwCriterion() override { return true; }
    double bwCriterion(double b) override {
        prep(); vector<BandwidthWeight> ws; vector<BandwidthWeight*> pw; for (auto& s : a.spatialWeights()) ws.emplace_back(*s.weight<BandwidthWeight>());
        for (auto& w : ws) { w.setBandwidth(b); pw.push_back(&w); }
        return a.bandwidthCriterion(pw);
    }
    double bwCriterionAt(const vector<double>& b) override {
        prep(); vector<BandwidthWeight> ws; vector<BandwidthWeight*> pw; for (auto& s : a.spatialWeights()) ws.emplace_back(*s.weight<BandwidthWeight>());
        for (size_t i = 0; i < ws.size(); i++) { ws[i].setBandwidth(b[i]); pw.push_back(&ws[i]); }
        return a.bandwidthCriterion(pw);
    }
    bool hasVarCriterion() override { return true; }
    void prep() { for (uword m = 0; m < d.coords.n_cols; m++) a.spatialWeights()[m].distance()->makeParameter({ vec(d.coords.col(m)), vec(d.coords.col(m)) }); }
    double varCriterion(const vector<size_t>& vs) override { prep(); double v = 0; bwStatus = (int)a.getCriterion(vs, v); return v; }
    size_t varCount() override { return a.independentVariables().n_cols; }
    bool intercept() override { return a.hasIntercept(); }
    void adoptConfig(Inst& o) override { auto& q = dynamic_cast<IGwdr&>(o); c = q.c; sws = q.sws; }
    vector<SpatialWeight> sws;
    void resetBandwidth() override { a.setSpatialWeights(sws); }
    void resetData() override { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
};

struct IGwss : Reg<GWSS> {
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        lib([&] { a.run(); return 0; });
        o.add("mean", a.localMean()); o.add("sdev", a.localSDev()); o.add("skew", a.localSkewness()); o.add("cv", a.localCV()); o.add("var", a.localVar());
        if (a.quantile()) { o.add("median", a.localMedian()); o.add("iqr", a.iqr()); o.add("qi", a.qi()); }
        if (model == M_GWSSC) { o.add("cov", a.localCov()); o.add("corr", a.localCorr()); o.add("scorr", a.localSCorr()); }
    }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setVariables(d.x); }
};
struct IGwpca : Reg<GWPCA> {
    bool parallel() override { return false; }
    void par(ParallelType, int, int, int) override {}
    void run(Out& o) override { lib([&] { a.run(); return 0; }); o.add("pv", a.localPV()); o.add("loadings", cubeMat(a.loadings())); o.add("sdev", a.sdev()); }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setVariables(d.x); }
};
struct IGwda : Reg<GWDA> {
    void par(ParallelType t, int th, int, int) override { a.setParallelType(t); a.setOmpThreadNum(th); }
    void run(Out& o) override {
        lib([&] { a.run(); return 0; }); o.add("rate", mat(1, 1).fill(a.correctRate())); o.add("res", a.res()); o.add("probs", a.probs()); o.add("pmax", a.pmax()); o.add("entropy", a.entropy());
        mat g(a.group().size(), 1); for (size_t i = 0; i < a.group().size(); i++) g(i) = a.group()[i].empty() ? -1 : a.group()[i][0]; o.add("group", g);
    }
    void resetBandwidth() override { auto s = c.sw(); a.setSpatialWeight(s); }
    void resetData() override { a.setCoords(d.coords); a.setVariables(d.x); a.setGroup(d.group); }
};

std::unique_ptr<Inst> build(int model, Params& p, const string& pre, BuildOpts o) {
    Cfg c; Data d; makeData(model, p, pre, o, c, d);
    std::unique_ptr<Inst> r;
    auto fill = [&](auto* in) { in->p = &p; in->model = model; in->pre = pre; in->d = d; in->c = c; };
    auto regBase = [&](auto* in) { fill(in); in->resetData(); in->a.setHasIntercept(c.intercept); in->resetBandwidth(); };
    switch (model) {
    case M_BASIC: { auto* in = new IBasic; r.reset(in); fill(in); in->setup(in->a, false); break; }
    case M_ROBUST: {
        auto* in = new IRobust; r.reset(in); regBase(in); auto& g = in->a;
        g.setHasHatMatrix(true); g.setFiltered(p.b(pre + "filtered", 0.5));
        g.setIsAutoselectBandwidth(c.autobw); g.setBandwidthSelectionCriterion(c.aic ? GWRBasic::AIC : GWRBasic::CV); g.setIsAutoselectIndepVars(c.autovar); g.setIndepVarSelectionThreshold(p.r(pre + "varthr", 0.1, 5.0));
        if (c.autobw && (c.upper > 0 || !p.b(pre + "nogold", 0.2))) { if (c.adaptive) { g.setGoldenLowerBounds(*(in->glo = std::min<double>(c.n / 2 + 2, 20))); g.setGoldenUpperBounds(*(in->gup = c.n)); } else { g.setGoldenLowerBounds(*(in->glo = c.bw * 0.6)); g.setGoldenUpperBounds(*(in->gup = c.upper > 0 ? c.upper : c.bw * 3)); } }
        break; }
    case M_MULTI: {
        auto* in = new IMulti; r.reset(in); fill(in); auto& g = in->a;
        in->resetData(); g.setHasIntercept(c.intercept);
        size_t nv = d.x.n_cols; auto dist = c.distance();
        vector<GWRMultiscale::BandwidthSelectionCriterionType> ap; vector<bool> cent; vector<double> thr;
        long im = p.i(pre + "minit", 0, 2);
        for (size_t j = 0; j < nv; j++) {
            Cfg cj = c; cj.bw = c.adaptive ? c.bw : c.bw * (1 + 0.1 * j);
            in->sws.push_back(cj.sw());
            in->inits.push_back(o.noAuto ? GWRMultiscale::Specified : (GWRMultiscale::BandwidthInitilizeType)(im == 2 ? p.i(pre + "minit" + std::to_string(j), 0, 2) : im));
            ap.push_back(p.b(pre + "map" + std::to_string(j), 0.5) ? GWRMultiscale::AIC : GWRMultiscale::CV);
            cent.push_back((j == 0 && c.intercept) || o.singular || o.hardSearch ? false : p.b(pre + "mcent" + std::to_string(j), 0.6));
            thr.push_back(p.pick(pre + "mthr", { 0, 1, 3 }) * 1e-5 + 1e-6);
        }
        g.setSpatialWeights(in->sws); g.setBandwidthInitilize(in->inits); g.setBandwidthSelectionApproach(ap); g.setPreditorCentered(cent); g.setBandwidthSelectThreshold(thr);
        g.setHasHatMatrix(c.hat); g.setMaxIteration(p.i(pre + "miter", 1, 3)); g.setBandwidthSelectRetryTimes(p.i(pre + "mretry", 1, 3));
        g.setCriterionType(p.b(pre + "mcvr", 0.5) ? GWRMultiscale::CVR : GWRMultiscale::dCVR); g.setCriterionThreshold(1e-6); g.setAdaptiveLower((int)std::min<long>(c.n / 2 + 2, 18));
        if (o.singular) { g.setGoldenLowerBounds(*(in->glo = c.bw * 0.6)); g.setGoldenUpperBounds(*(in->gup = c.bw)); }
        else if (o.hardSearch || p.b(pre + "mgold", 0.5)) { if (c.adaptive) { g.setGoldenLowerBounds(*(in->glo = c.n / 2 + 1)); g.setGoldenUpperBounds(*(in->gup = c.n)); } else { g.setGoldenLowerBounds(*(in->glo = c.bw * 0.6)); g.setGoldenUpperBounds(*(in->gup = c.upper > 0 ? c.upper : c.bw * 3)); } }
        break; }
    case M_POISSON: case M_BINOM: {
        auto* in = new IGen; r.reset(in); regBase(in); auto& g = in->a;
        g.setFamily(model == M_POISSON ? GWRGeneralized::Family::Poisson : GWRGeneralized::Family::Binomial);
        g.setHasHatMatrix(o.forceHat || p.b(pre + "ghat", 0.8)); g.setMaxiter(p.i(pre + "gmax", 3, 8)); g.setTol(1e-5);
        g.setIsAutoselectBandwidth(c.autobw && c.adaptive); g.setBandwidthSelectionCriterionType(c.aic ? GWRGeneralized::AIC : GWRGeneralized::CV);
        break; }
    case M_LCR: {
        auto* in = new ILcr; r.reset(in); regBase(in); auto& g = in->a;
        g.setHasHatMatrix(c.hat); g.setIsAutoselectBandwidth(c.autobw); g.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV);
        g.setLambdaAdjust(p.b(pre + "ladj", 0.5)); g.setCnThresh(p.r(pre + "cn", 3, 30)); g.setLambda(p.b(pre + "lam", 0.5) ? p.r(pre + "lamv", 0.01, 0.5) : 0);
        break; }
    case M_SCAL: {
        auto* in = new IScal; r.reset(in); fill(in); in->c.adaptive = true; in->c.kern = (int)p.pick(pre + "kernX", { 0, 1 }); in->c.bw = std::min<double>(c.n - 2, std::max<double>(12, c.adaptive ? c.bw : c.n / 2)); regBase(in); 
        in->c.adaptive = true; in->c.kern = (int)p.pick(pre + "kernX", { 0, 1 }); in->c.bw = std::min<double>(c.n - 2, std::max<double>(12, c.adaptive ? c.bw : c.n / 2)); in->resetBandwidth();
        in->a.setPolynomial(p.i(pre + "spoly", 1, 3)); in->a.setHasHatMatrix(true); in->a.setParameterOptimizeCriterion(c.aic ? GWRScalable::AIC : GWRScalable::CV);
        break; }
    case M_GTWR: {
        auto* in = new IGtwr; r.reset(in); in->lambda0 = p.r(pre + "lambda", 0.1, 0.9); in->angle0 = p.b(pre + "oblique", 0.3) ? p.r(pre + "angle", 0.6, 2.4) : datum::pi / 2;
        regBase(in); auto& g = in->a; g.setHasHatMatrix(true); g.setIsAutoselectBandwidth(c.autobw); g.setBandwidthSelectionCriterion(c.aic ? GTWR::AIC : GTWR::CV);
        g.setIsAutoselectLambda(!o.noAuto && p.b(pre + "autolambda", 0.15));
        break; }
    case M_GWDR: {
        auto* in = new IGwdr; r.reset(in); fill(in); auto& g = in->a; in->resetData(); g.setHasIntercept(c.intercept);
        for (int m = 0; m < 2; m++) {
            BandwidthWeight w = c.weight(); if (c.adaptive) w.setBandwidth(std::min<double>(c.n, c.bw + 4)); else w.setBandwidth(60 + 20 * m + 0.2 * c.bw); if (c.kern >= 2 && !c.adaptive && !o.singular) w.setBandwidth(90 + 10 * m);
            if (o.singular) w.setBandwidth(c.bw);
            Cnt<OneDimDistance> dd{OneDimDistance()}; in->sws.push_back(SpatialWeight(&w, &dd));
        }
        g.setSpatialWeights(in->sws); g.setHasHatMatrix(true);
        g.setEnableBandwidthOptimize(c.autobw); g.setBandwidthCriterionType(c.aic ? GWDR::AIC : GWDR::CV); double step = c.autobw ? p.pick(pre + "dwstep10", { 2, 10, 30 }) / 100.0 : 0.02;
        g.setBandwidthOptimizeStep(step); g.setBandwidthOptimizeEps(c.autobw ? step * p.pick(pre + "dweps10", { 2, 4, 6 }) / 10 : 0.01); g.setBandwidthOptimizeMaxIter(p.i(pre + "dwiter", 3, 60));
        g.setEnableIndepVarSelect(c.autovar); g.setIndepVarSelectThreshold(p.r(pre + "varthr", 0.1, 5.0));
        break; }
    case M_GWSSA: case M_GWSSC: {
        auto* in = new IGwss; r.reset(in); fill(in); auto& g = in->a; in->resetData(); in->resetBandwidth();
        g.setGWSSMode(model == M_GWSSA ? GWSS::GWSSMode::Average : GWSS::GWSSMode::Correlation); g.setQuantile(p.b(pre + "quant", 0.5)); g.setIsCorrWithFirstOnly(p.b(pre + "first", 0.4));
        break; }
    case M_GWPCA: { auto* in = new IGwpca; r.reset(in); fill(in); in->resetData(); in->resetBandwidth(); in->a.setKeepComponents((int)p.i(pre + "keep", 1, (long)d.x.n_cols)); break; }
    case M_GWDA: {
        auto* in = new IGwda; r.reset(in); fill(in); in->resetData(); in->resetBandwidth(); auto& g = in->a;
        g.setIsWqda(p.b(pre + "wqda", 0.5)); g.setHascov(p.b(pre + "hcov", 0.7)); g.setHasmean(p.b(pre + "hmean", 0.7)); g.setHasprior(p.b(pre + "hprior", 0.7));
        break; }
    }
    return r;
}

static string typeOf(const std::exception& e) { return typeid(e).name(); }
Out callGuarded(Inst& in, const std::function<void(Out&)>& f) {
    Out o;
    try { f(o); }
    catch (const std::exception& e) { sim::Rt g; o.threw = true; o.what = e.what(); o.type = typeOf(e); }
    catch (...) { sim::Rt g; o.threw = true; o.what = "non-standard exception"; o.type = "?"; }
    o.status = (int)in.alg()->status();
    return o;
}
Out runInst(Inst& in) { return callGuarded(in, [&](Out& o) { in.run(o); }); }
