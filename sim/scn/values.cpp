// C17: spatial weights and distances as values. Seeded histories over pools of weights, distances and
// spatial weights, with allocation failures and concurrent readers, checked against a plain model.
#include "scen.h"
#include "ref.h"
#include <cmath>
#include <cfloat>
#include <algorithm>
#include <memory>
#include <thread>
using namespace gwm; using namespace arma;
using std::string; using std::vector;

namespace {
string cmp(const char* what, const dv& e, const vec& g) {
    if (g.n_elem != e.size()) return string(what) + " has " + std::to_string(g.n_elem) + " entries instead of " + std::to_string(e.size());
    for (size_t i = 0; i < e.size(); i++) if (!(std::fabs(g(i) - e[i]) <= 1e-8 * (1 + std::fabs(e[i])))) { char b[160]; snprintf(b, sizeof b, "%s(%zu) is %.12g instead of %.12g", what, i, g(i), e[i]); return b; }
    return "";
}
const char* kindName[] = { "CRSDistance", "MinkwoskiDistance", "OneDimDistance", "CRSSTDistance" };
mat toMat(const vector<dv>& v) { mat m(v.size(), v.empty() ? 2 : v[0].size()); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) m(i, j) = v[i][j]; return m; }

string checkDist(Distance* d, const RD& r) {
    static const Distance::DistanceType ty[] = { Distance::CRSDistance, Distance::MinkwoskiDistance, Distance::OneDimDistance, Distance::CRSSTDistance };
    if (d->type() != ty[r.kind]) return "its type is wrong";
    if (r.kind < 2 && static_cast<CRSDistance*>(d)->geographic() != r.geo) return "geographic() is wrong";
    if (r.kind == 1) { auto* m = static_cast<MinkwoskiDistance*>(d); if (m->poly() != r.poly || m->theta() != r.theta) return "poly() or theta() is wrong"; }
    if (r.unknown || (r.kind == 3 && (!r.sp || !r.tp || r.sp->unknown || r.tp->unknown))) return "";
    if (r.kind == 3 && r.sp->par && r.tp->par && (r.sp->dp.size() != r.tp->dp.size() || r.sp->fp.size() != r.tp->fp.size())) return "";
    size_t nf = r.kind == 3 ? r.sp->fp.size() : r.fp.size(); bool can = r.kind == 3 ? r.sp->par && r.tp->par : r.par;
    double mx = 0, mn = DBL_MAX;
    for (size_t f = 0; f <= (can ? nf : 0); f++) {
        dv e; bool ok; { sim::Rt g; ok = refDist(r, f, e); } vec v; bool threw = false;
        try { v = d->distance(f); } catch (const std::exception&) { threw = true; }
        if (ok && threw) return "distance(" + std::to_string(f) + ") raises";
        if (!ok && !threw) return string("distance(") + std::to_string(f) + ") does not raise " + (can ? "beyond the last point" : "without points");
        if (!ok) continue;
        string s = cmp(("distance(" + std::to_string(f) + ")").c_str(), e, v); if (!s.empty()) return s;
        for (double q : e) mx = std::max(mx, q), mn = std::min(mn, q);
    }
    bool canM = r.par; double M = 0, m = 0; bool threw = false;
    try { M = d->maxDistance(); m = d->minDistance(); } catch (const std::exception&) { threw = true; }
    if (threw != !canM) return canM ? "maxDistance() or minDistance() raises" : "maxDistance() and minDistance() do not raise without points";
    if (canM) { dv e = { mx, mn }; string s = cmp("{maxDistance(), minDistance()}", e, vec({ M, m })); if (!s.empty()) return s; }
    return "";
}
string checkWeight(BandwidthWeight* w, const RW& r) { return w->bandwidth() == r.bw && w->adaptive() == r.adaptive && (int)w->kernel() == r.kernel ? "" : "its bandwidth, type or kernel is wrong"; }
bool usable(const RD& r) {
    if (r.unknown) return false; if (r.kind != 3) return r.par;
    return r.sp && r.tp && !r.sp->unknown && !r.tp->unknown && r.sp->par && r.tp->par && r.sp->dp.size() == r.tp->dp.size() && r.sp->fp.size() == r.tp->fp.size();
}
string checkWeights(const SpatialWeight& s, const RS& r) {
    if (!r.w || !r.d || !usable(r.rd)) return "";
    size_t nf = r.rd.kind == 3 ? r.rd.sp->fp.size() : r.rd.fp.size();
    for (size_t f = 0; f < nf; f++) {
        dv e; bool bad = false; { sim::Rt g; dv d; refDist(r.rd, f, d); e = refWeight(r.rw, d); for (double q : e) bad |= !std::isfinite(q); } if (bad) continue;
        vec v = s.weightVector(f);
        // a compact kernel is discontinuous or flat at the bandwidth: neighbours exactly there may be rounded either way
        for (size_t j = 0; j < e.size() && j < v.n_elem; j++) if (r.rw.kernel == 4 && r.rw.adaptive && e[j] != v(j)) { sim::Rt g; dv d; refDist(r.rd, f, d); RW w2 = r.rw; w2.bw *= 1 + 1e-12; dv e1 = refWeight(w2, d); w2.bw = r.rw.bw * (1 - 1e-12); dv e2 = refWeight(w2, d); if (e1[j] != e2[j]) e[j] = v(j); }
        string q = cmp(("weightVector(" + std::to_string(f) + ")").c_str(), e, v); if (!q.empty()) return q;
    }
    return "";
}
string checkSw(SpatialWeight* s, const RS& r) {
    if (s->isValid() != (r.w && r.d)) return "isValid() is wrong";
    if ((s->weight() != nullptr) != r.w || (s->distance() != nullptr) != r.d) return "weight() or distance() is wrong";
    string q; if (r.w) { q = checkWeight(s->weight<BandwidthWeight>(), r.rw); if (!q.empty()) return "weight: " + q; }
    if (r.d) { q = checkDist(s->distance(), r.rd); if (!q.empty()) return string(kindName[r.rd.kind]) + ": " + q; }
    return checkWeights(*s, r);
}
} // namespace

void valueScen(Ctx& x) {
    startSim(x, x.p.b("fine", 0.3));
    string why, hist; size_t faults = 0, raised = 0, conc = 0; long live0 = 0, live1 = 0;
    const int NW = 3, ND = 5, NS = 4; int ops = (int)x.p.i("ops", 4, 40); bool faulty = x.p.b("faulty", 0.6);
    auto body = [&] {
        BandwidthWeight* W[NW]; Distance* D[ND]; SpatialWeight* S[NS]; std::unique_ptr<RW[]> rW; std::unique_ptr<RD[]> rD; std::unique_ptr<RS[]> rS;
        sim::Rng g(0); { sim::Rt q; rW.reset(new RW[NW]); rD.reset(new RD[ND]); rS.reset(new RS[NS]); g = sim::Rng(x.p.seed * 31 + 7); }
        auto R = [&](int n) { return (int)g.below(n); };
        auto newW = [&](RW& r) { r.adaptive = g.chance(0.5); r.bw = r.adaptive ? 2.2 + g.u01() * 22 : 5 + g.u01() * 145; if (r.adaptive && g.chance(0.5)) r.bw = std::floor(r.bw) ; if (r.adaptive && r.bw < 2) r.bw = 2; r.kernel = R(5); return new BandwidthWeight(r.bw, r.adaptive, (BandwidthWeight::KernelFunctionType)r.kernel); };
        auto pts = [&](size_t n, int cols) { vector<dv> v; for (size_t i = 0; i < n; i++) { dv q; for (int c = 0; c < cols; c++) q.push_back(cols == 1 ? std::floor(40 * g.u01()) : -60 + 120 * g.u01()); v.push_back(q); } return v; };
        auto newD = [&](RD& r, int kind) -> Distance* {
            { sim::Rt q; r = RD(); } r.kind = kind;
            if (kind == 0) { r.geo = g.chance(0.3); return new CRSDistance(r.geo); }
            if (kind == 1) { static const double ps[] = { 1, -1, 2, 3, 1.5 }; r.poly = ps[R(5)]; r.theta = g.chance(0.5) ? 0 : 0.3 + g.u01(); auto* m = new MinkwoskiDistance(r.poly, r.theta); if (g.chance(0.15)) { r.geo = true; m->setGeographic(true); } return m; }
            return new OneDimDistance();
        };
        { sim::Rt q; live0 = (long)sim::allocLiveBlocks(); }
        for (int i = 0; i < NW; i++) W[i] = newW(rW[i]);
        for (int i = 0; i < ND; i++) D[i] = newD(rD[i], i < 3 ? i : R(3));
        for (int i = 0; i < NS; i++) S[i] = new SpatialWeight();
        sim::allocMinSize = 1;
        auto param = [&](Distance* d, RD& r, bool arm) {          // set points, sometimes malformed ones
            int how = g.chance(0.12) ? 1 + R(3) : 0; size_t nd = 6 + g.below(19), nf = r.kind == 3 ? nd : 1 + g.below(nd); mat fp, dp; vec tf, td; vector<dv> a, b, c, e; (void)arm;
            { sim::Rt q; a = pts(nf, r.kind == 2 ? 1 : 2); b = pts(nd, r.kind == 2 ? 1 : 2); if (r.kind != 2) for (size_t i = 0; i < nf; i++) if (g.chance(0.5)) a[i] = b[i % nd]; c = pts(nf, 1); e = pts(nd, 1); }
            // duplicates of one-dimensional points are fine for distances, but not for adaptive bandwidths: spread them
            { sim::Rt q; if (r.kind == 2) for (size_t i = 0; i < nd; i++) b[i][0] += 0.01 * i; fp = toMat(a); dp = toMat(b); tf = toMat(c).col(0); td = toMat(e).col(0); }
            RD old; { sim::Rt q; old = r; }
            bool threw = false; uint64_t f0 = sim::st.allocFails;
            try {
                struct Arm { bool on; Arm(bool o) : on(o) { if (on) sim::allocArm(true); } ~Arm() { if (on) sim::allocArm(false); } } A(arm);
                if (r.kind == 2) { if (how == 1) d->makeParameter({ vec(fp.col(0)) }); else if (how == 2) d->makeParameter({ fp, uword(3) }); else if (how == 3) d->makeParameter({}); else d->makeParameter({ vec(fp.col(0)), vec(dp.col(0)) }); }
                else if (r.kind == 3) { if (how == 1) d->makeParameter({ fp, dp }); else if (how == 2) d->makeParameter({ fp, dp, tf, vec(td.head(nd - 1)) }); else if (how == 3) d->makeParameter({ tf, td, fp, dp }); else d->makeParameter({ fp, dp, tf, td }); }
                else { if (how == 1) d->makeParameter({ fp }); else if (how == 2) d->makeParameter({ mat(nf, 3, fill::ones), dp }); else if (how == 3) d->makeParameter({ vec(nf, fill::ones), dp }); else d->makeParameter({ fp, dp }); }
            } catch (const std::exception& ex) { sim::allocArm(false); threw = true; }
            sim::Rt q; bool oom = sim::st.allocFails > f0;
            if (how && !threw) { why = string(kindName[r.kind]) + ": malformed points are accepted"; return; }
            if (!how && threw && !oom) { why = string(kindName[r.kind]) + ": makeParameter raises"; return; }
            if (!threw) { r.par = true; r.unknown = false; if (r.kind == 3) { r.sp->fp = a; r.sp->dp = b; r.sp->par = true; r.tp->fp = c; r.tp->dp = e; r.tp->par = true; r.sp->unknown = r.tp->unknown = false; } else { r.fp = a; r.dp = b; } return; }
            raised++;
            if (r.kind == 3) { r.unknown = true; return; }
            // refused: as before, or without points
            bool has = true; --sim::t_rt; try { vec v = d->distance(0); } catch (const std::exception&) { has = false; } ++sim::t_rt;
            if (has && !old.par) { why = string(kindName[r.kind]) + ": refused points leave it with points it did not have"; return; }
            r = old; if (!has) { r.par = false; r.fp.clear(); r.dp.clear(); }
        };
        for (int k = 0; k < ops && why.empty(); k++) {
            bool arm = faulty && g.chance(0.35); sim::allocReset(); sim::allocFailAt = arm ? 1 + g.below(g.chance(0.5) ? 4 : 14) : 0; sim::allocFailMode = g.chance(0.3);
            uint64_t f0 = sim::st.allocFails; int op = std::min(14, R(19)), i = R(NS), j = R(NS), w = R(NW), d = R(ND); const char* nm = ""; bool threw = false; string what;
            struct Arm { bool on; Arm(bool o) : on(o) { if (on) sim::allocArm(true); } ~Arm() { if (on) sim::allocArm(false); } };
            // model of the effect, applied when the call returns
            std::function<void()> eff; auto E = [&](std::function<void()> f) { sim::Rt q; eff = f; };
            try { switch (op) {
            case 0: nm = "weight setters"; { RW& r = rW[w]; BandwidthWeight* p = W[w]; if (g.chance(0.4) && rS[i].w) { p = S[i]->weight<BandwidthWeight>(); RW t; { BandwidthWeight* z = newW(t); delete z; } p->setBandwidth(t.bw); p->setAdaptive(t.adaptive); p->setKernel((BandwidthWeight::KernelFunctionType)t.kernel); rS[i].rw = t; } else { RW t; BandwidthWeight* z = newW(t); delete z; p->setBandwidth(t.bw); p->setAdaptive(t.adaptive); p->setKernel((BandwidthWeight::KernelFunctionType)t.kernel); r = t; } } break;
            case 1: nm = "weight copy"; { int v = R(NW), how = R(3); if (how == 0) { *W[w] = *W[v]; } else { BandwidthWeight* z; { Arm A(arm); z = how == 1 ? new BandwidthWeight(W[v]) : static_cast<BandwidthWeight*>(W[v]->clone()); } BandwidthWeight* old = W[w]; W[w] = z; if (v != w || true) delete old; } rW[w] = rW[v]; } break;
            case 2: nm = "new distance"; { RD t; Distance* z = newD(t, R(3)); delete D[d]; D[d] = z; sim::Rt q; rD[d] = t; } break;
            case 3: nm = "new space-time distance"; { int a = R(ND), b = R(ND); if (rD[a].kind > 1 || rD[b].kind != 2) { nm = ""; break; } RD t; t.kind = 3; t.lambda = R(4) == 0 ? 1 : g.u01(); t.oblique = g.chance(0.5); t.angle = 0.1 + 1.2 * g.u01(); Distance* z; { Arm A(arm); if (t.oblique) z = new CRSSTDistance(D[a], static_cast<OneDimDistance*>(D[b]), t.lambda, t.angle); else z = new CRSSTDistance(D[a], static_cast<OneDimDistance*>(D[b]), t.lambda); } delete D[d]; sim::Rt q; t.sp = std::make_shared<RD>(rD[a]); t.tp = std::make_shared<RD>(rD[b]); D[d] = z; rD[d] = t; } break;
            case 4: nm = "distance clone"; { int v = R(ND); Distance* z; { Arm A(arm); z = D[v]->clone(); } delete D[d]; D[d] = z; sim::Rt q; RD t = rD[v]; rD[d] = t; if (v == d) { sim::Rt q_; x.probe["self-clone"]++; }; } break;
            case 5: case 6: nm = "distance points"; if (g.chance(0.4) && rS[i].d) param(S[i]->distance(), rS[i].rd, arm); else param(D[d], rD[d], arm); break;
            case 7: nm = "distance setters"; { Distance* p = D[d]; RD* r = &rD[d]; if (g.chance(0.4) && rS[i].d) { p = S[i]->distance(); r = &rS[i].rd; }
                if (r->kind == 0) { r->geo = g.chance(0.5); static_cast<gwm::CRSDistance*>(p)->setGeographic(r->geo); }
                else if (r->kind == 1) { r->poly = R(2) ? 1 : 2.5; r->theta = g.u01(); static_cast<gwm::MinkwoskiDistance*>(p)->setPoly(r->poly); static_cast<gwm::MinkwoskiDistance*>(p)->setTheta(r->theta); }
                else if (r->kind == 3) { double l = g.u01() * 1.4 - 0.2; bool t = false; try { static_cast<CRSSTDistance*>(p)->setLambda(l); } catch (const std::exception&) { t = true; } if (t != (l < 0 || l > 1)) { sim::Rt q; why = "CRSSTDistance::setLambda accepts or refuses the wrong values"; } if (!t) r->lambda = l; } } break;
            case 8: nm = "new spatial weight"; { SpatialWeight* z; { Arm A(arm); z = R(2) ? new SpatialWeight(W[w], D[d]) : new SpatialWeight(*W[w], *D[d]); } delete S[i]; S[i] = z; sim::Rt q; rS[i].w = rS[i].d = true; rS[i].rw = rW[w]; rS[i].rd = rD[d]; } break;
            case 9: nm = "copy assignment"; { if (i == j) { sim::Rt q_; x.probe["self-assignment"]++; }; { Arm A(arm); *S[i] = *S[j]; } if (i != j) { sim::Rt q; RS t = rS[j]; rS[i] = t; } } break;
            case 10: nm = "copy construction"; { SpatialWeight* z; { Arm A(arm); z = new SpatialWeight(*S[j]); } delete S[i]; S[i] = z; if (i != j) { sim::Rt q; RS t = rS[j]; rS[i] = t; } } break;
            case 11: nm = "move"; { if (g.chance(0.5)) { { Arm A(arm); *S[i] = std::move(*S[j]); } if (i != j) { sim::Rt q; rS[i] = rS[j]; rS[j] = RS(); } } else { SpatialWeight* z; { Arm A(arm); z = new SpatialWeight(std::move(*S[j])); } if (i == j) { delete S[i]; S[i] = z; } else { delete S[i]; S[i] = z; sim::Rt q; rS[i] = rS[j]; rS[j] = RS(); } } } break;
            case 12: nm = "setWeight"; { int how = R(5); RW t = rW[w]; if (how >= 3 && rS[j].w) { t = rS[j].rw; if (i == j) { sim::Rt q_; x.probe["own-part-set"]++; }; } { Arm A(arm); if (how == 0) S[i]->setWeight(W[w]); else if (how == 1) S[i]->setWeight(*W[w]); else if (how == 2) S[i]->setWeight(BandwidthWeight(*W[w])); else if (rS[j].w) { if (how == 3) S[i]->setWeight(S[j]->weight()); else S[i]->setWeight(*S[j]->weight()); } else S[i]->setWeight(W[w]); } rS[i].w = true; rS[i].rw = t; } break;
            case 13: nm = "setDistance"; { int how = R(4); bool al = how >= 2 && rS[j].d; if (al && i == j) { sim::Rt q_; x.probe["own-part-set"]++; }; { Arm A(arm); if (al) { if (how == 2) S[i]->setDistance(S[j]->distance()); else S[i]->setDistance(*S[j]->distance()); } else if (how & 1) S[i]->setDistance(*D[d]); else S[i]->setDistance(D[d]); } sim::Rt q; RD t = al ? rS[j].rd : rD[d]; rS[i].d = true; rS[i].rd = t; } break;
            case 14: if (!(rS[i].w && rS[i].d && usable(rS[i].rd)) && g.chance(0.8)) i = [&] { for (int q = 0; q < NS; q++) if (rS[q].w && rS[q].d && usable(rS[q].rd)) return q; return i; }(); if (g.chance(0.3)) { nm = "container"; Arm A(arm); std::vector<SpatialWeight> v; for (int q = 0; q < 3; q++) v.push_back(*S[j]); v.erase(v.begin()); v.emplace_back(*S[j]); v.insert(v.begin() + 1, *S[j]); *S[i] = v[R(2)]; if (i != j) { sim::Rt q; RS t = rS[j]; rS[i] = t; } }
                else if (rS[i].w && rS[i].d && usable(rS[i].rd)) {
                    nm = "concurrent readers and copiers"; conc++; int T = 2 + R(3); vector<std::thread> th; vector<string> err; vector<RS> loc; vector<int> mode; { sim::Rt q; err.resize(T); loc.assign(T, rS[i]); mode.resize(T); for (int t = 0; t < T; t++) { mode[t] = R(3); loc[t].rw.kernel = mode[t] == 2 ? R(5) : loc[t].rw.kernel; if (mode[t] == 2 && !loc[t].rw.adaptive) loc[t].rw.bw = 5 + 100 * g.u01(); } th.reserve(T); }
                    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
                        string e;
                        if (mode[t] == 0) e = checkWeights(*S[i], loc[t]);
                        else { SpatialWeight c(*S[i]); if (mode[t] == 2) { c.weight<BandwidthWeight>()->setBandwidth(loc[t].rw.bw); c.weight<BandwidthWeight>()->setKernel((BandwidthWeight::KernelFunctionType)loc[t].rw.kernel); } SpatialWeight e2(std::move(c)); e = checkSw(&e2, loc[t]); }
                        sim::Rt q; err[t] = e;
                    });
                    for (auto& t : th) t.join();
                    sim::Rt q; for (auto& e : err) if (!e.empty()) why = "used by several threads: " + e;
                } break;
            } } catch (const std::bad_alloc&) { sim::allocArm(false); threw = true; }
            catch (const std::exception& ex) { sim::allocArm(false); sim::Rt q; threw = true; what = ex.what(); }
            sim::allocFailAt = 0; bool fired = sim::st.allocFails > f0; faults += fired;
            { sim::Rt q; if (*nm) hist += (hist.empty() ? "" : ", ") + string(nm) + (fired ? threw ? " (out of memory)" : " (survived)" : ""); }
            if (threw && !fired && why.empty()) { sim::Rt q; why = string(nm) + " raises '" + what + "'"; }
            if (threw) raised++;
            // everything else must be as the model says, after every step
            for (int a = 0; a < NW && why.empty(); a++) { string s = checkWeight(W[a], rW[a]); if (!s.empty()) { sim::Rt q; why = string("after ") + nm + ": BandwidthWeight: " + s; } }
            bool full = k == ops - 1;
            for (int a = 0; a < ND && why.empty(); a++) if (full || a == d || g.chance(0.2)) { string s = checkDist(D[a], rD[a]); if (!s.empty()) { sim::Rt q; why = string("after ") + nm + ": " + kindName[rD[a].kind] + ": " + s; } }
            for (int a = 0; a < NS && why.empty(); a++) if (full || a == i || a == j || g.chance(0.2)) { string s = checkSw(S[a], rS[a]); if (!s.empty()) { sim::Rt q; why = string("after ") + nm + ": SpatialWeight: " + s; } }
            { sim::Rt q; eff = nullptr; }
        }
        for (int i = 0; i < NS; i++) delete S[i];
        for (int i = 0; i < ND; i++) delete D[i];
        for (int i = 0; i < NW; i++) delete W[i];
        { sim::Rt q; live1 = (long)sim::allocLiveBlocks(); rW.reset(); rD.reset(); rS.reset(); }
    };
    if (simOne(x, body) != sim::OK) return;
    sim::event("values", faults, raised, conc);
    if (faults) x.fault["allocation-failed"] += faults; if (conc) x.probe["concurrent"] += conc; if (raised) x.probe["operation-refused"] += raised;
    if (!why.empty()) { x.bad("value-semantics", why + "; history: " + hist); return; }
    if (live1 > live0) x.bad("leak", std::to_string(live1 - live0) + " blocks not given back; history: " + hist);
}
