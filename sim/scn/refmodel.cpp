// C09: refinement of a small executable reference model. The reference is written from the definitions
// of the methods in plain loops (own solver, own distances and kernels); the library computes the same
// quantities under simulated threads, processes and message orders.
#include "scen.h"
#include "ref.h"
#include <cfloat>
using namespace gwm; using namespace arma;
using std::string; using std::vector;

namespace {
typedef vector<dv> dm;
double worst = 1;            // largest condition number met: beyond 1e10 two correct solvers may disagree
double norm1(const dm& a) { double r = 0; for (size_t c = 0; c < a.size(); c++) { double s = 0; for (auto& w : a) s += std::fabs(w[c]); r = std::max(r, s); } return r; }
// inverse of a symmetric positive definite matrix by Gauss-Jordan with pivoting; false: singular
bool inverse(dm a, dm& inv) {
    size_t n = a.size(); double na = norm1(a); inv.assign(n, dv(n, 0)); for (size_t i = 0; i < n; i++) inv[i][i] = 1;
    for (size_t c = 0; c < n; c++) {
        size_t p = c; for (size_t r = c + 1; r < n; r++) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
        if (a[p][c] == 0 || !std::isfinite(a[p][c])) return false;
        std::swap(a[p], a[c]); std::swap(inv[p], inv[c]); double q = a[c][c];
        for (size_t k = 0; k < n; k++) a[c][k] /= q, inv[c][k] /= q;
        for (size_t r = 0; r < n; r++) if (r != c) { double f = a[r][c]; for (size_t k = 0; k < n; k++) a[r][k] -= f * a[c][k], inv[r][k] -= f * inv[c][k]; }
    }
    worst = std::max(worst, na * norm1(inv)); return true;
}
// eigenvalues (descending) and eigenvectors of a symmetric matrix, Jacobi
void eigen(dm a, dv& val, dm& vec) {
    size_t n = a.size(); vec.assign(n, dv(n, 0)); for (size_t i = 0; i < n; i++) vec[i][i] = 1;
    for (int s = 0; s < 100; s++) {
        double off = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) off += a[i][j] * a[i][j];
        if (off < 1e-300) break;
        for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) {
            if (a[p][q] == 0) continue; double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
            for (size_t k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; }
            for (size_t k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; }
            for (size_t k = 0; k < n; k++) { double x = vec[k][p], y = vec[k][q]; vec[k][p] = c * x - sn * y; vec[k][q] = sn * x + c * y; }
        }
    }
    vector<size_t> o(n); for (size_t i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return a[x][x] > a[y][y]; });
    dm v2(n, dv(n)); val.resize(n); for (size_t j = 0; j < n; j++) { val[j] = a[o[j]][o[j]]; for (size_t k = 0; k < n; k++) v2[k][j] = vec[k][o[j]]; } vec = v2;
}
vector<dv> rows(const mat& m) { vector<dv> r(m.n_rows, dv(m.n_cols)); for (uword i = 0; i < m.n_rows; i++) for (uword j = 0; j < m.n_cols; j++) r[i][j] = m(i, j); return r; }
// weights of one focus point
struct Weights {
    int model; Spec s; vector<double> bw; const Data& d;
    Weights(int m, const Spec& sp, const vector<double>& b, const Data& da) : model(m), s(sp), bw(b), d(da) {}
    static RD points(int kind, const vector<dv>& f, const vector<dv>& p) { RD r; r.kind = kind; r.par = true; r.fp = f; r.dp = p; return r; }
    dv at(const mat& focus, uword i, bool self) {
        vector<dv> f = { rows(focus.row(i))[0] }, p = rows(d.coords); RW w; w.adaptive = s.adaptive; w.kernel = s.kern; w.bw = bw.empty() ? 1 : bw[0]; dv dist, out;
        if (model == M_GWDR) {
            out.assign(p.size(), 1);
            for (int m = 0; m < 2; m++) { vector<dv> a = { { f[0][m] } }, b; for (auto& q : p) b.push_back({ q[m] }); w.bw = bw[m]; refDist(points(2, a, b), 0, dist); dv o = refWeight(w, dist); for (size_t j = 0; j < out.size(); j++) out[j] *= o[j]; }
            return out;
        }
        if (model == M_GTWR) {
            RD r; r.kind = 3; r.lambda = s.lambda; r.angle = std::atan(std::tan(s.angle)); r.oblique = std::fabs(r.angle - std::acos(0.0)) >= 1e-15; r.sp = std::make_shared<RD>(points(0, f, p));
            vector<dv> t; for (auto v : d.times) t.push_back({ v }); r.tp = std::make_shared<RD>(points(2, { { d.times(i) } }, t)); refDist(r, 0, dist); return refWeight(w, dist);
        }
        RD r = points(s.dist == 2 ? 1 : 0, f, p); r.geo = s.dist == 1; r.poly = s.poly; r.theta = s.theta; refDist(r, 0, dist); (void)self; return refWeight(w, dist);
    }
};
struct Fit { bool ok = true; mat betas, se, C; vec qdiag; mat S; double tr = 0, tr2 = 0, rss = 0; };
// geographically weighted least squares
Fit gwls(Weights& W, const mat& x, const vec& y, const mat& focus, bool samples, bool loo, const dv& mask = dv()) {
    Fit r; uword n = x.n_rows, k = x.n_cols, m = focus.n_rows; r.betas.set_size(m, k); r.se.zeros(m, k); r.S.zeros(m, n); r.qdiag.zeros(n); r.C.zeros(k, n * m);
    for (uword i = 0; i < m; i++) {
        dv w = W.at(focus, i, samples); if (loo) w[i] = 0; for (size_t t = 0; t < mask.size(); t++) w[t] *= mask[t];
        dm a(k, dv(k, 0)), inv; dv b(k, 0);
        for (uword t = 0; t < n; t++) for (uword p = 0; p < k; p++) { b[p] += w[t] * x(t, p) * y(t); for (uword q = 0; q < k; q++) a[p][q] += w[t] * x(t, p) * x(t, q); }
        if (!inverse(a, inv)) { r.ok = false; return r; }
        for (uword p = 0; p < k; p++) { double s = 0; for (uword q = 0; q < k; q++) s += inv[p][q] * b[q]; r.betas(i, p) = s; }
        if (!samples) continue;
        for (uword t = 0; t < n; t++) { double si = 0; for (uword p = 0; p < k; p++) { double c = 0; for (uword q = 0; q < k; q++) c += inv[p][q] * x(t, q); c *= w[t]; r.C(p, i * n + t) = c; r.se(i, p) += c * c; si += x(i, p) * c; } r.S(i, t) = si; r.tr2 += si * si; r.qdiag(t) += ((t == i) - si) * ((t == i) - si); }
        r.tr += r.S(i, i);
        double e = y(i); for (uword p = 0; p < k; p++) e -= x(i, p) * r.betas(i, p); r.rss += e * e;
    }
    return r;
}
double aicc(double n, const Fit& f) { return n * std::log(f.rss / n) + n * std::log(2 * std::acos(-1.0)) + n * (n + f.tr) / (n - 2 - f.tr); }
rowvec diagnostics(const vec& y, const Fit& f) {
    double n = y.n_elem, m = 0, t = 0; for (double v : y) m += v / n; for (double v : y) t += (v - m) * (v - m);
    double edf = n - 2 * f.tr + f.tr2, r2 = 1 - f.rss / t;
    return rowvec({ f.rss, n * std::log(f.rss / n) + n * std::log(2 * std::acos(-1.0)) + n + f.tr, aicc(n, f), 2 * f.tr - f.tr2, edf, r2, 1 - (1 - r2) * (n - 1) / (edf - 1) });
}
void addFit(Out& o, const vec& y, const Fit& f) {
    o.add("returned", f.betas); o.add("betas", f.betas); double n = y.n_elem; mat se = f.se; double s2 = f.rss / (n - 2 * f.tr + f.tr2); for (auto& v : se) v = std::sqrt(s2 * v);
    o.add("diagnostic", diagnostics(y, f)); o.add("betasSE", se); o.add("shat", mat(vec({ f.tr, f.tr2 }))); o.add("qdiag", f.qdiag); o.add("S", f.S); o.add("C", mat(vectorise(f.C)));
}
Out refRegression(int model, Inst& in, const vector<double>& bw, bool predict) {
    Out o; Weights W(model, in.spec(), bw, in.d); const Data& d = in.d;
    Fit f = gwls(W, d.x, d.y, d.coords, true, false); if (!f.ok) { o.threw = true; return o; }
    addFit(o, d.y, f);
    if (predict) { Fit g = gwls(W, d.x, d.y, d.loc, false, false); if (!g.ok) o.threw = true; o.add("prediction", g.betas); }
    return o;
}
dv residuals(const Data& d, const mat& betas) { dv e; for (uword i = 0; i < d.y.n_elem; i++) { double r = d.y(i); for (uword p = 0; p < d.x.n_cols; p++) r -= d.x(i, p) * betas(i, p); e.push_back(r); } return e; }
// robust GWR: samples with large residuals are dropped once (filtered) or downweighted until the mean squared error settles
Out refRobust(Inst& in, const vector<double>& bw, bool filtered, bool predict) {
    Out o; Weights W(M_ROBUST, in.spec(), bw, in.d); const Data& d = in.d; double n = d.y.n_elem; dv mask;
    Fit f = gwls(W, d.x, d.y, d.coords, true, false); if (!f.ok) { o.threw = true; return o; }
    auto tukey = [&] { dv e = residuals(d, f.betas), m; double mse = f.rss / n; for (double r : e) { double a = std::fabs(r) / std::sqrt(mse); m.push_back(a <= 2 ? 1 : a < 3 ? std::pow(1 - (a - 2) * (a - 2), 2) : 0); } return m; };
    if (filtered) {
        dv e = residuals(d, f.betas); double s2 = f.rss / (n - 2 * f.tr + f.tr2); for (size_t i = 0; i < e.size(); i++) mask.push_back(std::fabs(e[i] / std::sqrt(s2 * f.qdiag(i))) > 3 ? 0 : 1);
        f = gwls(W, d.x, d.y, d.coords, true, false, mask);
    } else {
        mask = tukey(); double change = 1;
        for (int it = 0; it < 20 && change > 1e-5 && f.ok; it++) { double old = f.rss / n; f = gwls(W, d.x, d.y, d.coords, true, false, mask); mask = tukey(); change = std::fabs(old - f.rss / n) / (f.rss / n); }
    }
    if (!f.ok) { o.threw = true; return o; } addFit(o, d.y, f);
    if (predict) { Fit g = gwls(W, d.x, d.y, d.loc, false, false); if (!g.ok) o.threw = true; o.add("prediction", g.betas); }     // with all samples
    return o;
}
// generalized GWR: iteratively reweighted local least squares until the log-likelihood settles
Out refGeneralized(Inst& in, const vector<double>& bw, bool poisson, int limit, bool predict) {
    Out o; Weights W(M_BASIC, in.spec(), bw, in.d); const Data& d = in.d; uword n = d.y.n_elem; dv mu(n), eta(n), w2(n, 1); vec z(n); double ll = 0; Fit f; bool conv = false; double ybar = 0; for (double v : d.y) ybar += v / n;
    for (uword i = 0; i < n; i++) { mu[i] = poisson ? d.y(i) + 0.1 : 0.5; eta[i] = poisson ? std::log(mu[i]) : 0; }
    for (int it = 0; it < limit && !conv; it++) {
        for (uword i = 0; i < n; i++) z(i) = eta[i] + (d.y(i) - mu[i]) / (poisson ? mu[i] : mu[i] * (1 - mu[i]));
        f = gwls(W, d.x, z, d.coords, true, false, w2); if (!f.ok) { o.threw = true; return o; }
        double l = 0; for (uword i = 0; i < n; i++) { eta[i] = 0; for (uword p = 0; p < d.x.n_cols; p++) eta[i] += d.x(i, p) * f.betas(i, p); mu[i] = poisson ? std::exp(eta[i]) : 1 / (1 + std::exp(-eta[i])); l += poisson ? d.y(i) * eta[i] - mu[i] - std::lgamma(d.y(i) + 1) : d.y(i) * std::log(mu[i]) + (1 - d.y(i)) * std::log(1 - mu[i]); }
        conv = std::fabs((ll - l) / l) < 1e-5; ll = l; if (!conv) for (uword i = 0; i < n; i++) w2[i] = poisson ? mu[i] : mu[i] * (1 - mu[i]);
    }
    if (!conv) { o.threw = true; return o; }                // the last step of an unfinished iteration is not specified
    double dev = 0, null = 0; for (uword i = 0; i < n; i++) {
        double y = d.y(i); if (poisson) { dev += 2 * ((y > 0 ? y * std::log(y / mu[i]) : 0) - y + mu[i]); null += 2 * ((y > 0 ? y * std::log(y / ybar) : 0) - y + ybar); }
        else { dev += -2 * std::log(y > 0.5 ? mu[i] : 1 - mu[i]); null += -2 * std::log(y > 0.5 ? ybar : 1 - ybar); }
    }
    double aic = dev + 2 * f.tr; o.add("returned", f.betas); o.add("betas", f.betas); if (dynamic_cast<GWRGeneralized&>(*in.alg()).hasHatMatrix()) o.add("diagnostic", rowvec({ dev, aic, aic + 2 * f.tr * (f.tr + 1) / (n - f.tr - 1), 1 - dev / null }));
    if (predict) { Fit g = gwls(W, d.x, z, d.loc, false, false, w2); if (!g.ok) o.threw = true; o.add("prediction", g.betas); }     // the working responses of the samples
    return o;
}
// multiscale GWR with given bandwidths: backfitting from a basic GWR (checked against its own reference), and its hat matrix
Out refMulti(Inst& in, const vector<double>& bw) {
    auto& a = dynamic_cast<GWRMultiscale&>(*in.alg()); const Data& d = in.d; uword n = d.y.n_elem, k = d.x.n_cols; Out o; mat x = d.x;
    for (uword j = in.spec().intercept ? 1 : 0; j < k; j++) if (a.preditorCentered()[j]) { double m = 0; for (uword i = 0; i < n; i++) m += x(i, j) / n; for (uword i = 0; i < n; i++) x(i, j) -= m; }
    GWRBasic g; g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(x); g.setSpatialWeight(a.spatialWeights()[0]); g.setIsAutoselectBandwidth(true);
    g.setBandwidthSelectionCriterion(a.bandwidthSelectionApproach()[0] == GWRMultiscale::CV ? GWRBasic::CV : GWRBasic::AIC); if (in.glo) g.setGoldenLowerBounds(*in.glo); if (in.gup) g.setGoldenUpperBounds(*in.gup);
    g.fit(); Weights W0(M_BASIC, in.spec(), { g.spatialWeight().weight<BandwidthWeight>()->bandwidth() }, d); Fit f0 = gwls(W0, x, d.y, d.coords, true, false); if (!f0.ok) { o.threw = true; return o; }
    mat b = f0.betas; vector<mat> S(k, mat(n, n)), R(k, mat(n, n)); mat S0 = f0.S; bool hat = a.hasHatMatrix();
    for (uword j = 0; j < k; j++) {
        for (uword i = 0; i < n; i++) for (uword t = 0; t < n; t++) S[j](i, t) = x(i, j) * f0.C(j, i * n + t);
        Weights W(M_BASIC, in.spec(), { bw[j] }, d); for (uword i = 0; i < n; i++) { dv w = W.at(d.coords, i, true); double q = 0; for (uword t = 0; t < n; t++) q += w[t] * x(t, j) * x(t, j); if (!(q > 1e-10)) { o.threw = true; return o; } for (uword t = 0; t < n; t++) R[j](i, t) = w[t] * x(t, j) / q; }      // R y: the local coefficient
    }
    auto rss = [&] { double r = 0; for (uword i = 0; i < n; i++) { double e = d.y(i); for (uword j = 0; j < k; j++) e -= x(i, j) * b(i, j); r += e * e; } return r; };
    double r0 = rss(), c = DBL_MAX; size_t it = 0;
    while (it++ < a.maxIteration() && c > a.criterionThreshold()) {
        for (uword j = 0; j < k; j++) {
            dv z(n); for (uword i = 0; i < n; i++) { z[i] = d.y(i); for (uword q = 0; q < k; q++) if (q != j) z[i] -= x(i, q) * b(i, q); }
            for (uword i = 0; i < n; i++) { double v = 0; for (uword t = 0; t < n; t++) v += R[j](i, t) * z[t]; b(i, j) = v; }
            if (!hat) continue;
            mat rest = S[j]; rest -= S0; mat I(n, n); for (uword i = 0; i < n; i++) for (uword u = 0; u < n; u++) { double v = R[j](i, u); for (uword t = 0; t < n; t++) v += R[j](i, t) * rest(t, u); I(i, u) = x(i, j) * v; }
            S[j] = I; S0 = I; S0 -= rest;
        }
        double r1 = rss(); c = a.criterionType() == GWRMultiscale::CVR ? std::fabs(r1 - r0) : std::sqrt(std::fabs(r1 - r0) / r1); r0 = r1;
    }
    Fit f; f.rss = r0; if (hat) for (uword i = 0; i < n; i++) { f.tr += S0(i, i); for (uword t = 0; t < n; t++) f.tr2 += S0(i, t) * S0(i, t); }
    o.add("returned", b); o.add("betas", b); if (hat) o.add("diagnostic", diagnostics(d.y, f)); return o;
}
Out refSummary(int model, Inst& in, const vector<double>& bw, bool first) {
    Out o; Weights W(model, in.spec(), bw, in.d); const mat& x = in.d.x; uword n = x.n_rows, k = x.n_cols;
    mat mean(n, k), var(n, k), sd(n, k), sk(n, k), cv(n, k), med(n, k), iqr(n, k), qi(n, k), rk(n, k); uword nc = first ? k - 1 : k * (k - 1) / 2; mat cov(n, nc), cor(n, nc), sc(n, nc);
    for (uword j = 0; j < k; j++) for (uword i = 0; i < n; i++) { double r = 1; for (uword t = 0; t < n; t++) r += x(t, j) < x(i, j); rk(i, j) = r; }
    for (uword i = 0; i < n; i++) {
        dv w = W.at(in.d.coords, i, true); double sw = 0, sw2 = 0; for (double v : w) sw += v; for (double& v : w) { v /= sw; sw2 += v * v; }
        auto moment = [&](const mat& z, uword a, uword b) { double ma = 0, mb = 0, c = 0; for (uword t = 0; t < n; t++) ma += w[t] * z(t, a), mb += w[t] * z(t, b); for (uword t = 0; t < n; t++) c += w[t] * (z(t, a) - ma) * (z(t, b) - mb); return c; };
        for (uword j = 0; j < k; j++) {
            double m = 0, v = 0, s3 = 0; for (uword t = 0; t < n; t++) m += w[t] * x(t, j); for (uword t = 0; t < n; t++) { double e = x(t, j) - m; v += w[t] * e * e; s3 += w[t] * e * e * e; }
            mean(i, j) = m; var(i, j) = v; sd(i, j) = std::sqrt(v); sk(i, j) = s3 / (v * std::sqrt(v)); cv(i, j) = std::sqrt(v) / m;
            vector<uword> ord(n); for (uword t = 0; t < n; t++) ord[t] = t; std::sort(ord.begin(), ord.end(), [&](uword a, uword b) { return x(a, j) < x(b, j); });
            double q[3]; for (int h = 0; h < 3; h++) { double c = 0; uword at = n - 1; for (uword t = 0; t < n; t++) { c += w[ord[t]]; if (c > 0.25 * (h + 1)) { at = t ? t - 1 : 0; break; } } q[h] = x(ord[at], j); }
            med(i, j) = q[1]; iqr(i, j) = q[2] - q[0]; qi(i, j) = (2 * q[1] - q[2] - q[0]) / (q[2] - q[0]);
        }
        uword c = 0; for (uword a = 0; a < (first ? 1 : k - 1); a++) for (uword b = a + 1; b < k; b++, c++) {
            cov(i, c) = moment(x, a, b) / (1 - sw2); cor(i, c) = moment(x, a, b) / std::sqrt(moment(x, a, a) * moment(x, b, b)); sc(i, c) = moment(rk, a, b) / std::sqrt(moment(rk, a, a) * moment(rk, b, b));
        }
    }
    o.add("mean", mean); o.add("var", var);
    if (model == M_GWSSA) { o.add("sdev", sd); o.add("skew", sk); o.add("cv", cv); o.add("median", med); o.add("iqr", iqr); o.add("qi", qi); }
    else { o.add("cov", cov); o.add("corr", cor); o.add("scorr", sc); }
    return o;
}
Out refPca(Inst& in, const vector<double>& bw, uword keep, const Out& got) {
    Out o; Weights W(M_GWPCA, in.spec(), bw, in.d); const mat& x = in.d.x; uword n = x.n_rows, k = x.n_cols; mat pv(n, keep), load(n, k * keep); bool tie = false;
    const mat* gl = nullptr; for (auto& e : got.v) if (e.first == "loadings") gl = &e.second;
    for (uword i = 0; i < n; i++) {
        dv w = W.at(in.d.coords, i, true); double sw = 0; for (double v : w) sw += v; dv m(k, 0); for (uword t = 0; t < n; t++) for (uword j = 0; j < k; j++) m[j] += w[t] * x(t, j) / sw;
        dm a(k, dv(k, 0)), V; dv val; for (uword t = 0; t < n; t++) for (uword p = 0; p < k; p++) for (uword q = 0; q < k; q++) a[p][q] += w[t] * (x(t, p) - m[p]) * (x(t, q) - m[q]);
        eigen(a, val, V); double tot = 0; for (double v : val) tot += v;
        for (uword c = 0; c < keep; c++) {
            pv(i, c) = 100 * val[c] / tot; double dot = 0; if ((c && val[c - 1] - val[c] < 1e-3 * tot) || (c + 1 < k && val[c] - val[c + 1] < 1e-3 * tot)) tie = true;
            if (gl && gl->n_rows * gl->n_cols == load.n_elem) for (uword j = 0; j < k; j++) dot += V[j][c] * (*gl)(i + n * (c * k + j));
            for (uword j = 0; j < k; j++) load(i, c * k + j) = (dot < 0 ? -1 : 1) * V[j][c];
        }
    }
    o.add("pv", pv); if (!tie) o.add("loadings", mat(vectorise(load))); return o;
}
// ridge-adjusted local models of local-collinearity GWR
bool lcrAt(Inst& in, dv w, double lambda0, bool adjust, double thresh, dv& beta) {
    const mat& x = in.d.x; const vec& y = in.d.y; uword n = x.n_rows, k = x.n_cols; dv sd(k, 1), nrm(k, 0); beta.assign(k, 0);
    for (uword j = 1; j < k; j++) { double m = 0, s = 0; for (uword t = 0; t < n; t++) m += x(t, j) / n; for (uword t = 0; t < n; t++) s += (x(t, j) - m) * (x(t, j) - m); sd[j] = std::sqrt(s / (n - 1)); }
    for (uword t = 0; t < n; t++) for (uword j = 0; j < k; j++) nrm[j] += w[t] * x(t, j) * w[t] * x(t, j);
    dm g(k, dv(k, 0)), V, inv; dv val; for (uword t = 0; t < n; t++) for (uword p = 0; p < k; p++) for (uword q = 0; q < k; q++) g[p][q] += w[t] * x(t, p) * w[t] * x(t, q) / std::sqrt(nrm[p] * nrm[q]);
    eigen(g, val, V); double s0 = std::sqrt(val[0]), s1 = std::sqrt(std::max(0.0, val[k - 1])), lam = adjust && s0 / s1 > thresh ? (s0 - thresh * s1) / (thresh - 1) : lambda0;
    dm a(k, dv(k, 0)); dv b(k, 0); for (uword t = 0; t < n; t++) for (uword p = 0; p < k; p++) { b[p] += w[t] * x(t, p) / sd[p] * y(t); for (uword q = 0; q < k; q++) a[p][q] += w[t] * x(t, p) * x(t, q) / (sd[p] * sd[q]); }
    for (uword p = 0; p < k; p++) a[p][p] += lam; if (!inverse(a, inv)) return false;
    for (uword p = 0; p < k; p++) { double s = 0; for (uword q = 0; q < k; q++) s += inv[p][q] * b[q]; beta[p] = s / sd[p]; }
    return true;
}
Out refLcr(Inst& in, const vector<double>& bw, double lambda0, bool adjust, double thresh, bool predict) {
    Out o; Weights W(M_LCR, in.spec(), bw, in.d); const mat& x = in.d.x; const vec& y = in.d.y; uword n = x.n_rows, k = x.n_cols; mat B(n, k); double rss = 0, tr = 0, tr2 = 0, my = 0, tot = 0; dv b;
    for (double v : y) my += v / n; for (double v : y) tot += (v - my) * (v - my);
    for (uword i = 0; i < n; i++) {
        dv w = W.at(in.d.coords, i, true); if (!lcrAt(in, w, lambda0, adjust, thresh, b)) { o.threw = true; return o; }
        double e = y(i); for (uword p = 0; p < k; p++) { B(i, p) = b[p]; e -= x(i, p) * b[p]; } rss += e * e;
        dm a(k, dv(k, 0)), inv; for (uword t = 0; t < n; t++) for (uword p = 0; p < k; p++) for (uword q = 0; q < k; q++) a[p][q] += w[t] * x(t, p) * x(t, q);
        if (!inverse(a, inv)) { o.threw = true; return o; }
        for (uword t = 0; t < n; t++) { double h = 0; for (uword p = 0; p < k; p++) for (uword q = 0; q < k; q++) h += w[i] * x(i, p) * inv[p][q] * x(t, q) * w[t]; tr2 += h * h; if (t == i) tr += h; }
    }
    o.add("returned", B); o.add("betas", B); double enp = 2 * tr - tr2, edf = n - enp, s2 = rss / edf, r2 = 1 - rss / tot, pi2 = 2 * std::acos(-1.0);
    o.add("diagnostic", rowvec({ rss, n * (std::log(pi2 * s2) + 1) + 2 * (enp + 1), n * std::log(pi2 * s2) + n * (1 + enp / n) / (1 - (enp + 2) / n), enp, edf, r2, 1 - (1 - r2) * (n - 1) / edf }));
    if (predict) { mat P(in.d.loc.n_rows, k); for (uword i = 0; i < P.n_rows; i++) { if (!lcrAt(in, W.at(in.d.loc, i, false), lambda0, adjust, thresh, b)) { o.threw = true; return o; } for (uword p = 0; p < k; p++) P(i, p) = b[p]; } o.add("prediction", P); }
    return o;
}
double refCriterion(int model, Inst& in, vector<double> bw, double b, const Params& p) {
    for (auto& v : bw) v = b; Weights W(model, in.spec(), bw, in.d); const Data& d = in.d; bool aic = in.spec().aic;
    if (model == M_LCR) {
        double cv = 0; dv be; for (uword i = 0; i < d.y.n_elem; i++) { dv w = W.at(d.coords, i, true); w[i] = 0; if (!lcrAt(in, w, p.used.at("lam") ? p.used.at("lamv") : 0, p.used.at("ladj"), p.used.at("cn"), be)) return DBL_MAX; double e = d.y(i); for (uword q = 0; q < be.size(); q++) e -= d.x(i, q) * be[q]; cv += e * e; }
        return cv;
    }
    Fit f = gwls(W, d.x, d.y, d.coords, true, !aic); if (!f.ok) return DBL_MAX;
    return aic ? aicc(d.y.n_elem, f) : f.rss;
}
// criterion of a combination of variables: the AICc of the model with them, whose samples basic GWR all weighs equally
double refVarCriterion(int model, Inst& in, vector<double> bw, const vector<size_t>& vs) {
    if (model == M_BASIC) bw = { DBL_MAX };
    Weights W(model, in.spec(), bw, in.d); const Data& d = in.d; bool ic = in.spec().intercept; mat x(d.x.n_rows, vs.size() + ic); if (ic) x.col(0).ones(); for (size_t j = 0; j < vs.size(); j++) x.col(j + ic) = d.x.col(vs[j]);
    Fit f = gwls(W, x, d.y, d.coords, true, false); return f.ok ? aicc(d.y.n_elem, f) : DBL_MAX;
}
// discriminant analysis: every sample is classified by the weighted group moments of its neighbours, itself left out
Out refGwda(Inst& in, const vector<double>& bw, bool quadratic, bool hcov, bool hmean, bool hprior) {
    Out o; Weights W(M_GWDA, in.spec(), bw, in.d); const mat& x = in.d.x; uword n = x.n_rows, k = x.n_cols; vector<string> lev; vector<uword> g(n); dv cnt;
    for (uword t = 0; t < n; t++) { uword q = 0; while (q < lev.size() && lev[q] != in.d.group[t]) q++; if (q == lev.size()) lev.push_back(in.d.group[t]), cnt.push_back(0); g[t] = q; cnt[q]++; }
    uword m = lev.size(); vector<dv> w; double all = 0; for (uword i = 0; i < n; i++) { w.push_back(W.at(in.d.coords, i, true)); w[i][i] = 0; for (double v : w[i]) all += v; }
    mat res(n, m), probs(n, m), pmax(n, 1), ent(n, 1), grp(n, 1); double right = 0, margin = 1e9;
    for (uword i = 0; i < n; i++) {
        vector<dm> cov; vector<dv> mean; dv prior; dm pool(k, dv(k, 0));
        for (uword q = 0; q < m; q++) {
            double s = 0, s1 = 0, p = 0; dv mu(k, 0), mc(k, 0); auto wt = [&](bool local, uword t) { return g[t] != q ? 0 : local ? w[i][t] : 1; }; double s2 = 0;
            for (uword t = 0; t < n; t++) { s1 += wt(hmean, t); s += wt(hcov, t); s2 += wt(hcov, t) * wt(hcov, t); p += wt(hprior, t); for (uword j = 0; j < k; j++) mu[j] += wt(hmean, t) * x(t, j), mc[j] += wt(hcov, t) * x(t, j); }
            for (uword j = 0; j < k; j++) mu[j] /= s1, mc[j] /= s;
            dm c(k, dv(k, 0)); for (uword t = 0; t < n; t++) for (uword a = 0; a < k; a++) for (uword b = 0; b < k; b++) c[a][b] += wt(hcov, t) / s * (x(t, a) - mc[a]) * (x(t, b) - mc[b]) / (1 - s2 / s / s);
            for (uword a = 0; a < k; a++) for (uword b = 0; b < k; b++) pool[a][b] += cnt[q] / n * c[a][b];
            cov.push_back(c); mean.push_back(mu); prior.push_back(p / (hprior ? all : double(n) * n));
        }
        for (uword q = 0; q < m; q++) {
            const dm& c = quadratic ? cov[q] : pool; dm inv, V; dv val; if (!inverse(c, inv)) { o.threw = true; return o; } eigen(c, val, V); double h = 0;
            for (uword a = 0; a < k; a++) for (uword b = 0; b < k; b++) h += 0.5 * (x(i, a) - mean[q][a]) * inv[a][b] * (x(i, b) - mean[q][b]);
            res(i, q) = double(m / 2) * std::log(val[0]) + h - std::log(prior[q]);
        }
        uword best = 0; double s = 0, e = 0; for (uword q = 1; q < m; q++) if (res(i, q) < res(i, best)) best = q;
        for (uword q = 0; q < m; q++) { s += std::exp(res(i, best) - res(i, q)); if (q != best) margin = std::min(margin, res(i, q) - res(i, best)); }
        for (uword q = 0; q < m; q++) { probs(i, q) = std::exp(res(i, best) - res(i, q)) / s; if (probs(i, q) > 0) e -= probs(i, q) * std::log2(probs(i, q)); }
        pmax(i, 0) = 1 / s; ent(i, 0) = e / std::log2(double(m)); grp(i, 0) = lev[best][0]; right += lev[best] == in.d.group[i];
    }
    o.add("res", res); o.add("probs", probs); o.add("pmax", pmax); o.add("entropy", ent); if (margin > 1e-6) { o.add("group", grp); o.add("rate", mat(1, 1).fill(right / n)); } return o;
}
// scalable GWR: local models are sums of precomputed polynomial kernel moments, given the fitted scale and penalty
Out scalableAt(Inst& in, const vector<double>& bw, const mat& focus, mat& B) {
    auto& a = dynamic_cast<GWRScalable&>(*in.alg()); const Data& d = in.d; uword n = d.y.n_elem, m = focus.n_rows, k = d.x.n_cols, P = a.polynomial(), nb = std::min<uword>((uword)bw[0], n - 1); Out o; B.set_size(m, k); double R = 0;
    Spec s = in.spec(); s.adaptive = true; vector<dv> D(m); vector<vector<uword>> N(m); dv at;
    for (uword i = 0; i < m; i++) {
        RD r = Weights::points(s.dist == 2 ? 1 : 0, { rows(focus.row(i))[0] }, rows(d.coords)); r.geo = s.dist == 1; r.poly = s.poly; r.theta = s.theta; refDist(r, 0, D[i]);
        for (uword t = 0; t < n; t++) N[i].push_back(t); std::stable_sort(N[i].begin(), N[i].end(), [&](uword p, uword q) { return D[i][p] < D[i][q]; });
        if (nb < n && std::fabs(D[i][N[i][nb]] - D[i][N[i][nb - 1]]) < 1e-9 * D[i][N[i][nb]]) { o.threw = true; return o; }      // a tie at the last neighbour
        at.push_back(D[i][N[i][std::min<uword>(50, nb) - 1]]);
    }
    std::sort(at.begin(), at.end()); double band = (m % 2 ? at[m / 2] : (at[m / 2 - 1] + at[m / 2]) / 2) / (s.kern == 0 ? std::sqrt(3.0) : 3), b = a.scale(), pen = a.penalty(); dv c; for (uword p = 0; p <= P; p++) c.push_back(std::pow(b, p + 1.0)), R += c[p];
    for (uword i = 0; i < m; i++) {
        dm mm(k, dv(k, 0)), inv; dv z(k, 0);
        for (uword q = 0; q < n; q++) { double w = 0; if (q < nb) { double g = std::exp(-std::pow(D[i][N[i][q]] / band, 2)); for (uword p = 0; p <= P; p++) w += c[p] / R * (p ? std::pow(g, std::pow(2.0, P / 2.0) / std::pow(2.0, (double)p)) : 1); } w += pen; uword t = N[i][q]; for (uword j = 0; j < k; j++) { z[j] += w * d.x(t, j) * d.y(t); for (uword l = 0; l < k; l++) mm[j][l] += w * d.x(t, j) * d.x(t, l); } }
        if (!inverse(mm, inv)) { o.threw = true; return o; }
        for (uword j = 0; j < k; j++) { B(i, j) = 0; for (uword l = 0; l < k; l++) B(i, j) += inv[j][l] * z[l]; }
    }
    return o;
}
Out refScalable(Inst& in, const vector<double>& bw, bool predict) {
    const Data& d = in.d; uword n = d.y.n_elem, k = d.x.n_cols; mat B, P; Out o = scalableAt(in, bw, d.coords, B); if (o.threw) return o; double rss = 0, tot = 0, my = 0; for (double v : d.y) my += v / n;
    for (uword i = 0; i < n; i++) { double e = d.y(i); for (uword j = 0; j < k; j++) e -= d.x(i, j) * B(i, j); rss += e * e; tot += (d.y(i) - my) * (d.y(i) - my); }
    o.add("returned", B); o.add("betas", B); o.add("rss", rowvec({ rss, 1 - rss / tot }));
    if (predict) { Out q = scalableAt(in, bw, d.loc, P); o.threw = q.threw; o.add("prediction", P); }
    return o;
}
} // namespace

void refineScen(Ctx& x) {
    worst = 1;
    int model = (int)x.p.pick("model", { M_BASIC, M_BASIC, M_BASIC, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_LCR, M_GWPCA, M_ROBUST, M_POISSON, M_BINOM, M_MULTI, M_MULTI, M_GWDA, M_SCAL });
    x.p.set("autovar", 0); x.p.set("autolambda", 0); x.p.set("nbig", 0); if (model == M_POISSON || model == M_BINOM) x.p.set("gmax", x.p.pick("gm", { 4, 10, 16, 24 }));
    BuildOpts o; auto probe = build(model, x.p, "", o);
    bool predict = (model == M_BASIC || model == M_ROBUST || model == M_LCR || model == M_SCAL || model == M_POISSON || model == M_BINOM) && x.p.b("predict", 0.4), crit = (model == M_BASIC || model == M_GTWR || model == M_GWDR || model == M_LCR) && x.p.b("crit", 0.4), vcrit = (model == M_BASIC || model == M_GWDR) && x.p.b("vcrit", 0.25); if (model == M_MULTI || predict || crit || vcrit) { o.noAuto = true; o.forceHat = model != M_MULTI; probe = build(model, x.p, "", o); }
    long how = probe->parallel() ? x.p.pick("how", model == M_BASIC || model == M_MULTI ? vector<long>{ 0, 1, 1, 2, 2 } : vector<long>{ 0, 1, 1, 1 }) : 0;
    int th = how ? threads(x) : 1, ranks = how == 2 ? (int)x.p.pick("ranks", { 1, 2, 3, 4, 5 }) : 1; bool mp = how == 2 && x.p.b("mp", 0.3); double cf = x.p.r("critfrac", 0.9, 1.4); long bits = x.p.i("varbits", 1, 7);
    auto vars = [&](Inst& in) { vector<size_t> vs; size_t f = in.intercept() ? 1 : 0; for (size_t j = f; j < in.d.x.n_cols; j++) if (bits >> (j - f) & 1) vs.push_back(j); if (vs.empty()) vs.push_back(in.d.x.n_cols - 1); return vs; };
    auto job = [&](Inst& in, Out& out) { in.run(out); if (predict) out.add("prediction", in.predict()); if (crit) { Out t; in.collectBw(t); double b = t.bandwidths[0] * cf; if (in.spec().adaptive) b = std::floor(b); out.add("criterion", mat(1, 1).fill(in.bwCriterion(b))); } if (vcrit) out.add("varcriterion", mat(1, 1).fill(in.varCriterion(vars(in)))); };
    // serial run outside the simulator: bandwidths in force, conditioning
    Out ser; vector<double> bw; { probe->par(SerialOnly, 1); ser = callGuarded(*probe, [&](Out& t) { job(*probe, t); }); probe = build(model, x.p, "", o); }
    auto reference = [&](Inst& q, const vector<double>& bw, const Out& lib) {
        Out ref = model == M_GWSSA || model == M_GWSSC ? refSummary(model, q, bw, x.p.used["first"]) : model == M_GWPCA ? refPca(q, bw, (uword)x.p.used["keep"], lib) : model == M_LCR ? refLcr(q, bw, x.p.used["lam"] ? x.p.used["lamv"] : 0, x.p.used["ladj"], x.p.used["cn"], predict) : model == M_ROBUST ? refRobust(q, bw, x.p.used["filtered"], predict) : model == M_POISSON || model == M_BINOM ? refGeneralized(q, bw, model == M_POISSON, (int)x.p.used["gmax"], predict) : model == M_MULTI ? refMulti(q, bw) : model == M_GWDA ? refGwda(q, bw, x.p.used["wqda"], x.p.used["hcov"], x.p.used["hmean"], x.p.used["hprior"]) : model == M_SCAL ? refScalable(q, bw, predict) : refRegression(model, q, bw, predict);
        if (crit) { double b = bw[0] * cf; if (q.spec().adaptive) b = std::floor(b); ref.add("criterion", mat(1, 1).fill(refCriterion(model, q, bw, b, x.p))); }
        if (vcrit) ref.add("varcriterion", mat(1, 1).fill(refVarCriterion(model, q, bw, vars(q))));
        return ref;
    };
    if (ser.threw) {                                             // raising is right only when the reference cannot solve it either
        x.skip = "job raises by itself"; if (x.p.used["autobw"] || model == M_GWPCA) return;
        Out t; probe->collectBw(t); bw = t.bandwidths; if (bw.empty()) bw = { probe->bw0() };
        Out ref = reference(*probe, bw, ser); bool fine = !ref.threw && worst < 1e8; for (auto& e : ref.v) if (e.second.has_nan() || e.second.has_inf()) fine = false;
        if (fine) { x.skip = ""; x.bad("raised", string(modelName[model]) + ": raised '" + ser.what + "' although every local model can be solved"); }
        return;
    }
    vector<Out> got(ranks); vector<std::unique_ptr<Inst>> in; for (int r = 0; r < ranks; r++) { BuildOpts q = o; q.isMpi = how == 2; in.push_back(build(model, x.p, "", q)); }
    startSim(x);
    if (how == 2) { if (!simRanks(x, ranks, [&](int r) { in[r]->par(mp ? MPI_MP : MPI_Serial, mp ? th : 1, r, ranks); got[r] = callGuarded(*in[r], [&](Out& t) { job(*in[r], t); }); })) return; x.probe["ranks"]++; }
    else { if (simOne(x, [&] { in[0]->par(how ? OpenMP : SerialOnly, th); got[0] = callGuarded(*in[0], [&](Out& t) { job(*in[0], t); }); }) != sim::OK) return; x.probe[how ? "team" : "serial"]++; }
    for (auto& g : got) hashOut(g);
    for (int r = 0; r < ranks; r++) {
        string who = string(modelName[model]) + (how == 2 ? " on rank " + std::to_string(r) + " of " + std::to_string(ranks) : how ? " with OpenMP" : "") + ": ";
        if (got[r].threw) { x.bad("raised", who + "raised '" + got[r].what + "'"); return; }
        bw = got[r].bandwidths; if (bw.empty()) { Out t; in[r]->collectBw(t); bw = t.bandwidths; } if (bw.empty()) bw = { in[r]->bw0() };
        Out ref = reference(*in[r], bw, got[r]);
        if (ref.threw) { x.skip = "singular for the reference"; return; }
        if (!(worst < 1e10)) { x.skip = "ill-conditioned instance"; return; }
        for (auto& e : ref.v) {
            const mat* g = nullptr; for (auto& q : got[r].v) if (q.first == e.first) g = &q.second;
            if (!g) continue; if (how == 2 && (e.first == "S" || e.first == "C")) continue; if ((e.first == "S" || e.first == "C") && g->n_elem != e.second.n_elem) continue;      // not stored
            string d = diffMat(e.first, e.second, *g, 1e-6); if (r == 0) x.probe["checked-" + e.first]++; if (d.empty()) continue;
            if (!wellConditioned(x, model, o, [&](Inst& q) { q.par(SerialOnly, 1); return callGuarded(q, [&](Out& t) { job(q, t); }); }, ser, 1e-6)) { x.skip = "ill-conditioned instance"; return; }
            x.bad("not-the-reference", who + d); return;
        }
    }
}
