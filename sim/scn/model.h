// Model adapters: build any model of the library from explicit, named parameters,
// run it, and collect everything a caller can observe.
#pragma once
#include "gwmodel.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDA.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"
#include "sim.h"
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

// ---- named parameters: drawn from (seed, name) unless overridden ---------------
struct Params {
    uint64_t seed = 1;
    std::map<std::string, double> over;      // replay / shrink overrides
    std::map<std::string, double> used;      // everything this run read
    sim::Rng rngFor(const std::string& name) const;
    long i(const std::string& name, long lo, long hi);              // uniform in [lo,hi]
    double r(const std::string& name, double lo, double hi);
    bool b(const std::string& name, double p);
    long pick(const std::string& name, const std::vector<long>& c);
    void set(const std::string& name, double v) { over[name] = v; }
    std::string str() const;
};

struct Out {
    std::vector<std::pair<std::string, arma::mat>> v;
    bool threw = false; std::string what; std::string type;
    int status = 0;                         // gwm::Status as int
    std::vector<double> bandwidths;         // bandwidths in force afterwards
    void add(const std::string& n, const arma::mat& m) { v.emplace_back(n, m); }
};
// "" when equal within tol, else a description of the first difference
std::string diff(const Out& ref, const Out& got, double tol = 1e-6, const char* skip = nullptr);
std::string diffMat(const std::string& name, const arma::mat& a, const arma::mat& b, double tol);

struct Ev { char kind; uint64_t seq; int thread; uint64_t a, b; double p; std::string s, fn; };   // kind: P print, G progress(cur,total), F progress(percent), S stop poll
struct Recorder {
    std::vector<Ev> ev; uint64_t polls = 0, cancelAt = 0; bool stopped = false, keep = false;
    uint64_t pollsAfter = 0, progressAfter = 0, printsAfter = 0, solvesAtStop = 0, nEv = 0, evAtStop = 0, errors = 0; int lastLevel = 0;
    std::string cancelStage; uint64_t cancelStageProgress = 0; std::string curStage;
    uint64_t stageDists = 0, workInStage = 0;                 // local models prepared before the current stage; in it when the request came
    uint64_t destroyed = 0, callsAfterDestroy = 0;
    std::function<void(const Ev&)> hook;
};
extern bool armLibrary;                                       // allocation faults during fit, run and predict
extern uint64_t cancelAtDist; extern Recorder* cancelRec;     // the request arrives while the n-th local model is being prepared
std::unique_ptr<gwm::ITelegram> makeTelegram(Recorder* r);

enum ModelId { M_BASIC, M_ROBUST, M_MULTI, M_POISSON, M_BINOM, M_LCR, M_SCAL, M_GTWR, M_GWDR, M_GWSSA, M_GWSSC, M_GWPCA, M_GWDA, M_COUNT };
extern const char* modelName[];

struct Data { arma::mat x, coords, loc; arma::vec y, times; std::vector<std::string> group; };

// what a reference needs to know about the configuration
struct Spec { int dist = 0; double poly = 2, theta = 0; bool adaptive = false; int kern = 0; bool intercept = true, aic = false, hat = true; double lambda = 0, angle = 0; };
struct Inst {
    Params* p; int model; std::string pre;   // pre: parameter name prefix
    Data d; std::optional<double> glo, gup;               // golden bounds configured
    virtual ~Inst() {}
    virtual gwm::Algorithm* alg() = 0;
    virtual void par(gwm::ParallelType t, int threads, int rank = 0, int ranks = 1) = 0;
    virtual void run(Out& o) = 0;                       // fit()/run() + collect
    virtual bool canPredict() { return false; }
    virtual arma::mat predict() { return arma::mat(); }
    virtual bool parallel() { return true; }
    // criterion evaluation through the public selection interfaces
    int bwStatus = 0;
    virtual bool bwNeedsFit() { return false; }
    virtual size_t varCount() { return 0; }
    virtual bool intercept() { return true; }
    virtual bool hasBwCriterion() { return false; }
    virtual double bwCriterion(double) { return 0; }
    virtual double bwCriterionAt(const std::vector<double>&) { return 0; }           // one bandwidth per dimension
    virtual double metric() { return 0; }                                            // a distance that tells the settings of the metric
    virtual void setLambda(double) {}
    virtual bool hasVarCriterion() { return false; }
    virtual double varCriterion(const std::vector<size_t>&) { return 0; }
    virtual void collectBw(Out&) {}
    virtual arma::mat bwList() { return arma::mat(); }                          // candidates of the bandwidth search and their scores
    virtual void searchRange(std::vector<double>&, std::vector<double>&) {}     // documented bounds of the bandwidth search (empty range: not searched)
    virtual void blankData() {}                         // MPI workers may start without data
    virtual void resetBandwidth() = 0;                  // put the initial configuration back
    virtual void adoptConfig(Inst&) = 0;                // take over the settings another instance was built with
    virtual Spec spec() = 0;
    virtual double bw0() = 0;                           // bandwidth configured
    virtual void resetData() = 0;                       // put the initial data back
};
struct BuildOpts { int perturb = 0; bool forPredict = false; bool noAuto = false; bool singular = false; bool hardSearch = false; bool forceHat = false; bool isMpi = false; };
// build(model, params): deterministic in params; two calls give two identical instances
std::unique_ptr<Inst> build(int model, Params& p, const std::string& pre = "", BuildOpts o = {});
// run and catch
Out runInst(Inst& in);
Out callGuarded(Inst& in, const std::function<void(Out&)>& f);
