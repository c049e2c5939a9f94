#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include "omp_runs.hpp"
#include "omp_sched.hpp"
#ifdef SERIAL
#ifdef HEU_HAS_OPENMP
#error serial branch expected
#endif
#define RUN run_serial
static void schedPoint() {}
struct Quiet {};
#else
#ifndef HEU_HAS_OPENMP
#error OpenMP branch expected
#endif
#define RUN run_omp
static void schedPoint() { omps::point(); }
typedef omps::Quiet Quiet;
extern "C" int rand(void) noexcept { return int(mc::env_real() * RAND_MAX); }
#endif
using namespace heu;
namespace {
using std::array; using std::vector;
struct Args { double shift = 0.125; int tag = 77; };
struct { RunResult r; int flavour; } S;
double f1(const double *x, int n, double sh = 0) { double s = 0; for (int i = 0; i < n; i++) { const double y = x[i] - 0.3 * (i + 1) - sh; s += y * y * (i + 1) + 0.25 * y; } return S.flavour == 1 ? std::floor(s * 2) : s; }  // flavour 1: many ties
template <class F> void user(const F &f) { schedPoint(); f(); { Quiet q; S.r.evals++; } schedPoint(); }
template <class V> void soF(const V *x, double *f) { user([&] { *f = f1(x->data(), x->size()); }); }
template <class V> void soFa(const V *x, const Args *a, double *f) { user([&] { if (a->tag != 77) { Quiet q; S.r.badArg++; } *f = f1(x->data(), x->size(), a->shift); }); }
template <class V, class F> void moF(const V *x, F *f) { user([&] { f->resize(2); (*f)[0] = f1(x->data(), x->size()); (*f)[1] = f1(x->data(), x->size(), 0.9); }); }
void put(double d) { S.r.v.push_back(d); }
template <class V> void putV(const V &v) { put(-1234.5); for (int i = 0; i < (int)v.size(); i++) put(v.data()[i]); }
typedef array<double, 2> V2;
template <class A> void iGA(V2 *x) { for (double &d : *x) d = randD(-2, 2); }
void iG(V2 *x) { for (double &d : *x) d = randD(-2, 2); } void iGa(V2 *x, const Args *) { iG(x); }
void cG(const V2 *a, const V2 *b, V2 *c, V2 *d) { const double k = randD(); for (int i = 0; i < 2; i++) { (*c)[i] = k * (*a)[i] + (1 - k) * (*b)[i]; (*d)[i] = k * (*b)[i] + (1 - k) * (*a)[i]; } }
void cGa(const V2 *a, const V2 *b, V2 *c, V2 *d, const Args *) { cG(a, b, c, d); }
void mG(const V2 *a, V2 *b) { *b = *a; (*b)[randIdx(2)] += randD(-0.5, 0.5); } void mGa(const V2 *a, V2 *b, const Args *) { mG(a, b); }
template <class T> void gaOpt(T &s, const RunCfg &c) { GAOption o; o.populationSize = c.n; o.maxGenerations = c.gens; o.maxFailTimes = 0; o.crossoverProb = 0.8; o.mutateProb = 0.4; s.setOption(o); }
template <class T> void gaOut(T &s) { put(s.generation()); for (auto &g : s.population()) { putV(g.decision_variable); if constexpr (std::is_same<std::decay_t<decltype(g.fitness)>, double>::value) put(g.fitness); else putV(g.fitness); put(g.is_fitness_computed); } }
template <class T> void soga(T &s, const RunCfg &c) { gaOpt(s, c); s.initializePop(); s.run(); gaOut(s); put(s.failTimes()); put(s.bestFitness()); putV(s.result()); for (double d : s.record()) put(d); }
template <bool order, class T> void nsga(T &s, const RunCfg &c) {
  gaOpt(s, c); s.setiFun(iG); s.setcFun(cG); s.setmFun(mG); s.setfFun(moF<V2, std::decay_t<decltype(s.population().front().fitness)>>);
  s.initializePop(); s.run();
  if constexpr (order) { gaOut(s); put(s.pfGenes().size()); for (auto &f : s.record()) putV(f); } else { put(s.population().size()); for (auto &g : s.population()) put(g.is_fitness_computed && g.fitness[0] == f1(g.decision_variable.data(), 2)); }
}
template <class P> void psoRun(P &s, const RunCfg &c) {
  PSOOption o; o.populationSize = c.n; o.maxGeneration = c.gens; o.maxFailTimes = 0; o.inertiaFactor = 0.7; o.learnFactorP = 1.5; o.learnFactorG = 1.1; s.setOption(o);
  s.initializePop(); s.run(); put(s.generation()); put(s.failTimes());
  for (auto &p : s.population()) { putV(p.position); putV(p.velocity); put(p.fitness); putV(p.pBest.position); put(p.pBest.fitness); }
  putV(s.globalBest().position); put(s.globalBest().fitness); for (double d : s.record()) put(d);
}
template <class P> void aosRun(P &s, const RunCfg &c) {
  AOSOption o; o.electronNum = c.n; o.maxGeneration = c.gens; o.maxEarlyStop = 100; o.maxLayerNum = 3; o.photonRate = 0.6; s.setOption(o);
  s.initializePop(); s.run(); put(s.generation()); put(s.earlyStopCounter());
  for (auto &e : s.electrons()) { putV(e.state); put(e.energy); }
  putV(s.bestElectron().state); put(s.bestElectron().energy); put(s.layers().size());
}
typedef Eigen::Array<double, 2, 1> E2; typedef Eigen::ArrayXd EX;
}
#ifndef SERIAL
const char *solverName(int k) { static const char *n[] = {"SOGA", "SOGA with arguments", "NSGA2", "NSGA2 run-time objectives", "NSGA3", "PSO std::array", "PSO Eigen vector", "PSO std::vector with arguments", "AOS std::array", "AOS Eigen"}; return n[k]; }
#endif
RunResult RUN(int k, const RunCfg &c) {
  S.r = RunResult(); S.flavour = c.flavour;
  setThreadNum(c.thN);
  switch (k) {
    case 0: { SOGA<V2, FITNESS_LESS_BETTER, RECORD_FITNESS, SelectMethod::Truncation> s; s.setiFun(iG); s.setcFun(cG); s.setmFun(mG); s.setfFun(soF<V2>); soga(s, c); break; }
    case 1: { SOGA<V2, FITNESS_GREATER_BETTER, RECORD_FITNESS, SelectMethod::RouletteWheel, Args> s; s.setiFun(iGa); s.setcFun(cGa); s.setmFun(mGa); s.setfFun(soFa<V2>); soga(s, c); break; }
    case 2: { NSGA2<V2, 2, FITNESS_LESS_BETTER, RECORD_FITNESS> s; nsga<true>(s, c); break; }
    case 3: { NSGA2<V2, Eigen::Dynamic, FITNESS_GREATER_BETTER, RECORD_FITNESS> s; s.setObjectiveNum(2); nsga<true>(s, c); break; }
    case 4: { NSGA3<V2, 2, DONT_RECORD_FITNESS, SINGLE_LAYER> s; s.setReferencePointPrecision(3); nsga<false>(s, c); break; }
    case 5: { PSO<V2, SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS> s; s.setfFun(soF<V2>); s.setRange(-2, 2); s.setMaxVelocity(0.5); psoRun(s, c); break; }
    case 6: { PSO<EX, SQUARE_BOX, FITNESS_GREATER_BETTER, RECORD_FITNESS> s; s.setDimensions(2); s.setfFun(soF<EX>); s.setRange(-2, 2); s.setMaxVelocity(0.5); psoRun(s, c); break; }
    case 7: { PSO<vector<double>, RECTANGLE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS, Args> s; s.setDimensions(2); s.setfFun(soFa<vector<double>>); s.setArgs(Args()); s.setRange({-2, -1}, {2, 1.5}); s.setMaxVelocity({0.5, 0.25}); psoRun(s, c); break; }
    case 8: { AOS<ContinousBox<V2, SQUARE_BOX>, FITNESS_LESS_BETTER, RECORD_FITNESS> s; s.setfFun(soF<V2>); s.setRange(-2, 2); s.setDelta(0.25); aosRun(s, c); break; }
    case 9: { AOS<ContinousBox<EX, SQUARE_BOX>, FITNESS_LESS_BETTER, RECORD_FITNESS, Args> s; s.setDimensions(2); s.setfFun(soFa<EX>); s.setArg(Args()); s.setRange(-2, 2); s.setDelta(0.25); aosRun(s, c); break; }
  }
  return S.r;
}

#ifdef HEU_HAS_OPENMP
int threadNumAfterSetting(int n) { const int old = threadNum(); setThreadNum(n); const int g = threadNum(); setThreadNum(old); return g; }
#endif
