// One deterministic run of every solver; compiled once with -fopenmp and memory instrumentation, once serially.
#pragma once
#include <string>
#include <vector>
struct RunCfg { int n = 3, gens = 2, thN = 64, flavour = 0; };
struct RunResult { std::vector<double> v; long evals = 0, badArg = 0; };
extern const char *solverName(int k);
constexpr int SOLVERS = 10;
RunResult run_omp(int solver, const RunCfg &);
RunResult run_serial(int solver, const RunCfg &);
int threadNumAfterSetting(int n);
