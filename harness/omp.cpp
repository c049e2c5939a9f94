// H01: every OpenMP schedule of the parallel loops, on the real solvers under a controlled runtime, against the branch
// compiled without OpenMP and a happens-before race detector.
#include "omp_runs.hpp"
#include "omp_sched.hpp"
using std::string; using std::vector;
static int doChoose(int n, int def) { return mc::choose(n, def); }
static unsigned long long doDraws() { return mc::ctx().draws; }
static RunResult runOne(bool serial, int k, const RunCfg &c, int stream) {
  auto &x = mc::ctx(); x.active = false; x.draws = 5001; x.rot = stream; omps::reset();
  RunResult r = serial ? run_serial(k, c) : run_omp(k, c);
  x.draws = 0; return r;
}
int mc::main_impl() {
  auto &c = ctx(); omps::choose = doChoose; omps::draws = doDraws; const bool th = thorough();
  c.real_menu = {0.03, 0.62, 0.41, 0.87, 0.19, 0.96, 0.5, 0.28, 0.74, 0.11, 0.68}; c.norm_menu = {-1.1, 0.4, 1.3, -0.3, 0.9}; c.horizon = 100000; c.max_reports = 8; c.hang_seconds = 60;
  const int ths[] = {64, 2, 64, 3, 1, 64, 2, 64};  // the chunk size is fixed at first use: one setting per process
  int thN = ths[c.rank % 8]; if (c.replaying) { const size_t p = c.replay_cfg.find("thN="); if (p != string::npos) thN = atoi(c.replay_cfg.c_str() + p + 4); }
  if (c.rank == 0 || c.replaying) mc::once("threadnum", "", [] { for (int n : {1, 2, 3, 8, 64, 1000}) { const int g = threadNumAfterSetting(n); MC_P("H01", g == n, "threadnum", "threadNum() is %d after setThreadNum(%d)", g, n); } });
  struct K { int n, gens, T, flavour, stream; };
  vector<K> ks; for (int T : {2, 3}) for (int fl : {0, 1}) for (int n : {3, 5}) ks.push_back({n, 1, T, fl, 1 + n + fl});
  ks.push_back({6, 2, 2, 0, 4}); ks.push_back({6, 2, 2, 1, 9}); ks.push_back({8, 1, 4, 0, 2}); ks.push_back({1, 2, 2, 0, 3}); ks.push_back({4, 3, 1, 1, 5}); ks.push_back({17, 1, 2, 0, 6});
  for (int k = 0; k < SOLVERS; k++) section(solverName(k), [&] {
    int slot = 0;
    for (auto &g : ks) {
      if (g.n < 3 && k != 5 && k != 6 && k != 7) continue;
      slot++;
      RunCfg rc; rc.n = g.n; rc.gens = g.gens; rc.thN = thN; rc.flavour = g.flavour;
      const string cfg = mc::fmt("n=%d gens=%d T=%d ties=%d stream=%d thN=%d", g.n, g.gens, g.T, g.flavour, g.stream, thN);
      if (!c.replaying && c.nranks > 1) { // equal chunk settings share the configurations
        int same = 0, my = 0; for (int r = 0; r < c.nranks; r++) if (ths[r % 8] == thN) { if (r < c.rank) my++; same++; }
        if (slot % same != my % same) continue;
      }
      c.max_dev = 1 << 30; c.budget = th ? 200000 : 2500;
      RunResult ref; bool have = false; std::set<unsigned long long> schedules;
      mc::explore(solverName(k), cfg, [&] {
        auto t0 = c.trail; if (!have) { ref = runOne(true, k, rc, g.stream); have = true; }
        omps::threads = g.T;
        RunResult r = runOne(false, k, rc, g.stream);
        for (auto &p : omps::rep.problems) MC_P("H01", false, p.c_str(), "%s: %s", solverName(k), p.c_str());
        bool eq = r.v.size() == ref.v.size(); size_t at = 0; for (size_t i = 0; eq && i < r.v.size(); i++) if (memcmp(&r.v[i], &ref.v[i], 8) && !(r.v[i] == 0 && ref.v[i] == 0)) { eq = false; at = i; }
        MC_P("H01", eq, "serial", "%s: this schedule gives a result different from the serial run (value %zu: %g, serially %g)", solverName(k), at, at < r.v.size() ? r.v[at] : NAN, at < ref.v.size() ? ref.v[at] : NAN);
        MC_P("H01", r.evals == ref.evals && r.badArg == 0, "evals", "%s: %ld fitness evaluations, serially %ld; %ld with wrong arguments", solverName(k), r.evals, ref.evals, r.badArg);
        MC_P("H01", g.T < 2 || omps::rep.teamRegions > 0, "parallel", "%s: no parallel loop was executed by a team", solverName(k));
        mc::stats().transitions += omps::rep.accesses; schedules.insert(omps::rep.trace); mc::state(mc::h64(mc::hstr(cfg + solverName(k)), omps::rep.trace)); mc::outcome(mc::h64(k, r.v.size()));
        if (c.st.executions % 3001 == 0) mc::sample(mc::fmt("%s %s: %ld regions, %ld chunks, %ld context switches, %ld shared accesses monitored", solverName(k), cfg.c_str(), omps::rep.regions, omps::rep.chunks, omps::rep.switches, omps::rep.accesses));
      });
      if (getenv("MC_TIME")) fprintf(stderr, "   dev<=%d schedules=%zu\n", c.max_dev, schedules.size());
    }
  });
  c.budget = 0;
  return 0;
}
