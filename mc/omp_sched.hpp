// Controlled OpenMP runtime and happens-before race detector: interface used by the harness.
#pragma once
#include <string>
#include <vector>
namespace omps {
extern int threads;                       // team size of the next parallel regions
extern int (*choose)(int n, int def);     // scheduling decisions
extern unsigned long long (*draws)();     // random draws consumed so far
struct Report { long regions = 0, chunks = 0, switches = 0, accesses = 0, teamRegions = 0; std::vector<std::string> problems; unsigned long long trace = 0; };
extern Report rep;
void reset();
bool inRegion();
int self();
struct Quiet { bool old; Quiet(); ~Quiet(); };   // accesses in this scope are the harness's own
void point();                             // scheduling point (called by the user functions)
}
