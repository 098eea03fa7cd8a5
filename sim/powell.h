// Powell's derivative free optimizers: problems, solves and recorded histories.
#pragma once
#include "opkpriv.h"
#include "sim.h"
extern "C" {
#include "newuoa.h"
#include "bobyqa.h"
#include "cobyla.h"
}
#include <memory>
#include <algorithm>
#include <cerrno>
namespace powell {
using namespace sim;
typedef std::vector<double> V;
enum Solver { NEWUOA, BOBYQA, COBYLA };
enum How { CALLBACK, SIMPLE, REVCOM };
// objective and constraints: functions of x (and of the number of the call when a fault is due)
struct Prob {
  int kind = 0, n = 2, m = 0; double s = 1, shift = 0; V H, c, A, b; uint64_t h = 0; int fkind = 0; long fat = 0; bool fforever = false; int ckind = 0; V mul; // mul: factors applied to the variables first
  double obj(const double* x) const;
  void cons(const double* x, double* con) const;
  double eval(const double* x, double* con, long call) const; // call: 1, 2, ...
  bool faulty(long call) const { return fkind && (fforever ? call >= fat : call == fat); }
};
struct Setup {
  Solver solver = NEWUOA; How how = CALLBACK; int n = 2, npt = 5, m = 0; double rhobeg = 0.5, rhoend = 1e-4; long maxfun = 100; bool maximize = false; int sclkind = 0; V scl, x0, xl, xu; int iprint = 0; Prob p; uint64_t junk = 0; bool right = true; // right: guard page after the arrays
  static constexpr long SAME = -999999; long an = SAME, anpt = SAME, am = SAME; // what is passed instead of n, npt, m
  bool heals = false; long restart_at = -1; // REVCOM: restart after so many evaluations
  std::string txt() const; size_t work() const; size_t iact() const { return solver == COBYLA ? m + 1 : 0; }
  double sign() const { return maximize ? -1 : 1; }
};
struct Eval { V x; double f; V con; };
struct Result { int status = 99; V x; double f = 0, maxcv = 0; long nevals = -1; std::vector<Eval> h; double rho = -1, last_f = 0; bool finished = false; V rhos; };
// One solve; step() goes to just before the next evaluation, or to the end.
struct Solve {
  Setup s; Result r; Guarded gx, gscl, gxl, gxu, gw, gi, gc; std::unique_ptr<Coro> co; newuoa_context* nc = nullptr; cobyla_context* cc = nullptr; bool over = false; bool active = false; long printed = 0; bool track = false; std::string out; // out: what was printed
  explicit Solve(const Setup&); ~Solve();
  bool step();              // false when finished
  void all() { while (step()) {} }
  void end_revcom(); bool memory_ok(std::string* why);
  double call(long n, long m, const double* x, double* con, void* data);
};
Setup draw_setup(int solver, bool small, bool large = true);
void draw_faults(Setup&);
bool quiet_start(); long quiet_stop(); extern std::string* g_text; // capture what is printed
}
