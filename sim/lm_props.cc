// Properties of the limited-memory optimizers (driver, VMLMB, NLCG): L01..L04, L07..L09.
#include "lm.h"
#include <cerrno>
using namespace sim;
using namespace lm;
namespace {
const char* LM_REAL = "driver.c vmlmb.c nlcg.c lnsrch.c algebra.c fltvector.c dblvector.c simple_vector.c utils.c";
const char* LM_STUB = "objective function and caller (simulated), malloc/free (heap model of the simulator), user-supplied vector space (simulated caller code)";

bool finite(const Vec& v) { for (double t : v) if (!std::isfinite(t)) return false; return true; }
bool ok_task(int t) { return t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X; }

// ------------------------------------------------------------------ L01
void o_feasible(Session& s, const Rec& b, const Rec& a) {
  if (!ok_task(a.task)) return;
  for (int i = 0; i < s.P.n; ++i) {
    double v = a.x[i];
    if (v < s.elo[i] || v > s.ehi[i]) { fail("L01.outside", "session %d after call %zu (task %d, step %.17g): x[%d] = %s is outside of [%s, %s]; plan: %s", s.id, s.hist.size(), a.task, a.step, i, hexd(v).c_str(), hexd(s.elo[i]).c_str(), hexd(s.ehi[i]).c_str(), s.P.text().c_str()); return; }
    if (std::isnan(v) && !s.dirty_nan && s.tame) { fail("L01.nan", "session %d: x[%d] is NaN although the caller never supplied anything but finite numbers; plan: %s", s.id, i, s.P.text().c_str()); return; }
  }
  int act = 0; for (int i = 0; i < s.P.n; ++i) act += a.x[i] == s.elo[i] || a.x[i] == s.ehi[i];
  if (act) probe("a variable is exactly on a bound"); if (act == s.P.n) probe("every variable is on a bound");
  if (a.task == OPK_TASK_COMPUTE_FG && a.evals > 1 && act) probe("trial point of a line search is on a bound");
}

// ------------------------------------------------------------------ L02
void o_descent(Session& s, const Rec& b, const Rec& a) {
  if (!(b.task == OPK_TASK_COMPUTE_FG && (a.task == OPK_TASK_NEW_X || a.task == OPK_TASK_FINAL_X))) return;
  size_t k = s.iterates.size(); if (k < 2) return;
  if (!s.clean_ls()) return; // the values supplied during this line search are not those of a function
  auto& c = s.iterates[k - 1]; auto& p = s.iterates[k - 2];
  if (!std::isfinite(p.f) || !finite(p.g) || !finite(c.g) || !finite(c.x) || !finite(p.x)) return;
  if (std::fabs(c.f) > 1e290 && c.f < 0) return;  // unbounded below, about to overflow
  nontrivial();
  const Plan& P = s.P; int kind = P.ls.kind ? P.ls.kind : P.bounded() ? 2 : 1;
  double ref = p.f; if (kind == 3) for (size_t j = 2; j <= (size_t)P.ls.m + 1 && j <= k; ++j) ref = std::max(ref, s.iterates[k - j].f);
  if (kind == 3 && c.f > p.f) probe("nonmonotone line search accepted an increase");
  double ftol = P.ls.kind ? P.ls.ftol : 1e-4;
  double slope = 0, mag = 0; for (int i = 0; i < P.n; ++i) { slope += p.g[i] * (c.x[i] - p.x[i]); mag += std::fabs(p.g[i]) * (std::fabs(c.x[i]) + std::fabs(p.x[i])); }
  double tolf = 8 * 2.3e-16 * (std::fabs(c.f) + std::fabs(ref)) + 1e-15 * (P.obj.unit + norm2(P.obj.a));
  if (!(c.f <= ref + tolf)) { fail("L02.increase", "session %d: the accepted iterate %ld has f = %s, more than the reference %s; plan: %s", s.id, a.iters, hexd(c.f).c_str(), hexd(ref).c_str(), P.text().c_str()); return; }
  if (P.bounded()) return;
  double tol = tolf + ftol * 16 * s.eps() * (mag + 1e-300) ;
  if (!(c.f <= ref + ftol * slope + tol)) { fail("L02.armijo", "session %d: the accepted iterate %ld has f = %s; sufficient decrease from %s along a slope %.9g requires at most %s; plan: %s", s.id, a.iters, hexd(c.f).c_str(), hexd(ref).c_str(), slope, hexd(ref + ftol * slope).c_str(), P.text().c_str()); return; }
  probe("sufficient decrease checked");
  if (P.ls.kind == 1 && !P.single && !P.obj.wall && s.tame && std::fabs(c.f - p.f) > 1e-6 * (std::fabs(c.f) + std::fabs(p.f)) + 1e-9 * norm2(P.obj.a)) { // a line search with the strong Wolfe conditions
    double s1 = 0, m1 = 0; for (int i = 0; i < P.n; ++i) { s1 += c.g[i] * (c.x[i] - p.x[i]); m1 += std::fabs(c.g[i]) * (std::fabs(c.x[i]) + std::fabs(p.x[i])); }
    if (!(std::fabs(s1) <= P.ls.gtol * std::fabs(slope) * (1 + 1e-9) + 1e-13 * (mag + m1))) { fail("L02.curvature", "session %d: the accepted iterate %ld has slope %.9g, more than gtol = %g times the initial slope %.9g; plan: %s", s.id, a.iters, s1, P.ls.gtol, slope, P.text().c_str()); return; }
    probe("curvature condition checked");
  }
}

// ------------------------------------------------------------------ L03
double tiny_norm(bool single) { return single ? 1e-17 : 1e-150; }
double huge_norm(bool single) { return single ? 1e17 : 1e150; }
void o_converged(Session& s, const Rec& b, const Rec& a) {
  if (b.task != OPK_TASK_COMPUTE_FG) return;
  if (a.task != OPK_TASK_NEW_X && a.task != OPK_TASK_FINAL_X) return;
  if (!finite(s.g) || !finite(a.x)) return;
  double gn = s.pgnorm(a.x, s.g);
  double m = 0; for (double t : s.g) m = std::max(m, std::fabs(t));
  if (m > huge_norm(s.P.single)) return;
  if (a.evals == 1) { s.g0norm = gn; s.has_g0 = true; if (gn != 0 && gn < tiny_norm(s.P.single)) s.has_g0 = false; }
  if (gn != 0 && gn < tiny_norm(s.P.single)) return;
  double rel = std::max(s.P.single ? 1e-5 : 1e-11, s.P.n * s.eps());
  if (!(std::fabs(a.gnorm - gn) <= rel * gn)) { fail("L03.gnorm", "session %d: the reported gradient norm is %s, the (projected) gradient at the iterate has norm %s; plan: %s", s.id, hexd(a.gnorm).c_str(), hexd(gn).c_str(), s.P.text().c_str()); return; }
  if (!s.has_g0) return;
  double test = std::max(0.0, std::max(s.P.gatol(), s.P.grtol() * s.g0norm));
  if (s.P.opts_null) test = 1e-6 * s.g0norm;
  nontrivial();
  if (a.task == OPK_TASK_FINAL_X && !(gn <= test * (1 + 4 * rel))) fail("L03.premature", "session %d: convergence claimed after %ld evaluations with a gradient norm of %.17g, more than the threshold %.17g; plan: %s", s.id, a.evals, gn, test, s.P.text().c_str());
  if (a.task == OPK_TASK_NEW_X && (!(gn >= test * (1 - 4 * rel)) || gn == 0 || (a.evals == 1 && !s.P.opts_null && s.P.grtol() == 1))) fail("L03.missed", "session %d: convergence not reported after %ld evaluations with a gradient norm of %.17g, less than the threshold %.17g; plan: %s", s.id, a.evals, gn, test, s.P.text().c_str());
  if (a.task == OPK_TASK_FINAL_X && gn == 0) probe("converged with a zero projected gradient");
  if (a.task == OPK_TASK_FINAL_X && a.evals == 1) probe("converged at the starting point");
  if (a.task == OPK_TASK_FINAL_X && s.P.bounded() && norm2(s.g) > 2 * test) probe("converged with active bounds");
}

// ------------------------------------------------------------------ L04
}
void lm::o_protocol(Session& s, const Rec& b, const Rec& a) {
  auto bad = [&](const char* what) { fail("L04.protocol", "session %d, call %zu (%s): %s; before: task %d status %d evals %ld iters %ld restarts %ld; after: task %d status %d evals %ld iters %ld restarts %ld; plan: %s", s.id, s.hist.size(), a.call == 's' ? "start" : "iterate", what, b.task, b.status, b.evals, b.iters, b.restarts, a.task, a.status, a.evals, a.iters, a.restarts, s.P.text().c_str()); };
  bool nulls = false; // NULL arguments are only accepted by the driver
  for (auto& c : s.P.act) if (s.drv && c.at == s.nstep && (c.kind == A_NULLX || c.kind == A_NULLG)) nulls = true;
  bool samex = a.x.size() == b.x.size(); for (size_t i = 0; samex && i < a.x.size(); ++i) samex = same_bits(a.x[i], b.x[i]);
  if (s.last != a.task) return bad("the returned task is not the pending task");
  for (size_t i = 0; i < a.g.size(); ++i) if (!same_bits(a.g[i], b.g[i])) return bad("the gradient of the caller was modified");
  if (a.call == 's') {
    if (a.evals || a.iters || a.restarts) return bad("start did not reset the counters");
    if (a.task == OPK_TASK_COMPUTE_FG ? a.status != OPK_SUCCESS : a.task != OPK_TASK_ERROR) return bad("unexpected task after start");
    if (a.task == OPK_TASK_COMPUTE_FG && !s.P.bounded() && !samex) return bad("start changed the variables of an unconstrained problem");
    return;
  }
  if (nulls && s.last == OPK_TASK_ERROR && a.status == OPK_ILLEGAL_ADDRESS && b.task != OPK_TASK_ERROR) { if (!samex) return bad("a refused call changed the variables"); probe("NULL argument refused"); if (a.evals != b.evals || a.iters != b.iters) bad("a refused call changed the counters"); return; }
  switch (b.task) {
  case OPK_TASK_COMPUTE_FG:
    if (a.evals != b.evals + 1) return bad("an evaluation was not counted exactly once");
    if (b.evals == 0 && a.task != OPK_TASK_NEW_X && a.task != OPK_TASK_FINAL_X) return bad("the first evaluation must yield an iterate");
    if (a.task == OPK_TASK_NEW_X || a.task == OPK_TASK_FINAL_X) {
      if (a.iters != b.iters + (b.evals > 0 ? 1 : 0)) return bad("an iterate was not counted exactly once");
      if (!samex) return bad("the reported iterate is not the last evaluated point");
      if (a.status != OPK_SUCCESS) return bad("an iterate is reported with an error status");
      if (!same_bits(a.step, b.step)) return bad("accepting a step changed its length");
      nontrivial();
    } else if (a.iters != b.iters) return bad("an iterate was counted but not reported");
    if (a.restarts != b.restarts) return bad("a restart was counted during a line search");
    break;
  case OPK_TASK_NEW_X: case OPK_TASK_FINAL_X:
    if (a.evals != b.evals || a.iters != b.iters) return bad("counters changed without evaluation");
    if (a.task != OPK_TASK_COMPUTE_FG && a.task != OPK_TASK_ERROR && a.task != OPK_TASK_WARNING) return bad("an iterate must be followed by a trial point or an error");
    if (a.restarts != b.restarts && a.restarts != b.restarts + 1) return bad("restarts not counted one by one");
    if (a.restarts != b.restarts) probe("algorithm restarted along the steepest descent");
    if (b.iters == 0 && a.restarts) return bad("a restart is counted before any iteration");
    if (a.task == OPK_TASK_FINAL_X) probe("went on after convergence");
    break;
  default:
    if (a.task != b.task) return bad("an optimizer in error went on without being started again");
    if (a.evals != b.evals || a.iters != b.iters || a.restarts != b.restarts) return bad("counters changed after an error");
    if (!samex) return bad("variables changed after an error");
    probe("call after an error"); break;
  }
  if (a.task == OPK_TASK_COMPUTE_FG) { if (a.status != OPK_SUCCESS) return bad("an evaluation is requested with an error status"); if (!(a.step >= 0) && s.tame) return bad("invalid step"); }
  else if ((a.task == OPK_TASK_ERROR || a.task == OPK_TASK_WARNING) && a.status == OPK_SUCCESS) return bad("an error without a reason");
  const char* r = opk_get_reason((opk_status)a.status); if (!r || !*r) return bad("no message for the status");
  if (a.restarts > a.iters) return bad("more restarts than iterations");
}
namespace {

// ------------------------------------------------------------------ L08
bool ref_finite(Session& s) { size_t k = s.iterates.size(); size_t m = s.P.ls.kind == 3 ? s.P.ls.m : 1; for (size_t j = 2; j <= m + 1 && j <= k; ++j) if (!std::isfinite(s.iterates[k - j].f)) return false; return true; }
void o_garbage(Session& s, const Rec& b, const Rec& a) {
  auto bad = [&](const char* o, const char* what) { fail(o, "session %d, call %zu: %s; task %d -> %d, f = %g, status %d; plan: %s", s.id, s.hist.size(), what, b.task, a.task, s.f, a.status, s.P.text().c_str()); };
  if (a.task < OPK_TASK_ERROR || a.task > OPK_TASK_WARNING) return bad("L08.task", "unknown task");
  if (b.task == OPK_TASK_COMPUTE_FG && (!std::isfinite(s.f) || !finite(s.g))) {
    nontrivial();
    if (a.task == OPK_TASK_FINAL_X && !finite(s.g)) { // judged on the free variables only
      bool free = false; for (int i = 0; i < s.P.n; ++i) if (!std::isfinite(s.g[i]) && !(s.g[i] > 0 && a.x[i] <= s.elo[i]) && !(s.g[i] < 0 && a.x[i] >= s.ehi[i])) free = true;
      if (free) return bad("L08.converged", "convergence claimed at a point whose gradient is not finite");
    }
    if (a.evals > 1 && s.clean_ls() && (a.task == OPK_TASK_NEW_X || a.task == OPK_TASK_FINAL_X) && s.iterates.size() >= 2 && ref_finite(s) && (std::isnan(s.f) || s.f == INF)) return bad("L08.accepted", "a point where the objective is not a number, or is +infinity, was accepted as an iterate");
  }
  if (!s.wildg && a.step < (s.P.single ? 1e25 : 1e100) && ok_task(a.task) && !finite(a.x)) return bad("L08.trial", "variables are not finite although all gradients were");
  for (int i = 0; i < s.P.n; ++i) if (a.x[i] < s.elo[i] || a.x[i] > s.ehi[i]) if (ok_task(a.task)) return bad("L08.bounds", "variables out of the bounds");
}

template <class F> void single(const Gen& G, F hook, bool guarded = false, long after = -1) {
  Plan p = draw_plan(G); if (after >= 0) p.after_final = after;
  note("plan %s", p.text().c_str());
  heap::reset(p.junk);
  { Session s(p); s.guarded = guarded; s.hook = hook;
    if (!s.open()) { count("constructor refused"); note("constructor refused: errno %d", errno); }
    else { s.run(); ev("end", s.task(), s.f); if (s.drv || s.vmo || s.cgo) { if (s.task() == OPK_TASK_FINAL_X) probe("run ended by convergence"); if (s.task() == OPK_TASK_ERROR || s.task() == OPK_TASK_WARNING) { probe("run ended by an error"); char b[60]; snprintf(b, sizeof b, "end status %d", s.status()); count(b); } } } }
  std::string why; if (!heap::check(&why)) fail("heap", "%s; plan: %s", why.c_str(), p.text().c_str());
}

void run_L01() { Gen g; g.nlcg = false; g.bounds = 2; g.max_eval = 120; single(g, [](Session& s, const Rec& b, const Rec& a) { nontrivial(); o_feasible(s, b, a); }); }
void run_L02() { Gen g; g.pact = 0.15; g.pfault = 0.2; g.max_eval = 120; single(g, o_descent); }
void run_L03() { Gen g; g.pfault = 0.15; g.pact = 0.15; g.max_eval = 150; single(g, o_converged); }
void run_L04() { Gen g; g.pact = 0.6; single(g, o_protocol); }
// The objective breaks down for good: the optimizer must give up by itself.
void breakdown() {
  Gen g; g.pfault = 0; g.pact = 0; Plan p = draw_plan(g); p.after_final = 0; p.restart_final = 0; p.max_eval = 6000; p.ef.clear(); p.act.clear();
  long at = 1 + (long)draw(12, "last good evaluation"); int kind = pick<int>({F_FNAN, F_FPINF, F_GNAN, F_GINF, F_GZERO}, "what it returns from then on"); EFault e; e.at = at; e.kind = kind; e.len = 1 << 30; e.elem = 0; p.ef.push_back(e);
  note("plan %s, broken after evaluation %ld", p.text().c_str(), at); heap::reset(p.junk);
  { Session s(p); s.hook = o_garbage; s.record = false;
    if (s.open()) { s.run(); ev("end", s.task(), s.f); if (s.drv || s.vmo || s.cgo) { if (s.evals() >= at) { nontrivial(); probe("objective broken for good"); count("evaluations after a breakdown", s.evals() - at); }
      if (s.evals() >= at + 4000) fail("L08.endless", "still asking for evaluations %ld calls after the objective function broke down (task %d); plan: %s", (long)s.evals() - at, s.task(), p.text().c_str()); } } }
  std::string why; if (!heap::check(&why)) fail("heap", "%s; plan: %s", why.c_str(), p.text().c_str()); }
void run_L08() { if (chance(1, 12, "objective breaks down for good")) return breakdown(); Gen g; g.pfault = 1.0; g.max_eval = 200; single(g, o_garbage); }

const char* RULE = "one evaluation = one simulated run (one seed); a run counts as distinct and non-trivial when its property's interesting region was reached and the hash of its complete event log (tasks, counters, all variables at all steps) differs from every other run";
Reg r1({"L01", run_L01, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r2({"L02", run_L02, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r3({"L03", run_L03, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r4({"L04", run_L04, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r8({"L08", run_L08, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
}
