// L13: the optimizers do what the line search tells them.  The line search is a
// simulated component (it implements the library's interface for line search
// methods) whose answers -- go on with this step, converged, warnings, errors,
// a refusal to start -- are decided by the scheduler.
#include "lm.h"
#include "opkpriv.h"
#include <cerrno>
#include <algorithm>
using namespace sim;
using namespace lm;
namespace {
struct Call { char k; double f, df, stp, smin, smax, out; int ret; };
struct State { std::vector<Call> calls; long finals = 0; bool deriv = false, reset = false; bool evil = true; };
struct SimLS { opk_lnsrch base; State* st; };
State* st(opk_lnsrch* l) { return ((SimLS*)l)->st; }
opk_lnsrch_task give(opk_lnsrch* l, opk_lnsrch_task t, opk_status s) { l->status = s; l->task = t; return t; }
opk_status some_error(const char* tag) { return pick<opk_status>({OPK_STEP_OUTSIDE_BRACKET, OPK_NOT_A_DESCENT, OPK_CORRUPTED_WORKSPACE, OPK_UNDEFINED_VALUE, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS, OPK_INSUFFICIENT_MEMORY}, tag); }
opk_status some_warning(const char* tag) { return pick<opk_status>({OPK_STEP_EQ_STPMIN, OPK_STEP_EQ_STPMAX, OPK_XTOL_TEST_SATISFIED, OPK_TOO_MANY_EVALUATIONS}, tag); }
opk_lnsrch_task ls_start(opk_lnsrch* l) {
  Call c{'s', l->finit, l->ginit, l->stp, l->stpmin, l->stpmax, l->stp, 0};
  opk_lnsrch_task t = OPK_LNSRCH_SEARCH; opk_status s = OPK_SUCCESS;
  if (st(l)->evil && chance(1, 40, "line search does not start")) { switch (draw(3, "how")) { case 0: t = OPK_LNSRCH_ERROR; s = some_error("reason"); break; case 1: t = OPK_LNSRCH_WARNING; s = some_warning("reason"); break; default: t = OPK_LNSRCH_WARNING; s = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; } fault("line search refuses to start"); }
  c.ret = t; st(l)->calls.push_back(c); return give(l, t, s);
}
opk_lnsrch_task ls_iterate(opk_lnsrch* l, double* stp, double f, double df) {
  Call c{'i', f, df, *stp, l->stpmin, l->stpmax, *stp, 0}; opk_lnsrch_task t = OPK_LNSRCH_CONVERGENCE; opk_status s = OPK_SUCCESS;
  uint64_t v = draw(64, "verdict of the line search");
  if (v < 28) {}
  else if (v < 56) { t = OPK_LNSRCH_SEARCH; double r = pick({0.5, 0.1, 2.0, 0.9, 1.5, 0.01, 4.0, 1e-6, 1.0, 0.0, 1e30}, "next step"); *stp *= r; c.out = *stp; }
  else if (!st(l)->evil || v < 60) { t = OPK_LNSRCH_WARNING; s = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; fault("line search warns about rounding errors"); }
  else if (v < 62) { t = OPK_LNSRCH_WARNING; s = some_warning("warning of the line search"); fault("line search ends with a warning"); }
  else { t = OPK_LNSRCH_ERROR; s = some_error("error of the line search"); fault("line search ends with an error"); }
  c.ret = t; st(l)->calls.push_back(c); return give(l, t, s);
}
void ls_finalize(opk_lnsrch* l) { st(l)->finals++; }
void ls_reset(opk_lnsrch* l) { st(l)->calls.push_back(Call{'r', 0, 0, 0, 0, 0, 0, 0}); }
opk_lnsrch_operations OPS[4];
bool ok_task(int t) { return t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X; }

// what is known about the search in progress
struct Path { bool on = false; Vec x0, g0; double f0 = 0, slope = 0, smax = 0; std::vector<char> lin, clip; Vec dref, sref, xref, sclip, vclip; };

void look(Session& s, opk_lnsrch* l, State& S, Path& p, const Rec& b, const Rec& a) {
  const Plan& P = s.P; const int n = P.n; std::vector<Call> C; C.swap(S.calls);
  auto bad = [&](const char* o, const char* what) { fail(o, "session %d, call %zu: %s; task %d -> %d, status %d, line search calls %zu (last %c -> %d, f %g df %g step %.9g [%g,%g] -> %.9g), step %.9g; plan: %s", s.id, s.hist.size(), what, b.task, a.task, a.status, C.size(), C.empty() ? '-' : C.back().k, C.empty() ? 0 : C.back().ret, C.empty() ? 0 : C.back().f, C.empty() ? 0 : C.back().df, C.empty() ? 0 : C.back().stp, C.empty() ? 0 : C.back().smin, C.empty() ? 0 : C.back().smax, C.empty() ? 0 : C.back().out, a.step, P.text().c_str()); };
  if (s.last == OPK_TASK_ERROR && a.status == OPK_ILLEGAL_ADDRESS && C.empty()) for (auto& c : P.act) if (s.drv && c.at == s.nstep && (c.kind == A_NULLX || c.kind == A_NULLG)) { p.on = false; return; } // refused arguments
  bool same = true; for (int i = 0; i < n; ++i) same = same && same_bits(a.x[i], b.x[i]);
  if (a.call == 's') {
    p.on = false; long r = 0; for (auto& c : C) { if (c.k == 'r') ++r; else return bad("L13.start", "the line search was used by start"); }
    if (S.reset && r != 1) return bad("L13.reset", "the line search was not told that a new optimization starts"); return; }
  for (auto& c : C) if (c.k == 'r') return bad("L13.reset", "the line search was told to forget everything in the middle of an optimization");
  if (C.size() > 1) return bad("L13.calls", "the line search was called more than once");
  bool finite = std::isfinite(s.f) && s.tame; for (double t : s.g) finite = finite && std::isfinite(t);
  const double eps = s.eps(), tiny = P.single ? 1e-44 : 1e-300; // denormal numbers are not that precise
  const double small = P.single ? 1e-25 : 1e-200;
  // the point where the objective is wanted next
  auto trial = [&](double stp, bool first) {
    if (!(finite && s.tame)) { p.on = false; return; }
    for (int i = 0; i < n; ++i) {
      double x = a.x[i], x0 = p.x0[i]; bool atb = x == s.elo[i] || x == s.ehi[i];
      if (!atb || first) {
        if (p.lin[i]) { double e = x0 - stp * p.dref[i], tol = 16 * eps * (std::fabs(x0) + std::fabs(x)) + stp / p.sref[i] * 16 * eps * (std::fabs(x0) + std::fabs(p.xref[i])) + tiny * (1 + stp / p.sref[i]);
          if (std::fabs(x - e) > tol) { char t[200]; snprintf(t, sizeof t, "the trial point is not on the search path: x[%d] = %.17g instead of %.17g +/- %g", i, x, e, tol); return bad("L13.path", t); } }
        if (p.clip[i] && stp >= p.sclip[i] * (1 + 1e-9) && !(std::fabs(x - p.vclip[i]) <= 16 * eps * (std::fabs(x) + std::fabs(x0)))) return bad("L13.path", "a variable left its bound for a longer step along the same direction");
      } else if (p.lin[i]) { double e = x0 - stp * p.dref[i], tol = 16 * eps * (std::fabs(x0) + std::fabs(x)) + stp / p.sref[i] * 16 * eps * (std::fabs(x0) + std::fabs(p.xref[i])) + tiny * (1 + stp / p.sref[i]);
        if (x == s.elo[i] ? e > x + tol : e < x - tol) return bad("L13.path", "a variable is at a bound which the step does not reach"); }
      if (!atb && stp > 0 && (!p.lin[i] || stp > p.sref[i])) { p.lin[i] = 1; p.dref[i] = (x0 - x) / stp; p.sref[i] = stp; p.xref[i] = x; }
      if (atb && x != x0 && (!p.clip[i] || stp < p.sclip[i])) { p.clip[i] = 1; p.sclip[i] = stp; p.vclip[i] = x; }
    } };
  if (b.task == OPK_TASK_NEW_X || b.task == OPK_TASK_FINAL_X) {
    p.on = false;
    if (a.task == OPK_TASK_ERROR && C.empty()) { // refused before any search
      opk_status e = opk_lnsrch_get_status(l); if (a.status == e && opk_lnsrch_get_task(l) == OPK_LNSRCH_ERROR) return; // the interface itself refused the search
      if (!(P.bounded() && a.status == OPK_WOULD_BLOCK) && a.status != OPK_INSUFFICIENT_MEMORY && finite && a.status != OPK_UNDEFINED_VALUE) return bad("L13.refused", "an error although the line search was not even started"); return; }
    if (C.empty()) { if (s.last == OPK_TASK_ERROR || a.task == b.task) return; return bad("L13.calls", "a trial point without starting a line search"); }
    const Call& c = C[0]; nontrivial();
    if (c.k != 's') return bad("L13.calls", "the line search was iterated instead of started");
    if (!same_bits(c.f, s.f)) return bad("L13.f0", "the search does not start with the value of the objective function");
    if (c.ret != OPK_LNSRCH_SEARCH) { if (a.task != OPK_TASK_ERROR && a.task != OPK_TASK_WARNING) return bad("L13.verdict", "the line search refused to start and the optimizer went on"); if (a.status != l->status) return bad("L13.status", "not the reason given by the line search"); probe("line search refused to start"); return; }
    if (a.task != OPK_TASK_COMPUTE_FG) return bad("L13.verdict", "the line search started but no evaluation is wanted");
    if (!same_bits(a.step, c.stp)) return bad("L13.step", "the step is not the one given to the line search");
    double rmin, rmax; if (P.opts_null) { if (P.vm) { opk_vmlmb_options o; opk_get_vmlmb_default_options(&o); rmin = o.stpmin; rmax = o.stpmax; } else { opk_nlcg_options o; opk_get_nlcg_default_options(&o); rmin = o.stpmin; rmax = o.stpmax; } } else { rmin = P.vm ? P.vo.stpmin : P.no.stpmin; rmax = P.vm ? P.vo.stpmax : P.no.stpmax; }
    if (s.tame && std::isfinite(c.stp) && c.stp < 1e100) {
      if (std::fabs(c.smin - rmin * c.stp) > 1e-9 * rmin * c.stp) return bad("L13.stpmin", "the lower limit of the step is not relative to the first step");
      if (c.smax > rmax * c.stp * (1 + 1e-9)) return bad("L13.stpmax", "the upper limit of the step is not relative to the first step");
      if (!P.bounded() && c.smax < rmax * c.stp * (1 - 1e-9)) return bad("L13.stpmax", "the upper limit of the step is not relative to the first step");
    }
    p.on = true; p.x0 = b.x; p.g0 = s.g; p.f0 = s.f; p.slope = c.df; p.smax = c.smax; p.lin.assign(n, 0); p.clip.assign(n, 0); p.dref.assign(n, 0); p.sref.assign(n, 1); p.xref.assign(n, 0); p.sclip.assign(n, INF); p.vclip.assign(n, 0);
    trial(c.stp, true); if (failed()) return;
    if (p.on && finite && c.stp > 0) { // the slope is the one of the search direction
      bool any = false; double d = 0, tol = 1e-290; for (int i = 0; i < n; ++i) { if (p.clip[i]) any = true; d += s.g[i] * (a.x[i] - b.x[i]) / c.stp; tol += std::fabs(s.g[i]) * (32 * eps * (std::fabs(a.x[i]) + std::fabs(b.x[i]))) / c.stp; }
      double mag = 0; for (int i = 0; i < n; ++i) mag += std::fabs(s.g[i] * (a.x[i] - b.x[i]) / c.stp); tol += 32 * eps * n * (mag + std::fabs(c.df));
      if (!any && mag > small && std::fabs(d - c.df) > tol) { char t[160]; snprintf(t, sizeof t, "the slope given to the line search is %.9g instead of %.9g +/- %g", c.df, d, tol); return bad("L13.slope", t); }
      if (!any) probe("slope at the start checked");
      // without bounds in the way, nothing but the relative limit restricts the step
      if (P.bounded() && c.smax < 1e30 && c.smax < rmax * c.stp * (1 - 1e-9)) for (int i = 0; i < n; ++i) if (p.lin[i] && a.x[i] != b.x[i] && std::fabs(a.x[i] - b.x[i]) > 1e3 * eps * (std::fabs(a.x[i]) + std::fabs(b.x[i]))) { double e = p.x0[i] - c.smax * (1 + 1e-3) * p.dref[i], t = 1e-2 * std::fabs(c.smax * p.dref[i]); if (e < s.ehi[i] - t && e > s.elo[i] + t) return bad("L13.stpmax", "the step is limited before all the variables are at their bounds"); }
    }
    return;
  }
  if (b.task == OPK_TASK_COMPUTE_FG) {
    if (b.evals == 0) { if (!C.empty()) return bad("L13.calls", "the line search was called for the first evaluation"); return; }
    if (C.empty()) { if (a.task == OPK_TASK_ERROR && opk_lnsrch_get_task(l) == OPK_LNSRCH_ERROR) return; return bad("L13.calls", "the line search was not called for an evaluation"); }
    const Call& c = C[0]; nontrivial();
    if (c.k != 'i') return bad("L13.calls", "the line search was started instead of iterated");
    if (!same_bits(c.f, s.f)) return bad("L13.f", "the line search was not given the value of the objective function");
    if (!same_bits(c.stp, b.step)) return bad("L13.step", "the line search was not given the current step");
    if (S.deriv && p.on && finite && c.stp > 0) {
      double d = 0, tol = 1e-290, mag = 0; bool any = false; for (int i = 0; i < n; ++i) { if (p.clip[i] || b.x[i] == s.elo[i] || b.x[i] == s.ehi[i]) any = true; double t = s.g[i] * (b.x[i] - p.x0[i]) / c.stp; d += t; mag += std::fabs(t) ; tol += std::fabs(s.g[i]) * (32 * eps * (std::fabs(b.x[i]) + std::fabs(p.x0[i]))) / c.stp; }
      tol += 32 * eps * n * mag; for (int i = 0; i < n; ++i) if (P.bounded()) tol += std::max(64 * 2.3e-16, eps) * n * std::fabs(s.g[i]) * (std::fabs(b.x[i]) + std::fabs(p.x0[i])) / c.stp;
      if (std::isfinite(d) && std::isfinite(tol) && (mag > small || std::fabs(c.df) > small) && !(std::fabs(d - c.df) <= tol)) { char t[160]; snprintf(t, sizeof t, "the derivative given to the line search is %.9g instead of %.9g +/- %g", c.df, d, tol); return bad("L13.derivative", t); }
      probe(any ? "derivative along the projected path checked" : "derivative checked");
    }
    opk_lnsrch_task t = opk_lnsrch_get_task(l); opk_status e = opk_lnsrch_get_status(l);
    bool ok = t == OPK_LNSRCH_CONVERGENCE || (t == OPK_LNSRCH_WARNING && e == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS && s.f <= p.f0);
    if (t == OPK_LNSRCH_SEARCH) {
      if (a.task != OPK_TASK_COMPUTE_FG) return bad("L13.verdict", "the search goes on but no evaluation is wanted");
      double want = std::min(std::max(c.out, c.smin), c.smax); if (!same_bits(a.step, want)) return bad("L13.step", "the next step is not the one wanted by the line search");
      if (p.on) trial(a.step, false); probe("search went on"); return;
    }
    bool on = p.on; p.on = false;
    if (!same) return bad("L13.moved", "the variables changed at the end of the line search");
    if (ok) {
      if (t == OPK_LNSRCH_WARNING && !on) return; // the reference value is unknown
      if (a.task != OPK_TASK_NEW_X && a.task != OPK_TASK_FINAL_X) return bad("L13.verdict", t == OPK_LNSRCH_WARNING ? "rounding errors at a point which is not worse must not be an error" : "the line search has converged but there is no new iterate");
      if (a.iters != b.iters + 1) return bad("L13.count", "the iterate was not counted"); if (t == OPK_LNSRCH_WARNING) probe("iterate accepted in spite of rounding errors"); return; }
    if (t == OPK_LNSRCH_WARNING && e == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS && !on) return;
    if (a.task != OPK_TASK_ERROR && a.task != OPK_TASK_WARNING) return bad("L13.verdict", "the line search failed and the optimizer went on");
    if (a.status != e) return bad("L13.status", "not the reason given by the line search");
    probe("line search failed"); return;
  }
  if (!C.empty()) return bad("L13.calls", "the line search was called after an error");
}

void run_L13() {
  Gen g; g.linesearch = false; g.pfault = 0.2; g.pact = 0.3; g.max_eval = 60; Plan p = draw_plan(g); p.ls.kind = 0;
  State S; S.deriv = chance(1, 2, "line search uses derivatives"); S.reset = !chance(1, 4, "line search without memory"); S.evil = !chance(1, 3, "mild line search");
  int k = (S.deriv ? 1 : 0) + (S.reset ? 2 : 0); OPS[k] = opk_lnsrch_operations(); OPS[k].finalize = ls_finalize; OPS[k].start = ls_start; OPS[k].iterate = ls_iterate; OPS[k].use_deriv = S.deriv ? OPK_TRUE : OPK_FALSE; OPS[k].reset = S.reset ? ls_reset : nullptr;
  note("plan %s, line search %s derivatives", p.text().c_str(), S.deriv ? "with" : "without"); heap::reset(p.junk);
  bool early = chance(1, 2, "caller keeps the line search"); long refs = 0;
  { Session s(p); opk_lnsrch* l = opk_allocate_line_search(&OPS[k], sizeof(SimLS)); if (!l) { fail("L13.allocate", "opk_allocate_line_search failed"); return; } ((SimLS*)l)->st = &S;
    s.use_ls = l; Path path; s.hook = [&](Session& t, const Rec& b, const Rec& a) { look(t, l, S, path, b, a); if (!failed()) o_protocol(t, b, a); if (!failed()) for (int i = 0; i < p.n; ++i) if (ok_task(a.task) && !(t.dirty_nan || !t.tame) && (a.x[i] < t.elo[i] || a.x[i] > t.ehi[i])) fail("L13.feasible", "x[%d] = %.17g is out of its bounds; plan: %s", i, a.x[i], p.text().c_str()); };
    OPK_HOLD(l);
    if (s.open()) { if (!early) { } s.run(); ev("end", s.task(), s.f); }
    s.close(); refs = OPK_REFS(l); if (refs != 2) fail("L13.refs", "%ld references to the line search instead of 2 once the optimizer is gone", refs);
    if (S.finals) fail("L13.finalize", "the line search was destroyed while the caller still uses it");
    OPK_DROP(l); OPK_DROP(l); }
  if (!failed() && S.finals != 1) fail("L13.finalize", "the line search was destroyed %ld times", S.finals);
  std::string why; if (!heap::check(&why)) fail("L13.heap", "%s; plan: %s", why.c_str(), p.text().c_str());
}
const char* RULE = "one evaluation = one simulated run (one seed); a run counts as distinct and non-trivial when a line search was started or iterated and the hash of its complete event log (tasks, counters, all variables at all steps) differs from every other run";
Reg r13({"L13", run_L13, 800000, 8000000, RULE, "driver.c vmlmb.c nlcg.c algebra.c fltvector.c dblvector.c simple_vector.c utils.c, the interface part of lnsrch.c", "the line search method (simulated: its verdicts are decided by the scheduler), objective functions and callers (simulated), malloc/free (heap model of the simulator)"});
}
