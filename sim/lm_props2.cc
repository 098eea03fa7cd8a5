// Properties of the limited-memory optimizers that compare executions: L05..L07, L09..L11.
#include "lm.h"
#include <cerrno>
#include <memory>
#include <algorithm>
using namespace sim;
using namespace lm;
namespace {
const char* LM_REAL = "driver.c vmlmb.c nlcg.c lnsrch.c algebra.c fltvector.c dblvector.c simple_vector.c utils.c";
const char* LM_STUB = "objective functions and callers (simulated), scheduling and clock (simulated), malloc/free (heap model of the simulator), user-supplied vector space (simulated caller code)";
const char* RULE = "one evaluation = one simulated run (one seed); a run counts as distinct and non-trivial when its property's interesting region was reached and the hash of its complete event log (schedule, tasks, counters, all variables at all steps) differs from every other run";

std::string diff(const Rec& a, const Rec& b) {
  char t[600]; int k = snprintf(t, sizeof t, "task %d/%d status %d/%d evals %ld/%ld iters %ld/%ld restarts %ld/%ld step %.17g/%.17g gnorm %.17g/%.17g", a.task, b.task, a.status, b.status, a.evals, b.evals, a.iters, b.iters, a.restarts, b.restarts, a.step, b.step, a.gnorm, b.gnorm);
  for (size_t i = 0; i < a.x.size() && i < b.x.size(); ++i) if (!same_bits(a.x[i], b.x[i])) { snprintf(t + k, sizeof t - k, " x[%zu] %.17g/%.17g", i, a.x[i], b.x[i]); break; }
  return t;
}
bool same_hist(const std::vector<Rec>& a, size_t ia, const std::vector<Rec>& b, size_t ib, std::string* why) {
  size_t n = std::min(a.size() - ia, b.size() - ib);
  for (size_t k = 0; k < n; ++k) if (!(a[ia + k] == b[ib + k])) { *why = "call " + std::to_string(k) + ": " + diff(a[ia + k], b[ib + k]); return false; }
  if (a.size() - ia != b.size() - ib) { *why = "one history has " + std::to_string(a.size() - ia) + " calls, the other " + std::to_string(b.size() - ib); return false; }
  return true;
}
void heap_clean(const char* o, const std::string& t) { std::string why; if (!heap::check(&why)) fail(o, "%s; %s", why.c_str(), t.c_str()); }

// ------------------------------------------------------------------ L05
void run_L05() {
  int K = 2 + (int)draw(3, "sessions-2");
  bool cluster = chance(1, 3, "sessions share a vector space");
  // reentrant: the operations implemented by the caller (vectors, sets, line searches) let the others go on
  bool within = !cluster && chance(1, 4, "switches inside of the calls");
  Gen G; G.max_eval = 40; G.pfault = 0.3; G.pact = 0.3; if (within) G.driver = chance(1, 2, "driver");
  std::vector<Plan> P;
  for (int k = 0; k < K; ++k) {
    Plan p = draw_plan(G);
    if (cluster) {
      if (k == 0) { if (p.api == 0 || p.api == 3) p.api = 1; p.vm = true; }
      else { const Plan& q = P[0]; if (p.n != q.n) { p = q; p.x0 = Vec(q.n); Bulk bulk(q.n > 48); for (auto& t : p.x0) t = round_to(q.single, sreal(4, "x0", 256)); p.obj = draw_obj(q.n, 8, 2); for (auto& e : p.ef) e.elem %= q.n; p.vo.mem = 1 + draw(6, "mem"); p.vo.blmvm = draw(2, "blmvm") ? OPK_TRUE : OPK_FALSE; }
             p.api = q.api; p.single = q.single; p.lo = q.lo; p.hi = q.hi; if (p.bounded()) p.vm = true; if (p.single) for (auto& t : p.x0) t = round_to(true, t); }
    }
    if (within) { p.userset = p.bounded() && p.vm && p.api != 0 && chance(1, 2, "set of the user"); p.userls = p.ls.kind && chance(1, 2, "line search of the user"); for (auto& a : p.act) if (a.kind == A_OOM) a.kind = A_QUERY; } // a refused allocation would hit the others too
    note("session %d: %s", k, p.text().c_str()); P.push_back(p);
  }
  // each one alone
  std::vector<std::vector<Rec>> solo(K);
  for (int k = 0; k < K; ++k) {
    heap::reset(P[k].junk); Session s(P[k], k); s.record = true;
    if (s.open()) s.run(); solo[k] = s.hist; s.close(); if (failed()) return;
  }
  // together, in an order decided by the clock
  heap::reset(draw(64, "junk of the shared heap"));
  std::vector<std::unique_ptr<Session>> S; std::vector<double> when(K, 0); std::vector<int> state(K, 0);
  opk_vspace* vs = nullptr; opk_convexset* box = nullptr; std::unique_ptr<Session> owner;
  if (cluster) { owner.reset(new Session(P[0], 100)); owner->record = false; if (owner->open()) { vs = owner->vs; box = owner->box; } }
  for (int k = 0; k < K; ++k) { S.emplace_back(new Session(P[k], k)); if (vs) { S[k]->use_vs = vs; if (box && P[k].vm) S[k]->use_box = box; } when[k] = real(0, 1, "arrival", 16); }
  if (vs) probe("sessions share a vector space"); if (box) probe("sessions share a box");
  int nopen = 0; long switches = 0; int lastk = -1; uint64_t order = 0; double clock = 0;
  struct Off { ~Off() { inside = nullptr; } } off; std::vector<std::unique_ptr<Coro>> co(K); std::vector<char> more_(K, 1); int cur = -1; long cut = 0;
  unsigned every = 1 + (unsigned)draw(8, "switch one operation out of");
  if (within) inside = [&]() { if (cur < 0 || !chance(1, every + 1, "switch here")) return; int me = cur, e = errno; ++cut; co[me]->yield(); errno = e; };
  for (;;) {
    int k = -1; for (int i = 0; i < K; ++i) if (state[i] < 2 && (k < 0 || when[i] < when[k])) k = i;
    if (k < 0) break;
    clock = when[k];
    if (k != lastk) { ++switches; lastk = k; } order = mix(order, k);
    bool more = true;
    if (state[k] == 0) { state[k] = S[k]->open() ? 1 : 2; ++nopen; if (owner && nopen == K) owner->close(); if (state[k] == 2) continue; }
    else if (within) {
      if (!co[k]) co[k].reset(new Coro([&, k](Coro&) { more_[k] = S[k]->step(); }));
      cur = k; co[k]->resume(); cur = -1;
      if (!co[k]->done()) { if (failed()) return; when[k] = clock + P[k].latency * (double)draw(4, "time spent in the operation"); continue; }
      co[k].reset(); more = more_[k];
    }
    else more = S[k]->step();
    if (failed()) return;
    double lat = P[k].latency * (1 + (double)draw(8, "latency jitter"));
    if (P[k].stall > 0 && chance(1, 10, "stalled evaluation")) { lat += P[k].stall; fault("stalled caller"); }
    when[k] = clock + lat;
    if (!more) { state[k] = 2; if (chance(1, 2, "destroy early")) S[k]->close(); }
  }
  count("context switches", switches); state_token(order); if (cut) { probe("switches inside of a call"); count("switches inside of calls", cut); }
  for (int k = 0; k < K; ++k) { std::string why; if (!same_hist(solo[k], 0, S[k]->hist, 0, &why)) { fail("L05.interference", "session %d behaves differently when interleaved with %d others (alone/interleaved): %s; plan: %s", k, K - 1, why.c_str(), P[k].text().c_str()); return; } if (solo[k].size() > 4) nontrivial(); }
  for (auto& s : S) s->close(); if (owner) owner->close();
  heap_clean("L05.heap", "interleaved sessions");
  if (heap::live() != 0) fail("L05.leak", "%ld blocks are still allocated after everything was released", heap::live());
}

// ------------------------------------------------------------------ L06
void run_L06() {
  Gen G; G.max_eval = 40; G.pfault = 0.6; G.pact = 0.5;
  Plan p = draw_plan(G); p.max_eval = 1 + draw(40, "evaluations before the restart");
  Plan q = p; // the second problem
  if (chance(1, 2, "another starting point")) for (auto& t : q.x0) t = round_to(p.single, sreal(4, "x0", 256));
  bool other = chance(1, 3, "another objective"); if (other) { Bulk bulk(p.n > 48); q.obj = draw_obj(p.n, 8, 2); }
  q.ef.clear(); q.act.clear(); q.obj.wall = 0; q.max_eval = 40; q.junk = draw(64, "junk of the fresh optimizer"); q.stop_on_error = true;
  if (!other) q.obj.wall = 0;
  Plan pa = p; note("plan %s", p.text().c_str());
  heap::reset(p.junk);
  std::vector<Rec> first;
  { Session s(pa); if (!s.open()) return; s.run(); if (s.finals > 0) probe("restarted after convergence");
    int t = s.task(); if (t == OPK_TASK_ERROR || t == OPK_TASK_WARNING) probe("restarted after an error"); else if (t == OPK_TASK_COMPUTE_FG) probe("restarted in the middle of a line search");
    fault("restart");
    long e0 = s.neval; (void)e0;
    // same optimizer, new start
    pa.obj = q.obj; pa.stop_on_error = true; s.quiet = true; s.neval = 0; s.limit = q.max_eval; s.finals = 0; s.dead = false; s.nstep = 0;
    for (int i = 0; i < p.n; ++i) { s.setx(i, q.x0[i]); s.setg(i, 0); } s.f = 0;
    size_t mark = s.hist.size();
    s.start(); while (s.step()) {}
    first.assign(s.hist.begin() + mark, s.hist.end());
  }
  heap::reset(q.junk);
  Session s2(q); if (!s2.open()) { fail("L06.open", "the constructor refused what it had accepted"); return; }
  for (int i = 0; i < p.n; ++i) s2.setg(i, 0);
  s2.quiet = true; s2.start(); s2.nstep = 0; while (s2.step()) {}
  // the step length and the gradient norm are only defined once computed
  auto norm = [](std::vector<Rec>& h) { bool stepok = false; for (auto& r : h) { if (r.evals == 0) r.gnorm = 0; if (r.task == OPK_TASK_COMPUTE_FG && r.evals > 0) stepok = true; if (!stepok) r.step = 0; } };
  norm(first); norm(s2.hist);
  std::string why; if (!same_hist(first, 0, s2.hist, 0, &why)) fail("L06.differs", "an optimizer started again behaves differently from a fresh one (again/fresh): %s; plan: %s", why.c_str(), p.text().c_str());
  if (first.size() > 3) nontrivial();
}

// ------------------------------------------------------------------ L07
void run_L07() {
  Gen G; G.singles = false; G.pfault = 0.7; G.pact = 0.4; G.maxfam = 5; G.condpow = 2; G.options = true; G.linesearch = false; G.max_eval = 30; G.maxn = 10;
  Plan p = draw_plan(G);
  // convex objectives with a Lipschitz gradient around the minimum, and default line search and tolerances
  if (p.obj.family == 2) p.obj.family = 0;
  if (p.obj.family == 3 && p.obj.b == 0) p.obj.b = 1;
  if (p.obj.family == 4) for (auto& t : p.obj.c) t *= 0.5;
  { opk_vmlmb_options v; opk_nlcg_options c; opk_get_vmlmb_default_options(&v); opk_get_nlcg_default_options(&c);
    v.mem = p.vo.mem; v.blmvm = p.vo.blmvm; v.save_memory = p.vo.save_memory; c.flags = p.no.flags; { unsigned r = c.flags & 255; if (r == OPK_NLCG_FLETCHER_REEVES || r == OPK_NLCG_FLETCHER || r == OPK_NLCG_DAI_YUAN || r == OPK_NLCG_HESTENES_STIEFEL) c.flags = OPK_NLCG_DEFAULT; } p.vo = v; p.no = c; p.opts_null = false; }
  if (std::fabs(p.obj.off) > 10) p.obj.off = 10;
  if (p.vanish) { // only when the objective function can resolve what is to be gained from there
    p.obj.vanish_at(p.first()); Vec x = p.first(), g; p.obj.eval(x, g); double am = 0, gain = 0; for (double t : p.obj.a) am = std::max(am, t);
    for (int i = 0; i < p.n; ++i) { double room = g[i] > 0 ? (p.lo.type ? x[i] - eff(p.lo, i, p.single) : INF) : (p.hi.type ? eff(p.hi, i, p.single) - x[i] : INF); gain += std::fabs(g[i]) * std::min(room, std::fabs(g[i]) / am); if (room > 0 && room < 1e-6) gain = -INF; }
    if (!(gain > 1e-6 * (std::fabs(p.obj.off) + am))) { p.vanish = false; p.obj.off = 1; } else probe("objective exactly zero where the caller starts"); }
  { // the tolerance is above the rounding noise of the objective function
    double am = 0; for (double t : p.obj.a) am = std::max(am, t * (p.obj.family == 3 ? 50 : 1)); Vec g; double f0 = std::fabs(p.obj.eval(p.x0, g));
    p.vo.gatol = p.no.gatol = (p.obj.family == 4 ? 500 : 100) * std::sqrt(2 * am * 2.3e-16 * std::max(p.obj.family == 4 ? am * p.n : 0, std::max(std::fabs(p.obj.off), f0))) + 1e-9; }
  note("plan %s", p.text().c_str());
  heap::reset(p.junk);
  Session s(p); if (!s.open()) { fail("L07.open", "constructor failed"); return; }
  s.run(); // with faults
  bool err = s.task() == OPK_TASK_ERROR || s.task() == OPK_TASK_WARNING;
  // faults stop; the caller restarts from where it is, or from its first point
  s.quiet = true; s.dead = false; s.finals = 0; long n0 = s.neval; const long BUDGET = 3000; s.limit = n0 + BUDGET;
  { bool wild = chance(1, 3, "restart from the first point") || p.vanish; for (int i = 0; i < p.n; ++i) if (!(std::fabs(s.getx(i)) < 1e3)) wild = true; if (wild) for (int i = 0; i < p.n; ++i) s.setx(i, p.x0[i]); }
  // when the objective is zero the documented first step is relative to the variables: they are not tiny without being zero
  for (int i = 0; i < p.n; ++i) if (std::fabs(s.getx(i)) < 1e-8) s.setx(i, 0);
  // nor are they within the rounding errors of a bound without being there
  for (int i = 0; i < p.n; ++i) { double v = s.getx(i); if (v != s.elo[i] && std::fabs(v - s.elo[i]) < 1e-9 * (1 + std::fabs(v))) { s.setx(i, s.elo[i]); probe("restart moved to a bound"); } else if (v != s.ehi[i] && std::fabs(v - s.ehi[i]) < 1e-9 * (1 + std::fabs(v))) { s.setx(i, s.ehi[i]); probe("restart moved to a bound"); } }
  fault("faults stop, restart");
  s.start();
  Plan& mp = const_cast<Plan&>(s.P); mp.stop_on_error = true; mp.after_final = 0;
  while (s.step()) {}
  long used = s.neval - n0;
  if (getenv("L07STAT")) { char b[80]; snprintf(b, sizeof b, "L07 fam%d %s b%d t%d st%d", p.obj.family, p.vm ? "vm" : "cg", p.bounded(), s.task(), s.status()); count(b); int k = 0; while ((1 << k) < used) ++k; snprintf(b, sizeof b, "L07 used %s %x 2^%02d", p.vm ? "vm" : "cg", p.vm ? 0 : p.no.flags & 255, k); count(b); }
  else {
    if (s.task() != OPK_TASK_FINAL_X) {
      // nothing that the objective function can resolve is left to be gained?
      Vec xb; if (!s.iterates.empty()) xb = s.iterates.back().x; else xb = s.x; Vec gb; double fb = p.obj.eval(xb, gb), gain = 0, am = 0, gg = 0; bool close = false; for (double t : p.obj.a) am = std::max(am, t);
      for (int i = 0; i < p.n; ++i) { double room = gb[i] > 0 ? xb[i] - s.elo[i] : s.ehi[i] - xb[i]; if (room > 0 && room < 1e-12 * (1 + std::fabs(xb[i]))) close = true; if (room > 1e-12 * (1 + std::fabs(xb[i]))) gg = std::hypot(gg, gb[i]); else gain += std::fabs(gb[i]) * room; }
      if (close) count("L07 within the rounding errors of a bound"); // every descent along the projected gradient is cut there
      else if (gg <= p.grtol() * s.g0norm || gg <= p.gatol()) { probe("stopped within the rounding errors of the solution"); count("L07 rounding"); }
      else fail("L07.stuck", "no convergence after %ld fault-free evaluations: task %d status %d iterations %ld |g| = %g gain %g; plan: %s", used, s.task(), s.status(), s.iters(), gg, gain, p.text().c_str());
    }
  }
  nontrivial(); if (err) probe("faulty part ended by an error"); count("evaluations until convergence", used);
  ev("end", s.task(), s.f, (double)used);
}

// ------------------------------------------------------------------ L09
void run_L09() {
  Gen G; G.custom = false; G.max_eval = 40; G.pfault = 0.3; G.pact = 0.4;
  Plan p = draw_plan(G); note("plan %s", p.text().c_str());
  if (p.api == 1) p.api = 2;
  bool oom = false; for (auto& c : p.act) oom |= c.kind == A_OOM;
  bool still = !oom && chance(1, 4, "compare with arrays which stay in place"); std::vector<Rec> moved; Plan q = p; q.act.clear(); for (auto& c : p.act) { CAct k = c; if (k.kind == A_RELOC) k.kind = A_NONE; q.act.push_back(k); }
  heap::reset(p.junk);
  { Session s(p); s.guarded = true;
    s.hook = [&](Session& t, const Rec& b, const Rec& a) {
      nontrivial();
      if (!t.mx.intact() || !t.mg.intact()) fail("L09.outside", "bytes next to the caller's arrays were written; plan: %s", p.text().c_str());
      for (size_t i = 0; i < a.g.size(); ++i) if (!same_bits(a.g[i], b.g[i])) { fail("L09.gradient", "the caller's gradient was modified by the library at call %zu; plan: %s", t.hist.size(), p.text().c_str()); return; }
      auto stat = [](opk_bound_type k) { return k == OPK_BOUND_STATIC_FLOAT || k == OPK_BOUND_STATIC_DOUBLE; };
      for (int side = 0; side < 2; ++side) { const Bnd& B = side ? p.hi : p.lo; Guarded& m = side ? t.mhi : t.mlo; if (!stat(B.type)) continue; probe("static bounds");
        if (!m.intact()) fail("L09.bounds", "bytes next to the caller's bounds were written");
        for (int i = 0; i < p.n; ++i) { double v = B.type == OPK_BOUND_STATIC_FLOAT ? (double)m.as<float>()[i] : m.as<double>()[i]; double w = B.type == OPK_BOUND_STATIC_FLOAT ? (double)(float)B.v[i] : B.v[i]; if (!same_bits(v, w)) { fail("L09.bounds", "the caller's bounds were modified by the library"); return; } } }
    };
    if (s.open()) {
      while (s.step()) { }
      if (still) moved = s.hist;
      // the arrays of the caller are still there after the optimizer is gone, and nobody looks at them any more
      Vec a = s.xs(); int n = p.n; bool one = p.junk & 8;
      if (one) { s.mx.revoke(); s.mg.revoke(); s.mlo.revoke(); s.mhi.revoke(); }
      s.close();
      if (!one) for (int i = 0; i < n; ++i) if (!same_bits(s.getx(i), a[i])) fail("L09.after", "variables changed when the optimizer was destroyed");
    } }
  if (still && !failed() && !moved.empty()) { // the same caller, whose arrays do not move
    Session s(q); if (s.open()) { s.run(); std::string why; if (!same_hist(moved, 0, s.hist, 0, &why)) fail("L09.place", "moving the arrays between the calls changes what the optimizer does (moving/staying): %s; plan: %s", why.c_str(), p.text().c_str()); else probe("compared with arrays which stay in place"); } }
  heap_clean("L09.heap", p.text());
}

// ------------------------------------------------------------------ L10
typedef std::vector<double> V;
V sub(const V& a, const V& b) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
V mul(const V& a, const V& b) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] *= b[i]; return r; }
void axpy(V& d, double a, const V& x) { for (size_t i = 0; i < d.size(); ++i) d[i] += a * x[i]; }
struct Ref { // textbook model of what the next trial point must be
  std::vector<std::pair<V, V>> pairs; bool have = false; V x0, g0, d; double dtg0 = 0, alpha = 0, g0n = 0; bool lost = false; long iters = 0; int age = 0;
  void reset() { pairs.clear(); have = false; lost = false; iters = 0; age = 0; }
};
struct Out { bool steep = true, hard = false; V d; double dtg = 0, stp = 0, gn = 0, slope = 0, beta = 0, beta_scale = 0; const char* kind = "steepest descent"; };
unsigned nflags(const Plan& P) { return P.opts_null || P.no.flags == 0 ? OPK_NLCG_DEFAULT : P.no.flags; }
// What the textbook says of the next trial point, from the current iterate and the memory R.
Out textbook(const Session& s, const Ref& R, const V& x, const V& g, double f) {
  const Plan& P = s.P; int n = P.n; Out o; double gn = o.gn = s.pgnorm(x, g), gg = norm2(g);
  bool bounded = P.bounded(), blmvm = bounded && P.vo.blmvm && !P.opts_null, vmlmb = bounded && !blmvm;
  V w = bounded ? s.freemask(x, g) : V(n, 1.0); V gp = bounded ? mul(w, g) : g;
  double eps = P.opts_null ? 0 : P.vm ? P.vo.epsilon : P.no.epsilon, delta = P.opts_null ? 5e-2 : P.vm ? P.vo.delta : P.no.delta;
  unsigned fl = nflags(P);
  V d;
  auto judge = [&]() { // enough descent?
    o.steep = false; double dtg = o.dtg = o.slope = -dot(d, g), nd = norm2(d);
    if (std::fabs(dtg) <= 1e-7 * nd * gg) o.hard = true; if (dtg >= 0) o.steep = true;
    if (eps > 0) { double lim = eps * nd * gn; if (std::fabs(-dtg - lim) <= 1e-7 * (lim + std::fabs(dtg))) o.hard = true; if (-dtg < lim) o.steep = true; } };
  if (P.vm) {
    d = g; std::vector<double> rho, al; double gamma = 0; std::vector<std::pair<V, V>> use;
    for (auto& p : R.pairs) { V S = p.first, Y = p.second; if (vmlmb) { S = mul(w, S); Y = mul(w, Y); }
      double sy = dot(S, Y), ns = norm2(p.first), ny = norm2(p.second);
      if (std::fabs(sy) <= 1e-9 * ns * ny && ns > 0 && ny > 0 && (sy != 0 || dot(mul(S, S), mul(Y, Y)) != 0)) o.hard = true;
      if (sy > 0) { use.push_back({S, Y}); rho.push_back(1 / sy); if (gamma == 0) gamma = sy / dot(Y, Y); if (gamma > 1e12 || gamma < 1e-12) o.hard = true; } }
    if (!use.empty()) {
      if (vmlmb) d = mul(w, d);
      for (size_t j = 0; j < use.size(); ++j) { al.push_back(rho[j] * dot(d, use[j].first)); axpy(d, -al[j], use[j].second); }
      for (auto& t : d) t *= gamma;
      for (size_t j = use.size(); j-- > 0;) { double be = rho[j] * dot(d, use[j].second); axpy(d, al[j] - be, use[j].first); }
      if (bounded) for (int i = 0; i < n; ++i) { double e = -d[i]; if ((e < 0 && !(x[i] > s.elo[i])) || (e > 0 && !(x[i] < s.ehi[i]))) d[i] = 0; }
      judge(); o.kind = vmlmb ? "VMLMB direction checked" : blmvm ? "BLMVM direction checked" : "L-BFGS direction checked";
    }
  } else if (R.have) {
    unsigned rule = fl & 255; V p = R.d; for (auto& t : p) t = -t; V y = sub(g, R.g0);
    double gty = dot(g, y), pty = dot(p, y), yty = dot(y, y), ptg = dot(p, g), beta = 0; bool up1 = true, upd = true; V q;
    switch (rule) {
    case OPK_NLCG_HESTENES_STIEFEL: beta = pty != 0 ? gty / pty : 0; break;
    case OPK_NLCG_POLAK_RIBIERE_POLYAK: beta = gty / (R.g0n * R.g0n); break;
    case OPK_NLCG_LIU_STOREY: beta = -gty / R.dtg0; break;
    case OPK_NLCG_DAI_YUAN: beta = pty != 0 ? gn * gn / pty : 0; break;
    case OPK_NLCG_HAGER_ZHANG: beta = pty != 0 ? (gty - 2 * yty * ptg / pty) / pty : 0; break;
    case OPK_NLCG_FLETCHER_REEVES: beta = gn * gn / (R.g0n * R.g0n); up1 = false; break;
    case OPK_NLCG_FLETCHER: beta = -gn * gn / R.dtg0; up1 = false; break;
    case OPK_NLCG_PERRY_SHANNO: if (yty <= 0 || pty == 0) { upd = false; break; } q.assign(n, 0); axpy(q, -pty / yty, g); axpy(q, gty / yty - 2 * ptg / pty, p); axpy(q, ptg / yty, y); beta = (gty - 2 * yty * ptg / pty) / pty; o.beta_scale = std::fabs(gty / pty) + std::fabs(2 * yty * ptg / pty / pty); break;
    }
    if (std::fabs(gty) <= 1e-9 * gg * norm2(y) || std::fabs(pty) <= 1e-9 * norm2(p) * norm2(y)) o.hard = true;
    if (rule != OPK_NLCG_PERRY_SHANNO) { if (up1 && (fl & OPK_NLCG_POWELL) && beta < 0) { beta = 0; if (oracle_on("L10")) probe("Powell's prescription applied"); } if (beta == 0) upd = false; else { q.assign(n, 0); axpy(q, -1, g); axpy(q, beta, p); if (norm2(q) <= 1e-6 * gg) o.hard = true; } if (std::fabs(beta) > 1e7) o.hard = true; }
    o.beta = beta; if (upd) { d = q; for (auto& t : d) t = -t; judge(); o.kind = "conjugate gradient direction checked"; }
  }
  if (o.steep) {
    d = gp; o.dtg = -gn * gn; o.kind = "steepest descent";
    if (!P.vm && !P.opts_null && P.no.fmin_given && P.no.fmin < f) o.stp = 2 * (P.no.fmin - f) / o.dtg;
    else if (f != 0) o.stp = 2 * std::fabs(f / o.dtg);
    else { double xn = norm2(bounded ? mul(w, x) : x); o.stp = xn > 0 ? delta * xn / gn : delta / gn; }
  } else { o.stp = P.vm ? 1.0 : R.alpha; if (!P.vm && (fl & OPK_NLCG_SHANNO_PHUA)) o.stp = R.alpha * R.dtg0 / o.dtg; }
  if (bounded) { // no need to go farther than where all the variables are at a bound
    double bs = 0, bs2 = 0, nd = norm2(d); for (int i = 0; i < n; ++i) { double e = -d[i], t = e > 0 ? (s.ehi[i] - x[i]) / e : e < 0 ? (s.elo[i] - x[i]) / e : 0; bs = std::max(bs, t); if (std::fabs(e) > 1e-9 * nd) bs2 = std::max(bs2, t); }
    if (std::min(bs, o.stp) != std::min(bs2, o.stp)) o.hard = true; // decided by a component which is pure rounding error
    if (o.stp > bs) { o.stp = bs; if (oracle_on("L10")) probe("step limited by the bounds"); }
  }
  o.d = d; return o;
}
void o_model(Ref& R, Session& s, const Rec& b, const Rec& a) {
  const Plan& P = s.P; int n = P.n;
  if (a.call == 's') { R.reset(); return; }
  if (b.task == OPK_TASK_ERROR || b.task == OPK_TASK_WARNING || a.task == OPK_TASK_ERROR || a.task == OPK_TASK_WARNING) return;
  if (b.task != OPK_TASK_NEW_X && b.task != OPK_TASK_FINAL_X) return;
  if (a.task != OPK_TASK_COMPUTE_FG || R.lost) return;
  if (!s.tame || s.dirty_nan) { R.lost = true; return; }
  const V& x = b.x; V g = s.g; double f = s.f, gn = s.pgnorm(x, g);
  { bool far = !(gn > 1e-40 && gn < 1e40); for (int i = 0; i < n; ++i) if (!(std::fabs(x[i]) < 1e40)) far = true; if (R.have && !P.vm && !(norm2(R.d) < 1e40 && norm2(R.d) > 1e-40)) far = true; if (far) { R.lost = true; return; } }
  bool blmvm = P.bounded() && P.vo.blmvm && !P.opts_null; V ge = blmvm ? mul(s.freemask(x, g), g) : g;
  bool first = !R.have;
  if (P.vm && R.have) { // every accepted step contributes a pair
    long m = P.opts_null ? 5 : (long)P.vo.mem; if (m > n) m = n;
    R.pairs.insert(R.pairs.begin(), {sub(x, R.x0), sub(ge, R.g0)}); if ((long)R.pairs.size() > m) R.pairs.pop_back();
  }
  Out o = textbook(s, R, x, g, f);
  // is this outcome robust to rounding errors?
  uint64_t h = 1;
  for (int k = 0; k < 3 && !o.hard; ++k) {
    Ref Q = R; auto pv = [&](V& v) { for (auto& t : v) t *= 1 + 1e-13 * ((double)(mix(++h, 77) % 2001) / 1000 - 1); };
    for (auto& p : Q.pairs) { pv(p.first); pv(p.second); } pv(Q.d); pv(Q.g0); V sc{Q.dtg0, Q.g0n, Q.alpha}; pv(sc); Q.dtg0 = sc[0]; Q.g0n = sc[1]; Q.alpha = sc[2]; V g2 = g; pv(g2);
    Out e = textbook(s, Q, x, g2, f);
    if (e.hard || e.steep != o.steep || !(std::fabs(e.stp - o.stp) <= 1e-8 * o.stp) || !(norm2(sub(e.d, o.d)) <= 1e-8 * norm2(o.d))) o.hard = true;
  }
  auto bad = [&](const char* orc, const std::string& w) { fail(orc, "session %d, iterate %ld, call %zu: %s; plan: %s", s.id, b.iters, s.hist.size(), w.c_str(), P.text().c_str()); };
  if (o.hard) { R.lost = true; count("model lost (ill-conditioned)"); return; }
  bool lib_steep = first || a.restarts > b.restarts;
  if (lib_steep != o.steep) { char t[200]; snprintf(t, sizeof t, "the optimizer %s although the model direction has slope %.9g (|g| %.9g, %zu pairs)", lib_steep ? "fell back to the steepest descent" : "did not fall back to the steepest descent", o.slope, gn, R.pairs.size()); return bad("L10.restart", t); }
  probe(o.steep ? first ? "first iteration" : "steepest descent restart" : o.kind);
  if (o.steep && P.vm) R.pairs.clear();
  if (!(std::fabs(a.step - o.stp) <= 1e-5 * o.stp)) { char t[200]; snprintf(t, sizeof t, "initial step %.17g, expected %.17g (%s)", a.step, o.stp, o.kind); return bad("L10.step", t); }
  V xm(x); axpy(xm, -o.stp, o.d); if (P.bounded()) xm = s.project(xm);
  double nd = 0, nx = 0; for (int i = 0; i < n; ++i) { nd = std::max(nd, std::fabs(o.stp * o.d[i])); nx = std::max(nx, std::fabs(x[i])); }
  for (int i = 0; i < n; ++i) if (!(std::fabs(a.x[i] - xm[i]) <= 1e-5 * nd + 1e-13 * nx)) { char t[300]; snprintf(t, sizeof t, "trial x[%d] = %.17g, the model (%s, %zu pairs) says %.17g (step %.9g, displacement scale %.3g)", i, a.x[i], o.kind, R.pairs.size(), xm[i], o.stp, nd); return bad("L10.direction", t); }
  if (s.cgo && !P.vm) { // parameter of the update
    double be = opk_get_nlcg_beta(s.cgo), want = o.steep ? 0 : o.beta, sc = o.steep ? 0 : (nflags(P) & 255) == OPK_NLCG_PERRY_SHANNO ? o.beta_scale : norm2(o.d) / norm2(R.d);
    if (!(std::fabs(be - want) <= 1e-5 * sc)) { char t[200]; snprintf(t, sizeof t, "beta is %.17g, expected %.17g (%s)", be, want, o.kind); return bad("L10.beta", t); }
  }
  nontrivial();
  R.have = true; R.x0 = x; R.g0 = ge; R.d = o.d; R.dtg0 = o.dtg; R.g0n = gn; R.alpha = a.step;
  // follow the library's own rounding so that errors do not accumulate from one iteration to the next
  if (!P.vm && a.step > 0) { bool okd = true; V dd = sub(x, a.x); double m = std::fabs(a.step) * norm2(o.d); for (int i = 0; i < n; ++i) { dd[i] /= a.step; if (std::fabs(x[i]) * 1e-16 > 1e-12 * m) okd = false; } if (okd) { R.d = dd; if (!o.steep) R.dtg0 = -dot(dd, g); R.age = 0; } else if (++R.age > 0) { R.lost = true; count("model lost (unobservable direction)"); } }
}
// The memorized pairs are the changes between the last iterates.
void o_memory(Session& s, const Rec& a) {
  if (!s.vmo) return; const Plan& P = s.P; auto bad = [&](long j, const char* w) { fail("L10.memory", "session %d, call %zu, pair %ld of %ld: %s; plan: %s", s.id, s.hist.size(), j, s.mp(), w, P.text().c_str()); };
  long mp = s.mp(), m = std::min<long>(P.n, P.opts_null ? 5 : (long)P.vo.mem), K = (long)s.iterates.size() - (a.task == OPK_TASK_NEW_X || a.task == OPK_TASK_FINAL_X ? 2 : 1);
  if (a.call == 's') K = -1;
  if (mp < 0 || mp > m || mp > std::max(K, 0L)) { if (a.task == OPK_TASK_ERROR) return; return bad(0, "wrong number of pairs"); }
  if (opk_get_vmlmb_s(s.vmo, -1) || opk_get_vmlmb_y(s.vmo, -1) || opk_get_vmlmb_s(s.vmo, mp + 1) || opk_get_vmlmb_y(s.vmo, mp + 1)) return bad(-1, "a pair which does not exist");
  for (long j = 0; j <= mp; ++j) { opk_vector *vs = opk_get_vmlmb_s(s.vmo, j), *vy = opk_get_vmlmb_y(s.vmo, j);
    if (!vs || !vy || vs->owner != s.vx->owner || vy->owner != s.vx->owner) return bad(j, "not a pair of vectors of the space of the variables");
    if (j == 0 || a.task == OPK_TASK_ERROR) continue; // the next pair, not yet known
    const Session::It &p = s.iterates[K - j], &q = s.iterates[K - j + 1]; if (!std::all_of(p.x.begin(), p.x.end(), [](double v) { return std::isfinite(v); }) || !std::all_of(q.x.begin(), q.x.end(), [](double v) { return std::isfinite(v); })) continue; V S = s.read(vs), Y = s.read(vy), g0 = p.g, g1 = q.g; bool blmvm = P.bounded() && P.vo.blmvm && !P.opts_null; if (blmvm) { g0 = mul(s.freemask(p.x, g0), g0); g1 = mul(s.freemask(q.x, g1), g1); }
    for (int i = 0; i < P.n; ++i) { double e = q.x[i] - p.x[i], f = g1[i] - g0[i];
      if (std::isfinite(e) && !(std::fabs(S[i] - e) <= 8 * s.eps() * (std::fabs(q.x[i]) + std::fabs(p.x[i])) + 1e-300)) return bad(j, "not the change of the variables");
      if (std::isfinite(f) && !(std::fabs(Y[i] - f) <= 8 * s.eps() * (std::fabs(g1[i]) + std::fabs(g0[i])) + 1e-300)) return bad(j, "not the change of the gradient"); }
    probe("memorized pair checked"); }
}
void run_L10() {
  Gen G; G.singles = false; G.pfault = 0.15; G.pact = 0.2; G.max_eval = 80; G.condpow = 2;
  Plan p = draw_plan(G); note("plan %s", p.text().c_str()); heap::reset(p.junk);
  Ref R; Session s(p);
  s.hook = [&](Session& t, const Rec& b, const Rec& a) { if (t.task() == OPK_TASK_COMPUTE_FG && b.task == OPK_TASK_COMPUTE_FG) R.alpha = a.step; o_model(R, t, b, a); if (!failed()) o_memory(t, a); };
  if (s.open()) s.run();
}

// ------------------------------------------------------------------ L11
opk_status any_failure() { return pick<opk_status>({OPK_NOT_IMPLEMENTED, OPK_INVALID_ARGUMENT, OPK_INSUFFICIENT_MEMORY, OPK_INFEASIBLE_BOUNDS, OPK_WOULD_BLOCK, OPK_UNDEFINED_VALUE, OPK_BAD_SPACE, OPK_NOT_POSITIVE_DEFINITE}, "status of the failure"); }
bool l11_over(const Plan& p, const char* leak) {
  CSpaceStats& c = cstats();
  if (!c.bad.empty()) { fail("L11.precondition", "an operation implemented by the user was called outside of its contract: %s; plan: %s", c.bad.c_str(), p.text().c_str()); return false; }
  if (c.sets || c.lss) { fail("L11.finalize", "the finalizer of the user's set or line search was not called exactly once (%ld, %ld); plan: %s", c.sets, c.lss, p.text().c_str()); return false; }
  heap_clean("L11.heap", p.text()); if (heap::live() && !failed()) fail("L11.leak", "%ld blocks left after everything was released (%s); plan: %s", heap::live(), leak, p.text().c_str());
  return !failed();
}
void run_L11() {
  int mode = (int)draw(8, "mode"); // 0,1: two layouts; 2: create() fails; 3: a box operation fails; 4: the user's line search; 5: the user's set; 6: its hooks fail; 7: hooks are missing
  Gen G; G.driver = mode == 4; G.lowlevel = mode >= 4; if (mode >= 5) { G.nlcg = false; G.bounds = 2; } G.max_eval = 40; G.pact = 0.3; G.pfault = 0.3;
  Plan p = draw_plan(G); note("plan %s", p.text().c_str());
  if (mode == 4 && !p.ls.kind) p.ls.kind = 1 + (int)draw(3, "line search to wrap");
  std::vector<Rec> h0;
  { p.layout = 0; cstats() = CSpaceStats(); heap::reset(p.junk); Session s(p); if (s.open()) s.run(); h0 = s.hist; s.close();
    if (!l11_over(p, "first run")) return;
    if (h0.size() > 4) nontrivial(); }
  long creates = cstats().creates;
  Plan q = p; q.layout = p.api == 3 ? 1 + (int)draw(3, "layout") : 0; uint64_t hj = draw(64, "junk of the heap");
  if (mode < 2 || mode == 4 || mode == 5) {
    if (mode == 4) q.userls = true;
    if (mode == 5) { q.userset = true; q.userls = p.ls.kind && chance(1, 3, "line search of the user too"); }
    cstats() = CSpaceStats(); heap::reset(hj); Session s(q); if (s.open()) s.run();
    std::string why; if (!same_hist(h0, 0, s.hist, 0, &why)) fail(mode < 2 ? "L11.layout" : mode == 4 ? "L11.linesearch" : "L11.set", "%s matters (layout %d): %s; plan: %s", mode < 2 ? "the storage chosen by the user's vector space" : "who implements the line search or the feasible set", q.layout, why.c_str(), p.text().c_str());
    s.close();
  } else if (mode == 2) {
    if (creates <= 0) return;
    cstats() = CSpaceStats(); long at = 1 + (long)draw(creates, "create() that fails"); cstats().fail_create_at = at; heap::reset(hj);
    Session s(q); bool ok = s.open(); if (ok) s.run();
    if (!ok && errno != ENOMEM && cstats().fail_create_at <= 0) fail("L11.errno", "create() number %ld of the user's space failed but the constructor reports errno %d; plan: %s", at, errno, p.text().c_str());
    s.close(); nontrivial();
  } else if (mode == 3) {
    if (!p.bounded()) return;
    cstats() = CSpaceStats(); cstats().fail_box = 1 + (int)draw(30, "box operation that fails"); opk_status st = cstats().fail_status = any_failure(); heap::reset(hj);
    Session s(q);
    s.hook = [&](Session& t, const Rec& b, const Rec& a) {
      if (cstats().fail_box == 0) { cstats().fail_box = -1; nontrivial();
        if (a.task != OPK_TASK_ERROR || a.status != st) fail("L11.boxerror", "a box operation of the user's space failed with status %d but the optimizer reports task %d status %d; plan: %s", st, a.task, a.status, p.text().c_str()); }
    };
    if (s.open()) s.run(); s.close();
  } else {
    // what the set is asked at each call, then the same with a failure, or with missing hooks
    q.userset = true; std::vector<int> used;
    { cstats() = CSpaceStats(); heap::reset(hj); Session s(q); s.hook = [&](Session&, const Rec&, const Rec&) { used.push_back(cstats().used); cstats().used = 0; }; if (s.open()) s.run(); s.close(); if (!l11_over(p, "second run")) return; }
    cstats() = CSpaceStats(); heap::reset(hj); opk_status st = OPK_NOT_IMPLEMENTED; bool fired = false; size_t k = 0;
    if (mode == 6) { cstats().fail_set = 1 + (int)draw(chance(1, 2, "early") ? 6 : 60, "hook that fails"); st = cstats().fail_status = any_failure(); }
    else q.nohooks = 1 + (int)draw(15, "missing hooks");
    Session s(q);
    s.hook = [&](Session& t, const Rec& b, const Rec& a) {
      if (fired || failed()) return;
      bool now = mode == 6 ? cstats().fail_set < 0 : k < used.size() && (used[k] & q.nohooks);
      if (k >= h0.size()) { fail("L11.set", "more calls than without the failure"); return; }
      if (now) { fired = true; nontrivial(); if (mode == 7) fault("hooks missing in the user's set");
        if (a.task != OPK_TASK_ERROR || a.status != st || t.last != OPK_TASK_ERROR) fail("L11.seterror", "call %zu: the user's set %s status %d but the optimizer reports task %d (returned %d) status %d; plan: %s", k, mode == 6 ? "failed with" : "lacks a hook, expected", st, a.task, t.last, a.status, p.text().c_str()); }
      else if (!(a == h0[k])) fail("L11.set", "before the failure, call %zu: %s; plan: %s", k, diff(h0[k], a).c_str(), p.text().c_str());
      ++k;
    };
    if (s.open()) s.run(); s.close();
    if (!fired && k != h0.size() && !failed()) fail("L11.set", "%zu calls instead of %zu; plan: %s", k, h0.size(), p.text().c_str());
  }
  l11_over(p, "last run");
}
Reg r5({"L05", run_L05, 300000, 4000000, RULE, LM_REAL, LM_STUB});
Reg r6({"L06", run_L06, 400000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r7({"L07", run_L07, 1000000, 4000000, RULE, LM_REAL, LM_STUB});
Reg r9({"L09", run_L09, 600000, 20000000, RULE, LM_REAL, LM_STUB});
Reg r10({"L10", run_L10, 600000, 10000000, RULE, LM_REAL, LM_STUB});
Reg r11({"L11", run_L11, 1000000, 10000000, RULE, LM_REAL, LM_STUB});
}
