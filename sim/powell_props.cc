// W01..W06: Powell's derivative free optimizers.
#include "powell.h"
using namespace powell;
namespace {
const double INF = std::numeric_limits<double>::infinity(), EPS = std::numeric_limits<double>::epsilon();
bool eqx(const V& a, const V& b) { for (size_t i = 0; i < a.size(); ++i) if (!(same_bits(a[i], b[i]) || a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return a.size() == b.size(); }
bool eqv(double a, double b) { return same_bits(a, b) || a == b || (std::isnan(a) && std::isnan(b)); }
bool is_nan(const V& a) { for (double d : a) if (std::isnan(d)) return true; return false; }
std::string vs(const V& a) { std::string s = "("; char t[40]; for (size_t i = 0; i < a.size(); ++i) { snprintf(t, sizeof t, "%s%.17g", i ? ", " : "", a[i]); s += t; } return s + ")"; }
const char* reason(int solver, int st) { return solver == NEWUOA ? newuoa_reason((newuoa_status)st) : solver == BOBYQA ? bobyqa_reason((bobyqa_status)st) : cobyla_reason((cobyla_status)st); }
int ST_ROUND(int s) { return s == BOBYQA ? BOBYQA_ROUNDING_ERRORS : s == NEWUOA ? (int)NEWUOA_ROUNDING_ERRORS : (int)COBYLA_ROUNDING_ERRORS; }
int ST_MANY(int s) { return s == BOBYQA ? BOBYQA_TOO_MANY_EVALUATIONS : s == NEWUOA ? (int)NEWUOA_TOO_MANY_EVALUATIONS : (int)COBYLA_TOO_MANY_EVALUATIONS; }
int ST_STEP(int s) { return s == BOBYQA ? (int)BOBYQA_STEP_FAILED : s == NEWUOA ? (int)NEWUOA_STEP_FAILED : 99; }
// What holds for every solve with valid arguments. false: a violation was recorded.
bool check_solve(const char* id, Solve& z) {
  Setup& s = z.s; Result& r = z.r; std::string o(id); auto bad = [&](const char* w, const std::string& t) { fail((o + "." + w).c_str(), "%s; %s, status %d (%s) after %zu evaluations", t.c_str(), s.txt().c_str(), r.status, reason(s.solver, r.status), r.h.size()); return false; };
  if (failed()) return false;
  if (z.over) return bad("budget", "more evaluations than allowed");
  long N = (long)r.h.size(), lim = std::max<long>(s.maxfun, 1); std::string why; if (!z.memory_ok(&why)) return bad("memory", why); if (heap::check(&why) == false) return bad("memory", why);
  if (s.iprint == 0 && z.printed) return bad("output", "something was printed although iprint is 0");
  if (s.solver == BOBYQA) { bool close = false, sure = false; for (int i = 0; i < s.n; ++i) { double c = s.sclkind ? s.scl[i] : 1, g = (s.xu[i] - s.xl[i]) / c, t = 8 * EPS * (std::fabs(s.xu[i]) + std::fabs(s.xl[i])) / c + 8 * EPS * s.rhobeg; if (g < 2 * s.rhobeg + t) close = true; if (g < 2 * s.rhobeg - t) sure = true; }
    if (r.status == BOBYQA_TOO_CLOSE) { if (!close) return bad("status", "the bounds are not too close"); if (N) return bad("status", "evaluations in spite of the status"); if (!eqx(r.x, s.x0)) return bad("refused", "the variables are changed by a refused call: " + vs(r.x) + " and " + vs(s.x0)); probe("bounds too close"); return true; } else if (sure) return bad("status", "the bounds are too close"); }
  if (N > lim) return bad("budget", "more evaluations than allowed"); if (N < 1) return bad("budget", "no evaluation");
  bool finite = true; for (auto& e : r.h) { if (!std::isfinite(e.f) || is_nan(e.x)) finite = false; for (double d : e.con) if (!std::isfinite(d)) finite = false; }
  if (r.status != 0 && r.status != ST_ROUND(s.solver) && r.status != ST_MANY(s.solver) && r.status != ST_STEP(s.solver)) return bad("status", "unexpected status");
  if (r.status == ST_MANY(s.solver) && N != lim) return bad("status", "not that many evaluations");
  if (r.nevals >= 0 && r.nevals != N) return bad("evals", "wrong number of evaluations: " + std::to_string(r.nevals));
  state_token(mix(s.solver * 16 + s.how, mix(r.status + 32, N)));
  // first point
  for (int i = 0; i < s.n; ++i) { double c = s.sclkind ? s.scl[i] : 1, x0 = s.x0[i], rb = c * s.rhobeg; V due;
    if (s.solver == BOBYQA) { double l = s.xl[i], u = s.xu[i], t = s.sclkind ? 16 * EPS * (std::fabs(x0) + std::fabs(l) + rb) : 0, v = s.sclkind ? 16 * EPS * (std::fabs(x0) + std::fabs(u) + rb) : 0; if (!s.sclkind) t = 0, v = 0;
      double dl = x0 - l, du = u - x0; if (dl <= t) due.push_back(l); if (dl >= -t && dl <= rb + t && (dl != 0 || s.sclkind)) due.push_back(l + rb); if (dl >= rb - t) { if (du <= v) due.push_back(u); if (du >= -v && du <= rb + v && (du != 0 || s.sclkind)) due.push_back(u - rb); if (du >= rb - v) due.push_back(x0); } }
    else due.push_back(x0);
    double tol = s.sclkind || s.solver == BOBYQA ? 16 * EPS * (std::fabs(x0) + rb + (s.solver == BOBYQA ? std::fabs(due[0]) : 0)) : 0; bool ok = false; for (double e : due) if (std::fabs(r.h[0].x[i] - e) <= tol) ok = true;
    if (!ok) return bad("first", "the first point is " + vs(r.h[0].x) + ", variable " + std::to_string(i) + " should be one of " + vs(due)); }
  // initial design: at most two coordinates differ, by a multiple of rhobeg
  if (s.solver != COBYLA) for (long k = 0; k < std::min<long>(s.npt, N); ++k) { int moved = 0; for (int i = 0; i < s.n; ++i) { double c = s.sclkind ? s.scl[i] : 1, t = std::fabs(r.h[k].x[i] - r.h[0].x[i]) / c, mag = 8 * EPS * (std::fabs(r.h[0].x[i]) / c + s.rhobeg); if (t > mag) ++moved; if (t > (s.solver == BOBYQA ? 2 : 1) * s.rhobeg + mag) return bad("initial", "initial point " + std::to_string(k + 1) + " is too far from the first one: " + vs(r.h[k].x) + " and " + vs(r.h[0].x)); } if (moved != (k == 0 ? 0 : k <= 2 * s.n ? 1 : 2)) if (s.rhobeg > 1e3 * EPS * std::fabs(*std::max_element(s.x0.begin(), s.x0.end()))) return bad("initial", "initial point " + std::to_string(k + 1) + " moves " + std::to_string(moved) + " variables"); }
  for (long k = 0; k < N; ++k) for (double d : r.h[k].x) if (!std::isfinite(d)) return bad("finite", "evaluation " + std::to_string(k + 1) + " is at " + vs(r.h[k].x));
  for (double d : r.x) if (!std::isfinite(d)) return bad("finite", "the result is " + vs(r.x));
  // bounds
  if (s.solver == BOBYQA) for (long k = 0; k <= N; ++k) { const V& x = k < N ? r.h[k].x : r.x; for (int i = 0; i < s.n; ++i) if (!(x[i] >= s.xl[i] && x[i] <= s.xu[i])) { char t[200]; snprintf(t, sizeof t, "%s: variable %d is %.17g out of [%.17g, %.17g]", k < N ? "evaluation" : "result", i, x[i], s.xl[i], s.xu[i]); return bad("bounds", t); } }
  // result
  if (N > 1) nontrivial();
  if (s.solver != COBYLA) {
    double sg = s.sign(); int best = -1; for (long k = 0; k < N; ++k) { if (std::isnan(r.h[k].f)) continue; if (best < 0 || sg * r.h[k].f < sg * r.h[best].f) best = (int)k; }
    bool hasf = s.how != REVCOM && (s.solver == NEWUOA || r.status == 0); int at = -1; bool known = false;
    for (long k = 0; k < N; ++k) if (eqx(r.h[k].x, r.x)) { known = true; if (best < 0 || std::isnan(r.h[0].f) || r.h[k].f == r.h[best].f) at = (int)k; }
    if (!known) return bad("result", "the result " + vs(r.x) + " was never evaluated");
    if (std::isnan(r.h[0].f)) { probe("first value is NaN"); }
    else { if (at < 0) { double fx = 0; for (auto& e : r.h) if (eqx(e.x, r.x)) fx = e.f; char t[100]; snprintf(t, sizeof t, "the value at the result is %.17g, %.17g was found", fx, r.h[best].f); return bad("best", t); }
      if (hasf && !(same_bits(r.f, r.h[best].f) || r.f == r.h[best].f)) { char t[100]; snprintf(t, sizeof t, "the returned value is %.17g not %.17g", r.f, r.h[best].f); return bad("value", t); } }
    probe(r.status == 0 ? "converged" : r.status == ST_MANY(s.solver) ? (N < s.npt ? "stopped during initialization" : "too many evaluations") : r.status == ST_STEP(s.solver) ? "step failed" : "rounding errors");
  } else if (finite) {
    V mag(s.n, s.rhobeg * 2); for (auto& e : r.h) for (int i = 0; i < s.n; ++i) mag[i] = std::max(mag[i], std::fabs(e.x[i]) / (s.sclkind ? s.scl[i] : 1) * 2);
    bool hasf = s.how != REVCOM; bool ok = false; std::string d = "the result " + vs(r.x) + " was never evaluated";
    auto maxcv = [](const Eval& e) { double c = 0; for (double v : e.con) c = std::max(c, -v); return c; };
    for (auto& e : r.h) { bool near = true; for (int i = 0; i < s.n; ++i) if (!(std::fabs(e.x[i] - r.x[i]) <= 4 * EPS * (N + 4) * mag[i] * (s.sclkind ? s.scl[i] : 1))) near = false; if (!near) continue; if (e.f != r.f) { char t[100]; snprintf(t, sizeof t, "the returned value is %.17g not %.17g", r.f, e.f); d = t; continue; } if (hasf && maxcv(e) != r.maxcv) { char t[100]; snprintf(t, sizeof t, "the returned constraint violation is %.17g not %.17g", r.maxcv, maxcv(e)); d = t; continue; } ok = true; }
    if (!ok) return bad("result", d);
    if (s.m == 0) { double b = INF; for (auto& e : r.h) b = std::min(b, s.sign() * e.f); ok = s.sign() * r.f == b; if (!ok && r.status == 0) for (auto& e : r.h) if (s.sign() * e.f == b) { double q = 0; for (int i = 0; i < s.n; ++i) { double t = (e.x[i] - r.x[i]) / (s.sclkind ? s.scl[i] : 1); q += t * t; } if (std::sqrt(q) <= s.rhoend * (1 + 1e-6) + 8 * EPS * N * *std::max_element(mag.begin(), mag.end())) ok = true; } if (!ok) { char t[100]; snprintf(t, sizeof t, "the result has value %.17g, %.17g was found further than rhoend", r.f, b); return bad("best", t); } }
    probe(r.status == 0 ? "converged" : r.status == ST_MANY(s.solver) ? (N <= s.n ? "stopped during initialization" : "too many evaluations") : "rounding errors");
  } else probe("values which are not finite");
  return true;
}
void run_solver(const char* id, int solver) {
  heap::reset(draw(16, "junk")); Setup s = draw_setup(solver, false); draw_faults(s); s.how = (How)pick<int>({CALLBACK, CALLBACK, SIMPLE}, "how"); if (solver != BOBYQA && chance(1, 4, "reverse communication")) s.how = REVCOM;
  if (s.how != CALLBACK) { if (s.maximize) for (int i = 0; i < 1; ++i) s.p.s = -s.p.s; s.maximize = false; s.sclkind = 0; s.scl.assign(s.n, 1); } if (s.how == REVCOM) s.maxfun = std::max<long>(s.maxfun, 1);
  if (chance(1, 20, "verbose")) s.iprint = 1 + (int)draw(3, "iprint");
  note("%s from %s", s.txt().c_str(), vs(s.x0).c_str()); Solve z(s); z.track = true; z.all(); note("status %d (%s) after %zu evaluations: %s", z.r.status, reason(solver, z.r.status), z.r.h.size(), vs(z.r.x).c_str());
  if (tracing()) for (size_t k = 0; k < z.r.h.size(); ++k) note("  %zu: f%s = %.17g", k + 1, vs(z.r.h[k].x).c_str(), z.r.h[k].f);
  if (!check_solve(id, z)) return;
  if (s.how == REVCOM) { double last = s.rhobeg; for (size_t k = 0; k < z.r.rhos.size(); ++k) { double rho = z.r.rhos[k]; if (!(rho > 0 && rho <= last && rho >= s.rhoend)) { fail((std::string(id) + ".rho").c_str(), "after evaluation %zu the radius is %g (it was %g); %s", k + 1, rho, last, s.txt().c_str()); return; } last = rho; } if (z.r.status == 0 && z.r.rho != s.rhoend) { fail((std::string(id) + ".rho").c_str(), "success with a radius of %g; %s", z.r.rho, s.txt().c_str()); return; } }
}
void run_W01() { run_solver("W01", NEWUOA); }
void run_W02() { run_solver("W02", BOBYQA); }
void run_W03() { run_solver("W03", COBYLA); }

// ------------------------------------------------------------ W07: what is printed
struct Report {
  Solve& z; Setup& s; Result& r; const std::string& t; size_t pos = 0; bool ok = true;
  explicit Report(Solve& z_) : z(z_), s(z_.s), r(z_.r), t(z_.out) {}
  void bad(const char* w, const std::string& m) { if (!ok) return; ok = false; size_t b = std::min(pos, t.size()); b = b > 80 ? b - 80 : 0; fail((std::string("W07.") + w).c_str(), "%s; %s, iprint %d, status %d after %zu evaluations; printed: ...%s", m.c_str(), s.txt().c_str(), s.iprint, r.status, r.h.size(), t.substr(b, 300).c_str()); }
  bool word(const char* k) { size_t q = t.find(k, pos); if (q == std::string::npos) { bad("format", std::string("\"") + k + "\" is missing"); return false; } pos = q + strlen(k); return true; }
  double num() { const char* b = t.c_str() + pos; char* e; double v = strtod(b, &e); if (e == b) { bad("format", "a number is missing"); return 0; } pos += e - b; return v; }
  V vec() { V v; for (int i = 0; i < s.n && ok; ++i) v.push_back(num()); return v; }
  static bool near(double a, double b, double rel, double abs = 0) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * std::fabs(b) + abs; }
  bool near(const V& a, const V& b, const V& tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], 1.2e-6, tol.empty() ? 1e-320 : tol[i])) return false; return true; }
  static double maxcv(const Eval& e) { double c = 0; for (double v : e.con) c = std::max(c, -v); return c; }
  long count_of(const char* k) { long c = 0; for (size_t q = 0; (q = t.find(k, q)) != std::string::npos; q += strlen(k)) ++c; return c; }
  void check() {
    long N = (long)r.h.size(); V none, tol(s.n); bool finite = true, num0 = !std::isnan(r.h[0].f); for (auto& e : r.h) { if (!std::isfinite(e.f)) finite = false; for (double d : e.con) if (!std::isfinite(d)) finite = false; }
    for (int i = 0; i < s.n; ++i) { double c = s.sclkind ? s.scl[i] : 1, m = c * s.rhobeg * 2; for (auto& e : r.h) m = std::max(m, 2 * std::fabs(e.x[i])); tol[i] = 8 * EPS * (N + 4) * m; }
    double sg = s.sign(), last = s.rhobeg; long done = 0, rhos = 0, ends = 0, nfl = 0; V printed; bool cob = s.solver == COBYLA; double fe = 1.2e-10, re = cob ? 1.2e-6 : 1.2e-4;
    auto value = [&](long nf, double f, const V& x) { // the best of the first nf points
      double b = QN(); for (long k = 0; k < nf; ++k) if (!std::isnan(r.h[k].f) && !(sg * r.h[k].f >= sg * b)) b = r.h[k].f;
      char u[200]; if (!near(f, b, 1.2e-15)) { snprintf(u, sizeof u, "the value %.15g is printed, the best one of %ld evaluations is %.15g", f, nf, b); bad("best", u); return; }
      for (long k = 0; k < nf; ++k) if (r.h[k].f == b && near(x, r.h[k].x, tol)) return;
      bad("best", "the variables " + vs(x) + " are printed, which do not give the best value"); };
    auto radius = [&](double rho) { ++rhos; char u[160]; if (s.iprint < 2) { bad("level", "a radius is printed"); return; } if (!(rho < last) || rho < s.rhoend * (1 - re)) { snprintf(u, sizeof u, "the radius %g is printed after %g (rhoend %g)", rho, last, s.rhoend); bad("radius", u); } last = rho; printed.push_back(rho); };
    if (!cob) {
      const char* sense = s.maximize ? "Most value of F =" : "Least value of F ="; const char* keys[] = {"Function number", "New RHO =", "At the return from"};
      while (ok) { size_t b = std::string::npos; int w = -1; for (int k = 0; k < 3; ++k) { size_t q = t.find(keys[k], pos); if (q < b) { b = q; w = k; } } if (w < 0) break; pos = b + strlen(keys[w]);
        if (w == 0) { long k = (long)num(); if (!word("F =")) break; double f = num(); if (!word("X is:")) break; V x = vec(); if (!ok) break; ++done;
          if (s.iprint != 3) bad("level", "an evaluation is printed"); else if (k != done || k > N || ends) bad("evaluation", "evaluation " + std::to_string(k) + " is printed at place " + std::to_string(done)); else if (!near(f, r.h[k - 1].f, fe)) bad("evaluation", "wrong value for evaluation " + std::to_string(k)); else if (!near(x, r.h[k - 1].x, none)) bad("evaluation", "wrong variables for evaluation " + std::to_string(k) + ": " + vs(x) + " instead of " + vs(r.h[k - 1].x)); }
        else { double rho = w == 1 ? num() : 0; if (!word("Number of function values =")) break; long nf = (long)num(); if (!word(sense)) break; double f = num(); if (!word("X is:")) break; V x = vec(); if (!ok) break;
          if (nf < std::max(nfl, 1l) || nf > N || ends) { bad("count", std::to_string(nf) + " function values"); break; } nfl = nf; if (s.iprint == 3 && done != nf) { bad("count", std::to_string(nf) + " function values, " + std::to_string(done) + " printed"); break; }
          if (w == 1) { radius(rho); if (num0) value(nf, f, x); } else { ++ends; if (nf != N) bad("count", std::to_string(nf) + " function values at the return"); else if (!near(x, r.x, none)) bad("result", "the variables " + vs(x) + " are printed, not the result " + vs(r.x)); else if (num0) value(nf, f, x); } } }
      long why = count_of(" because ");
      if (ok && s.iprint == 3 && done != N) bad("evaluation", std::to_string(done) + " evaluations are printed");
      if (ok && (ends > 1 || (ends == 0 && (r.status == 0 || s.solver == BOBYQA)))) bad("return", "the result is printed " + std::to_string(ends) + " times");
      if (ok && why != (r.status == 0 ? 0 : 1)) bad("return", "a failure is reported " + std::to_string(why) + " times");
    } else {
      static const char* keys[] = {"The initial value of RHO is", "Increase in PARMU to", "Reduction in RHO to", "NFVALS =", "Normal return", " because "}; long inits = 0, why = 0, normal = 0; bool due = false; double parmu = 0;
      while (ok) { size_t b = std::string::npos; int w = -1; for (int k = 0; k < 6; ++k) { size_t q = t.find(keys[k], pos); if (q < b) { b = q; w = k; } } if (w < 0) break; pos = b + strlen(keys[w]);
        if (due && w != 3) { bad("format", "no variables after a reduction of the radius"); break; }
        if (w < 3 && s.iprint < 2) { bad("level", "radius or penalty printed"); break; } if (w != 3 && ends) { bad("format", "more is printed after the result"); break; }
        if (w == 0) { double v = num(); if (inits++ || done || !near(v, s.rhobeg, 1.2e-6)) bad("radius", "wrong initial radius"); }
        else if (w == 1) { double v = num(); if (finite && !(v > parmu)) bad("penalty", "the penalty does not increase"); parmu = v; }
        else if (w == 2) { double v = num(); radius(v); if (!word("PARMU =")) break; parmu = num(); if (finite && !(parmu >= 0)) bad("penalty", "the penalty is negative"); due = s.iprint == 2; }
        else if (w == 4) ++normal; else if (w == 5) ++why;
        else { long k = (long)num(); if (!word("F =")) break; double f = num(); if (!word("MAXCV =")) break; double c = num(); if (!word("X =")) break; V x = vec(); if (!ok) break;
          if (k < std::max(nfl, 1l) || k > N) { bad("count", std::to_string(k) + " function values"); break; } nfl = k;
          if (normal + why) { if (ends++) bad("return", "the result is printed twice"); else if (k != N) bad("count", std::to_string(k) + " function values at the return"); else if (!near(x, r.x, tol)) bad("result", "the variables " + vs(x) + " are printed, not the result " + vs(r.x)); else if (!near(f, r.f, 1.2e-6)) bad("result", "wrong value of the result"); else if (s.how != REVCOM && !near(c, r.maxcv, 1.2e-6)) bad("result", "wrong constraint violation of the result"); }
          else if (s.iprint == 1) bad("level", "an evaluation is printed");
          else if (due) { due = false; bool found = !finite; for (long i = 0; i < k; ++i) if (near(f, r.h[i].f, 1.2e-6) && near(c, maxcv(r.h[i]), 1.2e-6) && near(x, r.h[i].x, tol)) found = true; if (!found) bad("best", "the variables " + vs(x) + " printed with the radius were not evaluated, or have other values"); }
          else { ++done; if (s.iprint == 3 ? k != done : k != 1 || done > 1) { bad("evaluation", "evaluation " + std::to_string(k) + " is printed at place " + std::to_string(done)); break; } Eval& e = r.h[k - 1]; bool nc = false; for (double d : e.con) if (std::isnan(d)) nc = true;
            if (!near(f, e.f, 1.2e-6)) bad("evaluation", "wrong value for evaluation " + std::to_string(k)); else if (!nc && !near(c, maxcv(e), 1.2e-6)) bad("evaluation", "wrong constraint violation for evaluation " + std::to_string(k)); else if (!near(x, e.x, none)) bad("evaluation", "wrong variables for evaluation " + std::to_string(k) + ": " + vs(x) + " instead of " + vs(e.x)); } } }
      if (ok && s.iprint == 3 && done != N) bad("evaluation", std::to_string(done) + " evaluations are printed");
      if (ok && s.iprint >= 2 && inits != 1) bad("radius", "the initial radius is printed " + std::to_string(inits) + " times");
      if (ok && ends != 1) bad("return", "the result is printed " + std::to_string(ends) + " times"); if (ok && (normal != (r.status == 0) || why != (r.status != 0))) bad("return", "normal return printed " + std::to_string(normal) + " times, failure " + std::to_string(why) + " times");
    }
    if (ok && s.iprint >= 2 && r.status == 0 && !near(last, s.rhoend, re)) { char u[120]; snprintf(u, sizeof u, "the last radius printed is %g, not rhoend = %g", last, s.rhoend); bad("radius", u); }
    if (ok && s.iprint >= 2 && s.how == REVCOM) { double was = s.rhobeg; for (double v : r.rhos) { if (v == was) continue; was = v; bool f = false; for (double q : printed) if (near(q, v, re)) f = true; if (!f) { char u[100]; snprintf(u, sizeof u, "the radius %g is not printed", v); bad("radius", u); break; } } }
    if (ok) { probe(s.iprint == 3 ? "report of each evaluation" : s.iprint == 2 ? "report of each radius" : "report of the result"); if (rhos) probe("radius printed"); if (s.maximize) probe("report of a maximization"); if (s.sclkind > 1) probe("report with scaled variables"); }
  }
  static double QN() { return std::numeric_limits<double>::quiet_NaN(); }
};
void run_W07() {
  heap::reset(draw(16, "junk")); int K = 1 + (int)draw(2, "solves-1"); std::vector<std::unique_ptr<Solve>> S; std::vector<Solve*> act;
  for (int k = 0; k < K; ++k) { int solver = (int)draw(3, "solver"); Setup s = draw_setup(solver, chance(1, 2, "small")); draw_faults(s); s.maxfun = std::max<long>(s.maxfun, 1); s.how = (How)pick<int>({CALLBACK, CALLBACK, SIMPLE}, "how"); if (solver != BOBYQA && chance(1, 4, "reverse communication")) s.how = REVCOM;
    if (s.how != CALLBACK) { if (s.maximize) s.p.s = -s.p.s; s.maximize = false; s.sclkind = 0; s.scl.assign(s.n, 1); }
    s.iprint = (int)pick<int>({3, 2, 1}, "iprint"); note("%d: %s from %s iprint %d", k, s.txt().c_str(), vs(s.x0).c_str(), s.iprint); S.emplace_back(new Solve(s)); S.back()->track = true; act.push_back(S.back().get()); }
  while (!act.empty()) { size_t i = act.size() > 1 ? draw(act.size(), "who") : 0; long burst = pick<long>({1000000, 1, 5}, "burst"); bool more = true; while (burst-- > 0 && (more = act[i]->step())) {} if (failed()) return; if (!more) act.erase(act.begin() + i); }
  for (auto& z : S) { if (z->over) { fail("W07.budget", "more evaluations than allowed; %s", z->s.txt().c_str()); return; } if (tracing()) note("%s", z->out.c_str()); { uint64_t h = 0; for (char c : z->out) h = mix(h, (unsigned char)c); ev("text", (long)z->out.size(), (double)(h >> 12)); } if (z->r.h.empty()) { Report q(*z); if (q.count_of("because") != 1 || q.count_of(" RHO ") || q.count_of("F =")) { q.bad("refused", "a refused call is not reported once"); return; } probe("refused"); continue; } state_token(mix(z->s.solver * 16 + z->s.iprint, mix(z->r.status + 32, z->out.size()))); nontrivial(); Report q(*z); q.check(); if (failed()) return; }
}

// ------------------------------------------------------------ W04: equivalent ways
bool compare(const char* what, Solve& a, Solve& b, double fsign, const V* xs, bool fres) { // b's points times xs are a's
  Result &p = a.r, &q = b.r; auto sc = [&](V v) { if (xs) for (size_t i = 0; i < v.size(); ++i) v[i] *= (*xs)[i]; return v; };
  auto bad = [&](const std::string& t) { fail("W04.same", "%s: %s; %s and %s", what, t.c_str(), a.s.txt().c_str(), b.s.txt().c_str()); return false; };
  size_t n = std::min(p.h.size(), q.h.size()); for (size_t k = 0; k < n; ++k) { if (!eqx(p.h[k].x, sc(q.h[k].x))) return bad("evaluation " + std::to_string(k + 1) + " at " + vs(p.h[k].x) + " and " + vs(sc(q.h[k].x))); if (!eqv(p.h[k].f, fsign * q.h[k].f)) return bad("evaluation " + std::to_string(k + 1) + " gives different values"); }
  if (p.h.size() != q.h.size()) return bad(std::to_string(p.h.size()) + " and " + std::to_string(q.h.size()) + " evaluations");
  if (p.status != q.status) return bad("status " + std::to_string(p.status) + " and " + std::to_string(q.status));
  if (!eqx(p.x, sc(q.x))) return bad("results " + vs(p.x) + " and " + vs(sc(q.x)));
  if (fres && !eqv(p.f, fsign * q.f)) return bad("different final values");
  if (fres && a.s.solver == COBYLA && a.s.how != REVCOM && b.s.how != REVCOM && !eqv(p.maxcv, q.maxcv)) return bad("different constraint violations");
  if (n > 1) nontrivial(); return true;
}
void run_W04() {
  heap::reset(draw(16, "junk")); int K = 1 + (int)draw(3, "solves-1"); std::vector<std::unique_ptr<Solve>> A, B; std::vector<int> var; std::vector<V> xs; std::vector<const char*> nm;
  for (int k = 0; k < K; ++k) {
    int solver = (int)draw(3, "solver"); Setup s = draw_setup(solver, true); draw_faults(s); s.maxfun = std::min<long>(std::max<long>(s.maxfun, 1), 200); Setup t = s; int v; V f; const char* name = "";
    t.junk = s.junk + 1 + 2 * draw(3, "other junk"); t.right = !s.right;
    static const int alls[] = {0, 1, 2, 3, 4, 5, 6}; v = alls[draw(7, "variant")]; if (solver == BOBYQA && (v == 0 || v == 6)) v = 5; auto plain = [](Setup& u) { if (u.maximize) { u.maximize = false; u.p.s = -u.p.s; } u.sclkind = 0; u.scl.assign(u.n, 1); };
    switch (v) {
    case 0: name = "callback and reverse communication"; plain(s); t = s; t.how = REVCOM; break;
    case 1: name = "maximizing and minimizing"; t.maximize = !s.maximize; t.p.s = -s.p.s; if (s.p.fkind == 2) t.p.fkind = 3; else if (s.p.fkind == 3) t.p.fkind = 2; else if (s.p.fkind == 4 || s.p.fkind == 7) s.p.fkind = t.p.fkind = 1; break;
    case 2: { name = "scaling and change of variables"; if (s.p.kind == 7 || s.p.kind == 8) s.p.kind = 0; s.sclkind = 2; s.maximize = false; for (int i = 0; i < s.n; ++i) s.scl[i] = std::ldexp(1, (int)(mix(s.p.h, i) % 7) - 3); t = s; t.junk ^= 2; t.sclkind = 0; f = s.scl; t.scl.assign(s.n, 1); Prob& p = t.p; for (int i = 0; i < s.n; ++i) { t.x0[i] /= f[i]; t.xl[i] /= f[i]; t.xu[i] /= f[i]; } p = s.p; p.mul = f; break; }
    case 3: name = "unit scaling and no scaling"; s.sclkind = 1; s.scl.assign(s.n, 1); t = s; t.sclkind = 0; break;
    case 4: name = "printing and silence"; s.iprint = 0; t.iprint = 1 + (int)draw(3, "iprint"); if (solver != BOBYQA && chance(1, 2, "reverse communication")) { plain(s); int ip = t.iprint; s.how = REVCOM; t = s; t.iprint = ip; } break;
    case 5: name = "simple driver and general driver"; plain(s); t = s; t.how = SIMPLE; t.junk += 3; break;
    case 6: name = "restarted and fresh"; plain(s); s.how = REVCOM; t = s; t.restart_at = 1 + (long)draw(chance(1, 2, "late") ? 100 : 12, "restart at"); break;
    }
    note("%d: %s: %s", k, name, s.txt().c_str()); A.emplace_back(new Solve(s)); B.emplace_back(new Solve(t)); var.push_back(v); xs.push_back(f); nm.push_back(name);
  }
  // interleave the second ones and some of the first ones
  std::vector<Solve*> act; std::vector<char> alone(K, 0); for (int k = 0; k < K; ++k) { act.push_back(B[k].get()); if (chance(1, 2, "alone")) { alone[k] = 1; } else act.push_back(A[k].get()); }
  while (!act.empty()) { size_t i = act.size() > 1 ? draw(act.size(), "who") : 0; long burst = pick<long>({1, 1000000, 5}, "burst"); bool more = true; while (burst-- > 0 && (more = act[i]->step())) {} if (failed()) return; if (!more) act.erase(act.begin() + i); }
  for (int k = 0; k < K; ++k) if (alone[k]) A[k]->all();
  for (int k = 0; k < K; ++k) { if (failed()) return; Solve &a = *A[k], &b = *B[k]; if (a.over || b.over) { fail("W04.budget", "more evaluations than allowed; %s", a.s.txt().c_str()); return; }
    bool fres = a.s.how == REVCOM ? b.s.how == REVCOM && a.s.solver == COBYLA : a.s.solver == BOBYQA ? a.r.status == 0 : b.s.how != REVCOM; if (var[k] == 6 && b.s.restart_at >= 0) probe("finished before the restart");
    if (!compare(nm[k], a, b, var[k] == 1 ? -1 : 1, xs[k].empty() ? nullptr : &xs[k], fres)) return; probe(nm[k]); std::string why; if (!a.memory_ok(&why) || !b.memory_ok(&why)) { fail("W04.memory", "%s; %s", why.c_str(), a.s.txt().c_str()); return; } }
  A.clear(); B.clear(); std::string why; if (!heap::check(&why)) fail("W04.memory", "%s", why.c_str()); else if (heap::live()) fail("W04.leak", "%ld blocks remain", heap::live());
}

// ------------------------------------------------------------ W05: arguments and contexts
const double QNAN = std::numeric_limits<double>::quiet_NaN();
void refused_call() {
  int solver = (int)draw(3, "solver"); Setup s = draw_setup(solver, true); s.how = chance(1, 4, "simple driver") ? SIMPLE : CALLBACK; s.maxfun = std::min<long>(s.maxfun, 60); if (s.how == SIMPLE) { if (s.maximize) { s.maximize = false; s.p.s = -s.p.s; } s.sclkind = 0; s.scl.assign(s.n, 1); }
  if (chance(1, 8, "verbose")) s.iprint = 1 + (int)draw(3, "iprint");
  Setup bad = s; int k = 1 + (int)draw(2, "wrong arguments-1"); std::vector<int> due; std::string what;
  for (int j = 0; j < k; ++j) switch (draw(6, "wrong argument")) {
    case 0: bad.an = pick<long>({solver == COBYLA ? 0 : 1, 0, -1, -100}, "wrong n"); due.push_back(-1); if (solver != COBYLA) due.push_back(-2); what += " n = " + std::to_string(bad.an); break;
    case 1: if (solver == COBYLA) { bad.am = pick<long>({-1, -2, -1000}, "wrong m"); what += " m = " + std::to_string(bad.am); } else { bad.anpt = pick<long>({s.n + 1, 0, -1, (s.n + 1) * (s.n + 2) / 2 + 1, 1000}, "wrong npt"); what += " npt = " + std::to_string(bad.anpt); } due.push_back(-2); break;
    case 2: case 3: switch (draw(8, "wrong radius")) { case 0: bad.rhoend = bad.rhobeg * (1 + 1e-15); break; case 1: bad.rhoend = 0; break; case 2: bad.rhoend = -std::fabs(bad.rhoend) - 1e-300; break; case 3: bad.rhoend = QNAN; break; case 4: bad.rhobeg = QNAN; break; case 5: bad.rhobeg = INF; break; case 6: bad.rhobeg = bad.rhoend = 0; break; case 7: bad.rhobeg = bad.rhoend = INF; break; }
      { char t[80]; snprintf(t, sizeof t, " rho from %g to %g", bad.rhobeg, bad.rhoend); what += t; } due.push_back(-3); break;
    case 4: if (s.how == SIMPLE) { --j; if (chance(1, 2, "another")) break; ++j; bad.rhoend = -1; due.push_back(-3); what += " rhoend = -1"; break; } { int i = (int)draw(s.n, "wrong scaling at"); if (!bad.sclkind) bad.sclkind = 3; bad.scl[i] = pick<double>({0, -1, QNAN, INF, -INF, -0.0}, "wrong scaling"); what += " a scaling factor of " + std::to_string(bad.scl[i]); due.push_back(-4); } break;
    case 5: if (solver != BOBYQA) { bad.rhoend = 2 * bad.rhobeg; due.push_back(-3); what += " rhoend > rhobeg"; break; } { int i = (int)draw(s.n, "wrong bound at"); double c = s.sclkind ? s.scl[i] : 1; switch (draw(4, "wrong bound")) { case 0: bad.xu[i] = bad.xl[i] + 1.9 * s.rhobeg * c; break; case 1: bad.xu[i] = bad.xl[i] - c; break; case 2: bad.xu[i] = QNAN; break; case 3: bad.xl[i] = QNAN; break; } what += " bounds [" + std::to_string(bad.xl[i]) + ", " + std::to_string(bad.xu[i]) + "]"; due.push_back(-5); } break; }
  // which statuses are possible: those of the wrong arguments (the bounds are compared with the radius)
  if (solver == BOBYQA && !s.sclkind && bad.sclkind) for (auto& e : bad.scl) if (e == 1) e = 2;
  note("%s with%s", s.txt().c_str(), what.c_str()); heap::reset(draw(8, "junk")); fault("wrong argument"); nontrivial();
  Solve z(bad); z.all(); if (failed()) return; std::string why; bool ok = false; int st = z.r.status; if (solver == BOBYQA && std::find(due.begin(), due.end(), -4) != due.end()) due.push_back(-5); for (int d : due) if (d == st) ok = true; state_token(mix(solver, st + 64)); ev("refused", st, solver, k);
  if (!ok) { fail("W05.refused", "status %d (%s) and %zu evaluations with%s; %s", st, reason(solver, st), z.r.h.size(), what.c_str(), s.txt().c_str()); return; }
  if (!z.r.h.empty()) { fail("W05.evaluation", "the objective function is called by a refused call with%s; %s", what.c_str(), s.txt().c_str()); return; }
  if (memcmp(z.gx.p, s.x0.data(), s.n * sizeof(double))) { fail("W05.variables", "a refused call with%s changes the variables; %s", what.c_str(), s.txt().c_str()); return; }
  if (s.iprint == 0) { if (z.printed) { fail("W05.output", "a refused call with%s prints something; %s", what.c_str(), s.txt().c_str()); return; } }
  if (!z.gx.intact() || !z.gscl.intact() || !z.gxl.intact() || !z.gxu.intact() || !z.gw.intact() || !z.gi.intact()) { fail("W05.memory", "a refused call with%s writes around the arrays of the caller; %s", what.c_str(), s.txt().c_str()); return; }
  if (st == -1) probe("bad number of variables"); else if (st == -2) probe(solver == COBYLA ? "bad number of constraints" : "bad NPT"); else if (st == -3) probe("bad radius"); else if (st == -4) probe("bad scaling"); else probe("bounds too close");
}
// every status has its own explanation, other values are unknown ones
void reasons() {
  heap::reset(0); fault("unknown status"); nontrivial();
  for (int k = 0; k < 4; ++k) { int solver = (int)draw(3, "solver"), lo = solver == NEWUOA ? -9 : -8, hi = solver == BOBYQA ? 0 : 1; auto known = [&](int t) { return t >= lo && t <= hi; };
    int a = (int)draw(24, "status") - 12, b = chance(1, 4, "far") ? pick<int>({1000, -1000, 2147483647, (int)-2147483648LL}, "odd status") : (int)draw(24, "other status") - 12; if (chance(1, 3, "known")) a = lo + (int)draw(hi - lo + 1, "known status");
    const char *p = reason(solver, a), *q = reason(solver, b); ev("reason", a, solver, b); state_token(mix(solver, mix(a + 64, b + 64)));
    if (!p || !*p || !q || !*q) { fail("W05.reason", "no explanation for status %d or %d of solver %d", a, b, solver); return; }
    bool same = !strcmp(p, q), due = a == b || (!known(a) && !known(b)); if (same != due) { fail("W05.reason", "statuses %d (%s) and %d (%s) of solver %d", a, p, b, q, solver); return; } }
  probe("explanations");
}
struct Ctx { newuoa_context* n = nullptr; cobyla_context* c = nullptr; Setup s; int st = 1; long ne = 0; bool fresh = true; std::vector<Eval> h; std::unique_ptr<Solve> ref; Guarded x, con; };
void contexts() {
  heap::reset(draw(8, "junk")); int K = 1 + (int)draw(3, "contexts-1"); std::vector<std::unique_ptr<Ctx>> C; bool any_verbose = false;
  auto bad = [&](Ctx& c, const char* w, const std::string& t) { fail((std::string("W05.") + w).c_str(), "%s; %s", t.c_str(), c.s.txt().c_str()); };
  for (int k = 0; k < K; ++k) { C.emplace_back(new Ctx); Ctx& c = *C.back(); int solver = chance(1, 2, "COBYLA") ? COBYLA : NEWUOA; c.s = draw_setup(solver, true); c.s.how = REVCOM; c.s.sclkind = 0; c.s.scl.assign(c.s.n, 1); if (c.s.maximize) { c.s.maximize = false; c.s.p.s = -c.s.p.s; } c.s.maxfun = std::max<long>(1, std::min<long>(c.s.maxfun, 60)); draw_faults(c.s);
    { long l0 = heap::live(); int f = (int)draw(4, "wrong creations"); while (f-- > 0) { int ip = chance(1, 3, "verbose") ? 1 + (int)draw(3, "iprint") : 0; bool q0 = quiet_start(); long n = c.s.n, npt = c.s.npt, m = c.s.m, mf = c.s.maxfun; double rb = c.s.rhobeg, re = c.s.rhoend; std::string w; switch (draw(7, "wrong argument")) { case 0: n = solver == COBYLA ? 0 : 1; w = "n too small"; break; case 1: n = -1; w = "n < 0"; break; case 2: if (solver == COBYLA) m = -1; else npt = pick<long>({c.s.n + 1, 0, (c.s.n + 1) * (c.s.n + 2) / 2 + 1}, "npt"); w = "npt or m"; break; case 3: re = pick<double>({0, -1, QNAN, 2 * rb}, "rhoend"); w = "rhoend"; break; case 4: rb = pick<double>({QNAN, INF, 0, -1}, "rhobeg"); w = "rhobeg"; break; case 5: mf = pick<long>({0, -1}, "maxfun"); w = "maxfun"; break; default: re = rb = -1; w = "rho"; }
        if (n == 1 && solver == NEWUOA) npt = 3; fault("wrong argument"); nontrivial(); errno = 0; void* q = solver == COBYLA ? (void*)cobyla_create(n, m, rb, re, ip, mf) : (void*)newuoa_create(n, npt, rb, re, ip, mf); int e = errno; long out = q0 ? quiet_stop() : 0; if (!ip && out) { bad(c, "output", "a refused creation prints something"); return; } if (ip && out) probe("refused creation explained");
        if (q) { bad(c, "create", "a context is created with a wrong argument (" + w + ")"); return; } if (e != EINVAL) { bad(c, "errno", "no context with a wrong argument (" + w + ") but errno is " + std::to_string(e)); return; } if (heap::live() != l0) { bad(c, "leak", "a refused creation leaks memory"); return; } } }
    c.s.iprint = chance(1, 6, "verbose") ? 1 + (int)draw(3, "iprint") : 0; if (c.s.iprint) any_verbose = true;
    c.n = solver == NEWUOA ? newuoa_create(c.s.n, c.s.npt, c.s.rhobeg, c.s.rhoend, c.s.iprint, c.s.maxfun) : nullptr; c.c = solver == COBYLA ? cobyla_create(c.s.n, c.s.m, c.s.rhobeg, c.s.rhoend, c.s.iprint, c.s.maxfun) : nullptr; if (!c.n && !c.c) { bad(c, "create", "no context with valid arguments"); return; }
    c.x = Guarded(8 * c.s.n, c.s.right, 1); c.con = Guarded(8 * c.s.m, c.s.right, 2); memcpy(c.x.p, c.s.x0.data(), 8 * c.s.n); note("context %d: %s", k, c.s.txt().c_str()); }
  bool q = quiet_start(); struct Q { bool& q; ~Q() { if (q) quiet_stop(); } } guard{q}; int ops = 5 + (int)draw(chance(1, 4, "long") ? 150 : 40, "operations");
  while (ops-- > 0 && !failed()) { Ctx& c = *C[K > 1 ? draw(K, "which") : 0]; double* x = c.x.as<double>(); double* con = c.con.as<double>(); bool cob = c.c != nullptr; V before(x, x + c.s.n); int got;
    switch (draw(14, "operation")) {
    default: { // evaluate and iterate, also when it is not due
      Eval e; e.x = before; e.con.resize(c.s.m); bool due = c.st == 1; long burst = due ? pick<long>({1, 1, 4, 30}, "burst") : 1;
      while (burst-- > 0) { e.x.assign(x, x + c.s.n); e.f = c.s.p.eval(x, c.s.m ? e.con.data() : nullptr, (long)c.h.size() + 1); for (int k = 0; k < c.s.m; ++k) con[k] = e.con[k];
        got = cob ? (int)cobyla_iterate(c.c, e.f, x, c.s.m ? con : nullptr) : (int)newuoa_iterate(c.n, e.f, x); count("evaluations");
        if (!due) { fault("call out of turn"); nontrivial(); int cor = cob ? (int)COBYLA_CORRUPTED : (int)NEWUOA_CORRUPTED; if (got != cor) { bad(c, "turn", "status " + std::to_string(got) + " for an iteration while the status is " + std::to_string(c.st)); break; } if (memcmp(x, before.data(), 8 * c.s.n)) { bad(c, "variables", "a refused iteration changes the variables"); break; } c.st = got; probe("iteration out of turn"); break; }
        c.h.push_back(e); ++c.ne; c.st = got; c.fresh = false; ev("iterate", got, x[0], e.f); if (got != 1) break; if ((long)c.h.size() > c.s.maxfun) { bad(c, "budget", "more evaluations than allowed"); break; } }
      break; }
    case 9: if (c.st != 1 && chance(1, 2, "insist")) break; fault("NULL variables"); got = cob ? (int)cobyla_iterate(c.c, 0, nullptr, con) : (int)newuoa_iterate(c.n, 0, nullptr); if (got != (cob ? (int)COBYLA_BAD_ADDRESS : (int)NEWUOA_BAD_ADDRESS)) bad(c, "address", "status " + std::to_string(got) + " for an iteration with NULL variables"); c.st = got; probe("NULL variables"); nontrivial(); break;
    case 10: if (!cob || !c.s.m) break; fault("NULL constraints"); got = (int)cobyla_iterate(c.c, 0, x, nullptr); if (got != (int)COBYLA_BAD_ADDRESS) bad(c, "address", "status " + std::to_string(got) + " for an iteration with NULL constraints"); if (memcmp(x, before.data(), 8 * c.s.n)) bad(c, "variables", "a refused iteration changes the variables"); c.st = got; probe("NULL constraints"); break;
    case 11: got = cob ? (int)cobyla_restart(c.c) : (int)newuoa_restart(c.n); if (got != 1) bad(c, "restart", "restart returns " + std::to_string(got)); probe(c.st == 1 ? "restart" : c.st == 0 ? "restart after success" : "restart after an error"); c.st = 1; c.ne = 0; c.h.clear(); c.fresh = true; memcpy(x, c.s.x0.data(), 8 * c.s.n); break;
    case 12: { fault("NULL context"); long l0 = heap::live(); newuoa_delete(nullptr); cobyla_delete(nullptr); int b = NEWUOA_BAD_ADDRESS, d = COBYLA_BAD_ADDRESS; if (newuoa_get_status(nullptr) != b || newuoa_restart(nullptr) != b || newuoa_iterate(nullptr, 0, x) != b || cobyla_get_status(nullptr) != d || cobyla_restart(nullptr) != d || cobyla_iterate(nullptr, 0, x, con) != d) bad(c, "null", "wrong status of a NULL context"); if (newuoa_get_nevals(nullptr) != -1 || cobyla_get_nevals(nullptr) != -1 || newuoa_get_rho(nullptr) != -1 || cobyla_get_rho(nullptr) != -1 || cobyla_get_last_f(nullptr) != -1) bad(c, "null", "wrong information about a NULL context"); if (memcmp(x, before.data(), 8 * c.s.n)) bad(c, "variables", "a refused iteration changes the variables"); if (heap::live() != l0) bad(c, "null", "deleting NULL changes the memory"); probe("NULL context"); break; }
    case 13: if (c.st == 1 && c.fresh && chance(1, 2, "abandon")) { if (cob) { cobyla_delete(c.c); c.c = cobyla_create(c.s.n, c.s.m, c.s.rhobeg, c.s.rhoend, c.s.iprint, c.s.maxfun); } else { newuoa_delete(c.n); c.n = newuoa_create(c.s.n, c.s.npt, c.s.rhobeg, c.s.rhoend, c.s.iprint, c.s.maxfun); } if (!c.n && !c.c) bad(c, "create", "no context"); } break;
    }
    if (failed()) return; if (!c.n && !c.c) return;
    int st = cob ? (int)cobyla_get_status(c.c) : (int)newuoa_get_status(c.n); long ne = cob ? cobyla_get_nevals(c.c) : newuoa_get_nevals(c.n); double rho = cob ? cobyla_get_rho(c.c) : newuoa_get_rho(c.n); state_token(mix(cob, mix(st + 64, std::min<long>(ne, 8))));
    if (st != c.st) { bad(c, "status", "the status is " + std::to_string(st) + " after a call that returned " + std::to_string(c.st)); return; }
    if (ne != c.ne) { bad(c, "evals", std::to_string(ne) + " evaluations are reported after " + std::to_string(c.ne)); return; }
    if (c.fresh ? rho != 0 : !(rho >= c.s.rhoend && rho <= c.s.rhobeg)) { bad(c, "rho", "the radius is " + std::to_string(rho)); return; }
    if (!c.x.intact() || !c.con.intact()) { bad(c, "memory", "memory around the arrays of the caller was written"); return; } }
  if (q) { long out = quiet_stop(); q = false; if (out && !any_verbose) { bad(*C[0], "output", "something was printed although iprint is 0 for all contexts"); return; } }
  for (auto& p : C) { Ctx& c = *p; // the evaluations are those of a context never misused
    Setup s = c.s; Solve ref(s); size_t k = 0; bool more = ref.step(); while (more && k < c.h.size()) { more = ref.step(); ++k; } if (failed()) return;
    for (size_t j = 0; j < c.h.size(); ++j) if (j >= ref.r.h.size() || !eqx(ref.r.h[j].x, c.h[j].x)) { bad(c, "history", "evaluation " + std::to_string(j + 1) + " is not the same as for a fresh context"); return; }
    if (c.c) cobyla_delete(c.c); if (c.n) newuoa_delete(c.n); }
  C.clear(); std::string why; if (!heap::check(&why)) fail("W05.memory", "%s", why.c_str()); else if (heap::live()) fail("W05.leak", "%ld blocks remain", heap::live());
}
void run_W05() { if (chance(1, 40, "explanations")) reasons(); else if (chance(1, 2, "contexts")) contexts(); else refused_call(); }

// ------------------------------------------------------------ W06: convergence
// Minimum of the quadratic 0.5 (x-c)'H(x-c) subject to A x + b >= 0 (rows): by enumeration of the active sets.
bool solve_lin(std::vector<V> M, V r, V& x) { int n = (int)r.size(); for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(M[i][k]) > std::fabs(M[p][k])) p = i; if (std::fabs(M[p][k]) < 1e-9) return false; std::swap(M[p], M[k]); std::swap(r[p], r[k]); for (int i = k + 1; i < n; ++i) { double f = M[i][k] / M[k][k]; for (int j = k; j < n; ++j) M[i][j] -= f * M[k][j]; r[i] -= f * r[k]; } } x.assign(n, 0); for (int k = n - 1; k >= 0; --k) { double t = r[k]; for (int j = k + 1; j < n; ++j) t -= M[k][j] * x[j]; x[k] = t / M[k][k]; } return true; }
bool qp(const V& H, const V& c, const std::vector<V>& A, const V& b, V& best, double& gap) {
  int n = (int)c.size(), m = (int)b.size(); bool found = false; double fb = INF; gap = INF;
  for (int S = 0; S < (1 << m); ++S) { std::vector<int> a; for (int k = 0; k < m; ++k) if (S >> k & 1) a.push_back(k); if ((int)a.size() > n) continue; int N = n + (int)a.size(); std::vector<V> M(N, V(N, 0)); V r(N, 0), x;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { M[i][j] = H[i * n + j]; r[i] += H[i * n + j] * c[j]; } for (size_t q = 0; q < a.size(); ++q) M[i][n + q] = -A[a[q]][i]; } for (size_t q = 0; q < a.size(); ++q) { for (int i = 0; i < n; ++i) M[n + q][i] = A[a[q]][i]; r[n + q] = -b[a[q]]; }
    if (!solve_lin(M, r, x)) continue; bool ok = true; for (size_t q = 0; q < a.size(); ++q) if (x[n + q] < -1e-9) ok = false; for (int k = 0; k < m && ok; ++k) { double v = b[k]; for (int i = 0; i < n; ++i) v += A[k][i] * x[i]; if (v < -1e-9) ok = false; } if (!ok) continue;
    double f = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) f += 0.5 * (x[i] - c[i]) * H[i * n + j] * (x[j] - c[j]); if (f < fb) { fb = f; best.assign(x.begin(), x.begin() + n); found = true; } }
  return found;
}
// Usual number of evaluations (mean, largest of several thousands) of these methods on these problems: without scaling nor
// faults, by solver, number of variables, kind (model with the fewest, some or all the conditions; COBYLA: constraints or not)
// and condition number.
struct Usual { int solver, n, kind, cond; double mean, most; };
const Usual USUAL[] = {
  {0,2,0,0,26.9,43}, {0,2,0,1,30.8,68}, {0,2,0,2,44.9,158}, {0,2,1,0,23.5,31}, {0,2,1,1,29.3,44}, {0,2,1,2,33.2,59},
  {0,2,2,0,24.6,32}, {0,2,2,1,24.6,32}, {0,2,2,2,24.9,32}, {0,3,0,0,38.6,62}, {0,3,0,1,50.3,92}, {0,3,0,2,80.2,209},
  {0,3,1,0,27.5,54}, {0,3,1,1,44.2,71}, {0,3,1,2,56.8,110}, {0,3,2,0,29.3,35}, {0,3,2,1,29.5,38}, {0,3,2,2,29.8,39},
  {0,4,0,0,51.6,77}, {0,4,0,1,73.2,148}, {0,4,0,2,127.6,261}, {0,4,1,0,31.5,64}, {0,4,1,1,58.4,93}, {0,4,1,2,83.1,176},
  {0,4,2,0,34.6,41}, {0,4,2,1,34.9,44}, {0,4,2,2,35.2,47}, {0,5,0,0,65.1,97}, {0,5,0,1,97.8,166}, {0,5,0,2,182.4,336},
  {0,5,1,0,35.2,79}, {0,5,1,1,72.2,129}, {0,5,1,2,111.7,223}, {0,5,2,0,40.8,47}, {0,5,2,1,41.7,50}, {0,5,2,2,41.5,51},
  {1,2,0,0,20.4,46}, {1,2,0,1,23.9,84}, {1,2,0,2,33.4,136}, {1,2,1,0,18.4,28}, {1,2,1,1,22.9,52}, {1,2,1,2,26.1,72},
  {1,2,2,0,20.7,30}, {1,2,2,1,20.8,31}, {1,2,2,2,21.0,32}, {1,3,0,0,29.9,74}, {1,3,0,1,37.8,110}, {1,3,0,2,56.3,214},
  {1,3,1,0,24.3,47}, {1,3,1,1,34.0,80}, {1,3,1,2,40.9,129}, {1,3,2,0,26.3,34}, {1,3,2,1,26.4,37}, {1,3,2,2,26.7,38},
  {1,4,0,0,40.1,89}, {1,4,0,1,53.1,145}, {1,4,0,2,80.8,332}, {1,4,1,0,28.1,67}, {1,4,1,1,44.9,104}, {1,4,1,2,56.1,183},
  {1,4,2,0,31.8,42}, {1,4,2,1,32.0,41}, {1,4,2,2,32.2,46}, {2,1,0,0,27.2,80}, {2,1,0,1,27.4,78}, {2,1,1,0,22.4,167},
  {2,1,1,1,22.4,136}, {2,2,0,0,46.1,99}, {2,2,0,1,47.8,112}, {2,2,1,0,45.1,274}, {2,2,1,1,46.1,415}, {2,3,0,0,71.8,180},
  {2,3,0,1,68.8,149}, {2,3,1,0,68.3,205}, {2,3,1,1,67.5,293},
};
const double SPREAD[3][3] = {{0.37, 0.26, 0.17}, {0.70, 0.43, 0.18}, {0.31, 0.50, 1}}; // relative standard deviation, by solver and kind
const double PRECISE[3][3] = {{3, 2, 0.02}, {15, 3, 0.02}, {4, 4, 4}};                  // accuracy (in rhoend times the condition number)
int kind_of(const Setup& s, int m) { return s.solver == COBYLA ? (m > 0) : s.npt == (s.n + 1) * (s.n + 2) / 2 ? 2 : s.npt == s.n + 2 ? 0 : 1; }
const Usual* usual(int solver, int n, int kind, double cond) { int c = cond > 50 ? 2 : cond > 1 ? 1 : 0; for (auto& u : USUAL) if (u.solver == solver && u.n == n && u.kind == kind && u.cond == c) return &u; return nullptr; }
struct Outcome { double rel = -1; int kind = 0; };
bool converge(int solver, int want, bool plain, Outcome& out) {
  Setup s = draw_setup(solver, solver != NEWUOA, false); if (s.m > 3) { s.m = s.p.m = 3; s.p.A.resize(3 * s.n); s.p.b.resize(3); } if (plain) { if (solver != COBYLA && kind_of(s, s.m) != want) return true; s.sclkind = 0; s.scl.assign(s.n, 1); } s.how = pick<How>({CALLBACK, SIMPLE, REVCOM}, "how"); if (solver == BOBYQA && s.how == REVCOM) s.how = CALLBACK;
  s.p.kind = 0; s.p.fkind = 0; s.p.s = (s.p.s < 0 ? -1 : 1); s.p.shift = 0; s.maxfun = 20000; s.iprint = 0; if (s.p.ckind) s.p.ckind = 0; double cond = pick<double>({1, 10, 100}, "condition number"); if (solver == COBYLA) cond = cond > 1 ? 3 : 1; if (s.sclkind) for (auto& e : s.scl) e = e > 1 ? 2 : e < 1 ? 0.5 : 1;
  if (s.how != CALLBACK) { if (s.maximize) s.p.s = -s.p.s; s.maximize = false; s.sclkind = 0; s.scl.assign(s.n, 1); }
  s.rhobeg = pick<double>({0.5, 0.1, 1}, "rhobeg"); s.rhoend = pick<double>({1e-5, 1e-3, 1e-6}, "rhoend"); int n = s.n; Rng g(mix(s.p.h, 77));
  { V d(n), u(n); double q = 0; for (auto& e : u) { e = g.sym(); q += e * e; } if (!(q > 0)) { u[0] = 1; q = 1; } for (int i = 0; i < n; ++i) d[i] = std::pow(cond, n > 1 ? (double)i / (n - 1) : 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = 0; for (int k = 0; k < n; ++k) t += ((i == k) - 2 * u[i] * u[k] / q) * d[k] * ((j == k) - 2 * u[j] * u[k] / q); s.p.H[i * n + j] = t; } }
  for (auto& e : s.x0) e = 2 * g.sym(); std::vector<V> A; V b;
  if (solver == BOBYQA) for (int i = 0; i < n; ++i) { double c = s.sclkind ? s.scl[i] : 1, w = c * s.rhobeg * (2.1 + 8 * g.u01()); s.xl[i] = s.x0[i] - w * g.u01(); s.xu[i] = s.xl[i] + w; if (g.next() % 4 == 0) s.xu[i] = 1e20; V r(n, 0); r[i] = 1; A.push_back(r); b.push_back(-s.xl[i]); if (s.xu[i] < 1e10) { r[i] = -1; A.push_back(r); b.push_back(s.xu[i]); } }
  if (solver == COBYLA) { int m = 0; // constraints which are far from being parallel
    for (int k = 0; k < s.m; ++k) { V r(n); double q = 0; for (auto& e : r) { e = g.sym(); q += e * e; } q = std::sqrt(q); if (!(q > 0.1)) continue; for (auto& e : r) e /= q; bool ok = true; for (auto& a : A) { double t = 0; for (int i = 0; i < n; ++i) t += a[i] * r[i]; if (std::fabs(t) > 0.97) ok = false; } if (!ok) continue; A.push_back(r); b.push_back(0.3 * g.sym() + 0.3); ++m; }
    s.m = s.p.m = m; s.p.A.clear(); s.p.b = b; for (auto& r : A) s.p.A.insert(s.p.A.end(), r.begin(), r.end()); }
  V best; double gap; if (!qp(s.p.H, s.p.c, A, b, best, gap)) { probe("no feasible point"); return true; }
  note("%s condition %g optimum %s", s.txt().c_str(), cond, vs(best).c_str()); if (!plain && s.how == REVCOM && chance(1, 2, "restart after faults")) { s.restart_at = 1 + (long)draw(chance(1, 2, "late") ? 60 : 12, "restart at"); s.heals = true; s.p.fkind = 1 + (int)draw(s.m ? 7 : 4, "fault kind"); if (s.p.fkind == 5 && !s.m) s.p.fkind = 7; s.p.fat = 1 + (long)draw(s.restart_at, "fault at"); s.p.fforever = chance(1, 4, "from then on"); }
  Solve z(s); z.all(); if (failed()) return false; if (z.s.restart_at >= 0 && s.heals) { probe("ended before the restart"); return true; } nontrivial(); Result& r = z.r; double maxs = 1, mins = 1; if (s.sclkind) { maxs = *std::max_element(s.scl.begin(), s.scl.end()); mins = *std::min_element(s.scl.begin(), s.scl.end()); } double d = 0; for (int i = 0; i < n; ++i) d += (r.x[i] - best[i]) * (r.x[i] - best[i]); d = std::sqrt(d);
  double ck = cond * (maxs / mins) * (maxs / mins), lim = s.rhoend * maxs; double ratio = d / (lim * std::sqrt((double)n)) / ck; count("evaluations in all", (double)r.h.size()); for (auto& e : r.h) note("  f%s = %.17g, constraints %s", vs(e.x).c_str(), e.f, vs(e.con).c_str()); note("H %s c %s A %s b %s x0 %s", vs(s.p.H).c_str(), vs(s.p.c).c_str(), vs(s.p.A).c_str(), vs(s.p.b).c_str(), vs(s.x0).c_str()); note("status %d %zu evaluations distance %g = %g rhoend %g", r.status, r.h.size(), d, d / lim, ratio); static const char* e[] = {"NEWUOA", "BOBYQA", "COBYLA"};
  double cv = 0; for (size_t k = 0; k < b.size(); ++k) { double v = b[k]; for (int i = 0; i < n; ++i) v += A[k][i] * r.x[i]; cv = std::max(cv, -v); }
  int kind = out.kind = kind_of(s, (int)b.size()); const Usual* u = usual(solver, n, kind, cond); std::string t = s.txt() + ", condition number " + std::to_string(cond); double limit = PRECISE[solver][kind], most = u ? u->most * (maxs != mins || solver == COBYLA ? 8 : kind == 2 ? 2 : kind == 1 ? 2.5 : 4) : 3000;
  if (u && maxs == mins && !s.heals) out.rel = r.h.size() / u->mean;
  if (!(r.status == 0 || (solver == BOBYQA && r.status == BOBYQA_ROUNDING_ERRORS))) { fail("W06.status", "status %d (%s) after %zu evaluations of a convex quadratic function; %s", r.status, reason(solver, r.status), r.h.size(), t.c_str()); return false; }
  if (r.status) probe("rounding errors");
  if (!(ratio <= limit)) { fail("W06.accuracy", "the result %s is at %g of the solution %s, that is %g rhoend; %s", vs(r.x).c_str(), d, vs(best).c_str(), d / lim, t.c_str()); return false; }
  if (solver == COBYLA && !(cv <= 2 * lim)) { fail("W06.feasible", "a constraint is violated by %g, that is %g rhoend; %s", cv, cv / lim, t.c_str()); return false; }
  if (r.h.size() > most) { fail("W06.cost", "%zu evaluations, usually %.0f; %s", r.h.size(), u ? u->mean : 0, t.c_str()); return false; }
  probe(e[solver]); if (solver == COBYLA && s.m > 1) probe("several constraints");
  ev("end", r.status, r.x[0], (double)r.h.size()); state_token(mix(solver, mix(n, (uint64_t)std::log2(1.0 + r.h.size())))); return true;
}
} namespace powell { void run_pace(); } namespace {
void run_W06() {
  heap::reset(draw(8, "junk")); if (chance(1, 40, "batch of problems of one kind")) { run_pace(); return; } int solver = (int)draw(3, "solver"); Outcome o; if (!chance(1, 24, "many problems")) { converge(solver, 0, false, o); return; }
  int want = (int)draw(solver == COBYLA ? 2 : 3, "kind"), m = 0; double sum = 0; const int M = 24; for (int tries = 0; tries < 600 && m < M; ++tries) { o = Outcome(); if (!converge(solver, want, true, o)) return; if (o.rel >= 0 && o.kind == want) { ++m; sum += o.rel; } }
  if (m < M) { probe("not enough problems"); return; } probe("many problems"); double mean = sum / m, limit = 1.05 + 6.5 * SPREAD[solver][want] / std::sqrt((double)m); note("mean relative cost %g, limit %g", mean, limit);
  if (!(mean <= limit)) fail("W06.pace", "%d problems of the same kind (%d) needed in average %g times the usual number of evaluations of this method; solver %d", m, want, mean, solver);
}
Reg r1({"W01", run_W01, 600000, 20000000, "one run: one minimization or maximization by NEWUOA with faults; non trivial: more than one evaluation; distinct: hash of the event log", "src/newuoa.c", "objective function"});
Reg r2({"W02", run_W02, 600000, 20000000, "one run: one minimization or maximization by BOBYQA with faults; non trivial: more than one evaluation; distinct: hash of the event log", "src/bobyqa.c", "objective function"});
Reg r3({"W03", run_W03, 700000, 20000000, "one run: one minimization or maximization by COBYLA with faults; non trivial: more than one evaluation; distinct: hash of the event log", "src/cobyla.c", "objective function and constraints"});
Reg r5({"W05", run_W05, 600000, 20000000, "one run: one call with wrong arguments, or a sequence of calls on contexts, some of them wrong; non trivial: a wrong call; distinct: hash of the event log", "src/newuoa.c, src/bobyqa.c, src/cobyla.c", "objective function and constraints, caller"});
Reg r6({"W06", run_W06, 250000, 10000000, "one run: one strictly convex quadratic problem solved to the end; non trivial: all; distinct: hash of the event log", "src/newuoa.c, src/bobyqa.c, src/cobyla.c", "objective function and constraints"});
Reg r7({"W07", run_W07, 300000, 10000000, "one run: one or two minimizations or maximizations which print, interleaved, with faults; non trivial: something was evaluated; distinct: hash of the event log", "src/newuoa.c, src/bobyqa.c, src/cobyla.c", "objective function and constraints, standard output and error (captured)"});
Reg r4({"W04", run_W04, 300000, 10000000, "one run: up to three problems, each solved in two equivalent ways, interleaved; non trivial: more than one evaluation; distinct: hash of the event log", "src/newuoa.c, src/bobyqa.c, src/cobyla.c", "objective function and constraints"});
}
