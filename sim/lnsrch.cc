// S01: line searches used on their own.
#include "opkpriv.h"
#include "sim.h"
#include <cerrno>
#include <cfloat>
#include <cstring>
#include <memory>
#include <algorithm>
using namespace sim;
namespace {
const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
enum Meth { BT, NM, CS };
const char* mname[] = {"backtracking", "nonmonotone", "More-Thuente"};

// ------------------------------------------------ reference of the three methods
struct Ref {
  int meth; double ftol, p1, p2; int m;              // p1,p2: amin | sigma1,sigma2 | gtol,xtol
  std::vector<double> past;                          // start values of the searches (nonmonotone)
  double f0 = 0, g0 = 0, smin = 0, smax = 0, fmax = 0; bool sure = true;
  // More & Thuente
  double stx, fx, gx, sty, fy, gy, a, b, w, w1; bool br; int stage;
  bool near(double u, double v, double s) const { return std::fabs(u - v) <= 1e-11 * s; }
  bool le(double u, double v, double s) { if (near(u, v, s)) sure = false; return u <= v; } // computed quantities: undecidable when too close
  void start(double f, double g, double st, double lo, double hi) {
    f0 = f; g0 = g; smin = lo; smax = hi; sure = std::isfinite(f) && std::isfinite(g) && std::isfinite(st);
    past.push_back(f); size_t k = past.size() > (size_t)m ? past.size() - m : 0; fmax = past[k]; for (; k < past.size(); ++k) { if (std::isnan(past[k])) sure = false; fmax = std::max(fmax, past[k]); }
    stx = sty = 0; fx = fy = f; gx = gy = g; a = 0; b = 5 * st; w = hi - lo; w1 = 2 * w; br = false; stage = 1;
    if (meth == CS && !std::isfinite(w)) w1 = INF;
  }
  double dec_bound(double st) const { return (meth == NM ? fmax : f0) + ftol * st * g0; }
  double dec_scale(double st, double f) const { return std::fabs(meth == NM ? fmax : f0) + std::fabs(ftol * st * g0) + std::fabs(f); }
  // result of one iteration: task, status; next step in st
  struct Out { int task, status; double st; };
  Out iterate(double st, double f, double g) {
    Out o = step(st, f, g);
    if (o.task == OPK_LNSRCH_SEARCH) {
      if (o.st <= smin) { if (st <= smin) { o.task = OPK_LNSRCH_WARNING; o.status = OPK_STEP_EQ_STPMIN; } o.st = smin; }
      else if (o.st >= smax) { if (st >= smax && st > smin) { o.task = OPK_LNSRCH_WARNING; o.status = OPK_STEP_EQ_STPMAX; } o.st = smax; }
    }
    return o;
  }
  Out step(double st, double f, double g) {
    bool dec = le(f, dec_bound(st), dec_scale(st, f));
    if (meth == CS) return mt(st, f, g, dec);
    if (dec) return {OPK_LNSRCH_CONVERGENCE, OPK_SUCCESS, st};
    if (st <= smin) return {OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN, st};
    double slope = -g0, c = f - f0 + st * slope; // curvature term of the parabola through f0, g0 and f: c = k st^2
    if (meth == BT) {
      double q = st * slope / (2 * c);
      if (p1 >= 0.5 || !(c > 0)) return {OPK_LNSRCH_SEARCH, OPK_SUCCESS, std::max(st * 0.5, smin)};
      if (std::fabs(c) < 1e-9 * (std::fabs(f) + std::fabs(f0) + st * slope)) sure = false;
      return {OPK_LNSRCH_SEARCH, OPK_SUCCESS, std::max(st * std::max(q, p1), smin)};
    }
    double q = slope * st * st / (2 * c); if (std::fabs(c) < 1e-9 * (std::fabs(f) + std::fabs(f0) + st * slope)) sure = false;
    bool in = c > 0 && le(p1, q, p1 + std::fabs(q)); if (in) in = le(q, p2 * st, std::fabs(q) + p2 * st);
    double s = in ? q : 0.5 * (st + smin); s = std::max(s, smin); // q can be smaller than the lower bound
    if (!(s > 0)) return {OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN, st};
    return {OPK_LNSRCH_SEARCH, OPK_SUCCESS, s};
  }
  Out mt(double st, double f, double g, bool dec) {
    double gt = ftol * g0;
    if (std::isnan(f) || std::isnan(g)) sure = false;
    if (dec && le(std::fabs(g), -p1 * g0, std::fabs(g) + std::fabs(g0) * p1)) return {OPK_LNSRCH_CONVERGENCE, OPK_SUCCESS, st};
    bool flat = le(g, gt, std::fabs(g) + std::fabs(gt));
    if (st == smin && (!dec || !flat || g == gt)) return {OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN, st};
    if (st == smax && dec && flat) return {OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMAX, st};
    if (br && le(b - a, p2 * b, std::fabs(a) + std::fabs(b) * (p2 > 0))) return {OPK_LNSRCH_WARNING, OPK_XTOL_TEST_SATISFIED, st};
    if (br && (st <= a || st >= b)) return {OPK_LNSRCH_WARNING, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS, st};
    if (stage == 1 && dec && g >= 0) stage = 2;
    double s = st; int e;
    if (stage == 1 && f <= fx && !dec) {
      double fxm = fx - stx * gt, fym = fy - sty * gt, gxm = gx - gt, gym = gy - gt;
      e = cstep(fxm, gxm, fym, gym, s, f - st * gt, g - gt);
      fx = fxm + stx * gt; fy = fym + sty * gt; gx = gxm + gt; gy = gym + gt;
    } else e = cstep(fx, gx, fy, gy, s, f, g);
    if (e) return {OPK_LNSRCH_ERROR, e, st};
    if (br) { double nw = std::fabs(sty - stx); if (std::isfinite(w1) && le(0.66 * w1, nw, nw + w1)) s = stx + 0.5 * (sty - stx); w1 = w; w = nw; }
    if (br) { a = std::min(stx, sty); b = std::max(stx, sty); } else { a = s + 1.1 * (s - stx); b = s + 4 * (s - stx); }
    s = std::min(std::max(s, smin), smax);
    if (br) { if (near(s, a, b) || near(s, b, b)) sure = sure && (s == a || s == b); if (s <= a || s >= b || le(b - a, p2 * b, (std::fabs(a) + std::fabs(b)) * (p2 > 0))) s = stx; }
    return {OPK_LNSRCH_SEARCH, OPK_SUCCESS, s};
  }
  // safeguarded cubic/quadratic step of the TOMS paper
  int cstep(double& Fx, double& Dx, double& Fy, double& Dy, double& st, double fp, double dp) {
    if (br && (st <= std::min(stx, sty) || st >= std::max(stx, sty))) return OPK_STEP_OUTSIDE_BRACKET;
    if (Dx * (st - stx) >= 0) return OPK_NOT_A_DESCENT;
    double lo = a, hi = b; if (lo > hi) return OPK_STPMIN_GT_STPMAX;
    bool opp = (dp < 0 && Dx > 0) || (dp > 0 && Dx < 0); double nx;
    auto cubic = [&](double s1, double f1, double d1, double s2, double f2, double d2, bool clip, double& gam, double& th) { // gamma, theta of the cubic
      th = 3 * (f1 - f2) / (s2 - s1) + d1 + d2; double s = std::max({std::fabs(th), std::fabs(d1), std::fabs(d2)});
      double t = (th / s) * (th / s) - (d1 / s) * (d2 / s); if (std::fabs(t) < 1e-10) sure = false; if (clip && !(t > 0)) t = 0; gam = s * std::sqrt(t); };
    double gam, th;
    if (!std::isfinite(fp) || !std::isfinite(dp)) sure = false;
    if (fp > Fx) { br = true; cubic(stx, Fx, Dx, st, fp, dp, false, gam, th); if (st < stx) gam = -gam;
      double r = (gam - Dx + th) / (gam - Dx + gam + dp), c = stx + r * (st - stx), q = stx + (Dx / ((Fx - fp) / (st - stx) + Dx)) / 2 * (st - stx);
      cond(gam - Dx + gam + dp, gam, Dx, dp, th);
      nx = closer(c, q, stx) ? c : c + (q - c) / 2; }
    else if (opp) { br = true; cubic(stx, Fx, Dx, st, fp, dp, false, gam, th); if (st > stx) gam = -gam;
      double r = (gam - dp + th) / (gam - dp + gam + Dx), c = st + r * (stx - st), q = st + dp / (dp - Dx) * (stx - st); cond(gam - dp + gam + Dx, gam, Dx, dp, th);
      nx = closer(q, c, st) ? c : q; }
    else if (std::fabs(dp) < std::fabs(Dx)) { cubic(stx, Fx, Dx, st, fp, dp, true, gam, th); if (st > stx) gam = -gam;
      double r = (gam - dp + th) / (gam + (Dx - dp) + gam), c; cond(gam + (Dx - dp) + gam, gam, Dx, dp, th);
      if (std::fabs(gam - dp + th) < 1e-9 * (std::fabs(gam) + std::fabs(dp) + std::fabs(th))) sure = false;
      if (r < 0 && gam != 0) c = st + r * (stx - st); else c = st > stx ? hi : lo;
      double q = st + dp / (dp - Dx) * (stx - st);
      if (br) { nx = closer(c, q, st) ? c : q; double lim = st + 0.66 * (sty - st); nx = st > stx ? std::min(lim, nx) : std::max(lim, nx); }
      else { nx = closer(q, c, st) ? c : q; nx = std::max(lo, std::min(hi, nx)); } }
    else { if (br) { cubic(st, fp, dp, sty, Fy, Dy, false, gam, th); if (st > sty) gam = -gam; cond(gam - dp + gam + Dy, gam, Dy, dp, th);
        nx = st + (gam - dp + th) / (gam - dp + gam + Dy) * (sty - st); }
      else nx = st > stx ? hi : lo; }
    if (fp > Fx) { sty = st; Fy = fp; Dy = dp; } else { if (opp) { sty = stx; Fy = Fx; Dy = Dx; } stx = st; Fx = fp; Dx = dp; }
    st = nx; if (!std::isfinite(nx)) sure = false; return 0;
  }
  void cond(double d, double gam, double d1, double d2, double th) { if (std::fabs(d) < 1e-8 * (std::fabs(gam) + std::fabs(d1) + std::fabs(d2) + std::fabs(th))) sure = false; }
  bool closer(double u, double v, double o) { double du = std::fabs(u - o), dv = std::fabs(v - o); if (std::fabs(du - dv) <= 1e-9 * (du + dv) && std::fabs(u - v) > 1e-9 * (du + dv)) sure = false; return du < dv; }
};

// ------------------------------------------------ functions along the search direction
struct Phi { int kind; double s, c, k, w; uint64_t h;
  void eval(double t, long call, double& f, double& g) const {
    switch (kind) {
    case 0: f = k * (t - c) * (t - c); g = 2 * k * (t - c); break;
    case 1: { double u = t + c; f = -u / (u * u + 2); g = (u * u - 2) / ((u * u + 2) * (u * u + 2)); if (t + c > 1e8) { f = -1 / u; g = 1 / (u * u); } break; }
    case 2: { double u = t - c; f = k * u * u * u * u - w * u; g = 4 * k * u * u * u - w; break; }
    case 3: f = k * (t - c) * (t - c) + w * std::sin(5 * t); g = 2 * k * (t - c) + 5 * w * std::cos(5 * t); break;
    case 4: f = k * std::fabs(t - c); g = t < c ? -k : k; break;
    case 5: f = -k * t; g = -k; break;                                         // unbounded
    case 6: f = k * std::exp(-t) + w * t * t; g = -k * std::exp(-t) + 2 * w * t; break;
    case 7: f = t > c ? INF : -k * t; g = t > c ? NAN_ : -k; break;            // cliff
    default: { Rng r(mix(h, (uint64_t)call)); f = k * r.sym() * (r.u01() < 0.3 ? 1e-3 : 1); g = k * r.sym(); if (kind == 9) { f = std::fabs(f) + 2 * k; } break; } // adversary
    }
    f *= s; g *= s; f += w * s;
  }
};

opk_lnsrch* make(Ref& r, bool bad) {
  r.meth = (int)draw(3, "method"); r.m = 1; r.p1 = r.p2 = 0;
  auto tol = [&](const char* t) { return pick<double>({1e-4, 1e-3, 0.1, 0.25, 0.4}, t); };
  double N = NAN_; opk_lnsrch* ls = nullptr; errno = 0;
  if (r.meth == BT) { r.ftol = tol("ftol"); r.p1 = pick<double>({0.1, 0.5, 0.01, 0.3, 0.9}, "amin"); bool ok = true;
    if (bad) { ok = false; (chance(1, 2, "which") ? r.ftol : r.p1) = pick<double>({0, 1, -1, N, INF}, "bad value"); }
    ls = opk_lnsrch_new_backtrack(r.ftol, r.p1); (void)ok;
  } else if (r.meth == NM) { r.ftol = tol("ftol"); r.m = 1 + (int)draw(5, "m-1"); r.p1 = pick<double>({0.1, 0.01, 0.3, 1e-4}, "sigma1"); r.p2 = pick<double>({0.9, 0.5, 0.7}, "sigma2");
    if (bad) switch (draw(4, "which")) { case 0: r.m = pick<int>({0, -1}, "bad value"); break; case 1: r.ftol = pick<double>({0, -1, N, INF}, "bad value"); break; case 2: r.p1 = pick<double>({0, r.p2, 1, N, -1}, "bad value"); break; default: r.p2 = pick<double>({1, r.p1, 0, N, 2}, "bad value"); }
    ls = opk_lnsrch_new_nonmonotone(r.m, r.ftol, r.p1, r.p2);
  } else { r.ftol = tol("ftol"); r.p1 = pick<double>({0.9, 0.5, 0.1, 0.01, 0.0}, "gtol"); r.p2 = pick<double>({1e-15, 0.0, 1e-3, 0.1}, "xtol");
    if (bad) { double& v = *pick<double*>({&r.ftol, &r.p1, &r.p2}, "which"); v = pick<double>({-1, N, -INF, -1e-300}, "bad value"); }
    ls = opk_lnsrch_new_csrch(r.ftol, r.p1, r.p2); }
  return ls;
}

void queries(const opk_lnsrch* ls, int task, int status, double st) {
  int t = opk_lnsrch_get_task(ls);
  if (t != task) { fail("S01.query", "opk_lnsrch_get_task gives %d after task %d was returned", t, task); return; }
  if ((int)opk_lnsrch_get_status(ls) != status) { fail("S01.status", "task %d has status %d instead of %d", task, (int)opk_lnsrch_get_status(ls), status); return; }
  if (!!opk_lnsrch_has_errors(ls) != (task == OPK_LNSRCH_ERROR) || !!opk_lnsrch_has_warnings(ls) != (task == OPK_LNSRCH_WARNING) || !!opk_lnsrch_converged(ls) != (task == OPK_LNSRCH_CONVERGENCE) || !!opk_lnsrch_finished(ls) != (task != OPK_LNSRCH_SEARCH)) { fail("S01.query", "the queries do not agree with task %d", task); return; }
  double s = opk_lnsrch_get_step(ls); if (task == OPK_LNSRCH_SEARCH ? s != st : task == OPK_LNSRCH_ERROR && s != -1) fail("S01.query", "opk_lnsrch_get_step gives %g for task %d and step %g", s, task, st);
}

struct Search { opk_lnsrch* ls; Ref r; Phi phi; int task = OPK_LNSRCH_ERROR, status = OPK_NOT_STARTED; double st = 0, lo = 0, hi = 0, f0 = 0, g0 = 0, s1 = 0; long calls = 0, limit = 0; double pf = 0; bool clean = true, any = false; Guarded gs; int starts = 0; double fbest = 0;
  const char* nm() const { return mname[r.meth]; }
  bool live_search() const { return task == OPK_LNSRCH_SEARCH; }
  void begin(bool bad) {
    Phi p; p.kind = (int)draw(10, "function"); p.s = pick<double>({1, 1e-6, 1e6}, "scale"); if (chance(1, 16, "extreme scale")) p.s *= pick<double>({1e-15, 1e15}, "extreme scale of the function"); p.c = real(0.0625, 8, "location", 64); p.k = pick<double>({1, 100, 0.01}, "curvature"); p.w = pick<double>({0, 0.1, 1, 5}, "ripple"); p.h = draw(1u << 20, "noise");
    double f, g; phi = p; phi.eval(0, -1, f, g); if (p.kind >= 8) { f = 0; g = -p.k * p.s; }
    lo = pick<double>({0, 1e-3, 1e-20, 0.0625, 1e-9}, "stpmin"); hi = pick<double>({1e3, 10, 1e20, 1, INF}, "stpmax"); double s = pick<double>({1, 0.1, 3, 100, 1e-3}, "stp"); if (chance(1, 6, "at a bound")) s = chance(1, 2, "upper") && hi < INF ? hi : lo; if (chance(1, 12, "equal bounds")) { lo = hi = s; }
    s = std::min(std::max(s, lo), hi);
    if (!bad && s == 0) { s = lo = 1e-3; hi = std::max(hi, s); }
    if (!bad && !(g < 0)) g = -std::fabs(g) - p.s; // the adversary: a slope which is not the one of the function
    int want = OPK_SUCCESS; double slo = lo, shi = hi;
    if (bad) { fault("invalid start"); switch (draw(6, "invalid start")) { case 0: slo = pick<double>({-1, NAN_, -1e-300, -INF}, "value"); break; case 1: shi = pick<double>({lo / 2 - 1e-300, NAN_, -1}, "value"); break; case 2: s = pick<double>({lo / 2 - 1e-300, NAN_, -1, -INF}, "value"); break; case 3: s = hi == INF ? NAN_ : hi * 2 + 1e-300; break; case 4: g = pick<double>({0, 1, NAN_, INF, 1e-300}, "value"); break; default: s = hi == INF ? NAN_ : hi * 2; slo = -1; g = 1; } 
      want = !(slo >= 0) ? OPK_STPMIN_LT_ZERO : !(slo <= shi) ? OPK_STPMIN_GT_STPMAX : !(s >= slo) ? OPK_STEP_LT_STPMIN : !(s <= shi) ? OPK_STEP_GT_STPMAX : OPK_NOT_A_DESCENT; }
    int t = opk_lnsrch_start(ls, f, g, s, slo, shi); ev("start", t, s, f); ++starts; note("%s start: f0 %.17g g0 %.17g stp %.17g in [%g, %g] -> %d", nm(), f, g, s, slo, shi, t);
    if (bad) { task = OPK_LNSRCH_ERROR; status = want; if (t != task) { fail("S01.start", "an invalid start (stp %g in [%g, %g], slope %g) is accepted", s, slo, shi, g); return; } queries(ls, task, status, 0); probe("invalid start"); nontrivial(); return; }
    task = OPK_LNSRCH_SEARCH; status = OPK_SUCCESS; if (t != task) { fail("S01.start", "opk_lnsrch_start refuses a valid start (stp %g in [%g, %g], slope %g) with task %d, status %d", s, lo, hi, g, t, (int)opk_lnsrch_get_status(ls)); return; }
    r.start(f, g, s, lo, hi); st = s; f0 = f; g0 = g; s1 = s; calls = 0; clean = p.kind < 7 && p.kind != 4; *gs.as<double>() = s; queries(ls, task, status, s);
    double rate = r.meth == BT ? std::max({0.5, r.p1 < 0.5 ? r.p1 : 0.0, 1 / (2 * (1 - r.ftol))}) : std::max(0.5, r.p2); double floor_ = std::max(lo, 1e-307);
    limit = r.meth == CS ? (lo == 0 ? 1500 : 700) : (long)(80 + std::max(1.0, std::log(s) - std::log(floor_)) / -std::log(rate) + 1100 * (lo == 0)); any = true;
  }
  void iterate() {
    double f, g; phi.eval(st, calls++, f, g); count("evaluations");
    if (pf > 0 && chance((unsigned)(pf * 64), 64, "evaluation fault")) { clean = false; switch (draw(6, "kind of fault")) { case 0: f = NAN_; break; case 1: f = INF; break; case 2: g = NAN_; break; case 3: f = -INF; break; case 4: g = INF; break; default: f = NAN_; g = NAN_; } fault("value which is not finite"); }
    if (!opk_lnsrch_use_deriv(ls)) { if (r.meth == CS) fail("S01.deriv", "the More-Thuente line search does not ask for derivatives"); g = calls % 2 ? NAN_ : g; } // documented as unused
    double s = st; bool was = r.sure; double mag = r.meth == CS ? std::max({std::fabs(s), std::fabs(r.stx), std::fabs(r.sty)}) : 0; Ref::Out o = r.iterate(st, f, g);
    int t = opk_lnsrch_iterate(ls, gs.as<double>(), f, g); double ns = *gs.as<double>(); ev("iterate", t, ns, f); note("%s stp %.17g f %.17g g %.17g -> task %d status %d stp %.17g   (model %d %d %.17g%s)", nm(), s, f, g, t, (int)opk_lnsrch_get_status(ls), ns, o.task, o.status, o.st, was && r.sure ? "" : " unsure");
    int stt = opk_lnsrch_get_status(ls); state_token(mix((uint64_t)(t + 5) * 64 + stt, (uint64_t)r.meth * 16 + (ns > s) * 2 + (ns < s)));
    if (stt < 0 || stt >= OPK_MAX_STATUS) { fail("S01.status", "unknown status %d", stt); return; }
    double D = r.dec_bound(s), sc = 1e-10 * r.dec_scale(s, f);
    if (t == OPK_LNSRCH_CONVERGENCE) {
      if (stt != OPK_SUCCESS) fail("S01.status", "convergence with status %d", stt);
      if (!(f <= D + sc)) fail("S01.converged", "%s line search claims convergence at step %.17g where f = %.17g is above %.17g (f0 %.17g, slope %.17g)", nm(), s, f, D, f0, g0);
      else if (r.meth == CS && !(std::fabs(g) <= -r.p1 * g0 * (1 + 1e-10))) fail("S01.converged", "%s line search claims convergence at step %.17g where |f'| = %.17g is above gtol*|f'(0)| = %.17g", nm(), s, std::fabs(g), -r.p1 * g0);
      probe("convergence");
    } else if (t == OPK_LNSRCH_WARNING) {
      if (stt != OPK_STEP_EQ_STPMIN && stt != OPK_STEP_EQ_STPMAX && stt != OPK_XTOL_TEST_SATISFIED && stt != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) fail("S01.status", "a warning has status %d", stt);
      else if (stt == OPK_STEP_EQ_STPMIN && s > lo) { if (!(r.meth == NM && s <= 1e-300)) fail("S01.status", "the step %g is said to be at the lower bound %g", s, lo); }
      else if (stt == OPK_STEP_EQ_STPMAX && s < hi) fail("S01.status", "the step %g is said to be at the upper bound %g", s, hi);
      else if ((stt == OPK_XTOL_TEST_SATISFIED || stt == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) && clean && !(f <= f0 + 1e-9 * (std::fabs(f0) + std::fabs(f) + std::fabs(g0 * s)))) fail("S01.best", "the search ends with warning %d at step %.17g where f = %.17g is above f0 = %.17g", stt, s, f, f0);
      probe(stt == OPK_STEP_EQ_STPMIN ? "warning: stpmin" : stt == OPK_STEP_EQ_STPMAX ? "warning: stpmax" : stt == OPK_XTOL_TEST_SATISFIED ? "warning: xtol" : "warning: rounding");
    } else if (t == OPK_LNSRCH_ERROR) { if (stt == OPK_SUCCESS) fail("S01.status", "an error has status success"); if (clean && r.sure && r.meth != CS) fail("S01.error", "%s line search fails with status %d for a function without faults", nm(), stt); probe("error while searching"); }
    if (failed()) return;
    if (f <= D - sc && (r.meth != CS || std::fabs(g) <= -r.p1 * g0 * (1 - 1e-10)) && t != OPK_LNSRCH_CONVERGENCE) { fail("S01.missed", "%s line search goes on (task %d, status %d) at step %.17g where its conditions hold: f = %.17g <= %.17g", nm(), t, stt, s, f, D); return; }
    if (t == OPK_LNSRCH_SEARCH) {
      if (std::isnan(ns) ? !std::isnan(f) && !std::isnan(g) && std::isfinite(f) && std::isfinite(g) && clean : !(ns >= lo && ns <= hi)) { fail("S01.bounds", "%s line search asks for step %.17g which is not in [%.17g, %.17g]", nm(), ns, lo, hi); return; }
      if (std::isnan(ns)) { if (r.meth != CS) { fail("S01.bounds", "%s line search asks for a step which is not a number", nm()); return; } probe("NaN step"); }
      if (r.meth != CS && !(ns < s)) { fail("S01.progress", "%s line search goes from step %.17g to step %.17g", nm(), s, ns); return; }
      if (r.meth == BT && ns < std::max(lo, std::min(r.p1, 0.5) * s) * (1 - 1e-12)) { fail("S01.progress", "backtracking from step %.17g to %.17g although amin = %g", s, ns, r.p1); return; }
    } else if (ns == 0 && s > 0 && s < 1e-322 && stt == OPK_STEP_EQ_STPMIN) { probe("step backtracked until it vanished"); /* half of the smallest positive number */
    } else if (!same_bits(ns, s)) { fail("S01.final", "the step is changed from %.17g to %.17g when the search ends with task %d", s, ns, t); return; }
    if (was && r.sure && std::isfinite(f) && (r.meth != CS || std::isfinite(g))) {
      nontrivial(); if (o.task != t || o.status != stt) { fail("S01.model", "%s line search at step %.17g gives task %d status %d, expected task %d status %d", nm(), s, t, stt, o.task, o.status); return; }
      if (t == OPK_LNSRCH_SEARCH && std::fabs(o.st - ns) > 1e-6 * std::max(std::fabs(o.st), std::fabs(ns)) + 4 * std::numeric_limits<double>::epsilon() * mag) { fail("S01.model", "%s line search goes from step %.17g to %.17g, expected %.17g", nm(), s, ns, o.st); return; }
      probe("step compared with the model"); }
    task = t; status = stt; st = ns; queries(ls, task, status, ns); if (failed()) return;
    if (std::isnan(st) && task == OPK_LNSRCH_SEARCH) { begin(false); return; }
    if (task == OPK_LNSRCH_SEARCH && calls > limit && (r.meth != CS || hi <= 1e20)) fail("S01.liveness", "%s line search has not finished after %ld steps in [%g, %g] from %g", nm(), calls, lo, hi, s1);
    if (task == OPK_LNSRCH_SEARCH && calls > 5000) { task = OPK_LNSRCH_WARNING; }
  }
};

// ------------------------------------------------ the safeguarded step used alone by a caller who writes his own search
void run_cstep() {
  Phi p; p.kind = (int)draw(10, "function"); p.s = pick<double>({1, 1e-6, 1e6}, "scale"); p.c = real(0.0625, 8, "location", 64); p.k = pick<double>({1, 100, 0.01}, "curvature"); p.w = pick<double>({0, 0.1, 1, 5}, "ripple"); p.h = draw(1u << 20, "noise");
  Ref r; r.meth = CS; r.m = 1; r.ftol = r.p1 = r.p2 = 0; double f, g; p.eval(0, -1, f, g); if (!(g < 0)) g = -std::fabs(g) - p.s;
  if (!std::isfinite(f) || !std::isfinite(g)) return;
  double st = pick<double>({1, 0.1, 3, 100, 1e-3}, "stp"), lo = pick<double>({0, 1e-3, 1e-9}, "stpmin"), hi = pick<double>({1e3, 1e20, 10}, "stpmax"); st = std::min(std::max(st, lo), hi);
  r.start(f, g, st, lo, hi); r.a = lo; r.b = hi;
  struct A { double stx, fx, dx, sty, fy, dy, st; } v; Guarded gd(sizeof(A), true, 0); A* q = gd.as<A>(); opk_bool br = OPK_FALSE;
  int steps = 1 + (int)draw(12, "steps-1");
  for (int k = 0; k < steps && !failed(); ++k) {
    double fp, dp; p.eval(st, k, fp, dp); if (!std::isfinite(fp) || !std::isfinite(dp)) return;
    v = {r.stx, r.fx, r.gx, r.sty, r.fy, r.gy, st}; br = r.br ? OPK_TRUE : OPK_FALSE; double a = r.a, b = r.b; bool bad = chance(1, 6, "inconsistent arguments"); 
    if (bad) { fault("inconsistent arguments of opk_cstep"); switch (draw(4, "kind")) { case 0: v.st = pick<double>({v.stx, v.sty, 2 * std::max(v.stx, v.sty) + 1, -1}, "step out of the bracket"); break; case 1: v.dx = pick<double>({-v.dx, 0}, "slope"); break; case 2: std::swap(a, b); if (a == b) a += 1; break; default: v.stx = v.st; } }
    bool e1 = br && (v.stx < v.sty ? v.st <= v.stx || v.st >= v.sty : v.st <= v.sty || v.st >= v.stx), e2 = v.dx * (v.st - v.stx) >= 0, e3 = a > b; *q = v;
    int e = opk_cstep(&q->stx, &q->fx, &q->dx, &q->sty, &q->fy, &q->dy, &q->st, fp, dp, &br, a, b); ev("cstep", e, q->st, q->stx);
    note("opk_cstep: best %.17g (%.17g, %.17g), other %.17g (%.17g, %.17g), step %.17g (%.17g, %.17g) in [%g, %g] bracketed %d -> %d, %.17g, [%.17g, %.17g] %d", v.stx, v.fx, v.dx, v.sty, v.fy, v.dy, v.st, fp, dp, a, b, (int)r.br, e, q->st, q->stx, q->sty, (int)br);
    if (e1 || e2 || e3) { nontrivial(); probe("opk_cstep: refused");
      if (!((e1 && e == OPK_STEP_OUTSIDE_BRACKET) || (e2 && e == OPK_NOT_A_DESCENT) || (e3 && e == OPK_STPMIN_GT_STPMAX))) { fail("S01.cstep", "inconsistent arguments of opk_cstep (bracket %d, slope %d, limits %d) give status %d", e1, e2, e3, e); return; }
      if (memcmp(q, &v, sizeof v) || !!br != r.br) fail("S01.cstep", "opk_cstep changes its arguments although it refuses them");
      if (!bad) return;
      continue; }
    if (e != OPK_SUCCESS) { fail("S01.cstep", "opk_cstep refuses consistent arguments with status %d", e); return; }
    r.stx = v.stx; r.sty = v.sty; r.a = a; r.b = b; double Fx = v.fx, Dx = v.dx, Fy = v.fy, Dy = v.dy, s = v.st; r.sure = true; r.cstep(Fx, Dx, Fy, Dy, s, fp, dp);
    if (!!br != r.br || q->stx != r.stx || q->sty != r.sty || q->fx != Fx || q->fy != Fy || q->dx != Dx || q->dy != Dy) { fail("S01.cstep", "opk_cstep keeps [%.17g, %.17g] bracketed %d, expected [%.17g, %.17g] %d, or not with their values", q->stx, q->sty, (int)br, r.stx, r.sty, (int)r.br); return; }
    if (r.sure) { nontrivial(); probe("opk_cstep compared with the model"); if (!(std::fabs(s - q->st) <= 1e-6 * std::max(std::fabs(s), std::fabs(q->st)) + 4 * std::numeric_limits<double>::epsilon() * std::max({std::fabs(v.st), std::fabs(v.stx), std::fabs(v.sty)}))) { fail("S01.cstep", "opk_cstep gives step %.17g, expected %.17g", q->st, s); return; } }
    st = q->st; r.fx = Fx; r.gx = Dx; r.fy = Fy; r.gy = Dy; state_token(mix((uint64_t)r.br * 8 + (st > v.st) * 2 + (st < v.st), 77));
    if (!std::isfinite(st)) return;
    if (r.br) { r.a = std::min(r.stx, r.sty); r.b = std::max(r.stx, r.sty); if (st <= r.a || st >= r.b) st = r.a + 0.5 * (r.b - r.a); } else { r.a = st; r.b = st + 4 * (st - r.stx); st = std::min(std::max(st, lo), hi); if (r.a > r.b) std::swap(r.a, r.b); }
  }
  if (!gd.intact()) fail("S01.memory", "memory around the arguments of opk_cstep was written");
}

void run_S01() {
  if (chance(1, 8, "safeguarded step used alone")) { run_cstep(); return; }
  heap::reset(draw(16, "junk")); int K = 1 + (chance(1, 4, "two searches interleaved") ? 1 : 0); std::vector<std::unique_ptr<Search>> S;
  for (int k = 0; k < K; ++k) { std::unique_ptr<Search> s(new Search); s->gs = Guarded(8, true, k);
    if (chance(1, 16, "invalid parameters")) { fault("invalid parameters"); Ref r; opk_lnsrch* ls = make(r, true); nontrivial(); if (ls) { fail("S01.ctor", "the %s line search accepts invalid parameters m %d ftol %g %g %g", mname[r.meth], r.m, r.ftol, r.p1, r.p2); return; } if (errno != EINVAL) { fail("S01.ctor", "invalid parameters: errno is %d", errno); return; } if (heap::live()) if (k == 0) { fail("S01.ctor", "a refused line search leaves memory allocated"); return; } }
    s->ls = make(s->r, false); if (!s->ls) { fail("S01.ctor", "the %s line search refuses valid parameters m %d ftol %g %g %g", mname[s->r.meth], s->r.m, s->r.ftol, s->r.p1, s->r.p2); return; }
    note("%s m %d ftol %g p1 %g p2 %g", s->nm(), s->r.m, s->r.ftol, s->r.p1, s->r.p2);
    queries(s->ls, OPK_LNSRCH_ERROR, OPK_NOT_STARTED, 0); s->pf = chance(1, 4, "faults") ? pick<double>({0.0625, 0.25, 0.5, 1}, "rate of faults") : 0; S.push_back(std::move(s)); }
  int rounds = 1 + (int)draw(5, "searches-1");
  bool proto = chance(1, 2, "caller breaks the protocol");
  for (int i = 0; i < rounds && !failed(); ++i) {
    for (auto& s : S) { if (chance(1, 8, "invalid start")) s->begin(true); if (failed()) return; s->begin(false); if (failed()) return; }
    for (;;) {
      std::vector<Search*> act; for (auto& s : S) if (s->live_search()) act.push_back(s.get());
      if (act.empty()) break;
      Search& s = *act[act.size() > 1 ? draw(act.size(), "who") : 0]; s.iterate(); if (failed()) return;
      if (proto && s.live_search() && chance(1, 24, "protocol fault")) { int kind = (int)draw(4, "kind"); double keep = *s.gs.as<double>();
        if (kind == 0) { fault("step changed by the caller"); double v = pick<double>({keep * 2 + 1, 0.5 * keep - 1e-300, -1, NAN_}, "value"); if (v != keep) { *s.gs.as<double>() = v; int t = opk_lnsrch_iterate(s.ls, s.gs.as<double>(), 0, 0); s.task = OPK_LNSRCH_ERROR; s.status = OPK_STEP_CHANGED; if (t != OPK_LNSRCH_ERROR) fail("S01.protocol", "the step was changed from %g to %g by the caller: task %d", keep, v, t); else if (!same_bits(*s.gs.as<double>(), v)) fail("S01.protocol", "a refused call changes the step"); else queries(s.ls, s.task, s.status, 0); } }
        else if (kind == 1) { fault("NULL step"); int t = opk_lnsrch_iterate(s.ls, nullptr, 0, 0); s.task = OPK_LNSRCH_ERROR; s.status = OPK_ILLEGAL_ADDRESS; if (t >= 0) fail("S01.protocol", "opk_lnsrch_iterate with a NULL step: task %d", t); else if (opk_lnsrch_get_task(s.ls) != OPK_LNSRCH_ERROR) { s.task = opk_lnsrch_get_task(s.ls); } }
        else if (kind == 2) { probe("search started again before its end"); s.begin(false); }
        else { double d = 1; if (opk_lnsrch_iterate(nullptr, &d, 0, 0) >= 0 || opk_lnsrch_start(nullptr, 0, -1, 1, 0, 2) >= 0 || d != 1) fail("S01.protocol", "a NULL line search is not reported as an error"); else { queries(nullptr, OPK_LNSRCH_ERROR, OPK_ILLEGAL_ADDRESS, 0); if (opk_lnsrch_use_deriv(nullptr)) fail("S01.protocol", "NULL uses derivatives"); } fault("NULL line search"); }
        if (failed()) return; }
    }
    for (auto& s : S) if (chance(1, 6, "iterate after the end")) { fault("call after the end"); double v = *s->gs.as<double>(); int t = opk_lnsrch_iterate(s->ls, s->gs.as<double>(), s->f0 - 1, 0); s->task = OPK_LNSRCH_ERROR; s->status = OPK_NOT_STARTED; if (t != OPK_LNSRCH_ERROR || !same_bits(v, *s->gs.as<double>())) { fail("S01.protocol", "a call after the end of the search gives task %d", t); return; } queries(s->ls, s->task, s->status, 0); if (failed()) return; }
  }
  for (auto& s : S) { opk_drop_object((opk_object*)s->ls); if (!s->gs.intact()) fail("S01.memory", "memory around the step was written"); }
  std::string w; if (heap::live()) fail("S01.memory", "%ld blocks left", heap::live()); else if (!heap::check(&w)) fail("S01.memory", "%s", w.c_str());
}
Reg r1({"S01", run_S01, 3000000, 4000000, "one run: one or two line searches driven through a drawn history of searches over one dimensional functions or adversaries, with faults; non trivial: a step was compared with the model or a call was refused; distinct: hash of the event log",
  "src/lnsrch.c, src/algebra.c (object life)", "caller of the line search, function along the search direction, heap"});
}
