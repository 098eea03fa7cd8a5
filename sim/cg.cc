// C01: linear conjugate gradients by reverse communication.
#include "opkpriv.h"
#include "sim.h"
extern "C" {
#include "optimpack-linalg.h"
}
#include <memory>
#include <algorithm>
using namespace sim;
namespace {
typedef std::vector<double> V;
enum Algo { LCG, PLCG, TRCG };
const char* sname(int s) { static const char* t[] = {"ERROR", "START", "RESTART", "NEWX", "PRECOND", "AP", "FINISH", "NON_CONVEX", "TRUNCATED"}; return s >= -1 && s <= 7 ? t[s + 1] : "?"; }
void call(int algo, int n, double* p, double* q, double* r, double* x, double* z, double delta, double* rho, opk_cg_state* s) {
  if (algo == LCG) opk_dlcg(n, p, q, r, x, rho, s); else if (algo == PLCG) opk_dplcg(n, p, q, r, x, z, rho, s); else opk_dtrcg(n, p, q, r, x, z, delta, rho, s); }
void call(int algo, int n, float* p, float* q, float* r, float* x, float* z, double delta, float* rho, opk_cg_state* s) {
  if (algo == LCG) opk_slcg(n, p, q, r, x, rho, s); else if (algo == PLCG) opk_splcg(n, p, q, r, x, z, rho, s); else opk_strcg(n, p, q, r, x, z, (float)delta, rho, s); }
double dot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double adot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i] * b[i]); return s; }
double nrm(const V& a) { double m = 0, s = 0; for (double d : a) m = std::max(m, std::fabs(d)); if (!(m > 0) || std::isinf(m)) return m; for (double d : a) s += (d / m) * (d / m); return m * std::sqrt(s); }
bool finite(const V& a) { for (double d : a) if (!std::isfinite(d)) return false; return true; }

struct Solver { virtual ~Solver() {} virtual bool step() = 0; virtual void relocate() = 0; virtual void finish() {} bool done = false; };

template <class T> struct Sim : Solver {
  int id, algo, n, nz; bool prec, zq, spd; double eps = std::numeric_limits<T>::epsilon(), delta = 1, cond = 10; V A, C, b, xs; // row-major operator, preconditioner
  Guarded gp, gq, gr, gx, gz, grho, gst; bool dirty = false, low = false; long iters = 0, calls = 0, sinceRestart = 0; double last_phi = 0; bool have_phi = false; double last_norm = 0; bool started = false; int budget; double scale; double rmag = 0; bool zero_start = false; double tiny = 0;
  T* P() { return gp.as<T>(); } T* Q() { return gq.as<T>(); } T* R() { return gr.as<T>(); } T* X() { return gx.as<T>(); } T* Z() { return !prec ? nullptr : zq ? Q() : gz.as<T>(); } T* rho() { return grho.as<T>(); } opk_cg_state* st() { return gst.as<opk_cg_state>(); }
  V vec(T* a) { return V(a, a + n); }
  V mul(const V& M, const V& v) { V o(n); for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += M[i * n + j] * v[j]; o[i] = s; } return o; }
  std::string txt() { char t[200]; snprintf(t, sizeof t, "%s%s n %d %s%s%s delta %g cond %g", sizeof(T) == 4 ? "single " : "double ", algo == LCG ? "LCG" : algo == PLCG ? "PLCG" : "TRCG", n, prec ? "preconditioned " : "", zq ? "(z = q) " : "", spd ? "SPD" : "indefinite", delta, cond); return t; }
  Sim(int id_) : id(id_) {
    algo = (int)draw(3, "algorithm"); n = huge(80); if (n <= 0) n = 1 + (int)draw(chance(1, 16, "large n") ? 36 : 6, "n-1"); prec = algo != LCG && chance(1, 2, "preconditioner"); zq = prec && algo == PLCG && chance(1, 3, "z = q"); spd = !chance(1, 4, "indefinite operator");
    cond = pick<double>({10, 1, 1e3}, "condition"); scale = pick<double>({1, 1e-3, 1e3}, "scale"); double ext = 1; if (sizeof(T) == 8 && chance(1, 12, "extreme scale")) scale *= ext = pick<double>({1e-20, 1e20}, "extreme scale of b"); delta = ext * pick<double>({1e3, 1, 0.1, 10}, "delta"); gen(ext);
    size_t w = sizeof(T); gp = Guarded(w * n, true, 1); gq = Guarded(w * n, true, 2); gr = Guarded(w * n, true, 3); gx = Guarded(w * n, true, 4); gz = Guarded(w * n, true, 5); nz = algo == TRCG ? 5 : 4; grho = Guarded(w * nz, true, 6); gst = Guarded(sizeof(opk_cg_state), true, 7); budget = 30 + 8 * n; note("%s", txt().c_str());
    begin(!chance(1, 2, "initial variables"));
  }
  void gen(double ext) { Rng g(draw(1 << 20, "operator") + 17); V B(n * n), d(n); // A = H D H with Householder H
    V u(n); double s = 0; for (auto& e : u) { e = g.sym(); s += e * e; } if (s == 0) { u[0] = 1; s = 1; } for (int i = 0; i < n; ++i) d[i] = std::pow(cond, n > 1 ? (double)i / (n - 1) : 0); if (chance(1, 4, "clustered eigenvalues")) for (int i = 0; i < n; ++i) d[i] = i % 2 ? 1 : cond; if (!spd) d[n / 2] = -d[n / 2]; if (!spd && chance(1, 3, "singular operator")) d[n / 2] = 0;
    A.assign(n * n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = 0; for (int k = 0; k < n; ++k) { double hi = (i == k) - 2 * u[i] * u[k] / s, hj = (j == k) - 2 * u[j] * u[k] / s; t += hi * d[k] * hj; } A[i * n + j] = t; }
    C.assign(n * n, 0); for (int i = 0; i < n; ++i) C[i * n + i] = 0.5 + g.u01(); if (prec && chance(1, 6, "preconditioner not positive")) { C[(n / 2) * n + n / 2] *= -1; fault("preconditioner not positive definite"); spd = false; }
    b.assign(n, 0); for (auto& e : b) e = (double)(T)(scale * g.sym()); if (chance(1, 12, "zero right hand side")) std::fill(b.begin(), b.end(), 0); xs.assign(n, 0); for (auto& e : xs) e = (double)(T)(ext * g.sym()); if (chance(1, 12, "zero initial variables")) std::fill(xs.begin(), xs.end(), 0); }
  void begin(bool zero) { for (int i = 0; i < n; ++i) R()[i] = (T)b[i]; if (zero) { for (int i = 0; i < n; ++i) X()[i] = (T)NAN; } else if (!started) for (int i = 0; i < n; ++i) X()[i] = (T)xs[i];
    if (!started || zero) for (int i = 0; i < n; ++i) { P()[i] = Q()[i] = (T)NAN; if (prec) Z()[i] = (T)NAN; }
    *st() = zero ? OPK_CG_START : OPK_CG_RESTART; if (!started) for (int i = 0; i < nz; ++i) rho()[i] = (T)NAN; started = true; have_phi = false; dirty = false; sinceRestart = 0; last_norm = 0; zero_start = zero; }
  void relocate() override { size_t w = sizeof(T); Guarded* gs[] = {&gp, &gq, &gr, &gx, &gz, &grho, &gst}; size_t sz[] = {w * n, w * n, w * n, w * n, w * n, w * nz, sizeof(opk_cg_state)}; for (int i = 0; i < 7; ++i) { Guarded f(sz[i], chance(1, 2, "side"), 10 + i); memcpy(f.p, gs[i]->p, sz[i]); *gs[i] = std::move(f); } probe("arrays moved between two calls"); }
  double phi(const V& x) { return 0.5 * dot(x, mul(A, x)) - dot(b, x); }
  bool close(const V& got, const V& want, const V& mag, double k = 16) { for (int i = 0; i < n; ++i) if (!(std::fabs(got[i] - want[i]) <= k * eps * (mag[i] + std::fabs(want[i])) + tiny)) return false; return true; }
  bool step() override {
    V p = vec(P()), q = vec(Q()), r = vec(R()), x = vec(X()), z = prec ? vec(Z()) : r; V rh(rho(), rho() + nz); int s = *st(); double dl = algo == TRCG ? (double)(T)delta : 0;
    call(algo, n, P(), Q(), R(), X(), Z(), delta, rho(), st()); ++calls; int t = *st(); V p1 = vec(P()), q1 = vec(Q()), r1 = vec(R()), x1 = vec(X()), z1 = prec ? vec(Z()) : r1, h1(rho(), rho() + nz);
    ev("cg", t, x1[0], h1[1]); note("%d: %s -> %s  rho %g %g %g %g |x| %g |r| %g", id, sname(s), sname(t), h1[0], h1[1], h1[2], h1[3], nrm(x1), nrm(r1)); state_token(mix(s + 2, mix(t + 2, algo * 4 + prec)));
    tiny = 64 * std::numeric_limits<T>::min();
    low = false; auto under = [&](double v) { return v != 0 && std::fabs(v) < std::numeric_limits<T>::min() * 1e10; };
    if (under(rh[0]) || under(rh[1]) || under(h1[1])) { probe("underflow"); low = true; return after(s, t, x, x1, r1); }
    for (const V* v : {&p, &q, &x, &r}) for (double e : *v) if (std::fabs(e) > (sizeof(T) == 4 ? 1e14 : 1e140)) dirty = true; // diverges: singular operator
    if (dirty) return after(s, t, x, x1, r1);
    auto same = [&](const V& a, const V& c) { for (int i = 0; i < n; ++i) if (!same_bits(a[i], c[i])) return false; return true; };
    auto bad = [&](const char* w) { fail("C01.step", "%s %s -> %s: %s", txt().c_str(), sname(s), sname(t), w); };
    V one(n, 0), none(n, 0);
    if (!same(q, q1)) { bad("q was changed"); return false; }
    if (s == OPK_CG_START) { if (t != OPK_CG_NEWX) bad("NEWX expected"); else if (!same(r, r1)) bad("r was changed"); else if (nrm(x1) != 0) bad("x is not zero"); else for (double e : h1) if (e != 0) bad("rho is not zero"); }
    else if (s == OPK_CG_RESTART) { double xn = nrm(x);
      if (algo == TRCG && xn > dl * (1 + 8 * eps)) { if (t != OPK_CG_TRUNCATED) bad("TRUNCATED expected"); V w = x; for (auto& e : w) e *= dl / xn; if (!failed() && !close(x1, w, none)) bad("x is not rescaled"); if (!failed() && h1[4] != dl) bad("rho[4] is not delta"); probe("restart out of the trust region"); }
      else if (!(algo == TRCG && xn >= dl * (1 - 8 * eps))) { if (t != OPK_CG_AP) bad("AP expected"); else if (!same(x, x1) || !same(r, r1)) bad("x or r was changed"); else if (!same(p1, x)) bad("p is not x0"); else if (algo == TRCG && std::fabs(h1[4] - xn) > 8 * n * eps * xn) bad("rho[4] is not the norm of x"); else for (int i = 0; i < 4; ++i) if (h1[i] != 0) bad("rho is not zero"); } }
    else if (s == OPK_CG_NEWX && prec) { if (t != OPK_CG_PRECOND) bad("PRECOND expected"); else if (!same(p, p1) || !same(r, r1) || !same(x, x1)) bad("an array was changed"); }
    else if (s == OPK_CG_NEWX || s == OPK_CG_PRECOND) { double rz = dot(r, z), m = adot(r, z) * 4 * n * eps + tiny * 1e3; if (!same(r, r1) || !same(x, x1)) bad("x or r was changed");
      else if (t == OPK_CG_FINISH) { if (std::fabs(rz) > m) bad("claims the end with r'.z not zero"); probe("finish"); } else if (t == OPK_CG_NON_CONVEX) { if (rz > m) bad("claims a preconditioner which is not positive definite"); probe("preconditioner refused"); }
      else if (t != OPK_CG_AP) bad("AP expected"); else if (rz < -m) bad("r'.z is negative"); else { if (std::fabs(h1[1] - rz) > m) bad("rho[1] is not r'.z"); double be = rh[0] > 0 ? h1[1] / rh[0] : 0; if (!failed() && std::fabs(h1[3] - be) > 8 * eps * be) bad("rho[3] is not beta"); V w(n), mg(n); for (int i = 0; i < n; ++i) { w[i] = z[i] + (be != 0 ? be * p[i] : 0); mg[i] = std::fabs(z[i]) + (be != 0 ? std::fabs(be * p[i]) : 0); } if (!failed() && !close(p1, w, mg)) bad("wrong direction"); if (rh[0] > 0) probe("conjugate direction"); } }
    else if (s == OPK_CG_AP) {
      if (!same(p, p1)) bad("p was changed");
      else if (!(rh[1] > 0)) { V w(n), mg(n); for (int i = 0; i < n; ++i) { w[i] = r[i] - q[i]; mg[i] = std::fabs(r[i]) + std::fabs(q[i]); } if (t != OPK_CG_NEWX) bad("NEWX expected"); else if (!same(x, x1)) bad("x was changed"); else if (!close(r1, w, mg)) bad("r is not b - A.x0"); else if (h1[2] != 0 || h1[3] != 0) bad("rho[2] and rho[3] are not zero although no step was taken"); }
      else { double pq = dot(p, q), m = adot(p, q) * 4 * n * eps + tiny * 1e3, al = rh[1] / pq; V w(n), wr(n), mg(n), mr(n);
        auto stepped = [&](double a) { for (int i = 0; i < n; ++i) { w[i] = x[i] + a * p[i]; mg[i] = std::fabs(x[i]) + std::fabs(a * p[i]); wr[i] = r[i] - a * q[i]; mr[i] = std::fabs(r[i]) + std::fabs(a * q[i]); } return close(x1, w, mg, 64) && close(r1, wr, mr, 64); };
        double relm = pq > 0 ? m / pq : 1; bool sure = pq > 100 * m;
        if (t == OPK_CG_NON_CONVEX && algo != TRCG) { if (pq > m) bad("claims an operator which is not positive definite"); else if (!same(x, x1) || !same(r, r1)) bad("x or r was changed"); probe("indefinite operator detected"); }
        else if (t == OPK_CG_NEWX) { if (pq < -m) bad("a step was taken along a direction of negative curvature"); else if (std::fabs(h1[2] - al) > (relm + 8 * eps) * al && sure) bad("rho[2] is not the optimal step"); else if (!stepped(h1[2])) bad("x and r do not change by rho[2]*p and -rho[2]*q"); else if (h1[0] != rh[1]) bad("rho[0] is not the former rho[1]"); else if (algo == TRCG) { double xn = nrm(x1); if (xn > dl * (1 + 16 * eps)) bad("x leaves the trust region"); else if (h1[4] >= dl) bad("x is on the boundary but the state is not TRUNCATED"); else if (std::fabs(h1[4] - xn) > 16 * n * eps * (xn + nrm(mg))) bad("rho[4] is not the norm of x"); } ++iters; ++sinceRestart; nontrivial(); }
        else if (t == OPK_CG_TRUNCATED && algo == TRCG) { double xn = nrm(x1); nontrivial(); if (std::fabs(xn - dl) > 200 * n * eps * dl + 100 * n * eps * nrm(x)) { char t2[100]; snprintf(t2, sizeof t2, "the norm of x is %.9g, not delta", xn); bad(t2); } else if (h1[2] < 0) bad("the step is negative"); else if (h1[0] != rh[1]) bad("rho[0] is not the former rho[1]"); else if (!stepped(h1[2])) bad("x and r do not change by rho[2]*p and -rho[2]*q"); else if (h1[4] != dl && std::fabs(h1[4] - dl) > 16 * eps * dl) bad("rho[4] is not delta"); else if (sure && h1[2] > al * (1 + relm + 1e3 * n * eps)) bad("the truncated step is longer than the optimal step"); probe(pq > m ? "step truncated" : "step truncated along negative curvature"); }
        else if (t == OPK_CG_FINISH) { if (al != 0 && nrm(p) > 0 && al > 1e-30) bad("claims the end while a step can be taken"); }
        else { char t2[100]; snprintf(t2, sizeof t2, "unexpected state, p'.A.p = %g, delta %g, |x| %g", pq, dl, nrm(x)); bad(t2); } } }
    if (failed()) return false;
    return after(s, t, x, x1, r1);
  }
  bool after(int s, int t, const V& x, const V& x1, const V& r1) {
    auto bad = [&](const char* w) { fail("C01.global", "%s after %ld iterations: %s", txt().c_str(), sinceRestart, w); };
    if (t == OPK_CG_ERROR && !dirty && !low) { bad("error"); return false; }
    if (!gp.intact() || !gq.intact() || !gr.intact() || !gx.intact() || !gz.intact() || !grho.intact() || !gst.intact()) { fail("C01.memory", "%s: memory around the arrays was written", txt().c_str()); return false; }
    bool fin = t == OPK_CG_FINISH || t == OPK_CG_NON_CONVEX || t == OPK_CG_TRUNCATED || t == OPK_CG_ERROR;
    if (!dirty && (t == OPK_CG_NEWX || t == OPK_CG_TRUNCATED) && s == OPK_CG_AP) {
      double f = phi(x1), an = 0; for (double e : A) an = std::max(an, std::fabs(e)); double fm = 0.5 * an * n * dot(x1, x1) + adot(b, x1); rmag = std::max(rmag, an * n * nrm(x1) + nrm(b));
      V w = mul(A, x1); for (int i = 0; i < n; ++i) w[i] = b[i] - w[i]; double e = 0; for (int i = 0; i < n; ++i) e = std::max(e, std::fabs(w[i] - r1[i])); if (e > 60 * n * eps * (2 + sinceRestart) * rmag + tiny) { char t2[120]; snprintf(t2, sizeof t2, "r differs from b - A.x by %g (scale %g)", e, rmag); bad(t2); return false; }
      if (have_phi && f > last_phi + 60 * n * eps * (fm + std::fabs(last_phi) + rmag * (nrm(x1) + nrm(x)))) { char t2[120]; snprintf(t2, sizeof t2, "the quadratic objective increases from %.9g to %.9g", last_phi, f); bad(t2); return false; }
      last_phi = f; have_phi = true;
      if (algo == TRCG && !prec && zero_start && sinceRestart <= n) { double xn = nrm(x1); if (xn < last_norm * (1 - 1e4 * n * eps)) { bad("the norm of x decreases"); return false; } last_norm = xn; }
    }
    if (!dirty && spd && t == OPK_CG_NEWX && sinceRestart >= 2 * n + 6 && cond <= 10) { double rn = nrm(r1); if (rn > 1e3 * n * eps * rmag + tiny) { char t2[120]; snprintf(t2, sizeof t2, "|r| is still %g (scale %g)", rn, rmag); bad(t2); return false; } probe("solved"); }
    if (t == OPK_CG_AP) { V o = mul(A, vec(P())); for (int i = 0; i < n; ++i) Q()[i] = (T)o[i]; if (chance(1, 60, "fault of the operator")) { fault("operator gives a value which is not finite"); Q()[draw(n, "where")] = (T)(chance(1, 2, "inf") ? INFINITY : NAN); dirty = true; } count("operator"); }
    else if (t == OPK_CG_PRECOND) { V o = mul(C, vec(R())); for (int i = 0; i < n; ++i) Z()[i] = (T)o[i]; count("preconditioner"); }
    else if (t == OPK_CG_NEWX) { if (algo == TRCG && zero_start && !dirty && sinceRestart > 0 && rho()[4] > 0 && chance(1, 16, "radius which will be reached exactly")) { delta = (double)rho()[4]; probe("radius equal to the norm of an iterate"); begin(true); return !(done = calls > 10 * budget); } if (chance(1, 12, "caller")) { int k = (int)draw(3, "what"); if (k == 0) { if (finite(x1)) { probe("restart from current variables"); begin(false); } } else if (k == 1) { begin(true); probe("start again from zero"); } else { started = false; begin(false); probe("restart from elsewhere"); } } }
    else if (fin) {
      // finished states do not move
      opk_cg_state keep = *st(); V xx = vec(X()), rr = vec(R()); if (t != OPK_CG_ERROR && chance(1, 4, "call again")) { call(algo, n, P(), Q(), R(), X(), Z(), delta, rho(), st()); V x2 = vec(X()), r2 = vec(R()); for (int i = 0; i < n; ++i) if (!same_bits(xx[i], x2[i]) || !same_bits(rr[i], r2[i])) { fail("C01.final", "%s: a call in state %s changes x or r", txt().c_str(), sname(keep)); return false; } if (*st() != keep) { fail("C01.final", "%s: a call in state %s gives state %s", txt().c_str(), sname(keep), sname(*st())); return false; } }
      if (t == OPK_CG_TRUNCATED && chance(1, 2, "larger region")) { delta *= pick<double>({2, 10, 1.5}, "factor"); begin(false); probe("restart with a larger trust region"); return !(done = calls > 10 * budget); }
      if (chance(1, 3, "again")) { if (chance(1, 2, "from elsewhere")) started = false; begin(!started ? false : chance(1, 2, "from zero") || !finite(x1)); return !(done = calls > 10 * budget); }
      done = true; return false; }
    if (calls > 3 * budget) { done = true; return false; }
    return true;
  }
  void finish() override { // refused calls
    if (!chance(1, 4, "invalid call")) return; fault("invalid call"); V p = vec(P()), x = vec(X()), r = vec(R()); T keep[5]; memcpy(keep, rho(), sizeof(T) * nz); double dl = delta; int k = (int)draw(2, "which"); if (k == 0 || algo != TRCG) *st() = (opk_cg_state)pick<int>({99, 8, -1, -7}, "state"); else { delta = pick<double>({0, -1}, "delta"); *st() = pick<opk_cg_state>({OPK_CG_START, OPK_CG_AP, OPK_CG_RESTART}, "state"); }
    call(algo, n, P(), Q(), R(), X(), Z(), delta, rho(), st()); if (*st() != OPK_CG_ERROR) fail("C01.invalid", "%s: an invalid call (delta %g) gives state %s", txt().c_str(), delta, sname(*st())); V p2 = vec(P()), x2 = vec(X()), r2 = vec(R()); for (int i = 0; i < n; ++i) if (!same_bits(p[i], p2[i]) || !same_bits(x[i], x2[i]) || !same_bits(r[i], r2[i])) { fail("C01.invalid", "%s: an invalid call changes an array", txt().c_str()); break; } delta = dl; }
};
void run_C01() {
  heap::reset(draw(16, "junk")); int K = 1 + (chance(1, 3, "two systems") ? 1 : 0); std::vector<std::unique_ptr<Solver>> S; for (int k = 0; k < K; ++k) if (chance(1, 3, "single precision")) S.emplace_back(new Sim<float>(k)); else S.emplace_back(new Sim<double>(k));
  for (;;) { std::vector<Solver*> act; for (auto& s : S) if (!s->done) act.push_back(s.get()); if (act.empty()) break; Solver* s = act[act.size() > 1 ? draw(act.size(), "who") : 0]; s->step(); if (failed()) return; if (chance(1, 24, "move")) s->relocate(); }
  for (auto& s : S) { s->finish(); if (failed()) return; }
  if (heap::live() || heap::allocs()) fail("C01.memory", "memory was allocated");
}
Reg r1({"C01", run_C01, 400000, 10000000, "one run: one or two linear systems solved step by step by reverse communication, with restarts, moves of the arrays and faults; non trivial: a step was taken; distinct: hash of the event log",
  "src/lcg.c, src/linalg.c (level 1 operations)", "operator, preconditioner, caller"});
}
