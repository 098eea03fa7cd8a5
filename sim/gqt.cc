// G01: the trust region step inside a simulated trust region minimizer.
#include "opkpriv.h"
#include "sim.h"
#include <algorithm>
using namespace sim;
namespace {
typedef long double L;
typedef std::vector<L> LV;
int call(opk_index n, double* a, opk_index lda, const double* b, double delta, double rtol, double atol, opk_index itmax, double* par, double* f, double* x, opk_index* it, double* z, double* w1, double* w2) { return opk_dgqt(n, a, lda, b, delta, rtol, atol, itmax, par, f, x, it, z, w1, w2); }
int call(opk_index n, float* a, opk_index lda, const float* b, float delta, float rtol, float atol, opk_index itmax, float* par, float* f, float* x, opk_index* it, float* z, float* w1, float* w2) { return opk_sgqt(n, a, lda, b, delta, rtol, atol, itmax, par, f, x, it, z, w1, w2); }
double est(opk_index n, const double* r, opk_index ldr, double* z) { return opk_destsv(n, r, ldr, z); }
float est(opk_index n, const float* r, opk_index ldr, float* z) { return opk_sestsv(n, r, ldr, z); }

// Eigenvalues d and eigenvectors (columns of q) of a symmetric matrix: Jacobi's method.
void jacobi(int n, LV a, LV& d, LV& q) {
  q.assign(n * n, 0); for (int i = 0; i < n; ++i) q[i * n + i] = 1;
  for (int sweep = 0; sweep < 40; ++sweep) { L off = 0, tot = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { (i == j ? tot : off) += a[i * n + j] * a[i * n + j]; } if (off <= 1e-38L * tot) break;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { L v = a[i * n + j]; if (v == 0) continue; L th = (a[j * n + j] - a[i * n + i]) / (2 * v), t = (th < 0 ? -1 : 1) / (fabsl(th) + sqrtl(1 + th * th)), c = 1 / sqrtl(1 + t * t), s = t * c;
      for (int k = 0; k < n; ++k) { L x = a[k * n + i], y = a[k * n + j]; a[k * n + i] = c * x - s * y; a[k * n + j] = s * x + c * y; }
      for (int k = 0; k < n; ++k) { L x = a[i * n + k], y = a[j * n + k]; a[i * n + k] = c * x - s * y; a[j * n + k] = s * x + c * y; }
      for (int k = 0; k < n; ++k) { L x = q[k * n + i], y = q[k * n + j]; q[k * n + i] = c * x - s * y; q[k * n + j] = s * x + c * y; } } }
  d.resize(n); for (int i = 0; i < n; ++i) d[i] = a[i * n + i]; }

// Smallest value of x'Ax/2 + b'x on the ball: returned from below (a value of the dual function, never above the optimum).
L optimum(int n, const LV& A, const LV& b, L delta, bool* hard, L* gap) {
  LV d, q; jacobi(n, A, d, q); LV c(n, 0); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) c[i] += q[k * n + i] * b[k];
  L l1 = *std::min_element(d.begin(), d.end()), an = 0, bn = 0; for (L e : d) an = std::max(an, fabsl(e)); for (L e : b) bn += e * e; bn = sqrtl(bn);
  auto dual = [&](L p) { L s = -p * delta * delta / 2; for (int i = 0; i < n; ++i) if (c[i] != 0) { L t = d[i] + p; if (!(t > 0)) return -INFINITY + 0.0L; s -= c[i] * c[i] / (2 * t); } return s; }; // concave in p
  L lo = std::max((L)0, -l1), hi = lo + bn / delta + an * 1e-18L; L best = dual(lo); // maximize by golden section, exact enough: flat at the maximum
  const L g = 0.6180339887498948482L; L a0 = lo, b0 = hi, x1 = b0 - g * (b0 - a0), x2 = a0 + g * (b0 - a0), f1 = dual(x1), f2 = dual(x2);
  for (int i = 0; i < 120; ++i) { best = std::max(best, std::max(f1, f2)); if (f1 < f2) { a0 = x1; x1 = x2; f1 = f2; x2 = a0 + g * (b0 - a0); f2 = dual(x2); } else { b0 = x2; x2 = x1; f2 = f1; x1 = b0 - g * (b0 - a0); f1 = dual(x1); } }
  { L t = 0; for (int i = 0; i < n; ++i) if (d[i] - l1 <= 1e-9L * an) t += c[i] * c[i]; *gap = std::max(l1, sqrtl(t) / delta); } // how far from singular A + par is at the solution
  if (hard) { L s = 0; for (int i = 0; i < n; ++i) if (d[i] - l1 > 1e-9L * an) s += c[i] * c[i] / ((d[i] + lo) * (d[i] + lo)); else if (fabsl(c[i]) > 1e-12L * bn) s = INFINITY; *hard = l1 <= 0 && s < delta * delta; }
  return best; }

template <class T> struct Sim {
  int id, n, lda; std::vector<T> A, b; double delta; T par = 0; Guarded ga, gb, gx, gz, g1, g2; double eps = std::numeric_limits<T>::epsilon(); long calls = 0; int left; bool nan = false;
  T* a() { return ga.as<T>(); }
  Sim(int id_) : id(id_) { n = 1 + (int)draw(chance(1, 24, "large n") ? 20 : 6, "n-1"); lda = n + (int)draw(3, "lda-n"); left = 1 + (int)draw(6, "subproblems-1"); problem(); delta = pick<double>({1, 10, 0.1, 1e3, 1e-3}, "delta"); place(); }
  void problem() {
    Rng g(draw(1 << 20, "problem") + 5); std::vector<double> d(n), u(n), M(n * n); double s = 0, sc = pick<double>({1, 1e-3, 1e3}, "scale of A"), sb = pick<double>({1, 1e-3, 1e3}, "scale of b"); if (sizeof(T) == 8 && chance(1, 12, "extreme scale")) { double w = pick<double>({1e-15, 1e15}, "extreme scale of both"); sc *= w; sb *= w; }
    int kind = (int)draw(6, "spectrum"); // 0 positive, 1 indefinite, 2 singular, 3 negative, 4 clustered and indefinite, 5 zero
    for (int i = 0; i < n; ++i) { double e = std::pow(10., 3 * g.u01() - 1.5); d[i] = kind == 0 ? e : kind == 1 ? (i % 2 || n == 1 ? -e : e) : kind == 2 ? (i == 0 ? 0 : e) : kind == 3 ? -e : kind == 4 ? (i <= n / 2 ? -1 : 1) : 0; }
    int basis = (int)draw(3, "basis"); for (auto& e : u) { e = basis == 2 ? (double)((int)(3 * g.sym())) : g.sym(); s += e * e; } if (s == 0) { u[0] = 1; s = 1; } if (basis == 0) std::fill(u.begin(), u.end(), 0); // 0 diagonal, 1 any, 2 small integers
    auto H = [&](int i, int k) { return (i == k) - 2 * u[i] * u[k] / s; };
    A.assign(n * n, 0); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { double t = 0; for (int k = 0; k < n; ++k) t += H(i, k) * d[k] * H(j, k); A[i * n + j] = A[j * n + i] = (T)(sc * t); }
    b.assign(n, 0); std::vector<double> c(n); for (auto& e : c) e = g.sym(); int how = (int)draw(5, "b"); // 0 any, 1 orthogonal to the lowest eigenvectors, 2 nearly so, 3 zero, 4 one component
    double lo = *std::min_element(d.begin(), d.end()); if (how == 1 || how == 2) { for (int i = 0; i < n; ++i) if (d[i] <= lo + 1e-12) c[i] *= how == 1 ? 0 : 1e-8; probe("hard case wished"); } if (how == 3) std::fill(c.begin(), c.end(), 0); if (how == 4) for (int i = 1; i < n; ++i) c[i] = 0;
    for (int i = 0; i < n; ++i) { double t = 0; for (int k = 0; k < n; ++k) t += H(i, k) * c[k]; b[i] = (T)(sb * t); } }
  void place() { // new arrays, filled with junk
    size_t w = sizeof(T); bool r = !chance(1, 2, "side"); uint64_t j = 1 + draw(3, "junk"); ga = Guarded(w * lda * n, r, j); gb = Guarded(w * n, r, j + 1); gx = Guarded(w * n, r, j + 2); gz = Guarded(w * n, r, j + 3); g1 = Guarded(w * n, r, j + 4); g2 = Guarded(w * n, r, j + 5); }
  void fill(int junk) { for (int c = 0; c < n; ++c) for (int r = 0; r < lda; ++r) a()[r + c * lda] = r <= c ? A[r * n + c] : junk == 0 ? (T)NAN : junk == 1 ? (T)(r + 7 * c) : (T)1e30; for (int i = 0; i < n; ++i) { gb.as<T>()[i] = b[i]; gx.as<T>()[i] = gz.as<T>()[i] = g1.as<T>()[i] = g2.as<T>()[i] = (T)(junk == 2 ? 1e30 : NAN); } }
  static bool sb(T x, T y) { return !memcmp(&x, &y, sizeof x) || (x != x && y != y); }
  bool step() {
    if (left-- <= 0 || failed()) return false; bool starved = false;
    if (calls) switch ((int)draw(5, "next subproblem")) { case 0: delta *= 0.25; probe("the step was rejected: smaller region, multiplier kept"); break; case 1: delta *= 4; break; case 2: problem(); probe("new quadratic model, multiplier kept"); nan = false; break; case 3: problem(); par = 0; nan = false; break; default: place(); probe("arrays moved"); }
    double rtol = pick<double>({0.01, 0.1, 1e-3, sizeof(T) == 8 ? 1e-6 : 1e-3, 0.5}, "rtol"), atol = pick<double>({0, 1e-3, 10, 1e-12}, "atol"); opk_index itmax = 200;
    int fl = chance(1, 3, "fault") ? 1 + (int)draw(6, "kind") : 0; bool badpar = false; T p0 = par;
    if (fl == 1) { itmax = 1 + (opk_index)draw(4, "itmax-1"); starved = true; fault("very small budget of iterations"); }
    if (fl == 2) { p0 = (T)pick<double>({1e6, -1, 1e30, 1e-30, 3}, "multiplier"); fault("wrong multiplier given"); }
    if (fl == 3) { p0 = (T)pick<double>({NAN, INFINITY, -INFINITY}, "multiplier"); fault("multiplier not finite"); }
    if (fl == 4) { A[draw(n * n, "element")] = (T)pick<double>({NAN, INFINITY}, "value"); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A[i * n + j] = A[j * n + i]; fault("matrix not finite"); }
    if (fl == 5) { b[draw(n, "element")] = (T)NAN; fault("vector not finite"); }
    nan = false; for (T e : A) nan |= !std::isfinite(e); for (T e : b) nan |= !std::isfinite(e);
    bool np = chance(1, 6, "no multiplier"), nf = chance(1, 6, "no value"), ni = chance(1, 6, "no count"); if (np) p0 = 0; badpar = p0 != p0;
    int junk = (int)draw(3, "junk left in the arrays"); fill(junk); opk_index it = -7; T f = (T)NAN, pp = p0;
    int s = call(n, a(), lda, gb.as<T>(), (T)delta, (T)rtol, (T)atol, itmax, np ? nullptr : &pp, nf ? nullptr : &f, gx.as<T>(), ni ? nullptr : &it, gz.as<T>(), g1.as<T>(), g2.as<T>());
    ++calls; count("subproblems"); add_vtime(1e-3); std::vector<T> x(gx.as<T>(), gx.as<T>() + n);
    ev("gqt", s, x[0], pp); if (!ni) ev("iterations", (long)it); state_token(mix(s, mix(std::min<opk_index>(it, 20), 16 * n + fl)));
    for (int i = 0; i < n; ++i) { std::string t; for (int j = 0; j < n; ++j) t += " " + std::to_string((double)A[i * n + j]); note("A:%s  b: %.9g  x: %.9g", t.c_str(), (double)b[i], (double)x[i]); }
    note("%d: n %d lda %d delta %g rtol %g atol %g itmax %ld par %g -> status %d par %g f %g iterations %ld", id, n, lda, delta, rtol, atol, (long)itmax, (double)p0, s, (double)pp, (double)f, (long)it);
    auto bad = [&](const char* o, const char* w, double u = 0, double v = 0) { fail(o, "%s n %d lda %d delta %g rtol %g atol %g initial multiplier %g status %d: %s (%.17g, %.17g)", sizeof(T) == 4 ? "single" : "double", n, lda, delta, rtol, atol, (double)p0, s, w, u, v); return false; };
    if (s < 1 || s > 4) return bad("G01.status", "undocumented status");
    if (!ni && (it < 1 || it > itmax)) return bad("G01.budget", "number of iterations out of its range", it, itmax);
    if (s == 4 && !ni && it != itmax) return bad("G01.budget", "failure to converge claimed before the last iteration", it, itmax);
    for (Guarded* g : {&ga, &gb, &gx, &gz, &g1, &g2}) if (!g->intact()) return bad("G01.memory", "memory next to an array was written");
    for (int c = 0; c < n; ++c) for (int r = 0; r < lda; ++r) { T v = a()[r + c * lda]; if (r < n ? !sb(v, A[r * n + c]) : !sb(v, junk == 0 ? (T)NAN : junk == 1 ? (T)(r + 7 * c) : (T)1e30)) return bad("G01.matrix", r < n ? "the matrix is not restored" : "the array was written beyond the rows of the matrix", v, r < n ? A[r * n + c] : 0); }
    for (int i = 0; i < n; ++i) if (!sb(gb.as<T>()[i], b[i])) return bad("G01.vector", "the linear term was changed");
    if (chance(1, 4, "once more with other junk")) { Guarded sa(std::move(gx)); gx = Guarded(sizeof(T) * n, true, 77); fill((junk + 1) % 3); T f2 = (T)NAN, p2 = p0; opk_index it2 = -7;
      int s2 = call(n, a(), lda, gb.as<T>(), (T)delta, (T)rtol, (T)atol, itmax, &p2, &f2, gx.as<T>(), &it2, gz.as<T>(), g1.as<T>(), g2.as<T>()); bool same = s2 == s && (np || sb(p2, pp)) && (nf || sb(f2, f)) && (ni || it2 == it); for (int i = 0; i < n; ++i) same &= sb(gx.as<T>()[i], x[i]); if (!same) return bad("G01.junk", "the result depends on what was in the work arrays, or on which results are wished"); probe("repeated with other junk"); }
    if (nan) { par = pp; return true; }
    if (badpar) { par = 0; return true; }
    // quality of the step
    LV lx(x.begin(), x.end()), lb(b.begin(), b.end()), lA(A.begin(), A.end()); L fx = 0, an = 0, bn = 0, xn = 0; for (int i = 0; i < n; ++i) { L t = 0; for (int j = 0; j < n; ++j) { t += lA[i * n + j] * lx[j]; an = std::max(an, fabsl(lA[i * n + j])); } fx += lx[i] * (t / 2 + lb[i]); bn += lb[i] * lb[i]; xn += lx[i] * lx[i]; } an *= n; bn = sqrtl(bn); xn = sqrtl(xn);
    for (T e : x) if (!std::isfinite(e)) return bad("G01.finite", "step not finite", e);
    L dl = (L)(T)delta, rt = (L)(T)rtol, at = (L)(T)atol, lam = std::max((L)pp, (L)0); if (np) lam = an + bn / dl; L mx = std::max(xn, dl), u = 20 * n * (L)eps, tol = u * ((an + lam) * mx * mx + bn * mx) + std::numeric_limits<T>::min() * 64;
    if (!np && !(pp >= 0)) return bad("G01.multiplier", "negative multiplier", pp);
    if (!nf) { if (!(fabsl((L)f - fx) <= tol)) return bad("G01.value", "the reported value is not that of the step", f, (double)fx); }
    if (s <= 2 && !(xn <= (1 + rt) * dl * (1 + u))) return bad("G01.region", "the step is out of the trust region", (double)xn, delta);
    if (s == 1 && !np && pp > 0 && !(fabsl(xn - dl) <= rt * dl * (1 + u) + u * dl)) { // near the boundary, or proven optimal by the dual
      probe("multiplier positive, step inside"); }
    bool hard = false; L gap = 0, fs = optimum(n, lA, lb, dl, &hard, &gap); if (hard) probe("hard case");
    count("optimality checked"); nontrivial(); char pr[40]; snprintf(pr, sizeof pr, "status %d", s); probe(pr);
    if (s == 1 && !(fx <= (1 - rt) * (1 - rt) * fs + tol)) return bad(bn == 0 ? "G01.optimal-without-linear-term" : "G01.optimal", "the step is not as good as requested", (double)fx, (double)fs);
    if (s == 2 && !(-fs <= at + tol && -fx <= at + tol)) return bad("G01.absolute", "absolute accuracy claimed", (double)fx, (double)fs);
    if (s != 4 && !(fx <= tol)) return bad("G01.descent", "the step increases the quadratic", (double)fx, 0);
    if (s == 3) { L r = fs < 0 ? fx / fs : 1; if (!(xn <= (1 + rt) * dl * (1 + u))) probe("status 3 out of region"); if (r < 0.5) probe("status 3 poor"); }
    if (s == 4 && !starved && !(gap * rt > 1e3L * n * (L)eps * (an + bn / dl))) probe("no convergence within rounding errors"); else if (s == 4 && !starved) return bad("G01.progress", "no convergence within 200 iterations", (double)fx, (double)fs);
    L q = gap * rt / ((L)eps * (an + bn / dl)); if (!ni && !starved && !hard && q > 1e3L && it > (q > 1e6L ? 40 : 60)) return bad("G01.progress", "many iterations for a subproblem far from the hard case", it);
    par = pp; if (s == 4) probe("budget exhausted"); return true; }
};
// A batch of subproblems far from the hard case: how many iterations in the mean; and of triangular matrices: how good the estimates of the smallest singular value.
template <class T> void pace() {
  const int N = 60; Rng g(draw(1 << 20, "subproblems") + 9); int kind = (int)draw(3, "spectrum"), n = 1 + (int)draw(6, "n-1"), lda = n; T rtol = (T)pick<double>({0.1, 0.01, 1e-3}, "rtol"); double delta = pick<double>({1, 10, 0.1}, "delta"); bool keep = chance(1, 2, "multiplier kept while the radius changes"); long sum = 0; int done = 0, near = 0; // near: status 3, the hard case being near
  for (int k = 0; k < N; ++k) { std::vector<double> d(n), u(n), c(n); double s = 0; std::vector<T> a(n * n, 0), b(n), x(n), z(n), w1(n), w2(n); for (int i = 0; i < n; ++i) { double e = 0.1 + 3 * g.u01(); d[i] = kind == 0 ? e : kind == 1 ? (i % 2 ? -e : e) : -e; u[i] = g.sym(); s += u[i] * u[i]; double v = g.sym(); c[i] = v + (v < 0 ? -0.2 : 0.2); }
    auto H = [&](int i, int j) { return (i == j) - 2 * u[i] * u[j] / s; }; for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += H(i, j) * c[j]; b[i] = (T)t; for (int j = i; j < n; ++j) { double v = 0; for (int l = 0; l < n; ++l) v += H(i, l) * d[l] * H(j, l); a[i + j * n] = (T)v; } }
    T par = 0, f = 0; double dl = delta; for (int r = 0; r < (keep ? 3 : 1); ++r) { opk_index it = 0; int st = call(n, a.data(), lda, b.data(), (T)dl, rtol, (T)0, 200, &par, &f, x.data(), &it, z.data(), w1.data(), w2.data()); ev("gqt", st, it); if (st == 3 && kind && delta == 10) ++near; else if (st != 1) { fail("G01.pace", "%s n %d delta %g rtol %g: status %d for a subproblem far from the hard case", sizeof(T) == 4 ? "single" : "double", n, dl, (double)rtol, st); return; } sum += it; ++done; dl *= keep ? 0.25 : 1; if (!keep) par = 0; } }
  double m = (double)sum / done; note("spectrum %d n %d rtol %g delta %g keep %d: %g iterations per subproblem", kind, n, (double)rtol, delta, keep, m); nontrivial(); count("batches of subproblems");
  static const double MOST[3][3][3][2] = {{{{1.70,1.24},{2.45,1.85},{1.03,1.68}},{{2.03,1.73},{2.93,2.34},{1.03,1.96}},{{2.18,2.03},{3.38,2.69},{1.07,2.18}}},{{{2.02,1.41},{2.63,2.23},{2.42,2.16}},{{2.32,2.01},{3.38,2.77},{4.30,3.50}},{{2.78,2.28},{3.82,3.14},{4.82,3.98}}},{{{1.72,1.24},{2.25,1.79},{1.80,2.01}},{{2.02,1.72},{2.87,2.33},{3.37,3.23}},{{2.15,2.03},{3.40,2.64},{4.23,3.81}}}}; // seen, by spectrum, rtol, delta, multiplier kept
  double most = 1.12 * MOST[kind][rtol > (T)0.05 ? 0 : rtol > (T)0.005 ? 1 : 2][delta < 0.5 ? 0 : delta < 5 ? 1 : 2][keep] + 0.1;
  if (m > most) fail("G01.pace", "%s n %d spectrum %d delta %g rtol %g: %g iterations per subproblem in the mean, not more than %g expected", sizeof(T) == 4 ? "single" : "double", n, kind, delta, (double)rtol, m, most);
  else if (near * 8 > done) fail("G01.pace", "%s n %d spectrum %d delta %g rtol %g: status 3 for %d subproblems of %d", sizeof(T) == 4 ? "single" : "double", n, kind, delta, (double)rtol, near, done); }
template <class T> void pacesv() {
  const int N = 200; Rng g(draw(1 << 20, "matrices") + 11); int n = 2 + (int)draw(5, "n-2"), kind = (int)draw(3, "kind of matrix"); L sum = 0, mx = 0; std::vector<T> R(n * n), z(n); // 0 any, 1 diagonal, 2 dominant diagonal
  for (int k = 0; k < N; ++k) { LV M(n * n, 0), d, q; for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) { double v = g.sym(); if (r == c) v += v < 0 ? -0.3 : 0.3; else if (kind == 1) v = 0; else if (kind == 2) v *= 0.2; R[r + c * n] = (T)(r <= c ? v : 0); }
    T s = est(n, R.data(), n, z.data()); ev("estsv", n, s); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l <= std::min(i, j); ++l) M[i * n + j] += (L)R[l + i * n] * R[l + j * n]; jacobi(n, M, d, q); L sm = sqrtl(*std::min_element(d.begin(), d.end())), ratio = s / sm; sum += ratio; mx = std::max(mx, ratio); }
  double m = (double)(sum / N); note("n %d kind %d: estimate over smallest singular value: %g in the mean, at most %g", n, kind, m, (double)mx); nontrivial(); count("batches of matrices");
  double most = kind == 0 ? 1.1 : kind == 1 ? 1.26 : 1.17, top = kind == 0 ? 12 : kind == 1 ? 1.4 : 3.5; // seen: 1.07, 1.23, 1.14 in the mean; 4.5, 1.3, 2.0
  if (m > most || mx > top) fail("G01.estimate", "%s n %d kind of matrix %d: estimate over smallest singular value %g in the mean and up to %g, at most %g and %g expected", sizeof(T) == 4 ? "single" : "double", n, kind, m, (double)mx, most, top); }
template <class T> void estsv() { int n = 1 + (int)draw(6, "n-1"), ld = n + (int)draw(3, "ldr-n"); Guarded gr(sizeof(T) * ld * n, !chance(1, 2, "side"), 3), gz(sizeof(T) * n, true, 4); Rng g(draw(1 << 20, "matrix") + 3); double sc = pick<double>({1, 1e-8, 1e8}, "scale"); int sing = (int)draw(4, "diagonal"); std::vector<T> R(ld * n);
  for (int c = 0; c < n; ++c) for (int r = 0; r < ld; ++r) { double v = r <= c ? sc * g.sym() : NAN; if (r == c && sing == 1 && g.u01() < 0.4) v = 0; if (r == c && sing == 2 && g.u01() < 0.4) v *= 1e-6; if (r < c && sing == 3) v = 0; R[r + c * ld] = (T)v; }
  memcpy(gr.p, R.data(), gr.n); for (int i = 0; i < n; ++i) gz.as<T>()[i] = (T)NAN; T s = est(n, gr.as<T>(), ld, gz.as<T>()); ev("estsv", n, s); count("singular values estimated");
  if (memcmp(gr.p, R.data(), gr.n) || !gr.intact() || !gz.intact()) { fail("G01.estsv", "the matrix, or memory next to the arrays, was written"); return; }
  LV M(n * n, 0), d, q; L zn = 0, rz = 0, eps = std::numeric_limits<T>::epsilon(), an = 0; for (int i = 0; i < n; ++i) { L z = gz.as<T>()[i], t = 0; zn += z * z; for (int j = i; j < n; ++j) { t += (L)R[i + j * ld] * gz.as<T>()[j]; an = std::max(an, fabsl((L)R[i + j * ld])); } rz += t * t; } zn = sqrtl(zn); rz = sqrtl(rz);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) M[i * n + j] += (L)R[k + i * ld] * R[k + j * ld]; jacobi(n, M, d, q); L sm = sqrtl(std::max((L)0, *std::min_element(d.begin(), d.end())));
  if (!(fabsl(zn - 1) <= 10 * n * eps)) { fail("G01.estsv", "n %d: norm of the singular vector %.17g", n, (double)zn); return; }
  if (!(fabsl(rz - s) <= 30 * n * eps * an * n)) { fail("G01.estsv", "n %d: estimate %.17g but norm(R.z) = %.17g", n, (double)s, (double)rz); return; }
  if (!(s * s >= sm * sm * (1 - 1e-5L) - 1e-16L * n * n * an * an && s >= sm * (1 - 1e-5L) - 30 * n * n * eps * an - 1e-8L * an)) fail("G01.estsv", "n %d: estimate %.17g below the smallest singular value %.17g", n, (double)s, (double)sm);
  L ratio = s / (sm + 30 * n * n * eps * an); count(ratio > 30 ? "estimate > 30" : ratio > 10 ? "estimate > 10" : ratio > 4 ? "estimate > 4" : "estimate <= 4"); nontrivial(); }
void run_G01() {
  int what = (int)draw(8, "simulation"); if (what == 7 && chance(1, 8, "batch")) { switch ((int)draw(4, "of what")) { case 0: pace<double>(); break; case 1: pace<float>(); break; case 2: pacesv<double>(); break; default: pacesv<float>(); } return; } if (what == 7) { if (chance(1, 2, "single")) estsv<float>(); else estsv<double>(); return; }
  Sim<double>* d[2] = {nullptr, nullptr}; Sim<float>* f = nullptr; std::vector<std::function<bool()>> live;
  d[0] = new Sim<double>(0); live.push_back([&] { return d[0]->step(); }); if (what >= 4) { f = new Sim<float>(1); live.push_back([&] { return f->step(); }); } if (what == 6) { d[1] = new Sim<double>(2); live.push_back([&] { return d[1]->step(); }); }
  while (!live.empty() && !failed()) { size_t k = live.size() > 1 ? draw(live.size(), "whose turn") : 0; if (!live[k]()) live.erase(live.begin() + k); }
  delete d[0]; delete d[1]; delete f; }
Reg r1({"G01", run_G01, 400000, 10000000, "one run: one to three interleaved simulated trust region minimizers, each solving up to six subproblems with the multiplier kept from one to the next, or one estimation of a singular value; non trivial: the step was compared with the exact solution; distinct: hash of the event log", "src/gqtpar.c, src/linalg.c (kernels it calls)", "trust region minimizer (model, radius, acceptance)"});
}
