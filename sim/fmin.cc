// F01: minimization of a univariate function.
#include "opkpriv.h"
#include "sim.h"
#include <cerrno>
#include <cfloat>
#include <memory>
#include <algorithm>
extern "C" { // reverse communication: exported by the library, not in its header
struct fctx; fctx* opk_fmin_new(int); void opk_fmin_destroy(fctx*); opk_status opk_fmin_set_precision(fctx*, double); double opk_fmin_get_precision(fctx*);
unsigned opk_fmin_get_flags(fctx*); opk_fmin_task opk_fmin_get_status(fctx*); opk_status opk_fmin_start(fctx*, double, double, unsigned);
opk_status opk_fmin_get_initial(fctx*, double*, double*, unsigned*); opk_status opk_fmin_get_final(fctx*, double*, double*, double*, double*, double*, double*, long*);
opk_fmin_task opk_fmin_next(fctx*, double*, double);
}
using namespace sim;
namespace {
const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
struct Fun { int kind; double c, s; uint64_t h; double pf; bool unimodal() const { return kind <= 3 && pf == 0; } bool bounded() const { return kind != 8; }
  double operator()(double x) const { double u = x - c, f; // a function of x only: the same point gives the same value
    if (pf > 0) { Rng r(mix(h, bits(x))); if (r.u01() < pf) { fault("value which is not finite"); return r.u01() < 0.5 ? NAN_ : r.u01() < 0.6 ? INF : -INF; } }
    switch (kind) { case 0: f = u * u; break; case 1: f = std::fabs(u); break; case 2: f = u < 0 ? -u : 3 * u; break; case 3: f = std::sqrt(std::fabs(u)); break;
    case 4: f = u * u + 2 * std::sin(3 * x); break; case 5: f = std::floor(std::fabs(u)); break; case 6: f = 0; break; case 7: f = Rng(mix(h, bits(x))).sym(); break; case 8: f = -x * (c < 0 ? -1 : 1); break; case 10: f = std::isinf(x) ? 1 : (u < 0) == (c < 0) ? -std::sqrt(std::fabs(u)) : std::sqrt(std::fabs(u)); break; default: f = u * u * u * u - 2 * u * u; }
    return s * f; } };
struct Pt { double x, f; };
struct Case { Fun f; double a, b; unsigned flags; long maxeval; double prec; int api; int k0() const { return 1 + !(flags & 1) + !(flags & 2); } };
struct Stop {};
struct Cb { const Fun* f; std::vector<Pt>* h; long cap; bool over = false; double eval(double x) { if ((long)h->size() >= cap) { over = true; throw Stop(); } double v = (*f)(x); h->push_back({x, v}); ev("f", 0, x, v); return v; } };
Cb* g_cb; double cb_plain(double x) { return g_cb->eval(x); } double cb_data(void* d, double x) { return ((Cb*)d)->eval(x); }
std::string txt(const Case& c) { char b[300]; snprintf(b, sizeof b, "function %d c %g scale %g on (%.17g, %.17g) flags %u maxeval %ld prec %g api %d", c.f.kind, c.f.c, c.f.s, c.a, c.b, c.flags, c.maxeval, c.prec, c.api); return b; }
const long CAP = 12000;

// checks common to the two interfaces; st < 0: reverse communication (converged)
void check_result(const Case& c, const std::vector<Pt>& h, const double o[7], int st) {
  if (o[6] != (double)h.size()) { fail("F01.evals", "%zu evaluations counted as %g; %s", h.size(), o[6], txt(c).c_str()); return; }
  if (c.flags & 1) for (auto& p : h) if (c.a < c.b ? p.x <= c.a : p.x >= c.a) { fail("F01.bound", "f is evaluated at %.17g not strictly inside the exclusive bound a; %s", p.x, txt(c).c_str()); return; }
  if (c.flags & 2) for (auto& p : h) if (c.a < c.b ? p.x >= c.b : p.x <= c.b) { fail("F01.bound", "f is evaluated at %.17g not strictly inside the exclusive bound b; %s", p.x, txt(c).c_str()); return; }
  size_t k = 0; if (!(c.flags & 1) && (h.size() <= k || h[k++].x != c.a)) { fail("F01.first", "a is not tried first; %s", txt(c).c_str()); return; }
  if (!(c.flags & 2) && (h.size() <= k || h[k++].x != c.b)) { fail("F01.first", "b is not tried first; %s", txt(c).c_str()); return; }
  if (h.size() < (size_t)c.k0()) { fail("F01.first", "%zu evaluations; %s", h.size(), txt(c).c_str()); return; }
  if (c.maxeval >= 0 && (long)h.size() > std::max<long>(c.maxeval, c.k0())) { fail("F01.budget", "%zu evaluations; %s", h.size(), txt(c).c_str()); return; }
  auto known = [&](double x, double f) { if (x == c.a && (c.flags & 1) && f == INF) return true; if (x == c.b && (c.flags & 2) && f == INF) return true; for (auto& p : h) if (same_bits(p.x, x) && same_bits(p.f, f)) return true; return false; };
  bool finite = true; for (auto& p : h) if (!std::isfinite(p.x) || std::isnan(p.f)) finite = false;
  for (int i = 0; i < 3; ++i) if (!known(o[i], o[3 + i])) { fail("F01.result", "result %d: f(%.17g) = %.17g was never evaluated; %s", i, o[i], o[3 + i], txt(c).c_str()); return; }
  if ((st == 1 || st == 2) && (c.maxeval < 0 || (long)h.size() < c.maxeval)) { fail("F01.status", "status %d after %zu evaluations; %s", st, h.size(), txt(c).c_str()); return; }
  if (!finite) { probe("points or values which are not numbers"); return; }
  nontrivial(); double best = INF; for (auto& p : h) best = std::min(best, p.f);
  if (st == 2) { probe("no bracket"); size_t n = h.size(); std::vector<double> last, got(o, o + 3); if (n < (size_t)c.k0() + 3) { if (std::find(got.begin(), got.end(), h.back().x) == got.end()) fail("F01.last", "no bracket: the result does not hold the last position; %s", txt(c).c_str()); return; } for (size_t i = n < 3 ? 0 : n - 3; i < n; ++i) last.push_back(h[i].x); if (n < 3) last.push_back(c.flags & 1 ? c.a : c.b); if (n < 2) last.push_back(c.b);
    std::sort(last.begin(), last.end()); std::sort(got.begin(), got.end()); if (last != got) { fail("F01.last", "no bracket: the result is not the three last positions; %s", txt(c).c_str()); } return; }
  if (!(o[1] <= o[0] && o[0] <= o[2])) { fail("F01.interval", "the solution %.17g is not in the final interval [%.17g, %.17g]; %s", o[0], o[1], o[2], txt(c).c_str()); return; }
  if (o[3] > o[4] || o[3] > o[5]) { fail("F01.bracket", "f(xmin) = %.17g is above f at one end of the interval (%.17g, %.17g), status %d; %s", o[3], o[4], o[5], st, txt(c).c_str()); return; }
  if (o[3] > best) { fail("F01.best", "f(xmin) = %.17g but %.17g was found, status %d; %s", o[3], best, st, txt(c).c_str()); return; }
  double W = o[2] - o[1], mag = std::max({std::fabs(o[0]), std::fabs(o[1]), std::fabs(o[2])}), ulp = mag * DBL_EPSILON + 5e-324, big = std::max(o[0] - o[1], o[2] - o[0]);
  double pr = c.prec < 0 ? std::sqrt(DBL_EPSILON) : c.prec;
  if (st <= 0 && big > pr * mag * 1.001 + 4 * ulp) { fail("F01.precision", "converged with uncertainty %g at %g; %s", big, mag, txt(c).c_str()); return; }
  if (st <= 0) probe("convergence"); else probe("too many evaluations, bracket");
  if (st == 1 && big <= pr * mag * 0.999) { fail("F01.precision", "not converged (status 1) with uncertainty %g at %g; %s", big, mag, txt(c).c_str()); return; }
  if (c.f.unimodal() && std::fabs(c.f.c) < 1e6) { // the bracket must hold the minimum; the function cannot be resolved below rounding errors of its values
    bool inside = (c.flags & 1 ? (c.a < c.b ? c.f.c > c.a : c.f.c < c.a) : true) && (c.flags & 2 ? (c.a < c.b ? c.f.c < c.b : c.f.c > c.b) : true); double tol = (c.f.kind == 0 ? 1e-7 : 1e-14) * (1 + std::fabs(c.f.c)) + (c.f.kind == 0 ? 1e-7 * mag : 1e-14 * mag);
    if (inside && (c.f.c < o[1] - tol || c.f.c > o[2] + tol)) { fail("F01.minimum", "the minimum %.17g of a unimodal function is not in the final interval [%.17g, %.17g]; %s", c.f.c, o[1], o[2], txt(c).c_str()); return; } }
  double far = std::fabs(c.b - c.a); for (auto& p : h) for (double e : {c.a, c.b}) far = std::max(far, std::fabs(p.x - e));
  double N = 12 + 1.15 * (std::log(far / std::max(W, ulp)) + std::log(far / std::fabs(c.b - c.a))) / 0.4812;
  if ((double)h.size() > N) fail("F01.rate", "%zu evaluations to reduce the interval from %g to %g (at most %.0f for golden sections); %s", h.size(), far, W, N, txt(c).c_str());
}

Case draw_case() {
  Case c; c.f.kind = (int)draw(10, "function"); if (chance(1, 60, "decreases until overflow")) c.f.kind = 10; c.f.c = pick<double>({0.3, 0, 1, -7.77, 12.5, 1e-3, -1, 1e5}, "location"); c.f.s = pick<double>({1, 1e-30, 1e30}, "scale"); c.f.h = draw(1 << 16, "noise"); c.f.pf = chance(1, 6, "faults") ? pick<double>({0.02, 0.2, 0.7}, "rate of faults") : 0;
  c.a = sreal(pick<double>({10, 1, 1e3, 1e-3}, "range of a"), "a", 256); double w = pick<double>({1, 1e-6, 10, 1e3}, "width") * (1 + real(0, 1, "width fraction", 64)); c.b = chance(1, 2, "reversed") ? c.a - w : c.a + w;
  c.flags = (unsigned)draw(8, "flags"); c.maxeval = chance(1, 2, "limit") ? pick<long>({0, 1, 2, 3, 4, 5, 8, 20, 60, 300}, "maxeval") : -1; c.prec = pick<double>({-1, 1e-3, 0, 1e-12, 1e-17, 0.1, 2e-16}, "prec");
  if (!c.f.bounded() && (c.maxeval < 0)) c.maxeval = 100;
  if (c.f.pf > 0 && c.maxeval < 0 && chance(1, 2, "limit")) c.maxeval = 200;
  c.api = (int)draw(2, "with context"); return c;
}
bool callback(const Case& c, std::vector<Pt>& h, double o[7], int& st) { Guarded g(56, true, 7); Cb cb{&c.f, &h, CAP}; g_cb = &cb; double* out = g.as<double>();
  try { st = c.api ? opk_fmin_with_context(cb_data, c.a, c.b, c.flags, c.maxeval, c.prec, out, &cb) : opk_fmin(cb_plain, c.a, c.b, c.flags, c.maxeval, c.prec, out); } catch (Stop&) { }
  if (cb.over) { fail("F01.liveness", "no end after %ld evaluations; %s", CAP, txt(c).c_str()); return false; }
  if (!g.intact()) { fail("F01.memory", "memory around the result was written"); return false; } memcpy(o, out, 56); ev("end", st, o[0], o[3]); return true; }

struct Rev { Case c; fctx* k; Guarded g; std::vector<Pt> h, want; double o[7]; int phase = 0; double fx = 0; double prec1; bool done = false, running = false; long cap; };
void run_F01() {
  heap::reset(draw(16, "junk")); Case c = draw_case(); note("%s", txt(c).c_str());
  if (chance(1, 10, "invalid arguments")) { fault("invalid arguments"); Case d = c; switch (draw(4, "which")) { case 0: d.b = d.a; break; case 1: d.a = NAN_; break; case 2: d.b = NAN_; break; default: d.prec = NAN_; } std::vector<Pt> h; double o[7]; int st = 0; d.maxeval = -1; errno = 0; if (!callback(d, h, o, st)) return; nontrivial(); if (st != -1 || errno != EINVAL) { fail("F01.invalid", "invalid arguments: status %d errno %d; %s", st, errno, txt(d).c_str()); return; } if (!h.empty()) { fail("F01.invalid", "f is evaluated with invalid arguments; %s", txt(d).c_str()); return; } }
  std::vector<Pt> h; double o[7]; int st; if (!callback(c, h, o, st)) return; if (h.size() > 1 && std::isinf(h.back().x)) probe("points beyond the largest number"); count("evaluations", h.size());
  if (st < 0 || st > 2) { fail("F01.status", "status %d; %s", st, txt(c).c_str()); return; }
  state_token(mix(st, mix(c.flags, std::min<size_t>(h.size(), 64)))); check_result(c, h, o, st); if (failed()) return;
  if (!chance(1, 2, "reverse communication")) return;
  // reverse communication must ask for the same points, whatever is done with other contexts
  int K = 1 + (int)draw(2, "contexts-1"); std::vector<std::unique_ptr<Rev>> R;
  for (int i = 0; i < K; ++i) { std::unique_ptr<Rev> r(new Rev); r->c = i ? draw_case() : c; r->c.maxeval = -1; if (!r->c.f.bounded()) { r->c.f.kind = 1; } if (r->c.prec < 0) r->c.prec = std::sqrt(DBL_EPSILON); r->g = Guarded(8, true, i); int s2; if (!callback(r->c, r->want, r->o, s2)) return;
    if (i == 0 && chance(1, 8, "no memory")) { heap::fail_at(1); errno = 0; if (opk_fmin_new(0)) { fail("F01.memory", "a context without memory"); return; } heap::fail_at(0); fault("allocation failure"); }
    r->k = opk_fmin_new(r->c.flags & 4); if (!r->k) { fail("F01.new", "no context"); return; }
    double z = 0; if (chance(1, 6, "next before start")) { fault("call before the start"); if (opk_fmin_next(r->k, &z, 0) != OPK_FMIN_ERROR || opk_fmin_get_status(r->k) != OPK_FMIN_ERROR) { fail("F01.protocol", "a call before the start is not refused"); return; } }
    if (std::fabs(opk_fmin_get_precision(r->k) / std::sqrt(DBL_EPSILON) - 1) > 1e-9) { fail("F01.precision", "the precision of a new context is %g", opk_fmin_get_precision(r->k)); return; }
    r->prec1 = chance(1, 3, "two precisions") ? std::max(0.1, r->c.prec) : r->c.prec;
    if (opk_fmin_set_precision(r->k, r->prec1) != OPK_SUCCESS || opk_fmin_get_precision(r->k) != r->prec1) { fail("F01.precision", "opk_fmin_set_precision(%g)", r->prec1); return; }
    if (opk_fmin_set_precision(r->k, -1) == OPK_SUCCESS || opk_fmin_set_precision(r->k, NAN_) == OPK_SUCCESS || opk_fmin_get_precision(r->k) != r->prec1) { fail("F01.precision", "an invalid precision is accepted"); return; }
    if (chance(1, 6, "invalid start")) { fault("invalid start"); if (opk_fmin_start(r->k, 1, 1, 0) == OPK_SUCCESS || opk_fmin_start(r->k, NAN_, 1, 0) == OPK_SUCCESS || opk_fmin_start(nullptr, 0, 1, 0) == OPK_SUCCESS) { fail("F01.protocol", "an invalid start is accepted"); return; } }
    if (chance(1, 6, "calls without context")) { fault("calls without context"); bool ok = true; double q; auto e = [&](bool right) { ok &= right && errno == EFAULT; errno = 0; }; errno = 0; e(opk_fmin_get_status(nullptr) == OPK_FMIN_ERROR); e(opk_fmin_next(nullptr, &z, 0) == OPK_FMIN_ERROR); e(opk_fmin_get_flags(nullptr) == 0); e(opk_fmin_get_precision(nullptr) == opk_fmin_get_precision(nullptr)); ok &= opk_fmin_set_precision(nullptr, 1) != OPK_SUCCESS && opk_fmin_get_initial(nullptr, &q, &q, nullptr) != OPK_SUCCESS && opk_fmin_get_final(nullptr, &q, &q, &q, &q, &q, &q, nullptr) != OPK_SUCCESS && opk_fmin_get_final(r->k, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr) != OPK_SUCCESS && opk_fmin_get_initial(r->k, nullptr, nullptr, nullptr) != OPK_SUCCESS; opk_fmin_destroy(nullptr); if (!ok) { fail("F01.protocol", "a call without context, or before the start, is not refused as documented"); return; } }
    if (chance(1, 3, "an abandoned search before")) { Case d = draw_case(); if (!d.f.bounded()) d.f.kind = 1; fault("search abandoned"); if (opk_fmin_start(r->k, d.a, d.b, d.flags) != OPK_SUCCESS) { fail("F01.protocol", "start refused; %s", txt(d).c_str()); return; } double* x = r->g.as<double>(); *x = 0; double fx = 0; for (long n = (long)draw(20, "abandoned after"); n >= 0; --n) { int t = opk_fmin_next(r->k, x, fx); if (t != OPK_FMIN_FX) break; fx = d.f(*x); } }
    R.push_back(std::move(r)); }
  for (auto& r : R) { if (opk_fmin_start(r->k, r->c.a, r->c.b, r->c.flags) != OPK_SUCCESS) { fail("F01.protocol", "start refused; %s", txt(r->c).c_str()); return; } double a, b; unsigned f; if (opk_fmin_get_initial(r->k, &a, &b, &f) != OPK_SUCCESS || a != r->c.a || b != r->c.b || (f & 3) != (r->c.flags & 3) || (opk_fmin_get_flags(r->k) & 3) != (f & 3)) { fail("F01.query", "the initial interval is not the given one; %s", txt(r->c).c_str()); return; } *r->g.as<double>() = 0; r->running = true; }
  bool restarted = false;
  for (;;) { std::vector<Rev*> act; for (auto& r : R) if (r->running) act.push_back(r.get()); if (act.empty()) break; Rev& r = *act[act.size() > 1 ? draw(act.size(), "who") : 0];
    double* x = r.g.as<double>(); int t = opk_fmin_next(r.k, x, r.fx); if (t != opk_fmin_get_status(r.k)) { fail("F01.query", "task %d but status %d", t, opk_fmin_get_status(r.k)); return; }
    if (t == OPK_FMIN_FX) { if (r.h.size() >= r.want.size() || !same_bits(r.want[r.h.size()].x, *x)) { fail("F01.reverse", "evaluation %zu: reverse communication asks for %.17g, the callback version asked for %.17g; %s", r.h.size(), *x, r.h.size() < r.want.size() ? r.want[r.h.size()].x : NAN_, txt(r.c).c_str()); return; }
      r.fx = r.c.f(*x); r.h.push_back({*x, r.fx}); count("evaluations");
      if (r.h.size() < 100 && chance(1, 60, "protocol fault")) { if (chance(1, 2, "restart")) { fault("started again before the end"); restarted = true; opk_fmin_start(r.k, r.c.a, r.c.b, r.c.flags); opk_fmin_set_precision(r.k, r.prec1); r.phase = 0; r.h.clear(); } else if (chance(1, 3, "no address")) { fault("no address for the position"); double keep = *x; errno = 0; if (opk_fmin_next(r.k, nullptr, r.fx) != OPK_FMIN_ERROR || errno != EFAULT || opk_fmin_get_status(r.k) != OPK_FMIN_ERROR || opk_fmin_next(r.k, x, r.fx) != OPK_FMIN_ERROR || !same_bits(*x, keep)) { fail("F01.protocol", "a call without address is not refused"); return; } r.running = false; }
        else { fault("position changed by the caller"); double keep = *x; *x = keep + 1 + std::fabs(keep); if (opk_fmin_next(r.k, x, 0) != OPK_FMIN_ERROR || opk_fmin_next(r.k, x, 0) != OPK_FMIN_ERROR) { fail("F01.protocol", "a change of the position is not seen"); return; } r.running = false; probe("reverse communication refused"); } } }
    else if (t == OPK_FMIN_CONVERGENCE) { double q[7]; long n; if (opk_fmin_get_final(r.k, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &n) != OPK_SUCCESS) { fail("F01.query", "no final result"); return; } q[6] = (double)n; Case d = r.c; if (r.phase == 0) d.prec = r.prec1; check_result(d, r.h, q, -1); if (failed()) return;
      if (r.phase == 0 && r.prec1 != r.c.prec) { opk_fmin_set_precision(r.k, r.c.prec); r.phase = 1; probe("search continued with a smaller precision"); continue; }
      if (r.h.size() != r.want.size()) { fail("F01.reverse", "reverse communication ends after %zu evaluations, the callback version after %zu; %s", r.h.size(), r.want.size(), txt(r.c).c_str()); return; }
      for (int i = 0; i < 7; ++i) if (!same_bits(q[i], r.o[i])) { fail("F01.reverse", "result %d of reverse communication is %.17g, the one of the callback version is %.17g; %s", i, q[i], r.o[i], txt(r.c).c_str()); return; }
      probe("reverse communication compared"); r.running = false; }
    else { fail("F01.reverse", "task %d; %s", t, txt(r.c).c_str()); return; }
    if (!r.g.intact()) { fail("F01.memory", "memory around the position was written"); return; } }
  for (auto& r : R) opk_fmin_destroy(r->k); (void)restarted;
  if (heap::live()) fail("F01.memory", "%ld blocks left", heap::live());
}
Reg r1({"F01", run_F01, 1500000, 20000000, "one run: one search with the callback interface, possibly followed by interleaved searches by reverse communication; non trivial: the result was checked on finite values, or arguments refused; distinct: hash of the event log",
  "src/fmin.c", "univariate function, caller of the reverse communication, heap"});
}
