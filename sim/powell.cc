// Powell's derivative free optimizers: problems and solves.
#include "powell.h"
namespace powell {
static const double INF = std::numeric_limits<double>::infinity(), QNAN = std::numeric_limits<double>::quiet_NaN();
double Prob::obj(const double* x) const {
  double f = 0; V d(n); for (int i = 0; i < n; ++i) d[i] = x[i] - c[i];
  switch (kind) {
  case 0: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) f += 0.5 * d[i] * H[i * n + j] * d[j]; break;             // convex quadratic
  case 1: for (int i = 0; i + 1 < n; ++i) { double u = d[i + 1] - d[i] * d[i], v = 1 - d[i]; f += 10 * u * u + v * v; } break; // curved valley
  case 2: for (int i = 0; i < n; ++i) f += std::fabs(d[i]); break;
  case 3: f = 0; break;                                                                                                    // constant
  case 4: for (int i = 0; i < n; ++i) f += (i % 2 ? -1 : 1) * d[i] * (i + 1); break;                                        // unbounded
  case 5: for (int i = 0; i < n; ++i) f += std::floor(4 * d[i] * d[i]) / 4; break;                                          // steps
  case 6: for (int i = 0; i < n; ++i) f += d[i] * d[i] + 0.5 * std::cos(5 * d[i]); break;
  case 7: { uint64_t q = h; for (int i = 0; i < n; ++i) q = mix(q, std::isnan(x[i]) ? 1 : bits(x[i] + 0.0)); for (int i = 0; i < n; ++i) f += d[i] * d[i]; f += 0.1 * Rng(q).sym(); } break; // noise
  case 8: { uint64_t q = h; for (int i = 0; i < n; ++i) q = mix(q, std::isnan(x[i]) ? 1 : bits(x[i] + 0.0)); f = Rng(q).sym(); } break;                  // nothing but noise
  case 9: for (int i = 0; i < n; ++i) { double u = d[i] * d[i]; f += u * u; } break;                                        // flat minimum
  }
  return s * (f + shift);
}
void Prob::cons(const double* x, double* con) const {
  for (int k = 0; k < m; ++k) { double v = b[k]; for (int i = 0; i < n; ++i) v += A[k * n + i] * x[i]; if (ckind == 1 && k == 0) { v = b[k]; for (int i = 0; i < n; ++i) v -= x[i] * x[i]; } con[k] = v; }
  if (ckind == 2 && m > 1) con[m - 1] = -con[0] - 0.5; // contradictory
}
double Prob::eval(const double* x, double* con, long call) const {
  V y; if (!mul.empty()) { y.assign(x, x + n); for (int i = 0; i < n; ++i) y[i] *= mul[i]; x = y.data(); }
  if (con) cons(x, con); double f = obj(x);
  if (faulty(call)) { static const char* nm[] = {"", "objective is NaN", "objective is +inf", "objective is -inf", "objective is huge", "constraint is NaN", "constraint is -inf", "objective is wrong"};
    fault(nm[fkind]); switch (fkind) { case 1: f = QNAN; break; case 2: f = INF; break; case 3: f = -INF; break; case 4: f = 1e300; break; case 5: if (m && con) con[call % m] = QNAN; break; case 6: if (m && con) con[call % m] = -INF; break; case 7: f += 1; break; } }
  return f;
}
size_t Setup::work() const {
  switch (solver) { case NEWUOA: return (npt + 13) * (npt + n) + 3 * n * (n + 3) / 2 + (sclkind ? n : 0); case BOBYQA: return (npt + 5) * (npt + n) + 3 * n * (n + 5) / 2 + (sclkind ? 3 * n : 0); default: return n * (3 * n + 2 * m + 11) + 4 * m + 6; }
}
std::string Setup::txt() const { static const char* nm[] = {"NEWUOA", "BOBYQA", "COBYLA"}; static const char* hn[] = {"", " (simple driver)", " (reverse communication)"}; char t[300];
  snprintf(t, sizeof t, "%s%s n %d npt %d m %d rho %g to %g maxfun %ld%s%s function %d scale %g fault %d at %ld%s", nm[solver], hn[how], n, solver == COBYLA ? 0 : npt, m, rhobeg, rhoend, maxfun, maximize ? " maximize" : "", sclkind == 0 ? "" : sclkind == 1 ? " unit scaling" : sclkind == 2 ? " scaling (powers of 2)" : " scaling", p.kind, p.s, p.fkind, p.fat, p.fforever ? " and after" : ""); return t; }

// ---------------------------------------------------------------- output of the library
static long g_out; static FILE *g_sink, *g_so, *g_se;
std::string* g_text = nullptr;
static ssize_t sink_write(void*, const char* t, size_t n) { g_out += (long)n; if (g_text) g_text->append(t, n); return (ssize_t)n; }
bool quiet_start() {
  if (g_so) return false;
  if (!g_sink) { cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr}; g_sink = fopencookie(nullptr, "w", io); static char buf[4096]; setvbuf(g_sink, buf, _IOFBF, sizeof buf); }
  g_out = 0; g_so = stdout; g_se = stderr; stdout = g_sink; stderr = g_sink; return true;
}
long quiet_stop() { if (!g_so) return 0; fflush(g_sink); stdout = g_so; stderr = g_se; g_so = g_se = nullptr; return g_out; }

// ---------------------------------------------------------------- one solve
static double cb_n(opk_index n, const double* x, void* d) { return ((Solve*)d)->call(n, -1, x, nullptr, d); }
static double cb_c(opk_index n, opk_index m, const double* x, double* con, void* d) { return ((Solve*)d)->call(n, m, x, con, d); }
static Guarded mk(const V& v, bool right) { Guarded g(v.size() * sizeof(double), right, 3); memcpy(g.p, v.data(), v.size() * sizeof(double)); return g; }
Solve::Solve(const Setup& s_) : s(s_) {
  gx = mk(s.x0, s.right); if (s.sclkind) gscl = mk(s.scl, s.right); if (s.solver == BOBYQA) { gxl = mk(s.xl, s.right); gxu = mk(s.xu, s.right); }
  if (s.how == REVCOM) { if (s.solver == COBYLA) gc = Guarded(sizeof(double) * s.m, s.right, 5); return; }
  gw = Guarded(s.work() * sizeof(double), s.right, s.junk); if (s.solver == COBYLA) gi = Guarded(s.iact() * sizeof(opk_index), s.right, s.junk + 2);
  for (size_t i = 0; i < s.work() && (s.junk & 1); ++i) if (mix(s.junk, i) % 5 == 0) gw.as<double>()[i] = i % 2 ? QNAN : 1e300;
}
Solve::~Solve() { if (nc) newuoa_delete(nc); if (cc) cobyla_delete(cc); }
double Solve::call(long n, long m, const double* x, double* con, void* data) {
  Eval e; e.x.assign(x, x + s.n);
  if (n != s.n || (s.solver == COBYLA && m != s.m)) { fail("W05.callback", "the objective function is called with wrong dimensions (%ld, %ld); %s", n, m, s.txt().c_str()); }
  if ((long)r.h.size() > std::max<long>(s.maxfun, 1) + 50) { over = true; return 0; }
  if (co && active) co->yield();
  e.con.resize(s.m); e.f = s.p.eval(e.x.data(), s.m ? e.con.data() : nullptr, (long)r.h.size() + 1);
  if (con) for (int k = 0; k < s.m; ++k) con[k] = e.con[k];
  count("evaluations"); r.h.push_back(e); ev("f", 0, e.x[0], e.f); return e.f;
}
bool Solve::step() {
  if (r.finished) return false;
  double* x = gx.as<double>(); const double* scl = s.sclkind ? gscl.as<double>() : nullptr; double* w = gw.as<double>(); opk_index* ia = gi.as<opk_index>(); long an = s.an == s.SAME ? s.n : s.an, anpt = s.anpt == s.SAME ? s.npt : s.anpt, am = s.am == s.SAME ? s.m : s.am;
  if (s.how != REVCOM) {
    if (!co) co.reset(new Coro([=](Coro&) {
      switch (s.solver) {
      case NEWUOA: r.status = s.how == SIMPLE ? newuoa(an, anpt, cb_n, this, x, s.rhobeg, s.rhoend, s.iprint, s.maxfun, w) : newuoa_optimize(an, anpt, (opk_bool)s.maximize, cb_n, this, x, scl, s.rhobeg, s.rhoend, s.iprint, s.maxfun, w); break;
      case BOBYQA: r.status = s.how == SIMPLE ? bobyqa(an, anpt, cb_n, this, x, gxl.as<double>(), gxu.as<double>(), s.rhobeg, s.rhoend, s.iprint, s.maxfun, w) : bobyqa_optimize(an, anpt, (opk_bool)s.maximize, cb_n, this, x, gxl.as<double>(), gxu.as<double>(), scl, s.rhobeg, s.rhoend, s.iprint, s.maxfun, w); break;
      case COBYLA: r.status = s.how == SIMPLE ? cobyla(an, am, cb_c, this, x, s.rhobeg, s.rhoend, s.iprint, s.maxfun, w, ia) : cobyla_optimize(an, am, (opk_bool)s.maximize, cb_c, this, x, scl, s.rhobeg, s.rhoend, s.iprint, s.maxfun, w, ia); break;
      } }));
    active = true; bool q = quiet_start(); g_text = s.iprint ? &out : nullptr; co->resume(); if (q) printed += quiet_stop(); g_text = nullptr; active = false;
    if (!co->done()) return true;
    r.f = w[0]; if (s.solver == COBYLA) { r.maxcv = w[1]; r.nevals = ia[0]; } r.x.assign(x, x + s.n); r.finished = true; co.reset(); return false;
  }
  bool q = quiet_start(); struct Q { bool q; long& p; ~Q() { if (q) p += quiet_stop(); g_text = nullptr; } } guard{q, printed}; g_text = s.iprint ? &out : nullptr;
  if (!nc && !cc) {
    if (s.solver == NEWUOA) nc = newuoa_create(s.n, s.npt, s.rhobeg, s.rhoend, s.iprint, s.maxfun); else cc = cobyla_create(s.n, s.m, s.rhobeg, s.rhoend, s.iprint, s.maxfun);
    if (!nc && !cc) { r.finished = true; r.status = -99; return false; }
    r.status = nc ? newuoa_get_status(nc) : cobyla_get_status(cc); if (r.status != 1) { fail("W04.create", "the initial status is %d; %s", r.status, s.txt().c_str()); r.finished = true; return false; }
    return true; }
  Eval e; e.x.assign(x, x + s.n); e.con.resize(s.m); e.f = s.p.eval(x, s.m ? e.con.data() : nullptr, (long)r.h.size() + 1); count("evaluations");
  double* c = gc.as<double>(); for (int k = 0; k < s.m; ++k) c[k] = e.con[k]; r.h.push_back(e); ev("f", 0, e.x[0], e.f);
  r.status = nc ? newuoa_iterate(nc, e.f, x) : cobyla_iterate(cc, e.f, x, s.m ? c : nullptr);
  if (s.restart_at >= 0 && (long)r.h.size() == s.restart_at) { int st = nc ? newuoa_restart(nc) : cobyla_restart(cc); if (st != 1) { fail("W04.restart", "restart returns %d; %s", st, s.txt().c_str()); r.finished = true; return false; } s.restart_at = -1; if (s.heals) s.p.fkind = 0; r = Result(); memcpy(x, s.x0.data(), s.n * sizeof(double)); probe("restart"); return true; }
  if (track) r.rhos.push_back(nc ? newuoa_get_rho(nc) : cobyla_get_rho(cc));
  if (r.status == 1) { if ((long)r.h.size() > std::max<long>(s.maxfun, 1) + 50) { over = true; r.finished = true; return false; } return true; }
  r.nevals = nc ? newuoa_get_nevals(nc) : cobyla_get_nevals(cc); r.rho = nc ? newuoa_get_rho(nc) : cobyla_get_rho(cc); if (cc) r.last_f = r.f = cobyla_get_last_f(cc); r.x.assign(x, x + s.n); r.finished = true; return false;
}
bool Solve::memory_ok(std::string* why) {
  if (!gx.intact() || !gscl.intact() || !gxl.intact() || !gxu.intact() || !gw.intact() || !gi.intact() || !gc.intact()) { *why = "memory around an array of the caller was written"; return false; }
  if (s.sclkind && memcmp(gscl.p, s.scl.data(), s.n * sizeof(double))) { *why = "the scaling factors were changed"; return false; }
  if (s.solver == BOBYQA && (memcmp(gxl.p, s.xl.data(), s.n * sizeof(double)) || memcmp(gxu.p, s.xu.data(), s.n * sizeof(double)))) { *why = "the bounds were changed"; return false; }
  return true;
}
// ---------------------------------------------------------------- drawing problems
Setup draw_setup(int solver, bool small, bool large) {
  Setup s; s.solver = (Solver)solver; int nmin = solver == COBYLA ? 1 : 2; s.n = nmin + (int)draw(small ? 3 : chance(1, 24, "large n") ? 9 : 4, "n"); if (!small && large && chance(1, 400, "very large n")) s.n += 8 + (int)draw(24, "more n"); int lo = s.n + 2, hi = (s.n + 1) * (s.n + 2) / 2;
  switch (draw(4, "npt")) { case 0: s.npt = 2 * s.n + 1; break; case 1: s.npt = lo; break; case 2: s.npt = hi; break; default: s.npt = lo + (int)draw(hi - lo + 1, "npt value"); }
  if (s.n > 12) s.npt = std::min(s.npt, 2 * s.n + 1 + (int)draw(s.n, "npt beyond 2n+1"));
  s.m = solver == COBYLA ? (int)draw(chance(1, 10, "many constraints") ? 20 : 4, "m") : 0;
  s.rhobeg = pick<double>({0.5, 0.1, 1, 2, 8}, "rhobeg"); s.rhoend = s.rhobeg * pick<double>({1e-3, 1e-1, 1, 1e-6, 1e-9, 0.5}, "rhoend"); s.maxfun = pick<long>({300, 60, 20, 7, 1, 0, 1000}, "maxfun") + (long)draw(4, "maxfun+");
  s.maximize = chance(1, 4, "maximize"); s.junk = draw(8, "junk"); s.right = !chance(1, 3, "guard before"); s.sclkind = (int)pick<int>({0, 0, 1, 2, 3}, "scaling");
  Prob& p = s.p; p.n = s.n; p.m = s.m; p.kind = (int)pick<int>({0, 0, 1, 2, 6, 7, 5, 9, 4, 3, 8}, "objective"); p.s = pick<double>({1, 1e-6, 1e6, 1e-12, 1e12}, "magnitude") * s.sign(); p.shift = pick<double>({0, 0, 1, 1e6}, "offset");
  Rng g(draw(1 << 20, "problem") + 5); p.h = g.next(); int n = s.n; p.c.resize(n); for (auto& e : p.c) e = g.sym(); V d(n), u(n); double q = 0; for (auto& e : u) { e = g.sym(); q += e * e; } if (!(q > 0)) { u[0] = 1; q = 1; }
  double cond = pick<double>({10, 1, 1e3}, "condition"); for (int i = 0; i < n; ++i) d[i] = std::pow(cond, n > 1 ? (double)i / (n - 1) : 0); p.H.assign(n * n, 0);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = 0; for (int k = 0; k < n; ++k) t += ((i == k) - 2 * u[i] * u[k] / q) * d[k] * ((j == k) - 2 * u[j] * u[k] / q); p.H[i * n + j] = t; }
  p.A.resize(s.m * n); p.b.resize(s.m); for (auto& e : p.A) e = g.sym(); for (auto& e : p.b) e = g.sym() + 0.5; p.ckind = s.m ? (int)pick<int>({0, 0, 1, 2}, "constraints") : 0;
  s.x0.resize(n); for (auto& e : s.x0) e = 2 * g.sym(); if (chance(1, 8, "from 0")) std::fill(s.x0.begin(), s.x0.end(), 0); if (chance(1, 8, "from the minimum")) s.x0 = p.c; if (chance(1, 16, "from far away")) for (auto& e : s.x0) e *= 1e4;
  s.scl.assign(n, 1); if (s.sclkind == 2) for (auto& e : s.scl) e = std::ldexp(1, (int)(g.next() % 7) - 3); if (s.sclkind == 3) for (auto& e : s.scl) e = 0.2 + 3 * g.u01();
  s.xl.assign(n, -1); s.xu.assign(n, 1); if (solver == BOBYQA) { bool tight = chance(1, 3, "tight bounds"); for (int i = 0; i < n; ++i) { double w = 2 * s.rhobeg * s.scl[i] * (tight ? 1 + 1e-9 + (g.next() % 3 ? 0 : g.u01()) : 1.5 + 6 * g.u01()); s.xl[i] = s.x0[i] - w * g.u01(); if (g.next() % 4 == 0) s.xl[i] = s.x0[i] + (g.next() % 2 ? 0 : g.u01()); if (g.next() % 5 == 0) s.xl[i] = s.x0[i] - w + (g.next() % 2 ? s.rhobeg * s.scl[i] * g.u01() : 0); s.xu[i] = s.xl[i] + w; } if (chance(1, 4, "far bounds")) for (int i = 0; i < n; ++i) { if (g.next() % 2) s.xl[i] = -1e20; if (g.next() % 2) s.xu[i] = 1e20; } }
  return s;
}
void draw_faults(Setup& s) { if (!chance(1, 3, "fault")) return; s.p.fkind = 1 + (int)draw(s.m ? 7 : 4, "fault kind"); if (s.p.fkind == 5 && !s.m) s.p.fkind = 7; s.p.fat = 1 + (long)draw(chance(1, 2, "late") ? 60 : 12, "fault at"); s.p.fforever = chance(1, 4, "from then on"); }
}
