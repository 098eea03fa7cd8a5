// W06: batches of problems of one kind, solved without faults: mean number of evaluations and mean accuracy.
#include "powell.h"
namespace powell {
namespace {
struct Usual { double mean, sd, lg, lsd; }; // evaluations and decimal logarithm of the projected gradient: mean and standard deviation
const Usual TABLE[] = {
#include "pace_table.h"
};
struct Config { int solver, n, npt, m, fkind, cond; bool box; };
std::vector<Config> configs() { std::vector<Config> r;
  for (int s = 0; s < 2; ++s) for (int n = 2; n <= 6; ++n) { int full = (n + 1) * (n + 2) / 2; std::vector<int> ks{n + 2, 2 * n + 1}; if (full - 1 > 2 * n + 1) ks.push_back(full - 1); ks.push_back(full); std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    for (int k : ks) for (int f = 0; f < 3; ++f) for (int box = 0; box <= s; ++box) for (int c : {10, 100}) if (f == 0 || c == 10) r.push_back({s, n, k, 0, f, c, box == 1}); }
  for (int n = 1; n <= 5; ++n) for (int m = 0; m <= 3; ++m) for (int f = 0; f < 2; ++f) for (int ball = 0; ball < 2; ++ball) if (f == 0 || !ball) r.push_back({2, n, 0, m, f, 3, ball == 1});
  return r; }
struct One { const Config* c; V H, g, U, A, b, scl; long calls = 0; bool neg = false, slow = false;
  double gauss(Rng& r) { double t = 0; for (int i = 0; i < 12; ++i) t += r.u01(); return t - 6; }
  void make(const Config& cc, Rng& r, bool scaled) { c = &cc; int n = cc.n; V u(n), d(n); double q = 0; for (auto& e : u) { e = gauss(r); q += e * e; } for (int i = 0; i < n; ++i) d[i] = n > 1 ? std::pow((double)cc.cond, (double)i / (n - 1)) : 1; H.assign(n * n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) H[i * n + j] += ((i == l) - 2 * u[i] * u[l] / q) * d[l] * ((j == l) - 2 * u[j] * u[l] / q);
    g.resize(n); for (auto& e : g) e = 2 * gauss(r); U.resize(n * n); for (auto& e : U) e = gauss(r); scl.assign(n, 1); if (scaled) for (auto& e : scl) e = std::pow(2., (double)(int)(9 * r.u01()) - 4);
    for (int k = 0; k < cc.m; ++k) { for (;;) { V a(n); double s = 0; for (auto& e : a) { e = gauss(r); s += e * e; } s = std::sqrt(s); bool ok = s > 0.1; for (auto& e : a) e /= s; for (int j = 0; j < k; ++j) { double t = 0; for (int i = 0; i < n; ++i) t += a[i] * A[j * n + i]; if (std::fabs(t) > (n == 1 ? 2 : 0.9)) ok = false; } if (!ok) continue; A.insert(A.end(), a.begin(), a.end()); break; } b.push_back(0.3 + 0.5 * r.u01()); } }
  double value(const double* x, double* con, double* gr) { int n = c->n; V u(n); for (int i = 0; i < n; ++i) u[i] = x[i] / scl[i]; double f = 0; V gg(n, 0);
    if (c->fkind < 2) { for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += H[i * n + j] * u[j]; f += u[i] * (t / 2 + g[i]); gg[i] = t + g[i]; } if (c->fkind == 1) for (int k = 0; k < n; ++k) { double t = 0; for (int i = 0; i < n; ++i) t += U[k * n + i] * u[i]; f += 0.1 * t * t * t * t; for (int i = 0; i < n; ++i) gg[i] += 0.4 * t * t * t * U[k * n + i]; } }
    else for (int i = 0; i < n; ++i) { f += (1 - u[i]) * (1 - u[i]); gg[i] -= 2 * (1 - u[i]); if (i + 1 < n) { double t = u[i + 1] - u[i] * u[i]; f += 10 * t * t; gg[i + 1] += 20 * t; gg[i] -= 40 * t * u[i]; } }
    if (con) for (int k = 0; k < c->m; ++k) { double t = b[k]; for (int i = 0; i < n; ++i) t += A[k * n + i] * u[i]; if (c->box && k == 0) { t = 1; for (double e : u) t -= e * e; } con[k] = t; }
    if (gr) for (int i = 0; i < n; ++i) gr[i] = gg[i]; return neg ? -f : f; } };
double cb(const opk_index n, const double* x, void* d) { One* o = (One*)d; ++o->calls; return o->value(x, nullptr, nullptr); }
double cbc(opk_index n, opk_index m, const double* x, double* con, void* d) { One* o = (One*)d; ++o->calls; return o->value(x, con, nullptr); }
}
void run_pace() {
  static const std::vector<Config> C = configs(); int id = (int)draw(C.size(), "kind of problems"); const Config& c = C[id]; bool scaled = chance(1, 3, "scaled"), neg = chance(1, 3, "maximize"); const int M = 40, n = c.n; Rng r(draw(1 << 24, "problems") + 3); double sum = 0, lsum = 0, worst = 0; const Usual* u = id < (int)(sizeof TABLE / sizeof *TABLE) ? &TABLE[id] : nullptr; static const char* name[] = {"NEWUOA", "BOBYQA", "COBYLA"};
  char t[200]; snprintf(t, sizeof t, "%s n %d npt %d m %d function %d condition number %d%s%s%s", name[c.solver], n, c.npt, c.m, c.fkind, c.cond, c.box ? c.solver == 1 ? " bounded" : " ball" : "", scaled ? " scaled" : "", neg ? " maximized" : ""); note("%s", t);
  for (int k = 0; k < M && !failed(); ++k) { One o; o.make(c, r, scaled); o.neg = neg; V x(n), lo(n), hi(n), w; for (int i = 0; i < n; ++i) { double s = o.gauss(r), a = 1.01 + 2 * r.u01(), b = 1.01 + 2 * r.u01(); if (c.solver == 2) s *= 0.3; x[i] = s * o.scl[i]; if (!c.box) a = b = 1e3; lo[i] = (s - a) * o.scl[i]; hi[i] = (s + b) * o.scl[i]; }
    int st; size_t np = c.npt + 1, nw = c.solver == 2 ? n * (3 * n + 2 * c.m + 11) + 4 * c.m + 6 + n : (np + 13) * (np + n) + 3 * n * (n + 3) / 2 + 11 * n + 100; w.assign(nw + 4 * n * (n + 5), 0); std::vector<opk_index> ia(c.m + 1); bool pl = !scaled && !neg; double* S = scaled ? o.scl.data() : nullptr;
    if (c.solver == 0) st = pl ? newuoa(n, c.npt, cb, &o, x.data(), 0.5, 1e-5, 0, 5000, w.data()) : newuoa_optimize(n, c.npt, (opk_bool)neg, cb, &o, x.data(), S, 0.5, 1e-5, 0, 5000, w.data());
    else if (c.solver == 1) st = pl ? bobyqa(n, c.npt, cb, &o, x.data(), lo.data(), hi.data(), 0.5, 1e-5, 0, 5000, w.data()) : bobyqa_optimize(n, c.npt, (opk_bool)neg, cb, &o, x.data(), lo.data(), hi.data(), S, 0.5, 1e-5, 0, 5000, w.data());
    else st = pl ? cobyla(n, c.m, cbc, &o, x.data(), 0.5, 1e-4, 0, 5000, w.data(), ia.data()) : cobyla_optimize(n, c.m, (opk_bool)neg, cbc, &o, x.data(), S, 0.5, 1e-4, 0, 5000, w.data(), ia.data());
    if (st != 0 && !(c.solver == 1 && st == BOBYQA_ROUNDING_ERRORS)) { fail("W06.pace-status", "status %d after %ld evaluations; %s", st, o.calls, t); return; }
    V g(n); o.value(x.data(), nullptr, g.data()); double q = 0; for (int i = 0; i < n; ++i) { if (c.solver == 1 && ((x[i] == lo[i] && g[i] > 0) || (x[i] == hi[i] && g[i] < 0))) continue; q += g[i] * g[i]; } double lg = c.m ? 0 : std::log10(std::sqrt(q) + 1e-12); ev("solved", o.calls, lg); sum += u ? std::min<double>(o.calls, 4 * u->mean) : o.calls; lsum += lg; worst = std::max(worst, lg); }
  double m = sum / M, l = lsum / M; nontrivial(); count("batches"); probe(name[c.solver]); add_vtime(sum * 1e-3); state_token(mix(id, (uint64_t)m)); note("mean number of evaluations %g, mean logarithm %g", m, l); if (!u) return;
  double most = 1.03 * u->mean + 7 * u->sd / std::sqrt((double)M), lmost = u->lg + 0.05 + 7 * u->lsd / std::sqrt((double)M); note("limits %g, %g", most, lmost);
  if (m > most) fail("W06.pace", "%d problems of the same kind needed in average %g evaluations, usually %g (limit %g); %s", M, m, u->mean, most, t);
  else if (!c.m && l > lmost) fail("W06.pace-accuracy", "%d problems of the same kind are solved with an average decimal logarithm of the projected gradient %g, usually %g (limit %g); %s", M, l, u->lg, lmost, t);
}
}
