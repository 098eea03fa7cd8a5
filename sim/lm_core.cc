#include "lm.h"
#include <cerrno>
#include <cfloat>
using namespace sim;
namespace lm {

double round_to(bool s, double v) { return s ? (double)(float)v : v; }
double dot(const Vec& a, const Vec& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double norm2(const Vec& v) { double m = 0; for (double t : v) m = std::max(m, std::fabs(t)); if (!(m > 0) || std::isinf(m)) return m == 0 ? (std::isnan(dot(v, v)) ? NAN : 0) : m; double s = 0; for (double t : v) s += (t / m) * (t / m); return m * std::sqrt(s); }

// ------------------------------------------------------------- objectives
double Obj::eval(const Vec& x0, Vec& g) const {
  Vec x(x0); g.assign(n, 0); double f = 0;
  if (family == 1) { double t = 2 * dot(h, x) / dot(h, h); for (int i = 0; i < n; ++i) x[i] -= t * h[i]; }
  switch (family) {
  case 0: case 1:
    for (int i = 0; i < n; ++i) { double d = x[i] - c[i]; f += 0.5 * a[i] * d * d; g[i] = a[i] * d; } break;
  case 2:
    if (n == 1) { double d = x[0] - 1; f += unit * d * d; g[0] = 2 * unit * d; }
    else for (int i = 0; i + 1 < n; ++i) { double t1 = x[i + 1] - x[i] * x[i], t2 = 1 - x[i]; f += b * t1 * t1 + unit * t2 * t2; g[i] += -4 * b * t1 * x[i] - 2 * unit * t2; g[i + 1] += 2 * b * t1; } break;
  case 3: for (int i = 0; i < n; ++i) { double d = x[i] - c[i]; f += a[i] * (0.25 * d * d * d * d + 0.5 * b * d * d); g[i] = a[i] * (d * d * d + b * d); } break;
  case 4: for (int i = 0; i < n; ++i) { double d = x[i] - c[i], t = std::fabs(d); f += a[i] * (t + std::log1p(std::exp(-2 * t)) - M_LN2); g[i] = a[i] * std::tanh(d); } break;
  case 5: for (int i = 0; i < n; ++i) { double d = x[i] - c[i]; f += 0.5 * a[i] * d * d + b * std::cos(w * x[i]); g[i] = a[i] * d - b * w * std::sin(w * x[i]); } break;
  case 6: for (int i = 0; i < n; ++i) { f += c[i] * x[i]; g[i] = c[i]; } break;
  case 7: break;
  }
  if (family == 1) { double t = 2 * dot(h, g) / dot(h, h); for (int i = 0; i < n; ++i) g[i] -= t * h[i]; }
  return f + off;
}
void Obj::vanish_at(const Vec& x0) { Vec g; off = 0; double v = eval(x0, g); off = -v; if (!(eval(x0, g) == 0)) off = 0; }
Obj draw_obj(int n, int maxfam, int condpow, bool wide) {
  Obj o; o.n = n; o.family = (int)draw(maxfam, "objective family");
  double lc = real(0, condpow, "log10 conditioning", 16);
  o.a.resize(n); o.c.resize(n); o.h.assign(n, 0);
  for (int i = 0; i < n; ++i) { o.a[i] = n > 1 ? std::pow(10.0, lc * i / (n - 1)) : 1 + lc; o.c[i] = sreal(2, "centre", 64); }
  if (o.family == 1) { for (int i = 0; i < n; ++i) o.h[i] = sreal(1, "rotation", 32); if (!(dot(o.h, o.h) > 0)) o.h[0] = 1; }
  if (o.family == 2) o.b = pick({1.0, 10.0, 100.0}, "Rosenbrock weight");
  if (o.family == 3) o.b = pick({1.0, 0.1, 0.0}, "quartic quadratic part");
  if (o.family == 5) { o.b = real(0.1, 2, "ripple", 16); o.w = real(0.5, 4, "ripple frequency", 16); }
  if (o.family == 6) for (auto& t : o.c) if (t == 0) t = 1;
  o.off = pick({0.0, 0.0, 1.0, -1.0, 100.0, -7.5}, "objective offset");
  double sc = pick({1.0, 1.0, 1.0, 1e-3, 1e3}, "objective scale"); if (wide && chance(1, 16, "extreme scale")) { double w = pick({0x1p-40, 0x1p40}, "extreme objective scale"); sc *= w; o.off *= w; o.unit = w; if (o.family == 2 || o.family == 5) o.b *= w; if (o.family == 6) for (auto& t : o.c) t *= w; }
  for (auto& t : o.a) t *= sc;
  o.b *= o.family == 2 || o.family == 5 ? 1 : 1;
  return o;
}

// ------------------------------------------------------------- a vector space supplied by the caller
static CSpaceStats g_cs;
CSpaceStats& cstats() { return g_cs; }
std::function<void()> inside;
static CVec* cv(const opk_vector* v) { return (CVec*)v; }
static double& at(const opk_vector* v, opk_index i) { CVec* c = cv(v); return c->stride > 0 ? c->d[c->off + i * c->stride] : c->d[c->off + (c->n - 1 - i) * -c->stride]; }
static void need(bool ok, const char* what) { if (!ok && g_cs.bad.empty()) g_cs.bad = what; }
static void chk(opk_vspace* s, const opk_vector* v, const char* op) {
  g_cs.ops++; if (inside) inside();
  if (!v) { need(false, op); return; }
  if (!heap::is_live(v)) { need(false, "operation called with a released vector"); return; }
  need(v->owner == s, "operation called with a vector of another space");
}
static int g_layout_of(opk_vspace* s);
struct CSpace { opk_vspace base; int layout; };
static int g_layout_of(opk_vspace* s) { return ((CSpace*)s)->layout; }
static opk_vector* c_create(opk_vspace* s) {
  g_cs.creates++;
  if (g_cs.fail_create_at > 0 && --g_cs.fail_create_at == 0) { fault("user-space create() fails"); errno = ENOMEM; return nullptr; }
  CVec* v = (CVec*)opk_allocate_vector(s, sizeof(CVec)); if (!v) return nullptr;
  int l = g_layout_of(s); v->n = (int)s->size;
  v->stride = l == 0 ? 1 : l == 1 ? -1 : l == 2 ? 3 : -2; v->off = l >= 2 ? 1 : 0;
  size_t len = (size_t)v->n * std::abs(v->stride) + 4; v->d = new double[len]; v->mem = v->d;
  for (size_t i = 0; i < len; ++i) v->d[i] = NAN;
  return (opk_vector*)v;
}
static void c_fin(opk_vspace* s, opk_vector* v) { need(v->owner == s, "finalize of a vector of another space"); delete[] cv(v)->d; cv(v)->d = nullptr; }
static double c_peek(const opk_vspace* s, const opk_vector* v, opk_index k) { return at(v, k); }
static void c_poke(const opk_vspace* s, opk_vector* v, opk_index k, double x) { at(v, k) = x; }
static void c_import(const opk_vspace* s, opk_vector* v, const void* src, opk_eltype t) { for (opk_index i = 0; i < s->size; ++i) at(v, i) = t == OPK_FLOAT ? ((const float*)src)[i] : ((const double*)src)[i]; }
static void c_export(const opk_vspace* s, void* dst, opk_eltype t, const opk_vector* v) { for (opk_index i = 0; i < s->size; ++i) if (t == OPK_FLOAT) ((float*)dst)[i] = at(v, i); else ((double*)dst)[i] = at(v, i); }
#define N(s) for (opk_index i = 0; i < (s)->size; ++i)
static void c_fill(opk_vspace* s, opk_vector* v, double a) { chk(s, v, "fill"); N(s) at(v, i) = a; }
static double c_norm1(opk_vspace* s, const opk_vector* x) { chk(s, x, "norm1"); double r = 0; N(s) r += std::fabs(at(x, i)); return r; }
static double c_norm2(opk_vspace* s, const opk_vector* x) { chk(s, x, "norm2"); double r = 0; N(s) r += at(x, i) * at(x, i); return std::sqrt(r); }
static double c_norminf(opk_vspace* s, const opk_vector* x) { chk(s, x, "norminf"); double r = 0; N(s) r = std::max(r, std::fabs(at(x, i))); return r; }
static double c_dot(opk_vspace* s, const opk_vector* x, const opk_vector* y) { chk(s, x, "dot"); chk(s, y, "dot"); double r = 0; N(s) r += at(x, i) * at(y, i); return r; }
static double c_dot3(opk_vspace* s, const opk_vector* w, const opk_vector* x, const opk_vector* y) { chk(s, w, "dot3"); chk(s, x, "dot3"); chk(s, y, "dot3"); double r = 0; N(s) r += at(w, i) * at(x, i) * at(y, i); return r; }
static void c_copy(opk_vspace* s, opk_vector* d, const opk_vector* x) { chk(s, d, "copy"); chk(s, x, "copy"); need(d != x, "copy of a vector onto itself"); N(s) at(d, i) = at(x, i); }
static void c_swap(opk_vspace* s, opk_vector* x, opk_vector* y) { chk(s, x, "swap"); chk(s, y, "swap"); need(x != y, "swap of a vector with itself"); N(s) std::swap(at(x, i), at(y, i)); }
static void c_scale(opk_vspace* s, opk_vector* d, double a, const opk_vector* x) { chk(s, d, "scale"); chk(s, x, "scale"); need(a != 0 && a != 1, "scale by 0 or 1"); N(s) at(d, i) = a * at(x, i); }
static void c_product(opk_vspace* s, opk_vector* d, const opk_vector* x, const opk_vector* y) { chk(s, d, "product"); chk(s, x, "product"); chk(s, y, "product"); N(s) at(d, i) = at(x, i) * at(y, i); }
static void c_axpby(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y) { chk(s, d, "axpby"); chk(s, x, "axpby"); chk(s, y, "axpby"); need(a != 0 && b != 0, "axpby with a zero factor"); N(s) at(d, i) = a * at(x, i) + b * at(y, i); }
static void c_axpbypcz(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y, double c, const opk_vector* z) { chk(s, d, "axpbypcz"); chk(s, x, "axpbypcz"); chk(s, y, "axpbypcz"); chk(s, z, "axpbypcz"); need(a != 0 && b != 0 && c != 0, "axpbypcz with a zero factor"); N(s) at(d, i) = a * at(x, i) + b * at(y, i) + c * at(z, i); }
static double blo(opk_vspace* s, const void* l, int b, opk_index i) { return b % 3 == 0 ? -INF : b % 3 == 1 ? *(const double*)l : at((const opk_vector*)l, i); }
static double bhi(opk_vspace* s, const void* u, int b, opk_index i) { return b / 3 == 0 ? INF : b / 3 == 1 ? *(const double*)u : at((const opk_vector*)u, i); }
static opk_status boxfault() { if (g_cs.fail_box > 0 && --g_cs.fail_box == 0) { fault("user-space box operation fails"); return g_cs.fail_status; } return OPK_SUCCESS; }
static opk_status c_projvar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b) {
  chk(s, d, "boxprojvar"); chk(s, x, "boxprojvar"); need(b >= 0 && b < 9, "invalid kind of bounds");
  opk_status st = boxfault(); if (st) return st;
  N(s) { double t = at(x, i), lo = blo(s, l, b, i), hi = bhi(s, u, b, i); if (t < lo) t = lo; if (t > hi) t = hi; at(d, i) = t; } return OPK_SUCCESS; }
static bool blocked(double x, double d, int o, double lo, double hi) { double e = o > 0 ? d : -d; return e < 0 ? !(x > lo) : e > 0 ? !(x < hi) : false; }
static opk_status c_projdir(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* p, opk_orientation o) {
  chk(s, d, "boxprojdir"); chk(s, x, "boxprojdir"); chk(s, p, "boxprojdir"); opk_status st = boxfault(); if (st) return st;
  N(s) { double e = at(p, i); at(d, i) = blocked(at(x, i), e, o, blo(s, l, b, i), bhi(s, u, b, i)) ? 0 : e; } return OPK_SUCCESS; }
static opk_status c_freevar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* p, opk_orientation o) {
  chk(s, d, "boxfreevar"); chk(s, x, "boxfreevar"); chk(s, p, "boxfreevar"); opk_status st = boxfault(); if (st) return st;
  N(s) { double e = at(p, i); at(d, i) = (e < 0 || e > 0) && !blocked(at(x, i), e, o, blo(s, l, b, i), bhi(s, u, b, i)) ? 1 : 0; } return OPK_SUCCESS; }
static opk_status c_steplim(opk_vspace* s, double* s1, double* s2, double* s3, const opk_vector* x, const void* l, const void* u, int b, const opk_vector* p, opk_orientation o) {
  chk(s, x, "boxsteplim"); chk(s, p, "boxsteplim"); opk_status st = boxfault(); if (st) return st;
  double a1 = DBL_MAX, a2 = DBL_MAX, a3 = b ? 0 : DBL_MAX;
  if (b) N(s) { double e = o > 0 ? at(p, i) : -at(p, i); if (!(e != 0)) continue; double lim = e > 0 ? bhi(s, u, b, i) : blo(s, l, b, i); double t = std::isinf(lim) ? DBL_MAX : (lim - at(x, i)) / e; if (t < a1) a1 = t; if (t < a2 && t > 0) a2 = t; if (t > a3) a3 = t; }
  if (s1) *s1 = a1; if (s2) *s2 = a2; if (s3) *s3 = a3; return OPK_SUCCESS; }
#undef N
static opk_vspace_operations cops(bool box) {
  opk_vspace_operations o; memset(&o, 0, sizeof o);
  o.description = "vector space of the simulated caller"; o.create = c_create; o.finalize_vector = c_fin; o.peek = c_peek; o.poke = c_poke; o.import = c_import; o.export_ = c_export; o.fill = c_fill;
  o.norm1 = c_norm1; o.norm2 = c_norm2; o.norminf = c_norminf; o.dot = c_dot; o.dot3 = c_dot3; o.copy = c_copy; o.swap = c_swap; o.scale = c_scale; o.product = c_product; o.axpby = c_axpby; o.axpbypcz = c_axpbypcz;
  if (box) { o.boxprojvar = c_projvar; o.boxprojdir = c_projdir; o.boxfreevar = c_freevar; o.boxsteplim = c_steplim; }
  return o;
}
opk_vspace* new_cspace(int n, int layout, bool boxops) {
  static const opk_vspace_operations with = cops(true), without = cops(false);
  opk_vspace* s = opk_allocate_vector_space(boxops ? &with : &without, n, sizeof(CSpace));
  if (s) ((CSpace*)s)->layout = layout;
  return s;
}

// ------------------------------------------------------------- a feasible set and a line search implemented by the caller
// They delegate to the library's own (so that the history is known) and check how they are called.
struct USet { opk_convexset base; opk_convexset* inner; };
static USet* us(const opk_convexset* s) { return (USet*)s; }
static opk_status u_in(const opk_convexset* s, int bit, const opk_vector* x, const opk_vector* d, const opk_vector* dst, int o) {
  if (inside) inside();
  g_cs.used |= bit; need(s && heap::is_live(s), "the user's set was called after its release");
  need(x && x->owner == s->space && (bit == 8 || (dst && dst->owner == s->space)) && (bit == 1 || (d && d->owner == s->space)), "the user's set was called with a vector of another space");
  need(bit == 1 || o == OPK_ASCENT || o == OPK_DESCENT, "the user's set was called with an invalid orientation");
  if (g_cs.fail_set > 0 && --g_cs.fail_set == 0) { fault("hook of the user's set fails"); g_cs.fail_set = -1; return g_cs.fail_status; }
  return OPK_SUCCESS; }
static opk_status u_projvar(opk_vector* dst, const opk_vector* x, const opk_convexset* s) { opk_status st = u_in(s, 1, x, nullptr, dst, 0); return st ? st : opk_project_variables(dst, x, us(s)->inner); }
static opk_status u_projdir(opk_vector* dst, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { opk_status st = u_in(s, 2, x, d, dst, o); return st ? st : opk_project_direction(dst, x, us(s)->inner, d, o); }
static opk_status u_freevar(opk_vector* dst, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { opk_status st = u_in(s, 4, x, d, dst, o); return st ? st : opk_get_free_variables(dst, x, us(s)->inner, d, o); }
static opk_status u_steplim(double* a, double* b, double* c, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { opk_status st = u_in(s, 8, x, d, nullptr, o); if (st) { if (a) *a = 1; if (b) *b = 1; if (c) *c = 1; return st; } return opk_get_step_limits(a, b, c, x, us(s)->inner, d, o); }
static void u_fin(opk_convexset* s) { g_cs.sets--; need(s->space != nullptr, "the space of the user's set was gone before its finalizer"); OPK_DROP(us(s)->inner); us(s)->inner = nullptr; }
static opk_convexset* wrap_set(opk_vspace* vs, opk_convexset* inner, int no) {
  USet* u = (USet*)opk_allocate_convexset(vs, u_fin, no & 1 ? nullptr : u_projvar, no & 2 ? nullptr : u_projdir, no & 4 ? nullptr : u_freevar, no & 8 ? nullptr : u_steplim, sizeof(USet));
  if (!u) return nullptr;
  g_cs.sets++; u->inner = inner;
  need((opk_can_project_variables(&u->base) != 0) == !(no & 1) && (opk_can_project_directions(&u->base) != 0) == !(no & 2) && (opk_can_get_free_variables(&u->base) != 0) == !(no & 4) && (opk_can_get_step_limits(&u->base) != 0) == !(no & 8), "the abilities reported for the user's set are not its own");
  return &u->base; }
struct ULS { opk_lnsrch base; opk_lnsrch* inner; };
static opk_lnsrch* ul(opk_lnsrch* l) { if (inside) inside(); need(heap::is_live(l), "the user's line search was called after its release"); return ((ULS*)l)->inner; }
static opk_lnsrch_task ul_ret(opk_lnsrch* l, opk_lnsrch_task t) { l->status = opk_lnsrch_get_status(((ULS*)l)->inner); l->task = t; return t; }
static opk_lnsrch_task ul_start(opk_lnsrch* l) { return ul_ret(l, (opk_lnsrch_task)opk_lnsrch_start(ul(l), l->finit, l->ginit, l->stp, l->stpmin, l->stpmax)); }
static opk_lnsrch_task ul_iterate(opk_lnsrch* l, double* stp, double f, double df) { return ul_ret(l, (opk_lnsrch_task)opk_lnsrch_iterate(ul(l), stp, f, df)); }
static void ul_fin(opk_lnsrch* l) { g_cs.lss--; opk_lnsrch* i = ul(l); OPK_DROP(i); }
static void ul_reset(opk_lnsrch* l) { opk__reset_lnsrch(ul(l)); }
static opk_lnsrch* wrap_ls(opk_lnsrch* inner) {
  static opk_lnsrch_operations OPS[2]; int d = opk_lnsrch_use_deriv(inner) ? 1 : 0; opk_lnsrch_operations& o = OPS[d]; o = opk_lnsrch_operations(); o.finalize = ul_fin; o.start = ul_start; o.iterate = ul_iterate; o.reset = ul_reset; o.use_deriv = d ? OPK_TRUE : OPK_FALSE;
  ULS* u = (ULS*)opk_allocate_line_search(&o, sizeof(ULS)); if (!u) return nullptr;
  g_cs.lss++; u->inner = inner; return &u->base; }

// ------------------------------------------------------------- plans
opk_lnsrch* make_ls(const LS& l) {
  switch (l.kind) { case 1: return opk_lnsrch_new_csrch(l.ftol, l.gtol, l.xtol); case 2: return opk_lnsrch_new_backtrack(l.ftol, l.amin); case 3: return opk_lnsrch_new_nonmonotone(l.m, l.ftol, l.s1, l.s2); }
  return nullptr;
}
double eff(const Bnd& b, int i, bool single);
#ifndef LONG_DEN
#define LONG_DEN 150
#endif
Plan draw_plan(const Gen& G) {
  Plan p;
  if (G.vmlmb && G.nlcg) p.vm = !chance(1, 3, "algorithm NLCG"); else p.vm = G.vmlmb;
  { std::vector<int> apis; if (G.driver) apis.push_back(0); if (G.lowlevel) { apis.push_back(1); apis.push_back(2); } if (G.custom) apis.push_back(3); p.api = apis[draw(apis.size(), "calling style")]; }
  p.single = p.api != 3 && G.singles && chance(1, 3, "single precision");
  const int big = G.maxn > 5 ? huge(G.maxhuge) : 0;
  p.n = big ? big : 1 + (int)draw(chance(1, 12, "large n") && G.maxn > 5 ? (chance(1, 4, "very large n") ? 4 * G.maxn : G.maxn) : std::min(G.maxn, 5), "n-1");
  int n = p.n;
  const bool longrun = G.maxn > 5 && !big && G.max_eval >= 40 && chance(1, LONG_DEN, "long run");
  { Bulk bulk(big > 0);
  p.obj = draw_obj(n, G.maxfam, (p.single ? std::min(G.condpow, 2) : G.condpow) + (longrun ? 2 : 0), !p.single);
  p.x0.resize(n); for (auto& t : p.x0) t = round_to(p.single, sreal(4, "x0", 256)); }
  memset(&p.vo, 0xA5, sizeof p.vo); memset(&p.no, 0xA5, sizeof p.no);
  opk_get_vmlmb_default_options(&p.vo); opk_get_nlcg_default_options(&p.no);
  if (G.options && chance(1, 2, "options given")) {
    p.opts_null = false;
    double delta = pick({5e-2, 1e-3, 1.0}, "delta"), eps = pick({0.0, 0.0, 1e-3, 0.1, 0.5}, "epsilon"), grtol = pick({1e-6, 1e-3, 0.0, 1e-9, 0.1, 1.5, 1.0}, "grtol"), gatol = pick({0.0, 0.0, 1e-5, 1e-1, 10.0}, "gatol");
    if (!G.tight && grtol < 1e-6 && gatol == 0) grtol = 1e-6;
    double smin = pick({1e-20, 0.0, 1e-6, 1e-2}, "stpmin"), smax = pick({1e20, 1e6, 10.0, 1.0 + 1e-9}, "stpmax");
    p.vo.delta = p.no.delta = delta; p.vo.epsilon = p.no.epsilon = eps; p.vo.grtol = p.no.grtol = grtol; p.vo.gatol = p.no.gatol = gatol;
    p.vo.stpmin = p.no.stpmin = smin; p.vo.stpmax = p.no.stpmax = smax;
    p.vo.mem = pick({5, 1, 2, 3, 7, 20}, "mem"); p.vo.blmvm = chance(1, 2, "blmvm") ? OPK_TRUE : OPK_FALSE; p.vo.save_memory = chance(1, 2, "no save_memory") ? OPK_FALSE : OPK_TRUE;
    unsigned rule = (unsigned)draw(9, "NLCG rule"); if (rule) { p.no.flags = rule; if (chance(1, 2, "Powell")) p.no.flags |= OPK_NLCG_POWELL; if (chance(1, 2, "Shanno-Phua")) p.no.flags |= OPK_NLCG_SHANNO_PHUA; }
    if (chance(1, 4, "fmin given")) { p.no.fmin_given = OPK_TRUE; p.no.fmin = p.obj.off - pick({1.0, 0.0, 10.0, -5.0}, "fmin"); }
  }
  if (G.linesearch && chance(1, 2, "line search given")) {
    p.ls.kind = 1 + (int)draw(G.nonmono ? 3 : 2, "line search");
    p.ls.ftol = pick({1e-4, 1e-3, 1e-2, 0.2}, "ftol"); p.ls.gtol = pick({0.9, 0.5, 0.1, 0.3}, "gtol"); p.ls.xtol = pick({2.3e-16, 1e-10, 0.0, 1e-3}, "xtol");
    p.ls.amin = pick({0.1, 0.5, 0.01, 0.7}, "amin"); p.ls.m = 1 + (int)draw(chance(1, 8, "large m") ? 24 : 6, "m"); p.ls.s1 = pick({0.1, 0.01, 0.3}, "sigma1"); p.ls.s2 = pick({0.9, 0.5, 0.99}, "sigma2");
    if (p.ls.kind == 1 && p.ls.ftol >= p.ls.gtol) p.ls.ftol = 1e-4;
  }
  auto scal = [](opk_bound_type t) { return t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_SCALAR_DOUBLE; };
  if (p.vm && (G.bounds == 2 || (G.bounds == 1 && chance(1, 2, "bounded")))) {
    int which = (int)draw(3, "which bounds"); // 0 both, 1 lower, 2 upper
    auto kinds = [&](const char* tag) { int m = p.api == 0 ? 6 : p.api == 3 ? 7 : 7; return (opk_bound_type)(1 + draw(m, tag)); };
    Vec a(n), b(n); Bulk bulk(big > 0);
    for (int i = 0; i < n; ++i) { double mid = sreal(2, "box centre", 32), half = pick({1.0, 2.0, 0.5, 0.1, 0.0, 4.0}, "box half width"); a[i] = mid - half; b[i] = mid + half; }
    if (which != 2) { p.lo.type = kinds("lower bound kind"); p.lo.v = a; }
    if (which != 1) { p.hi.type = kinds("upper bound kind"); p.hi.v = b; }
    if (scal(p.lo.type)) { double m = INF; for (double t : p.lo.v) m = std::min(m, t); for (auto& t : p.lo.v) t = m; }
    if (scal(p.hi.type)) { double m = -INF; for (double t : p.hi.v) m = std::max(m, t); for (auto& t : p.hi.v) t = m; }
    bool inf_ok = chance(1, 4, "infinite bounds");
    if (inf_ok) for (int i = 0; i < n; ++i) { if (!p.lo.v.empty() && !scal(p.lo.type) && chance(1, 3, "-inf")) p.lo.v[i] = -INF; if (!p.hi.v.empty() && !scal(p.hi.type) && chance(1, 3, "+inf")) p.hi.v[i] = INF; }
    // irregular bounds: not representable in single precision
    if (chance(1, 3, "irregular bounds")) { for (auto& t : p.lo.v) t *= 1.0 / 3; for (auto& t : p.hi.v) t = t / 3 + 1e-9; }
    // mixed precisions may cross after rounding
    for (int i = 0; i < n; ++i) if (!p.lo.v.empty() && !p.hi.v.empty()) { if ((float)p.lo.v[i] > (float)p.hi.v[i] || p.lo.v[i] > p.hi.v[i]) { if (scal(p.hi.type)) for (auto& t : p.hi.v) t += 1; else p.hi.v[i] = p.lo.v[i] + 1; } }
    if (which == 0) for (int i = 0; i < n; ++i) { // same storage type when equal, so that rounding cannot cross
      bool lf = p.lo.type == OPK_BOUND_SCALAR_FLOAT || p.lo.type == OPK_BOUND_STATIC_FLOAT || p.lo.type == OPK_BOUND_VOLATILE_FLOAT, hf = p.hi.type == OPK_BOUND_SCALAR_FLOAT || p.hi.type == OPK_BOUND_STATIC_FLOAT || p.hi.type == OPK_BOUND_VOLATILE_FLOAT;
      if (lf != hf && p.lo.v[i] != p.hi.v[i]) continue;
      if (lf != hf) { p.lo.v[i] = (float)p.lo.v[i]; p.hi.v[i] = (float)p.hi.v[i]; }
    }
  }
  // whatever the roundings, the bounds in effect must not cross
  for (int guard = 0; guard < 4 && p.lo.type && p.hi.type; ++guard) {
    bool cross = false; for (int i = 0; i < n; ++i) if (eff(p.lo, i, p.single) > eff(p.hi, i, p.single)) { cross = true; if (!scal(p.hi.type)) p.hi.v[i] += 1; }
    if (!cross) break; if (scal(p.hi.type)) for (auto& t : p.hi.v) t += 1;
  }
  p.max_eval = 1 + draw(G.max_eval, "evaluation budget") ; p.max_eval = std::max<long>(p.max_eval, G.max_eval / 2); if (longrun) { p.max_eval = 400 + draw(400, "long budget"); if (chance(1, 2, "never converges")) { p.opts_null = false; p.vo.grtol = p.no.grtol = p.vo.gatol = p.no.gatol = 0; } }
  p.after_final = pick({0, 0, 1, 3}, "continue after convergence");
  if (chance(1, 10, "start at the origin")) p.x0.assign(n, 0);
  if (p.obj.family != 6 && chance(1, 30, "start at the centre")) { p.x0 = p.obj.c; for (auto& t : p.x0) t = round_to(p.single, t); }
  if (chance(1, 8, "objective vanishing at the start")) { p.vanish = true; p.obj.vanish_at(p.first()); }
  if (G.pfault > 0 && chance((unsigned)(G.pfault * 100), 100, "evaluation faults")) {
    int k = 1 + (int)draw(3, "number of faults");
    for (int i = 0; i < k; ++i) { EFault e; e.at = draw(longrun ? 300 : 20, "fault at evaluation"); e.kind = 1 + (int)draw(F_KINDS - 1, "fault kind"); e.len = 1 + (int)draw(3, "fault length"); e.elem = (int)draw(n, "fault element"); p.ef.push_back(e); }
  }
  if (G.pfault > 0 && chance((unsigned)(G.pfault * 40), 100, "objective undefined beyond a wall")) {
    p.obj.wall = 1 + (int)draw(5, "wall kind"); p.obj.wn.resize(n); Bulk bulk(big > 0); for (auto& t : p.obj.wn) t = sreal(1, "wall normal", 16); p.obj.wt = sreal(5, "wall offset", 32);
    if (p.obj.beyond(p.x0)) for (auto& t : p.obj.wn) t = -t; if (p.obj.beyond(p.x0)) p.obj.wt = dot(p.obj.wn, p.x0) + 0.5;
  }
  if (G.pact > 0 && chance((unsigned)(G.pact * 100), 100, "caller actions")) {
    int k = 1 + (int)draw(3, "number of actions");
    for (int i = 0; i < k; ++i) { CAct a; a.at = 1 + draw(longrun ? 400 : 25, "action at step"); a.kind = 1 + (int)draw(A_KINDS - 1, "action kind"); p.act.push_back(a); }
  }
  p.stop_on_error = !chance(1, 3, "go on after an error");
  p.layout = (int)draw(4, "layout"); p.junk = draw(64, "junk");
  p.restart_how = (int)draw(3, "restart from"); if (G.pact > 0) p.restart_final = pick({0, 0, 1, 2}, "restarts after convergence");
  p.latency = pick({0.01, 0.1, 1.0, 0.003}, "evaluation latency"); p.stall = chance(1, 8, "stalled caller") ? 5.0 : 0.0;
  return p;
}
Vec Plan::first() const { Vec r(x0); for (int i = 0; i < n; ++i) { if (lo.type) r[i] = std::max(r[i], eff(lo, i, single)); if (hi.type) r[i] = std::min(r[i], eff(hi, i, single)); } return r; }
std::string Plan::text() const {
  char b[400]; snprintf(b, sizeof b, "%s %s %s n=%d family=%d off=%g opts=%s ls=%d lo=%d hi=%d blmvm=%d save=%d mem=%ld flags=%x faults=%zu actions=%zu", api == 0 ? "driver" : api == 1 ? "vectors" : api == 2 ? "wrapped" : "custom", vm ? "VMLMB" : "NLCG", single ? "float" : "double", n, obj.family, obj.off, opts_null ? "default" : "given", ls.kind, lo.type, hi.type, (int)vo.blmvm, (int)vo.save_memory, (long)vo.mem, no.flags, ef.size(), act.size());
  return b;
}
bool Rec::operator==(const Rec& o) const {
  if (call != o.call || task != o.task || status != o.status || evals != o.evals || iters != o.iters || restarts != o.restarts || !same_bits(step, o.step) || !same_bits(gnorm, o.gnorm) || x.size() != o.x.size()) return false;
  for (size_t i = 0; i < x.size(); ++i) if (!same_bits(x[i], o.x[i])) return false;
  return true;
}

// ------------------------------------------------------------- sessions
int Session::task() const { return drv ? opk_get_task(drv) : vmo ? opk_get_vmlmb_task(vmo) : opk_get_nlcg_task(cgo); }
int Session::status() const { return drv ? opk_get_status(drv) : vmo ? opk_get_vmlmb_status(vmo) : opk_get_nlcg_status(cgo); }
long Session::evals() const { return drv ? opk_get_evaluations(drv) : vmo ? opk_get_vmlmb_evaluations(vmo) : opk_get_nlcg_evaluations(cgo); }
long Session::iters() const { return drv ? opk_get_iterations(drv) : vmo ? opk_get_vmlmb_iterations(vmo) : opk_get_nlcg_iterations(cgo); }
long Session::restarts() const { return drv ? opk_get_restarts(drv) : vmo ? opk_get_vmlmb_restarts(vmo) : opk_get_nlcg_restarts(cgo); }
double Session::stp() const { return drv ? opk_get_step(drv) : vmo ? opk_get_vmlmb_step(vmo) : opk_get_nlcg_step(cgo); }
double Session::gnorm() const { return drv ? opk_get_gnorm(drv) : vmo ? opk_get_vmlmb_gnorm(vmo) : opk_get_nlcg_gnorm(cgo); }
long Session::mp() const { return vmo ? opk_get_vmlmb_mp(vmo) : -1; }

static double mget(const Guarded& m, bool s, int i) { return s ? (double)((float*)m.p)[i] : ((double*)m.p)[i]; }
static void mset(Guarded& m, bool s, int i, double v) { if (s) ((float*)m.p)[i] = (float)v; else ((double*)m.p)[i] = v; }
static double vget(const opk_vector* v, const Plan& P, int i) {
  if (P.api == 3) return at(v, i);
  if (P.single) return opk_get_simple_float_vector_data((opk_vector*)v)[i];
  return opk_get_simple_double_vector_data((opk_vector*)v)[i];
}
static void vset(opk_vector* v, const Plan& P, int i, double t) {
  if (P.api == 3) at(v, i) = t; else if (P.single) opk_get_simple_float_vector_data(v)[i] = (float)t; else opk_get_simple_double_vector_data(v)[i] = t;
}
Vec Session::read(const opk_vector* v) const { Vec r(P.n); for (int i = 0; i < P.n; ++i) r[i] = vget(v, P, i); return r; }
double Session::getx(int i) const { return P.api == 0 || P.api == 2 ? mget(mx, P.single, i) : vget(vx, P, i); }
double Session::getg(int i) const { return P.api == 0 || P.api == 2 ? mget(mg, P.single, i) : vget(vg, P, i); }
void Session::setx(int i, double v) { if (P.api == 0 || P.api == 2) mset(mx, P.single, i, v); else vset(vx, P, i, v); }
void Session::setg(int i, double v) { if (P.api == 0 || P.api == 2) mset(mg, P.single, i, v); else vset(vg, P, i, v); }

Vec Session::project(Vec x) const { for (int i = 0; i < P.n; ++i) { if (x[i] < elo[i]) x[i] = elo[i]; if (x[i] > ehi[i]) x[i] = ehi[i]; } return x; }
Vec Session::freemask(const Vec& x, const Vec& g) const { Vec w(P.n); for (int i = 0; i < P.n; ++i) w[i] = g[i] > 0 ? (x[i] > elo[i]) : g[i] < 0 ? (x[i] < ehi[i]) : 0; return w; }
double Session::pgnorm(const Vec& x, const Vec& g) const {
  if (!P.bounded()) return norm2(g);
  Vec w = freemask(x, g), r(g); for (int i = 0; i < P.n; ++i) r[i] = w[i] ? g[i] : (std::isnan(g[i]) ? NAN : 0); return norm2(r);
}

static void fill_bound(const Bnd& b, Guarded& m, uint64_t junk, int n, bool single) {
  auto t = b.type; bool isf = t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_STATIC_FLOAT || t == OPK_BOUND_VOLATILE_FLOAT;
  int k = (t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_SCALAR_DOUBLE) ? 1 : n;
  m = Guarded((size_t)k * (isf ? 4 : 8), true, junk);
  for (int i = 0; i < k; ++i) if (isf) m.as<float>()[i] = (float)b.v[i]; else m.as<double>()[i] = b.v[i];
}
double eff(const Bnd& b, int i, bool single) {
  auto t = b.type; double v = b.v[i];
  if (t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_STATIC_FLOAT || t == OPK_BOUND_VOLATILE_FLOAT) v = (float)v;
  return round_to(single, v);
}
bool Session::open() {
  // every plan has valid settings: only a refused allocation may prevent the construction
  long f0 = heap::failures(); bool fc = g_cs.fail_create_at > 0, fb = g_cs.fail_box > 0;
  bool ok = open_();
  bool excuse = heap::failures() != f0 || (fc && g_cs.fail_create_at == 0) || (fb && g_cs.fail_box == 0);
  if (!ok && !excuse) fail((std::string(g_prop) + ".create").c_str(), "session %d: the constructor refused valid settings (errno %d); plan: %s", id, errno, P.text().c_str());
  return ok;
}
bool Session::open_() {
  const int n = P.n; size_t es = P.single ? 4 : 8; errno = 0;
  elo.assign(n, -INF); ehi.assign(n, INF);
  if (P.lo.type) for (int i = 0; i < n; ++i) elo[i] = eff(P.lo, i, P.single);
  if (P.hi.type) for (int i = 0; i < n; ++i) ehi[i] = eff(P.hi, i, P.single);
  mx = Guarded(n * es, !(P.junk & 1), P.junk); mg = Guarded(n * es, !(P.junk & 2), P.junk + 1);
  bool lok = true;
  ls = use_ls ? (opk_lnsrch*)opk_hold_object((opk_object*)use_ls) : make_ls(P.ls); if (P.ls.kind && !ls) lok = false;
  if (P.userls && ls) { opk_lnsrch* u = wrap_ls(ls); if (u) ls = u; else lok = false; }
  const void* o = P.opts_null ? nullptr : P.vm ? (const void*)&P.vo : (const void*)&P.no;
  auto volat = [](opk_bound_type t) { return t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_SCALAR_DOUBLE || t == OPK_BOUND_VOLATILE_FLOAT || t == OPK_BOUND_VOLATILE_DOUBLE; };
  if (P.lo.type && P.lo.type != OPK_BOUND_VECTOR) fill_bound(P.lo, mlo, P.junk, n, P.single);
  if (P.hi.type && P.hi.type != OPK_BOUND_VECTOR) fill_bound(P.hi, mhi, P.junk, n, P.single);
  if (!lok) { close(); return false; }
  if (P.api == 0) {
    // options of the caller live on the caller's stack and may vanish after the call
    opk_vmlmb_options vo = P.vo; opk_nlcg_options no = P.no;
    drv = opk_new_optimizer(P.vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, o ? (P.vm ? (void*)&vo : (void*)&no) : nullptr, P.single ? OPK_FLOAT : OPK_DOUBLE, n, P.lo.type, mlo.p, P.hi.type, mhi.p, ls);
    memset(&vo, 0xEE, sizeof vo); memset(&no, 0xEE, sizeof no);
    if (!drv) { close(); return false; }
  } else {
    bool ok = true;
    vs = use_vs ? (opk_vspace*)opk_hold_object((opk_object*)use_vs) : P.api == 3 ? new_cspace(n, P.layout, true) : P.single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
    if (!vs) { close(); return false; }
    auto mkv = [&](Guarded& m) -> opk_vector* {
      if (P.api == 2) return P.single ? opk_wrap_simple_float_vector(vs, m.as<float>(), nullptr, nullptr) : opk_wrap_simple_double_vector(vs, m.as<double>(), nullptr, nullptr);
      return opk_vcreate(vs); };
    vx = mkv(mx); vg = mkv(mg); if (!vx || !vg) { close(); return false; }
    if (use_box) box = (opk_convexset*)opk_hold_object((opk_object*)use_box);
    else if (P.bounded()) {
      void* la = mlo.p; void* ha = mhi.p;
      if (P.lo.type == OPK_BOUND_VECTOR) { vlo = opk_vcreate(vs); if (vlo) for (int i = 0; i < n; ++i) vset(vlo, P, i, elo[i]); else ok = false; la = vlo; }
      if (P.hi.type == OPK_BOUND_VECTOR) { vhi = opk_vcreate(vs); if (vhi) for (int i = 0; i < n; ++i) vset(vhi, P, i, ehi[i]); else ok = false; ha = vhi; }
      if (ok) box = opk_new_boxset(vs, P.lo.type, la, P.hi.type, ha);
      if (!box) { close(); return false; }
      if (P.userset) { opk_convexset* u = wrap_set(vs, box, P.nohooks); if (!u) { close(); return false; } box = u; }
    }
    opk_vmlmb_options vo = P.vo; opk_nlcg_options no = P.no;
    if (P.vm) vmo = opk_new_vmlmb_optimizer(o ? &vo : nullptr, vs, ls, box); else cgo = opk_new_nlcg_optimizer(o ? &no : nullptr, vs, ls);
    memset(&vo, 0xEE, sizeof vo); memset(&no, 0xEE, sizeof no);
    if (!vmo && !cgo) { close(); return false; }
    // the caller may drop its own references now
    if (P.junk & 4) { OPK_DROP(box); box = nullptr; OPK_DROP(vlo); vlo = nullptr; OPK_DROP(vhi); vhi = nullptr; }
  }
  // memory that the library promised not to need any more
  if (volat(P.lo.type)) mlo.revoke();
  if (volat(P.hi.type)) mhi.revoke();
  opened = true; x.assign(n, 0); g.assign(n, 0);
  for (int i = 0; i < n; ++i) setx(i, P.x0[i]);
  return true;
}
void Session::close() {
  if (drv) opk_destroy_optimizer(drv);
  OPK_DROP(vmo); OPK_DROP(cgo); OPK_DROP(ls); OPK_DROP(box); OPK_DROP(vx); OPK_DROP(vg); OPK_DROP(vlo); OPK_DROP(vhi); OPK_DROP(vs);
  drv = nullptr; vmo = nullptr; cgo = nullptr; ls = nullptr; box = nullptr; vx = vg = vlo = vhi = nullptr; vs = nullptr; opened = false; dead = true;
}
Rec Session::snap(char call) const { Rec r; r.call = call; r.task = task(); r.status = status(); r.f = f; r.x = xs(); r.evals = evals(); r.iters = iters(); r.restarts = restarts(); r.step = stp(); r.gnorm = gnorm(); r.g = gs(); return r; }
void Session::emit(const Rec& r) {
  if (!record) return;
  if (tracing()) {
    std::string t; char b[64]; for (double v : r.x) { snprintf(b, sizeof b, " %.9g", v); t += b; } t += " | g"; for (double v : r.g) { snprintf(b, sizeof b, " %.9g", v); t += b; }
    note("session %d: %s -> task %d status %d evals %ld iters %ld restarts %ld step %.9g gnorm %.9g f %.17g x%s", id, r.call == 's' ? "start" : "iterate", r.task, r.status, r.evals, r.iters, r.restarts, r.step, r.gnorm, f, t.c_str());
  }
  ev(r.call == 's' ? "start" : "iterate", r.task * 100 + r.status, r.step, r.gnorm);
  ev("cnt", r.evals * 1000000 + r.iters * 1000 + r.restarts); ev_bytes("x", r.x.data(), r.x.size() * 8);
  state_token(mix(r.task + 2, mix(r.status, r.call)));
  hist.push_back(r);
}
static Vec zeros(int n) { return Vec(n, 0); }
int Session::start() {
  Rec b = snap('s'); clear_lib_error();
  last = drv ? opk_start(drv, mx.p) : vmo ? opk_start_vmlmb(vmo, vx) : opk_start_nlcg(cgo, vx);
  dirty = dirty_nan = false; tame = true; wildg = false; has_g0 = false; iterates.clear(); evals_since_start = iters_since_start = 0; ++starts; pairs.clear();
  Rec a = snap('s'); emit(a); if (hook) hook(*this, b, a);
  return last;
}
void Session::evaluate() {
  Vec xx = xs(); f = P.obj.eval(xx, g);
  long k = neval++; count("evaluations"); add_vtime(P.latency + (P.stall > 0 && k % 7 == 3 ? P.stall : 0));
  if (!quiet && P.obj.wall && P.obj.beyond(xx)) switch (P.obj.wall) {
    case 1: f = NAN; dirty_nan = true; fault("f is NaN beyond the wall"); break; case 2: f = INF; dirty_nan = true; fault("f is +Inf beyond the wall"); break;
    case 3: f = NAN; g.assign(P.n, NAN); dirty_nan = true; fault("f and gradient are NaN beyond the wall"); break; case 4: f = 1e300; fault("huge f beyond the wall"); break;
    case 5: f = INF; g.assign(P.n, INF); dirty_nan = true; fault("f and gradient are Inf beyond the wall"); break; }
  if (!quiet) for (auto& e : P.ef) if (k >= e.at && k < e.at + e.len) {
    dirty = true; last_fault = k;
    switch (e.kind) {
    case F_FNAN: f = NAN; dirty_nan = true; fault("f is NaN"); break; case F_FPINF: f = INF; dirty_nan = true; fault("f is +Inf"); break; case F_FNINF: f = -INF; dirty_nan = true; fault("f is -Inf"); break;
    case F_GNAN: g[e.elem] = NAN; dirty_nan = true; fault("gradient component is NaN"); break; case F_GINF: g[e.elem] = (k & 1) ? INF : -INF; dirty_nan = true; fault("gradient component is Inf"); break;
    case F_GZERO: g.assign(P.n, 0); fault("gradient lost (all zero)"); break; case F_GFLIP: for (auto& t : g) t = -t; fault("gradient with the wrong sign"); break;
    case F_NOISE: f += 1000 * ((double)(mix(k, P.junk) % 2001) / 1000 - 1); fault("noise on f"); break; case F_FHUGE: f = 1e300; fault("huge f"); break;
    case F_GTINY: for (auto& t : g) t *= 1e-310; fault("denormal gradient"); break; case F_GHUGE: for (auto& t : g) t *= P.single ? 1e30 : 1e200; fault("huge gradient"); break;
    }
  }
  for (int i = 0; i < P.n; ++i) { if (P.single) g[i] = (double)(float)g[i]; setg(i, g[i]); }
  x = xx;
  { double big = P.single ? 1e9 : 1e100, m = std::fabs(f); for (int i = 0; i < P.n; ++i) m = std::max(m, std::max(std::isnan(x[i]) || std::isnan(g[i]) ? INF : std::fabs(x[i]), std::fabs(g[i]))); if (!(m < big)) tame = false;
    m = std::isfinite(f) ? std::fabs(f) : 0; for (int i = 0; i < P.n; ++i) m = std::max(m, std::max(std::isnan(x[i]) || std::isnan(g[i]) ? INF : std::fabs(x[i]), std::fabs(g[i]))); if (!(m < big)) wildg = true; }
}
void Session::relocate() {
  if (P.api != 0 && P.api != 2) return;
  size_t es = P.single ? 4 : 8; Vec a = xs(), b = gs();
  int which = (int)(mix(P.junk, nstep) % 8); bool dox = which != 1 && which != 2, dog = which != 3 && which != 4; if (which == 5 && starts > 0) return;
  if (!mx.intact() || !mg.intact()) fail("memory.caller", "bytes outside of the caller's arrays were written");
  if (dox) { Guarded nx(P.n * es, (neval & 1) == 0, P.junk + neval); for (int i = 0; i < P.n; ++i) mset(nx, P.single, i, a[i]); mx = std::move(nx); }
  if (dog) { Guarded ng(P.n * es, (neval & 1) != 0, P.junk + neval + 7); for (int i = 0; i < P.n; ++i) mset(ng, P.single, i, b[i]); mg = std::move(ng); }
  // the old mappings are gone: any later use is a crash
  if (P.api == 2) {
    if (P.single) { opk_rewrap_simple_float_vector(vx, mx.as<float>(), nullptr, nullptr); opk_rewrap_simple_float_vector(vg, mg.as<float>(), nullptr, nullptr); }
    else { opk_rewrap_simple_double_vector(vx, mx.as<double>(), nullptr, nullptr); opk_rewrap_simple_double_vector(vg, mg.as<double>(), nullptr, nullptr); }
  }
  fault(dox ? dog ? "caller's arrays moved" : "variables moved, not the gradient" : "gradient moved, not the variables");
}
int Session::iterate_once(bool nullx, bool nullg) {
  if (guarded) relocate();
  Rec b = snap('i'); clear_lib_error();
  if (drv) last = opk_iterate(drv, nullx ? nullptr : mx.p, f, nullg ? nullptr : mg.p);
  else if (vmo) last = opk_iterate_vmlmb(vmo, vx, f, vg); else last = opk_iterate_nlcg(cgo, vx, f, vg);
  count("iterate calls");
  if (last == OPK_TASK_NEW_X || last == OPK_TASK_FINAL_X) if (b.task == OPK_TASK_COMPUTE_FG) { iterates.push_back({x, g, f, neval - 1}); if (!std::isfinite(f)) wildg = true; }
  if (b.task == OPK_TASK_COMPUTE_FG) ++evals_since_start;
  Rec a = snap('i'); if (!(a.step < (P.single ? 1e25 : 1e100))) tame = false; emit(a); if (hook) hook(*this, b, a);
  return last;
}
void Session::sanitize() { bool wild = false; for (int i = 0; i < P.n; ++i) if (!(std::fabs(getx(i)) < (P.single ? 1e8 : 1e30))) wild = true; if (wild) for (int i = 0; i < P.n; ++i) setx(i, P.x0[i]); }
void Session::again() {
  sanitize();
  if (P.restart_how == 1) for (int i = 0; i < P.n; ++i) setx(i, P.x0[i]);
  if (P.restart_how == 2) for (int i = 0; i < P.n; ++i) setx(i, P.x0[i] + ((mix(P.junk, i + starts) & 1) ? 5 : -5));
  start();
}
bool Session::step() {
  if (!opened || dead || failed()) return false;
  ++nstep;
  bool oom = false, nx = false, ng = false;
  if (!quiet) for (auto& a : P.act) if (a.at == nstep) switch (a.kind) {
    case A_RESTART: if (starts > 0 && starts < 6) { fault("restart in mid-course"); again(); return true; } break;
    case A_NULLX: if (drv && starts > 0) { fault("NULL variables"); nx = true; } break;
    case A_NULLG: if (drv && starts > 0) { fault("NULL gradient"); ng = true; } break;
    case A_OOM: oom = true; fault("no memory during a call"); break;
    case A_RELOC: if (starts > 0) relocate(); break;
    case A_QUERY: { char buf[200]; size_t s1 = drv ? opk_get_description(buf, sizeof buf, drv) : vmo ? opk_get_vmlmb_description(buf, sizeof buf, vmo) : opk_get_nlcg_description(buf, sizeof buf, cgo); ev("describe", (long)s1); fault("queries in mid-course"); } break;
    case A_EXTRA: break;
  }
  if (starts == 0) { // an optimizer that was not started refuses to iterate
    if (!P.act.empty() && P.act[0].kind == A_EXTRA) { for (int i = 0; i < P.n; ++i) setg(i, 0); fault("iterate before start"); iterate_once(); }
    if (oom) heap::fail_from(1);
    start(); heap::fail_from(0); return true;
  }
  int t = task();
  if (t == OPK_TASK_COMPUTE_FG) { if (neval >= (limit >= 0 ? limit : P.max_eval)) { dead = true; return false; } evaluate(); }
  else if (t == OPK_TASK_FINAL_X) { if (finals++ >= P.after_final) { if (!quiet && finals - 1 - P.after_final < P.restart_final && starts < 6) { fault("restart after convergence"); again(); return true; } dead = true; return false; } }
  else if (t == OPK_TASK_NEW_X) {}
  else { // error
    if (P.stop_on_error || starts >= 4) { if (nstep % 3 == 0) iterate_once(); dead = true; return false; }
    iterate_once(); iterate_once(); // sticky
    fault("restart after an error"); again(); return true;
  }
  if (oom) heap::fail_from(1);
  iterate_once(nx, ng); heap::fail_from(0);
  return true;
}
}
