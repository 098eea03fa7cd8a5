// L12: creation of optimizers, and what they say about themselves.
#include "lm.h"
#include <cerrno>
#include <climits>
#include <algorithm>
using namespace sim;
using namespace lm;
namespace {
long refs(const void* p) { return p ? (long)opk_get_object_references((opk_object*)p) : 0; }

// ------------------------------------------------------------- options
bool gt(double a, double b) { return a > b; }
bool valid_common(double delta, double epsilon, double grtol, double gatol, double stpmin, double stpmax) {
  for (double t : {delta, epsilon, grtol, gatol, stpmin, stpmax}) if (!std::isfinite(t)) return false;
  return gatol >= 0 && grtol >= 0 && delta > 0 && epsilon >= 0 && epsilon < 1 && stpmin >= 0 && gt(stpmax, stpmin);
}
bool valid(const opk_vmlmb_options& o) { return o.mem >= 1 && valid_common(o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax); }
bool valid(const opk_nlcg_options& o) { return !(o.fmin_given && !std::isfinite(o.fmin)) && valid_common(o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax); }
bool known_rule(unsigned flags) { return flags == 0 || ((flags & 0xff) >= 1 && (flags & 0xff) <= 8); }
double odd(const char* tag) { return pick({0.0, -0.0, 1e-3, 1.0, -1.0, 0.5, 2.0, -5e-324, 5e-324, 1.0 - 1.1102230246251565e-16, 1.0 + 2.220446049250313e-16, 1e308, -1e308, (double)NAN, INF, -INF}, tag); }
template <class O> void odd_field(O& o, int which) {
  switch (which) {
  case 0: o.delta = odd("delta"); break; case 1: o.epsilon = odd("epsilon"); break; case 2: o.grtol = odd("grtol"); break; case 3: o.gatol = odd("gatol"); break;
  case 4: o.stpmin = odd("stpmin"); break; case 5: o.stpmax = odd("stpmax"); break; case 6: o.stpmin = o.stpmax = odd("stpmin and stpmax"); break;
  }
}
template <class O> std::string show_common(const O& o) { char b[300]; snprintf(b, sizeof b, "delta %.17g epsilon %.17g grtol %.17g gatol %.17g stpmin %.17g stpmax %.17g", o.delta, o.epsilon, o.grtol, o.gatol, o.stpmin, o.stpmax); return b; }
std::string show(const opk_vmlmb_options& o) { return show_common(o) + " mem " + std::to_string((long)o.mem); }
std::string show(const opk_nlcg_options& o) { return show_common(o) + " flags " + std::to_string(o.flags) + (o.fmin_given ? " fmin " + hexd(o.fmin) : ""); }

template <class O> void check_status(const O& o, opk_status st) {
  opk_status want = valid(o) ? OPK_SUCCESS : OPK_INVALID_ARGUMENT;
  if (st != want) fail("L12.check", "checking the options (%s) gives status %d instead of %d", show(o).c_str(), st, want);
}
void options() {
  heap::reset(draw(16, "junk"));
  opk_vmlmb_options vo, v1; opk_nlcg_options no, n1; memset(&vo, 0xA5, sizeof vo); memset(&no, 0xA5, sizeof no);
  opk_get_vmlmb_default_options(&vo); opk_get_nlcg_default_options(&no);
  if (!valid(vo) || !valid(no) || !known_rule(no.flags)) { fail("L12.defaults", "the default options are not valid: %s; %s", show(vo).c_str(), show(no).c_str()); return; }
  check_status(vo, opk_check_vmlmb_options(&vo)); check_status(no, opk_check_nlcg_options(&no)); if (failed()) return;
  if (opk_check_vmlmb_options(nullptr) != OPK_ILLEGAL_ADDRESS || opk_check_nlcg_options(nullptr) != OPK_ILLEGAL_ADDRESS) { fail("L12.check", "NULL options must be an illegal address"); return; }
  opk_get_vmlmb_default_options(nullptr); opk_get_nlcg_default_options(nullptr);
  bool api3 = chance(1, 4, "space of the caller"), single = !api3 && chance(1, 2, "single"); int n = huge(4000); if (n <= 0) n = 1 + (int)draw(chance(1, 16, "large n") ? 40 : 6, "n-1");
  opk_vspace* vs = api3 ? new_cspace(n, (int)draw(4, "layout"), true) : single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
  for (int k = 0, m = 1 + (int)draw(4, "trials-1"); k < m && !failed(); ++k) {
    bool vm = chance(1, 2, "VMLMB"), drv = chance(1, 3, "driver"); opk_vmlmb_options a = vo; opk_nlcg_options b = no;
    for (int j = 0, c = (int)draw(3, "odd fields"); j < c; ++j) { int w = (int)draw(9, "field");
      if (w < 7) { if (vm) odd_field(a, w); else odd_field(b, w); }
      else if (w == 7) { a.mem = pick({5L, 1L, 0L, -1L, (long)LONG_MIN, 1000L, 2L}, "mem"); b.fmin = odd("fmin"); b.fmin_given = chance(1, 2, "fmin given") ? OPK_TRUE : OPK_FALSE; }
      else { a.blmvm = OPK_TRUE; a.save_memory = chance(1, 2, "save memory") ? OPK_TRUE : OPK_FALSE; b.flags = pick({0u, 1u, 8u, 9u, 255u, (unsigned)OPK_NLCG_POWELL, (unsigned)(OPK_NLCG_POWELL | 2), (unsigned)(OPK_NLCG_SHANNO_PHUA | 12), 3u}, "flags"); } }
    if (vm) { v1 = a; check_status(a, opk_check_vmlmb_options(&a)); } else { n1 = b; check_status(b, opk_check_nlcg_options(&b)); }
    bool ok = vm ? valid(a) : valid(b) && known_rule(b.flags); nontrivial(); if (!ok) fault("invalid options"); else probe("valid options");
    bool nospace = !drv && chance(1, 6, "no space"); if (nospace) fault("NULL vector space");
    long l0 = heap::live(), r0 = refs(vs); errno = 0;
    void* o = drv ? (void*)opk_new_optimizer(vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, vm ? (void*)&a : (void*)&b, single ? OPK_FLOAT : OPK_DOUBLE, n, OPK_BOUND_NONE, nullptr, OPK_BOUND_NONE, nullptr, nullptr)
            : vm ? (void*)opk_new_vmlmb_optimizer(&a, nospace ? nullptr : vs, nullptr, nullptr) : (void*)opk_new_nlcg_optimizer(&b, nospace ? nullptr : vs, nullptr);
    int e = errno; std::string what = std::string(drv ? "the driver" : vm ? "opk_new_vmlmb_optimizer" : "opk_new_nlcg_optimizer") + " with options " + (vm ? show(a) : show(b));
    if (vm ? memcmp(&a, &v1, sizeof a) != 0 : memcmp(&b, &n1, sizeof b) != 0) fail("L12.touched", "%s: the options of the caller were modified", what.c_str());
    else if (ok && !nospace) { if (!o) fail("L12.refused", "%s refused valid settings (errno %d)", what.c_str(), e); }
    else if (o) fail("L12.accepted", "%s accepted %s", what.c_str(), ok ? "a NULL vector space" : "invalid options");
    else if (ok ? e != EFAULT : (e != EINVAL && !(nospace && e == EFAULT))) fail("L12.errno", "%s refused %s with errno %d", what.c_str(), ok ? "a NULL vector space" : "invalid options", e);
    else if (heap::live() != l0 || refs(vs) != r0) fail("L12.leak", "%s: a refused call leaves blocks or references", what.c_str());
    opk_drop_object((opk_object*)o);
    if (!failed() && (heap::live() != l0 || refs(vs) != r0)) fail("L12.leak", "%s: blocks or references are left after the optimizer was released", what.c_str());
    ev("options", (long)(vm * 8 + drv * 4 + ok * 2 + nospace)); state_token(vm * 16 + drv * 8 + ok * 4 + nospace * 2 + 1);
  }
  opk_drop_object((opk_object*)vs);
}

// ------------------------------------------------------------- constructors given wrong arguments
void arguments() {
  Gen G; G.pfault = 0; G.pact = 0; G.max_eval = 20; Plan p = draw_plan(G); p.ef.clear(); p.act.clear(); note("plan %s", p.text().c_str());
  cstats() = CSpaceStats(); heap::reset(p.junk);
  const int n = p.n; size_t es = 8;
  Guarded mlo((size_t)n * es, true, p.junk), mhi((size_t)n * es, true, p.junk + 1);
  opk_vmlmb_options vo = p.vo; opk_nlcg_options no = p.no; void* opts = p.opts_null ? nullptr : p.vm ? (void*)&vo : (void*)&no;
  auto fill = [&](const Bnd& b, Guarded& m) { auto t = b.type; bool f = t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_STATIC_FLOAT || t == OPK_BOUND_VOLATILE_FLOAT; if (!t || t == OPK_BOUND_VECTOR) return; for (int i = 0; i < n; ++i) if (f) m.as<float>()[i] = (float)b.v[i]; else m.as<double>()[i] = b.v[i]; };
  fill(p.lo, mlo); fill(p.hi, mhi);
  opk_lnsrch* ls = make_ls(p.ls); long rl = refs(ls), l0 = heap::live();
  for (int k = 0, m = 1 + (int)draw(4, "trials-1"); k < m && !failed(); ++k) {
    opk_object* o = nullptr; bool inval = false, efault = false; std::string what;
    if (p.api == 0 || chance(1, 3, "driver")) {
      int alg = p.vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, type = p.single ? OPK_FLOAT : OPK_DOUBLE; long nn = n; int lt = p.lo.type, ht = p.hi.type; void *la = lt ? mlo.p : nullptr, *ha = ht ? mhi.p : nullptr;
      opk_vspace* os = nullptr; opk_vector* ov = nullptr; if (lt == OPK_BOUND_VECTOR) { lt = OPK_BOUND_NONE; la = nullptr; } if (ht == OPK_BOUND_VECTOR) { ht = OPK_BOUND_NONE; ha = nullptr; }
      for (int j = 0, c = (int)draw(3, "wrong arguments"); j < c; ++j) { auto pick_side = [&]() { return chance(1, 2, "upper"); }; bool up;
        switch (draw(7, "wrong argument")) {
        case 0: nn = pick({0L, -1L, (long)LONG_MIN, -5L}, "n"); break;
        case 1: type = pick({0, 2, 77, -1, 12345}, "type"); if (type == OPK_FLOAT || type == OPK_DOUBLE) type = 99; break;
        case 2: alg = pick({2, -1, 77, 3}, "algorithm"); if (alg == OPK_ALGORITHM_NLCG || alg == OPK_ALGORITHM_VMLMB) alg = 99; break;
        case 3: up = pick_side(); (up ? ht : lt) = pick({-1, 8, 99, INT_MIN}, "kind of bound"); if (!(up ? ha : la)) (up ? ha : la) = mlo.p; break;
        case 4: up = pick_side(); if (up ? ht : lt) (up ? ha : la) = nullptr; else (up ? ha : la) = mhi.p; break;
        case 5: up = pick_side(); if (!(up ? ht : lt)) { (up ? ht : lt) = OPK_BOUND_SCALAR_DOUBLE; mlo.as<double>()[0] = 0; mhi.as<double>()[0] = 0; (up ? ha : la) = up ? mhi.p : mlo.p; alg = OPK_ALGORITHM_NLCG; } else alg = OPK_ALGORITHM_NLCG; break;
        case 6: up = pick_side(); if (ov) break; os = p.single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n); ov = opk_vcreate(os); (up ? ht : lt) = OPK_BOUND_VECTOR; (up ? ha : la) = ov; break; } }
      bool bl = lt < OPK_BOUND_NONE || lt > OPK_BOUND_VECTOR || ht < OPK_BOUND_NONE || ht > OPK_BOUND_VECTOR;
      inval = nn < 1 || (type != OPK_FLOAT && type != OPK_DOUBLE) || bl || (alg != OPK_ALGORITHM_NLCG && alg != OPK_ALGORITHM_VMLMB) || (alg == OPK_ALGORITHM_NLCG && (lt || ht)) || lt == OPK_BOUND_VECTOR || ht == OPK_BOUND_VECTOR;
      efault = (!lt) != (!la) || (!ht) != (!ha); if ((!lt && la) || (!ht && ha)) inval = true;
      if (opts && !inval && !efault && ((alg == OPK_ALGORITHM_VMLMB) != p.vm)) { opk_drop_object((opk_object*)ov); opk_drop_object((opk_object*)os); continue; } // options of the other method
      if (inval || efault) fault("invalid argument of a constructor");
      char b[200]; snprintf(b, sizeof b, "opk_new_optimizer(algorithm %d, type %d, n %ld, lower %d %s, upper %d %s)", alg, type, nn, lt, la ? "given" : "NULL", ht, ha ? "given" : "NULL"); what = b;
      long l1 = heap::live(), rv = refs(ov), rs = refs(os); errno = 0;
      o = (opk_object*)opk_new_optimizer((opk_algorithm)alg, opts, (opk_eltype)type, nn, (opk_bound_type)lt, la, (opk_bound_type)ht, ha, ls); int e = errno;
      if (o && (inval || efault)) fail("L12.accepted", "%s accepted; plan: %s", b, p.text().c_str());
      else if (!o && !inval && !efault) fail("L12.refused", "%s refused with errno %d; plan: %s", b, e, p.text().c_str());
      else if (!o && !((inval && e == EINVAL) || (efault && e == EFAULT) || (inval && !efault && e == EINVAL) || ((!lt && la) && e == EFAULT) || ((!ht && ha) && e == EFAULT))) fail("L12.errno", "%s refused with errno %d; plan: %s", b, e, p.text().c_str());
      else if (!o && (heap::live() != l1 || refs(ls) != rl || refs(ov) != rv || refs(os) != rs)) fail("L12.leak", "%s: a refused call leaves blocks or references; plan: %s", b, p.text().c_str());
      opk_drop_object(o); if (!failed() && (heap::live() != l1 || refs(ls) != rl || refs(ov) != rv || refs(os) != rs)) fail("L12.leak", "%s: something is left after the optimizer was released; plan: %s", b, p.text().c_str());
      opk_drop_object((opk_object*)ov); opk_drop_object((opk_object*)os);
    } else {
      auto mk = [&]() { return p.api == 3 ? new_cspace(n, p.layout, true) : p.single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n); };
      opk_vspace *vs = mk(), *vs2 = mk(); double lo = -1, hi = 1; int how = p.vm ? (int)draw(4, "box") : 0; // 0 none, 1 of the space, 2 of another space of the same kind, 3 NULL space and a box
      opk_convexset* box = how == 0 ? nullptr : opk_new_boxset(how == 1 ? vs : vs2, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi);
      bool nospace = how == 3; inval = how == 2; efault = nospace; long l1 = heap::live(), r1 = refs(vs), r2 = refs(vs2), rb = refs(box); errno = 0; if (inval || efault) fault("invalid argument of a constructor");
      o = p.vm ? (opk_object*)opk_new_vmlmb_optimizer(p.opts_null ? nullptr : &vo, nospace ? nullptr : vs, ls, box) : (opk_object*)opk_new_nlcg_optimizer(p.opts_null ? nullptr : &no, vs, ls); int e = errno;
      what = "box case " + std::to_string(how);
      if (o && (inval || efault)) fail("L12.accepted", "constructor accepted %s; plan: %s", nospace ? "a NULL vector space" : "a convex set of another space", p.text().c_str());
      else if (!o && !inval && !efault) fail("L12.refused", "constructor refused valid arguments (%s) with errno %d; plan: %s", what.c_str(), e, p.text().c_str());
      else if (!o && e != (efault ? EFAULT : EINVAL)) fail("L12.errno", "constructor refused %s with errno %d; plan: %s", nospace ? "a NULL vector space" : "a convex set of another space", e, p.text().c_str());
      else if (!o && (heap::live() != l1 || refs(ls) != rl || refs(vs) != r1 || refs(vs2) != r2 || refs(box) != rb)) fail("L12.leak", "a refused call leaves blocks or references (%s); plan: %s", what.c_str(), p.text().c_str());
      if (o && how == 1 && p.vm && opk_get_vmlmb_method((opk_vmlmb*)o) != (vo.blmvm && !p.opts_null ? OPK_BLMVM : OPK_VMLMB)) fail("L12.method", "wrong method for a bounded optimizer; plan: %s", p.text().c_str());
      opk_drop_object(o); if (!failed() && (heap::live() != l1 || refs(ls) != rl || refs(vs) != r1 || refs(vs2) != r2 || refs(box) != rb)) fail("L12.leak", "something is left after the optimizer was released (%s); plan: %s", what.c_str(), p.text().c_str());
      opk_drop_object((opk_object*)box); opk_drop_object((opk_object*)vs); opk_drop_object((opk_object*)vs2);
    }
    nontrivial(); ev("arguments", inval * 2 + efault); state_token(inval * 2 + efault + 7);
  }
  opk_drop_object((opk_object*)ls); (void)l0;
  if (!failed() && heap::live()) fail("L12.leak", "%ld blocks left; plan: %s", heap::live(), p.text().c_str());
}

// ------------------------------------------------------------- defaults and descriptions
struct Text { std::string s; size_t need; };
typedef std::function<size_t(char*, size_t)> Getter;
void check_text(const Getter& get, const std::string& want, const char* what, const Plan& p, bool nul_any_size) {
  size_t need = want.size() + 1;
  for (int t = 0; t < 3 && !failed(); ++t) {
    size_t size = t == 0 ? need : (size_t)draw(need + 20, "buffer size"); if (t == 2 && chance(1, 2, "just too small")) size = need - 1;
    bool nul = size == 0 || (nul_any_size && chance(1, 6, "no buffer")); if (size < need) fault("buffer too small for the text"); 
    Guarded m(size ? size : 1, chance(1, 2, "right"), p.junk); char* b = (char*)m.p; unsigned char first = *m.p;
    size_t r = get(nul && size ? nullptr : nul && chance(1, 2, "NULL") ? nullptr : b, size);
    if (r != need) { fail("L12.text", "%s with a buffer of %zu bytes returns %zu, the text \"%s\" needs %zu bytes; plan: %s", what, size, r, want.c_str(), need, p.text().c_str()); return; }
    if (!m.intact() || (size == 0 && *m.p != first)) { fail("L12.text", "%s writes out of a buffer of %zu bytes; plan: %s", what, size, p.text().c_str()); return; }
    if (nul) continue;
    size_t c = std::min(size, need) - 1; if (memcmp(b, want.data(), c) != 0 || b[c] != 0) { fail("L12.text", "%s with a buffer of %zu bytes stores \"%.*s\" instead of the beginning of \"%s\"; plan: %s", what, size, (int)size, b, want.c_str(), p.text().c_str()); return; }
  }
}
std::string expected_description(const Plan& p) {
  if (p.vm) { long m = std::min<long>(p.vo.mem, p.n); return "variable metric method with " + std::to_string(m) + " memorized step(s)" + (p.bounded() ? " and bounds" : ""); }
  unsigned f = p.no.flags ? p.no.flags : OPK_NLCG_DEFAULT; static const char* R[] = {"", "Fletcher & Reeves", "Hestenes & Stiefel", "Polak, Ribière & Polyak", "Fletcher conjugate descent", "Liu & Storey", "Dai & Yuan", "Perry & Shanno", "Hager & Zhang"};
  std::string s = std::string(R[f & 0xff]) + " updates"; bool w = f & OPK_NLCG_POWELL; if (w) s += " with Powell restarts"; if (f & OPK_NLCG_SHANNO_PHUA) s += std::string(w ? " and" : " with") + " Shanno & Phua step size"; return s;
}
void texts(Session& s) {
  const Plan& p = s.P; std::string d = expected_description(p), nm = !p.vm ? "NLCG" : !p.bounded() ? "LBFGS" : (p.vo.blmvm ? "BLMVM" : "VMLMB");
  check_text([&](char* b, size_t z) { return s.drv ? opk_get_description(b, z, s.drv) : s.vmo ? opk_get_vmlmb_description(b, z, s.vmo) : opk_get_nlcg_description(b, z, s.cgo); }, d, "description", p, s.drv ? p.vm : p.vm);
  if (failed()) return;
  std::string got; if (s.vmo) { const char* q = opk_get_vmlmb_method_name(s.vmo); got = q ? q : "(null)"; } else { char b[64] = {0}; if (s.drv) opk_get_name(b, sizeof b, s.drv); else opk_get_nlcg_name(b, sizeof b, s.cgo); got = b; }
  std::string up; for (char c : got) if (isalnum((unsigned char)c)) up += (char)toupper(c);
  if (up.find(nm) == std::string::npos) { fail("L12.name", "the optimizer is named \"%s\" instead of %s; plan: %s", got.c_str(), nm.c_str(), p.text().c_str()); return; }
  if (!s.vmo) check_text([&](char* b, size_t z) { return s.drv ? opk_get_name(b, z, s.drv) : opk_get_nlcg_name(b, z, s.cgo); }, got, "name", p, true);
  if (s.vmo && opk_get_vmlmb_method(s.vmo) != (!p.bounded() ? OPK_LBFGS : p.vo.blmvm ? OPK_BLMVM : OPK_VMLMB)) fail("L12.method", "wrong method %d; plan: %s", (int)opk_get_vmlmb_method(s.vmo), p.text().c_str());
}
void fresh_state(Session& s) {
  if (s.task() != OPK_TASK_ERROR || s.status() != OPK_NOT_STARTED || s.evals() || s.iters() || s.restarts()) fail("L12.fresh", "a new optimizer has task %d, status %d and counters %ld %ld %ld; plan: %s", s.task(), s.status(), s.evals(), s.iters(), s.restarts(), s.P.text().c_str());
  if (failed() || !s.drv || !chance(1, 4, "refused calls first")) return;
  fault("NULL argument"); bool st = chance(1, 2, "start"); double xx[2] = {3, 4};
  int t = st ? opk_start(s.drv, nullptr) : chance(1, 2, "no variables") ? opk_iterate(s.drv, nullptr, 1, chance(1, 2, "neither") ? nullptr : xx) : opk_iterate(s.drv, xx, 1, nullptr);
  if (t != OPK_TASK_ERROR || s.task() != OPK_TASK_ERROR || s.status() != OPK_ILLEGAL_ADDRESS || s.evals() || s.iters() || xx[0] != 3 || xx[1] != 4) fail("L12.null", "a call without variables or gradient gives task %d (then %d) and status %d; plan: %s", t, s.task(), s.status(), s.P.text().c_str());
}
void descriptions() {
  Gen G; G.max_eval = 30; Plan p = draw_plan(G); note("plan %s", p.text().c_str()); cstats() = CSpaceStats(); heap::reset(p.junk);
  Session s(p); if (!s.open()) return; fresh_state(s); if (failed()) return; texts(s);
  long k = 0; while (!failed() && s.step()) { if (++k % 7 == 3 && chance(1, 2, "describe")) texts(s); }
  if (!failed()) texts(s); nontrivial(); probe("descriptions checked");
  s.close(); if (!failed() && heap::live()) fail("L12.leak", "%ld blocks left; plan: %s", heap::live(), p.text().c_str());
}
bool same(const std::vector<Rec>& a, const std::vector<Rec>& b, std::string& w) { size_t n = std::min(a.size(), b.size()); for (size_t k = 0; k < n; ++k) if (!(a[k] == b[k])) { w = "call " + std::to_string(k) + " differs"; return false; } if (a.size() != b.size()) { w = "lengths differ"; return false; } return true; }
void defaults() { // no options, default options, and no flags are the same thing
  Gen G; G.options = false; G.max_eval = 40; Plan p = draw_plan(G); p.opts_null = true; note("plan %s", p.text().c_str()); cstats() = CSpaceStats();
  heap::reset(p.junk); std::vector<Rec> a, b; std::string w; { Session s(p); if (!s.open()) return; s.run(); a = s.hist; } if (failed()) return;
  Plan q = p; q.opts_null = false; bool z = !p.vm && chance(1, 2, "no flags"); opk_get_vmlmb_default_options(&q.vo); opk_get_nlcg_default_options(&q.no); if (z) q.no.flags = 0;
  bool lsd = p.ls.kind == 0 && !p.bounded() && p.vm && chance(1, 2, "memory beyond n"); if (lsd) { q.vo.mem = std::max<long>(q.vo.mem, p.n) + (p.n <= q.vo.mem ? 3 : 0); if (p.n > 5) q.vo.mem = 5; }
  if (!p.vm && chance(1, 2, "fmin not given")) { q.no.fmin = -1e3; q.no.fmin_given = OPK_FALSE; }
  heap::reset(p.junk); { Session s(q); if (!s.open()) return; texts(s); s.run(); b = s.hist; } nontrivial(); probe(z ? "no flags" : lsd ? "more memory than variables" : "default options");
  if (!failed() && !same(a, b, w)) fail("L12.defaults", "%s differs from no options at all: %s; plan: %s", z ? "zero flags" : "giving the default options", w.c_str(), p.text().c_str());
}

// ------------------------------------------------------------- no optimizer, and tables of constants
void nothing() {
  heap::reset(draw(16, "junk")); double x[2] = {1, 2}, g[2] = {3, 4}; Plan p;
  if (opk_start(nullptr, x) != OPK_TASK_ERROR || opk_iterate(nullptr, x, 1, g) != OPK_TASK_ERROR || opk_get_task(nullptr) != OPK_TASK_ERROR || opk_get_status(nullptr) != OPK_ILLEGAL_ADDRESS || opk_get_evaluations(nullptr) || opk_get_iterations(nullptr) || opk_get_restarts(nullptr) || !(opk_get_step(nullptr) < 0) || opk_get_gnorm(nullptr) != 0 || x[0] != 1 || g[0] != 3) fail("L12.null", "a NULL optimizer is not reported as such");
  opk_destroy_optimizer(nullptr); if (failed()) return;
  // text of any length
  std::string t; for (int i = 0, m = (int)draw(40, "length"); i < m; ++i) t += (char)('a' + i % 26); bool nul = t.empty() && chance(1, 2, "NULL text");
  check_text([&](char* b, size_t z) { return opk_copy_string(b, z, nul ? nullptr : t.c_str()); }, t, "opk_copy_string", p, true);
  static const struct { const char* n; long v; } C[] = {
#define OPK_STATUS_(a, b, c) {#b, a},
    OPK_STATUS_LIST_
#undef OPK_STATUS_
#define K(c) {#c, (long)c},
    K(OPK_TRUE) K(OPK_FALSE) K(OPK_FLOAT) K(OPK_DOUBLE) K(OPK_TASK_ERROR) K(OPK_TASK_START) K(OPK_TASK_COMPUTE_FG) K(OPK_TASK_NEW_X) K(OPK_TASK_FINAL_X) K(OPK_TASK_WARNING)
    K(OPK_LNSRCH_ERROR) K(OPK_LNSRCH_SEARCH) K(OPK_LNSRCH_CONVERGENCE) K(OPK_LNSRCH_WARNING) K(OPK_NLCG_FLETCHER_REEVES) K(OPK_NLCG_HESTENES_STIEFEL) K(OPK_NLCG_POLAK_RIBIERE_POLYAK) K(OPK_NLCG_FLETCHER) K(OPK_NLCG_LIU_STOREY) K(OPK_NLCG_DAI_YUAN) K(OPK_NLCG_PERRY_SHANNO) K(OPK_NLCG_HAGER_ZHANG) K(OPK_NLCG_POWELL) K(OPK_NLCG_SHANNO_PHUA) K(OPK_NLCG_DEFAULT)
    K(OPK_BOUND_NONE) K(OPK_BOUND_SCALAR_FLOAT) K(OPK_BOUND_SCALAR_DOUBLE) K(OPK_BOUND_STATIC_FLOAT) K(OPK_BOUND_STATIC_DOUBLE) K(OPK_BOUND_VOLATILE_FLOAT) K(OPK_BOUND_VOLATILE_DOUBLE) K(OPK_BOUND_VECTOR) K(OPK_ASCENT) K(OPK_DESCENT) K(OPK_LBFGS) K(OPK_VMLMB) K(OPK_BLMVM) K(OPK_ALGORITHM_NLCG) K(OPK_ALGORITHM_VMLMB)
    K(OPK_SCALING_NONE) K(OPK_SCALING_OREN_SPEDICATO) K(OPK_SCALING_BARZILAI_BORWEIN) K(OPK_FMIN_BOUNDED_BY_A) K(OPK_FMIN_BOUNDED_BY_B) K(OPK_FMIN_SMOOTH) K(OPK_FMIN_ERROR) K(OPK_FMIN_START) K(OPK_FMIN_FX) K(OPK_FMIN_NEWX) K(OPK_FMIN_CONVERGENCE)
#undef K
  };
  const size_t NC = sizeof C / sizeof C[0];
  for (int k = 0; k < 4 && !failed(); ++k) {
    auto& c = C[draw(NC, "constant")]; long v = c.v + 1; std::string name = c.n; bool bad = false;
    switch (draw(5, "spelling")) { case 3: name += "X"; bad = true; break; case 4: name.pop_back(); bad = true; for (auto& d : C) if (name == d.n) bad = false; break; }
    if (bad) fault("unknown constant"); opk_status st = opk_get_integer_constant(name.c_str(), &v);
    if (bad ? st != OPK_INVALID_ARGUMENT : (st != OPK_SUCCESS || (name == c.n && v != c.v))) fail("L12.constant", "the constant %s has status %d and value %ld", name.c_str(), st, v);
    if (opk_get_integer_constant(name.c_str(), nullptr) != st || opk_get_integer_constant(nullptr, &v) != OPK_INVALID_ARGUMENT || opk_get_integer_constant("", &v) != OPK_INVALID_ARGUMENT) fail("L12.constant", "wrong status for the constant %s, or for no name", name.c_str());
    int s = (int)draw(40, "status") - 5; const char* r = opk_get_reason((opk_status)s); bool known = s >= 0 && s < (int)OPK_MAX_STATUS;
    if (!r || (known ? !*r : *r != 0)) fail("L12.reason", "the reason of status %d is %s", s, r ? r : "NULL");
    for (int j = 0; r && known && j < s; ++j) { const char* q = opk_get_reason((opk_status)j); if (q && !strcmp(q, r)) fail("L12.reason", "statuses %d and %d have the same reason", j, s); }
  }
  if (opk_guess_status(ENOMEM) != OPK_INSUFFICIENT_MEMORY || opk_guess_status(EFAULT) != OPK_ILLEGAL_ADDRESS || opk_guess_status(EINVAL) != OPK_INVALID_ARGUMENT) fail("L12.guess", "wrong status for an errno");
  nontrivial(); ev("nothing", (long)t.size()); state_token(t.size());
}
void run_L12() { switch (draw(10, "scenario")) { case 0: case 1: descriptions(); break; case 2: case 3: defaults(); break; case 4: case 5: case 6: options(); break; case 9: nothing(); break; default: arguments(); } }
Reg rl12({"L12", run_L12, 600000, 4000000, "one evaluation = one simulated run (one seed): a history of constructions with valid or invalid settings, or of queries during an optimization; it counts when a verdict was due and the hash of its complete event log is new", "driver.c vmlmb.c nlcg.c lnsrch.c algebra.c fltvector.c dblvector.c simple_vector.c utils.c", "malloc/free (heap model), caller, objective functions, user-supplied vector space"});
}
