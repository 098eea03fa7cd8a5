// Random programs over the object and vector layers: V01 (vector algebra), V02 (boxes), R02 (lifetimes).
#include "lm.h"
#include <cerrno>
#include <cfloat>
#include <memory>
#include <deque>
#include <algorithm>
namespace powell { bool quiet_start(); long quiet_stop(); }
using namespace sim;
using namespace lm;
extern "C" void __real_free(void*);
namespace {
enum Kind { DBL, FLT, USR };
long g_other; std::string g_other_text; void other_handler(const char* m) { ++g_other; g_other_text = m ? m : ""; }
struct Space { opk_vspace* p; int kind, n, refs, deps; bool box; bool dead = false; };
struct Mem { int kind, n; Guarded g; Vec v; int users = 0; bool revoked = false; };
struct Client { int calls = 0; int by = 0; opk_object* owned = nullptr; };
struct Vect { opk_vector* p; int sp; Mem* m; int refs = 1, holders = 0; bool wrap = false; int fk = 0; Client* cl = nullptr; bool dead = false; };
struct Box { opk_convexset* p; int sp; int refs = 1, holders = 0; int lt, ut; Vec lo, hi; int lv = -1, uv = -1; bool dead = false; };
struct LSrch { opk_lnsrch* p; int refs = 1, holders = 0; bool dead = false; };
struct Oper { opk_operator* p; int in, out, refs = 1; bool has[3]; bool dead = false; };
struct Optim { opk_object* p; bool vm; int sp, bx = -1, ls = -1; int refs = 1; bool dead = false; };

void free_a(void* c) { Client* cl = (Client*)c; cl->calls++; cl->by |= 1; opk_object* o = cl->owned; cl->owned = nullptr; if (o) opk_drop_object(o); }
void free_b(void* c) { Client* cl = (Client*)c; cl->calls++; cl->by |= 2; opk_object* o = cl->owned; cl->owned = nullptr; if (o) opk_drop_object(o); }
opk_free_proc* fproc(int k) { return k == 1 ? free_a : k == 2 ? free_b : nullptr; }
std::string vt(const Vec& v) { std::string t = "{"; for (double d : v) { char b[40]; snprintf(b, sizeof b, " %.9g", d); t += b; } return t + " }"; }

// operator supplied by the caller: scales by 2 (direct), 3 (adjoint), 0.5 (inverse), or fails
int g_opfail = 0; long g_opfinal = 0;
opk_status ap(opk_vector* d, const opk_vector* s, double f) {
  if (g_opfail > 0 && --g_opfail == 0) { fault("user operator fails"); return OPK_NOT_POSITIVE_DEFINITE; }
  Vec t(s->owner->size); for (opk_index i = 0; i < s->owner->size; ++i) opk_vpeek(s, i, &t[i]);
  for (opk_index i = 0; i < d->owner->size; ++i) opk_vpoke(d, i, f * t[i % t.size()]);
  return OPK_SUCCESS;
}
void op_fin(opk_operator*) { g_opfinal++; }
opk_status op_dir(opk_operator*, opk_vector* d, const opk_vector* s) { return ap(d, s, 2); }
opk_status op_adj(opk_operator*, opk_vector* d, const opk_vector* s) { return ap(d, s, 3); }
opk_status op_inv(opk_operator*, opk_vector* d, const opk_vector* s) { return ap(d, s, 0.5); }
const opk_operator_operations* op_table(int mask) {
  static opk_operator_operations t[16]; auto& o = t[mask]; o.finalize = mask & 8 ? op_fin : nullptr; o.apply_direct = mask & 1 ? op_dir : nullptr; o.apply_adjoint = mask & 2 ? op_adj : nullptr; o.apply_inverse = mask & 4 ? op_inv : nullptr; return &o;
}

struct World {
  int mode;              // 1 algebra, 2 boxes, 3 lifetimes
  std::deque<Space> S; std::deque<Mem> M; std::deque<Vect> V; std::deque<Box> B; std::deque<LSrch> L; std::deque<Oper> O; std::deque<Optim> Z; std::deque<Client> C;
  long expect_opfinal = 0; std::string last;
  bool life() const { return mode == 3; }
  double eps(int kind) const { return kind == FLT ? 1.2e-7 : 2.3e-16; }
  void bad(const char* o, const std::string& t) { fail(o, "%s; at operation: %s", t.c_str(), last.c_str()); }
  template <class T> int choose(std::deque<T>& q, const char* tag) { std::vector<int> a; for (size_t i = 0; i < q.size(); ++i) if (!q[i].dead && q[i].refs > 0) a.push_back((int)i); return a.empty() ? -1 : a[draw(a.size(), tag)]; }
  int vec_of(int sp, const char* tag) { std::vector<int> a; for (size_t i = 0; i < V.size(); ++i) if (!V[i].dead && V[i].refs > 0 && V[i].sp == sp) a.push_back((int)i); return a.empty() ? -1 : a[draw(a.size(), tag)]; }

  // ---- fault injection around an allocation
  bool oom = false; long live0 = 0, fail0 = 0;
  void arm() { oom = chance(1, life() ? 5u : 12u, "allocation fails"); live0 = heap::live(); fail0 = heap::failures(); if (oom) { long k = 1 + draw(3, "which"); if (chance(1, 3, "from then on")) heap::fail_from(k); else heap::fail_at(k); } clear_lib_error(); errno = 0; }
  // returns true if the constructor legitimately failed
  bool refused(const void* p, const char* what) {
    heap::fail_at(0); heap::fail_from(0);
    bool hit = heap::failures() > fail0; if (hit) fault("allocation failure");
    if (p) { if (!heap::is_live(p)) bad("R02.dangling", std::string(what) + " returned an address which is not a live object"); if (opk_get_object_references((opk_object*)p) < 1) bad("R02.refs", std::string(what) + " returned an object without reference"); return false; }
    if (!hit) { bad("R02.refused", std::string(what) + " failed although no allocation failed, errno " + std::to_string(errno)); return true; }
    if (errno != ENOMEM) bad("R02.errno", std::string(what) + " failed for lack of memory with errno " + std::to_string(errno));
    if (heap::live() != live0) bad("R02.leak", std::string(what) + " failed and left " + std::to_string(heap::live() - live0) + " block(s) behind");
    if (life()) nontrivial();
    return true;
  }

  // ---- model of the lifetimes
  void drop_v(int i) { V[i].refs--; }
  void settle() {
    for (bool again = true; again;) { again = false;
      for (auto& z : Z) if (!z.dead && z.refs <= 0) { z.dead = again = true; S[z.sp].deps--; if (z.bx >= 0) B[z.bx].holders--; if (z.ls >= 0) L[z.ls].holders--; }
      for (auto& b : B) if (!b.dead && b.refs <= 0 && b.holders <= 0) { b.dead = again = true; S[b.sp].deps--; if (b.lv >= 0) V[b.lv].holders--; if (b.uv >= 0) V[b.uv].holders--; }
      for (auto& l : L) if (!l.dead && l.refs <= 0 && l.holders <= 0) l.dead = again = true;
      for (auto& o : O) if (!o.dead && o.refs <= 0) { o.dead = again = true; S[o.in].deps--; S[o.out].deps--; }
      for (auto& v : V) if (!v.dead && v.refs <= 0 && v.holders <= 0) { v.dead = again = true; S[v.sp].deps--; v.m->users--; if (v.cl) release(v); }
      for (auto& s : S) if (!s.dead && s.refs <= 0 && s.deps <= 0) s.dead = again = true;
    }
  }
  struct Exp { int calls = 0, by = 0; int owned = -1; }; std::map<Client*, Exp> X;
  void release(Vect& v) { Exp& e = X[v.cl]; if (v.fk) { e.calls++; e.by |= v.fk; if (e.owned >= 0) { V[e.owned].holders--; e.owned = -1; } if (v.m->users == 0 && v.wrap) { v.m->g.revoke(); v.m->revoked = true; } } v.cl = nullptr; }
  void audit() {
    if (failed()) return;
    auto lv = [&](const void* p, bool dead, const char* what, size_t i) { if (heap::is_live(p) == dead) bad("R02.lifetime", std::string(what) + " number " + std::to_string(i) + (dead ? " is still allocated although nothing refers to it any more" : " was released although it is still referenced")); };
    for (size_t i = 0; i < V.size() && !failed(); ++i) lv(V[i].p, V[i].dead, "vector", i);
    for (size_t i = 0; i < S.size() && !failed(); ++i) lv(S[i].p, S[i].dead, "space", i);
    for (size_t i = 0; i < B.size() && !failed(); ++i) lv(B[i].p, B[i].dead, "box", i);
    for (size_t i = 0; i < L.size() && !failed(); ++i) lv(L[i].p, L[i].dead, "line search", i);
    for (size_t i = 0; i < O.size() && !failed(); ++i) lv(O[i].p, O[i].dead, "operator", i);
    for (size_t i = 0; i < Z.size() && !failed(); ++i) lv(Z[i].p, Z[i].dead, "optimizer", i);
    if (failed()) return;
    for (auto& c : C) { Exp e = X[&c]; if (c.calls != e.calls) return bad("R02.callback", "a release callback was called " + std::to_string(c.calls) + " times, " + std::to_string(e.calls) + " expected"); if (c.calls && c.by != e.by) return bad("R02.callback", "the wrong release callback was called"); }
    for (size_t i = 0; i < V.size(); ++i) if (!V[i].dead && opk_get_object_references((opk_object*)V[i].p) != V[i].refs + V[i].holders) return bad("R02.refs", "vector " + std::to_string(i) + " has " + std::to_string(opk_get_object_references((opk_object*)V[i].p)) + " references, " + std::to_string(V[i].refs + V[i].holders) + " expected");
    std::string why; if (!heap::check(&why)) return bad("R02.heap", why);
  }
  // ---- values
  double get(const Vect& v, int i) { if (v.wrap) return S[v.sp].kind == FLT ? (double)v.m->g.as<float>()[i] : v.m->g.as<double>()[i]; double t = NAN; opk_vpeek(v.p, i, &t); return t; }
  Vec values(const Vect& v) { Vec r(S[v.sp].n); for (int i = 0; i < (int)r.size(); ++i) r[i] = get(v, i); return r; }
  void resync(Mem* m) { for (auto& v : V) if (!v.dead && v.m == m) { m->v = values(v); return; } }
  // everything but `dst` is unchanged
  void untouched(const Mem* d1, const Mem* d2 = nullptr) {
    for (size_t k = 0; k < V.size(); ++k) { auto& v = V[k]; if (v.dead || v.m == d1 || v.m == d2) continue;
      for (int i = 0; i < S[v.sp].n; ++i) if (!same_bits(get(v, i), v.m->v[i])) return bad("V01.collateral", "element " + std::to_string(i) + " of vector " + std::to_string(k) + " changed from " + hexd(v.m->v[i]) + " to " + hexd(get(v, i)) + " although it is not the destination"); }
    for (auto& m : M) if (!m.revoked && !m.g.intact()) return bad("V01.outside", "bytes next to a wrapped array were written");
  }
  bool tame(const Vec& v) { for (double t : v) if (!(std::fabs(t) < 1e6)) return false; return true; }
  void expect(int d, const Vec& e, const Vec& mag, const char* what) { // elementwise, then resync
    Vec a = values(V[d]); double ep = eps(S[V[d].sp].kind); Vec before = V[d].m->v;
    bool big = !tame(before) || !tame(a);
    for (size_t i = 0; i < e.size(); ++i) if (!(std::fabs(a[i] - e[i]) <= 8 * ep * mag[i] + (mag[i] ? 1e-37 : 0)) && !same_bits(a[i], e[i])) { bad("V01.value", std::string(what) + ": element " + std::to_string(i) + " of vector " + std::to_string(d) + " is " + hexd(a[i]) + ", " + hexd(e[i]) + " expected"); break; }
    (void)big; untouched(V[d].m); V[d].m->v = a;
    // two wrapped vectors may share their memory: all of them must see it
    for (auto& v : V) if (!v.dead && v.m == V[d].m) for (size_t i = 0; i < a.size(); ++i) { double t; if (opk_vpeek(v.p, i, &t) != OPK_SUCCESS || !same_bits(t, a[i])) return bad("V01.alias", "peek does not see the wrapped array"); }
  }
  double scal(const char* tag) { switch (draw(8, tag)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2; case 4: return -0.5; case 5: return 1.0 / 3; default: return sreal(3, "factor", 64); } }
  void resetbig(int d) { if (!tame(V[d].m->v)) { opk_vfill(V[d].p, 1.5); V[d].m->v.assign(S[V[d].sp].n, 1.5); } }

  // ---- constructors
  void new_space() {
    int kind = (int)draw(3, "kind of space"), n = huge(4000); if (n <= 0) n = 1 + (int)draw(chance(1, 8, "large") ? 33 : 5, "dimension-1");
    if (chance(1, 10, "invalid dimension")) { n = -(int)draw(3, "minus n"); last = "new space with an invalid dimension"; errno = 0; opk_vspace* p = kind == FLT ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n); if (p) bad("R02.invalid", "a vector space of dimension less than one was created"); else if (errno != EINVAL) bad("R02.errno", "wrong errno for an invalid dimension"); return; }
    last = "new space"; bool bx = kind != USR || chance(2, 3, "box operations"); arm();
    opk_vspace* p = kind == FLT ? opk_new_simple_float_vector_space(n) : kind == DBL ? opk_new_simple_double_vector_space(n) : new_cspace(n, (int)draw(4, "layout"), bx);
    if (refused(p, "vector space")) return; S.push_back({p, kind, n, 1, 0, bx});
  }
  void fill_random(int v) { auto& w = V[v]; int n = S[w.sp].n; Vec x(n); Bulk bulk(n > 40); for (auto& t : x) t = round_to(S[w.sp].kind == FLT, sreal(8, "value", 128)); for (int i = 0; i < n; ++i) if (opk_vpoke(w.p, i, x[i]) != OPK_SUCCESS) return bad("V01.poke", "poke failed"); w.m->v = x; }
  Mem* memory(int kind, int n) { M.emplace_back(); Mem& m = M.back(); m.kind = kind; m.n = n; return &m; }
  void new_vector(int sp) {
    last = "create vector"; if (sp < 0) return; auto& s = S[sp];
    bool wrap = s.kind != USR && chance(1, 2, "wrap an array");
    if (wrap) return wrap_vector(sp);
    arm(); opk_vector* p = opk_vcreate(s.p); if (refused(p, "opk_vcreate")) return;
    Mem* m = memory(s.kind, s.n); m->users = 1; V.push_back({p, sp, m}); s.deps++; fill_random((int)V.size() - 1);
  }
  Mem* array_for(int kind, int n, const char* tag) {
    if (chance(1, 4, tag)) for (auto& m : M) if (m.users > 0 && m.g.p && !m.revoked && m.kind == kind && m.n == n && m.n > 0) { probe("two vectors wrap the same array"); return &m; }
    Mem* m = memory(kind, n); m->g = Guarded((kind == FLT ? 4 : 8) * n, chance(1, 2, "array against the end of a page") ? false : true, 1); m->v.resize(n);
    Bulk bulk(n > 40);
    for (int i = 0; i < n; ++i) { double t = round_to(kind == FLT, sreal(8, "array", 64)); m->v[i] = t; if (kind == FLT) m->g.as<float>()[i] = (float)t; else m->g.as<double>()[i] = t; }
    return m;
  }
  Client* client() { C.emplace_back(); Client* c = &C.back(); return c; }
  void own_something(Client* c, int self_sp) { // the client's data holds a reference on another vector
    if (!chance(1, 4, "client data holds a vector")) return; int k = choose(V, "held vector"); if (k < 0 || V[k].wrap) return;
    opk_hold_object((opk_object*)V[k].p); V[k].holders++; c->owned = (opk_object*)V[k].p; X[c].owned = k; probe("client data holds a reference");
  }
  void wrap_vector(int sp) {
    auto& s = S[sp]; last = "wrap"; 
    if (chance(1, 12, "invalid wrap")) { double d[40]; errno = 0; opk_vector* p; int want;
      if (chance(1, 2, "wrong type")) { p = s.kind == FLT ? opk_wrap_simple_double_vector(s.p, d, free_a, nullptr) : opk_wrap_simple_float_vector(s.p, (float*)d, free_a, nullptr); want = EINVAL; }
      else { p = s.kind == FLT ? opk_wrap_simple_float_vector(s.p, nullptr, free_a, nullptr) : opk_wrap_simple_double_vector(s.p, nullptr, free_a, nullptr); want = EFAULT; }
      if (p) bad("R02.invalid", "an invalid wrap was accepted"); else if (errno != want) bad("R02.errno", "invalid wrap: errno " + std::to_string(errno)); return; }
    Mem* m = array_for(s.kind, s.n, "share an array"); int fk = (int)draw(3, "release callback"); Client* c = client();
    arm(); opk_vector* p = s.kind == FLT ? opk_wrap_simple_float_vector(s.p, m->g.as<float>(), fproc(fk), c) : opk_wrap_simple_double_vector(s.p, m->g.as<double>(), fproc(fk), c);
    if (refused(p, "wrap")) return;
    m->users++; Vect v{p, sp, m}; v.wrap = true; v.fk = fk; v.cl = c; V.push_back(v); s.deps++;
    if (fk) own_something(c, sp);
    check_wrap((int)V.size() - 1);
  }
  void check_wrap(int k) { auto& v = V[k]; bool f = S[v.sp].kind == FLT;
    if (f ? (void*)opk_get_simple_float_vector_data(v.p) != v.m->g.p : (void*)opk_get_simple_double_vector_data(v.p) != v.m->g.p) bad("R02.getter", "wrong data address");
    if ((f ? opk_get_simple_float_vector_client_data(v.p) : opk_get_simple_double_vector_client_data(v.p)) != v.cl) bad("R02.getter", "wrong client data");
    if ((f ? opk_get_simple_float_vector_free_client_data(v.p) : opk_get_simple_double_vector_free_client_data(v.p)) != fproc(v.fk)) bad("R02.getter", "wrong release callback");
    for (int q = 0; q < 6; ++q) { bool none = q >= 3, g = none ? f : !f; opk_vector* w = none ? nullptr : v.p; void* r = nullptr; errno = 0; // a vector of another type, or no vector
      switch (q % 3) { case 0: r = g ? (void*)opk_get_simple_float_vector_data(w) : (void*)opk_get_simple_double_vector_data(w); break; case 1: r = g ? opk_get_simple_float_vector_client_data(w) : opk_get_simple_double_vector_client_data(w); break;
        default: r = g ? (void*)opk_get_simple_float_vector_free_client_data(w) : (void*)opk_get_simple_double_vector_free_client_data(w); }
      if (r || errno != (none ? EFAULT : EINVAL)) bad("R02.getter", none ? "a getter accepted a NULL vector" : "a getter accepted a vector of another type"); }
  }
  void rewrap() {
    std::vector<int> a; for (size_t i = 0; i < V.size(); ++i) if (!V[i].dead && V[i].refs > 0 && V[i].wrap) a.push_back((int)i); if (a.empty()) return;
    int k = a[draw(a.size(), "vector to rewrap")]; auto& v = V[k]; bool f = S[v.sp].kind == FLT; last = "rewrap";
    if (chance(1, 8, "invalid rewrap")) { int r; if (chance(1, 2, "NULL data")) r = f ? opk_rewrap_simple_float_vector(v.p, nullptr, nullptr, nullptr) : opk_rewrap_simple_double_vector(v.p, nullptr, nullptr, nullptr); else { double d[40]; r = f ? opk_rewrap_simple_double_vector(v.p, d, nullptr, nullptr) : opk_rewrap_simple_float_vector(v.p, (float*)d, nullptr, nullptr); }
      if (r == OPK_SUCCESS) bad("R02.invalid", "an invalid rewrap was accepted"); return check_wrap(k); }
    Mem* m = array_for(S[v.sp].kind, S[v.sp].n, "rewrap a shared array"); int fk = (int)draw(3, "new callback"); Client* c = chance(1, 2, "same client data") ? v.cl : client();
    bool release_old = v.fk && (fk != v.fk || c != v.cl);
    Client* oc = v.cl; int ofk = v.fk; Mem* om = v.m;
    if (c == oc && release_old) { c = client(); } // the old data are gone: they cannot be used again
    if (c == oc && fk && !ofk && X[c].calls) c = client();
    om->users--; m->users++; v.m = m; v.fk = fk; v.cl = c;
    if (f) opk_rewrap_simple_float_vector(v.p, m->g.as<float>(), fproc(fk), c); else opk_rewrap_simple_double_vector(v.p, m->g.as<double>(), fproc(fk), c);
    if (release_old) { Exp& e = X[oc]; e.calls++; e.by |= ofk; if (e.owned >= 0) { V[e.owned].holders--; e.owned = -1; } if (om->users == 0) { om->g.revoke(); om->revoked = true; } probe("rewrap released the former data"); } else if (ofk) probe("rewrap kept the client data");
    settle(); if (failed()) return; check_wrap(k); untouched(nullptr); if (life()) nontrivial();
  }
  // ---- boxes
  bool representable(int kind) { return true; }
  void new_box() {
    int sp = choose(S, "space of the box"); if (sp < 0) return; auto& s = S[sp]; last = "new box";
    static const opk_bound_type T[] = {OPK_BOUND_NONE, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_VECTOR, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_STATIC_FLOAT};
    Box b; b.sp = sp; int n = s.n; double sd[2]; float sf[2]; Guarded g[2]; void* arg[2]; int types[2]; Vec val[2]; int vx[2] = {-1, -1};
    for (int k = 0; k < 2; ++k) {
      opk_bound_type t = T[draw(8, "bound kind")]; Bulk bulk(n > 40 && t != OPK_BOUND_VECTOR); types[k] = t; val[k].resize(n); arg[k] = nullptr;
      for (int i = 0; i < n; ++i) { double c = (k ? 1 : -1) * pick({2.0, 1.0, 0.0, 1.0 / 3, 5.0}, "bound"); if (i && (t == OPK_BOUND_SCALAR_DOUBLE || t == OPK_BOUND_SCALAR_FLOAT)) c = val[k][0]; if (chance(1, 10, "infinite")) c = k ? INF : -INF; if (i && (t == OPK_BOUND_SCALAR_DOUBLE || t == OPK_BOUND_SCALAR_FLOAT)) c = val[k][0]; val[k][i] = c; }
      bool tf = t == OPK_BOUND_SCALAR_FLOAT || t == OPK_BOUND_VOLATILE_FLOAT || t == OPK_BOUND_STATIC_FLOAT;
      for (auto& c : val[k]) { if (tf) c = (float)c; if (s.kind == FLT) c = (float)c; }
      if (t == OPK_BOUND_SCALAR_DOUBLE) { sd[k] = val[k][0]; arg[k] = &sd[k]; } else if (t == OPK_BOUND_SCALAR_FLOAT) { sf[k] = (float)val[k][0]; arg[k] = &sf[k]; }
      else if (t == OPK_BOUND_VECTOR) { int v = vec_of(sp, "bound vector"); if (v < 0) { types[k] = OPK_BOUND_NONE; continue; } vx[k] = v; arg[k] = V[v].p; }
      else if (t != OPK_BOUND_NONE) { g[k] = Guarded((tf ? 4 : 8) * n, true, 0); for (int i = 0; i < n; ++i) if (tf) g[k].as<float>()[i] = (float)val[k][i]; else g[k].as<double>()[i] = val[k][i]; arg[k] = g[k].p; }
    }
    int wrong = chance(1, 10, "invalid bound") ? 1 + (int)draw(4, "which") : 0; int wt[2] = {types[0], types[1]}; void* wa[2] = {arg[0], arg[1]}; int wk = wrong ? (int)draw(2, "which bound") : 0;
    if (wrong == 1) { wt[wk] = 99; } else if (wrong == 2) { wt[wk] = OPK_BOUND_NONE; wa[wk] = &sd[0]; } else if (wrong == 3) { wt[wk] = types[wk] ? types[wk] : OPK_BOUND_SCALAR_DOUBLE; wa[wk] = nullptr; }
    else if (wrong == 4) { int o = choose(V, "vector of another space"); if (o < 0 || V[o].sp == sp) wrong = 0; else { wt[wk] = OPK_BOUND_VECTOR; wa[wk] = V[o].p; } }
    if (wrong) { last = "new box with an invalid bound"; long l0 = heap::live(); errno = 0; opk_convexset* p = opk_new_boxset(s.p, (opk_bound_type)wt[0], wa[0], (opk_bound_type)wt[1], wa[1]); if (p) bad("R02.invalid", "an invalid bound was accepted"); else { if (errno != EINVAL) bad("R02.errno", "invalid bound: errno " + std::to_string(errno)); if (heap::live() != l0) bad("R02.leak", "refused box: blocks left behind"); } probe("invalid bounds refused"); return; }
    arm(); opk_convexset* p = opk_new_boxset(s.p, (opk_bound_type)types[0], arg[0], (opk_bound_type)types[1], arg[1]); if (refused(p, "opk_new_boxset")) return;
    b.p = p; b.lt = types[0]; b.ut = types[1]; b.lo = val[0]; b.hi = val[1]; b.lv = vx[0]; b.uv = vx[1];
    if (types[0] == OPK_BOUND_NONE) b.lo.assign(n, -INF); if (types[1] == OPK_BOUND_NONE) b.hi.assign(n, INF);
    if (b.lv >= 0) V[b.lv].holders++; if (b.uv >= 0) V[b.uv].holders++; s.deps++; B.push_back(b);
    if (chance(1, 3, "caller drops its references to the bounds")) for (int k = 0; k < 2; ++k) if (vx[k] >= 0 && V[vx[k]].refs > 0) { V[vx[k]].refs--; opk_drop_object((opk_object*)V[vx[k]].p); probe("bounds kept alive by their box"); }
    bool have = s.kind != USR || s.box;
    if (!!opk_can_project_variables(p) != have || !!opk_can_project_directions(p) != have || !!opk_can_get_free_variables(p) != have || !!opk_can_get_step_limits(p) != have) bad("V02.can", "a box pretends to implement what its space does not, or the opposite");
  }
  double lo(const Box& b, int i) { return b.lv >= 0 ? V[b.lv].m->v[i] : b.lo[i]; }
  double hi(const Box& b, int i) { return b.uv >= 0 ? V[b.uv].m->v[i] : b.hi[i]; }
  void box_op() {
    int k = choose(B, "box"); if (k < 0) return; auto& b = B[k]; auto& s = S[b.sp]; int n = s.n; bool have = s.kind != USR || s.box; cstats().fail_box = 0;
    int x = vec_of(b.sp, "x"), d = vec_of(b.sp, "d"), y = vec_of(b.sp, "dst"); if (x < 0) return; int what = (int)draw(4, "box operation"); opk_orientation o = chance(1, 2, "ascent") ? OPK_ASCENT : OPK_DESCENT;
    static const char* nm[] = {"project variables", "project direction", "free variables", "step limits"}; last = nm[what];
    double s1 = 7, s2 = 7, s3 = 7; opk_status st, want = have ? OPK_SUCCESS : OPK_NOT_IMPLEMENTED;
    opk_vector *px = V[x].p, *pd = V[d].p, *py = V[y].p; const opk_convexset* pb = b.p;
    bool misuse = chance(1, 10, "misuse");
    if (misuse) { int z = choose(V, "foreign vector"); int w = (int)draw(5, "which argument"); bool null = chance(1, 2, "NULL"); if (!null && (w == 3 || V[z].sp == b.sp)) null = true; opk_vector* r = null ? nullptr : V[z].p; want = null ? OPK_ILLEGAL_ADDRESS : OPK_BAD_SPACE;
      if (w == 0) px = r; else if (w == 1 && what) pd = r; else if (w == 2 && what != 3) py = r; else { pb = nullptr; want = OPK_ILLEGAL_ADDRESS; } fault("misuse of a box operation"); }
    if (!misuse && have && s.kind == USR && chance(1, 12, "user box operation fails")) { cstats().fail_box = 1; want = OPK_NOT_IMPLEMENTED; misuse = true; }
    // the directions may be projected in place, the variables too; the other cases of aliasing are not documented
    if (!misuse) { if (what == 1 && y != d && V[y].m == V[x].m) return; if (what == 2 && (V[y].m == V[x].m || V[y].m == V[d].m)) return; if ((b.lv >= 0 && V[b.lv].m == V[y].m) || (b.uv >= 0 && V[b.uv].m == V[y].m)) return; if (what == 1 && V[y].m == V[x].m) return; }
    Vec X = V[x].m->v, D = V[d].m->v;
    clear_lib_error();
    switch (what) {
    case 0: st = opk_project_variables(py, px, pb); break; case 1: st = opk_project_direction(py, px, pb, pd, o); break; case 2: st = opk_get_free_variables(py, px, pb, pd, o); break;
    default: { int m = (int)draw(8, "NULL outputs"); st = opk_get_step_limits(m & 1 ? nullptr : &s1, m & 2 ? nullptr : &s2, m & 4 ? nullptr : &s3, px, pb, pd, o); if (m & 1) s1 = NAN; if (m & 2) s2 = NAN; if (m & 4) s3 = NAN; } }
    cstats().fail_box = 0;
    if (st != want) return bad("V02.status", std::string(nm[what]) + " returned status " + std::to_string(st) + ", " + std::to_string(want) + " expected");
    if (st != OPK_SUCCESS) return untouched(nullptr);
    if (mode == 2) nontrivial();
    bool regular = true; for (int i = 0; i < n; ++i) if (!(lo(b, i) <= hi(b, i)) || !std::isfinite(X[i]) || !std::isfinite(D[i])) regular = false;
    bool nobound = b.lt == OPK_BOUND_NONE && b.ut == OPK_BOUND_NONE;
    if (what == 3) { untouched(nullptr); if (!regular) return; return steplim(b, X, D, o, s1, s2, s3, nobound); }
    Vec Y = values(V[y]); untouched(V[y].m); V[y].m->v = Y; if (!regular || failed()) return;
    for (int i = 0; i < n; ++i) {
      double l = lo(b, i), h = hi(b, i), t = o > 0 ? D[i] : -D[i]; bool inside = X[i] >= l && X[i] <= h;
      auto no = [&](const char* w) { bad("V02.value", std::string(nm[what]) + ": element " + std::to_string(i) + " is " + hexd(Y[i]) + " (" + w + "); x = " + vt(X) + " d = " + vt(D) + " bounds [" + hexd(l) + ", " + hexd(h) + "] orientation " + std::to_string(o)); };
      if (what == 0) { double e = X[i] < l ? l : X[i] > h ? h : X[i]; if (Y[i] != e) return no("not the nearest feasible value"); if (Y[i] == l || Y[i] == h) probe("projected variable on a bound"); }
      else { if (!inside) continue; bool blocked = (t < 0 && X[i] <= l) || (t > 0 && X[i] >= h); if (blocked) probe("blocked direction");
        if (what == 1) { double e = blocked ? 0 : D[i]; if (Y[i] != e) return no("direction not properly projected"); }
        else if (D[i] != 0) { if (Y[i] != (blocked ? 0 : 1)) return no("wrong mask"); } else if (Y[i] != 0 && Y[i] != 1) return no("not a mask"); }
    }
  }
  void steplim(const Box& b, const Vec& X, const Vec& D, int o, double s1, double s2, double s3, bool nobound) {
    auto& s = S[b.sp]; double big = (s.kind == FLT ? (double)FLT_MAX : DBL_MAX) / 1.001; double e1 = INF, e2 = INF, e3 = 0; bool any = false; double ep = eps(s.kind); double rel = 16 * ep;
    for (int i = 0; i < s.n; ++i) { double l = lo(b, i), h = hi(b, i); if (X[i] < l || X[i] > h) return; if (D[i] == 0) continue; any = true; double p = o > 0 ? D[i] : -D[i]; double lim = p > 0 ? h : l; double t = std::isinf(lim) ? INF : (lim - X[i]) / p; if (t < 0) t = 0; if (t != 0 && t < 1e-30) return; if (t > 1e30 && t < INF) return; e1 = std::min(e1, t); if (t > 0) e2 = std::min(e2, t); e3 = std::max(e3, t); }
    auto cmp = [&](const char* w, double a, double e) { if (std::isnan(a)) return; bool ok = e == INF ? a >= big : std::fabs(a - e) <= rel * e; if (!ok) bad("V02.steplim", std::string(w) + " = " + hexd(a) + ", " + hexd(e) + " expected; x = " + vt(X) + " d = " + vt(D)); };
    cmp("smin1", s1, e1); cmp("smin2", s2, e2); if (any || !nobound) cmp("smax", s3, e3);
    if (e1 == 0) probe("first bound at zero"); if (e1 > 0 && e1 < INF) probe("finite step limit"); if (e3 == INF && any) probe("unbounded step");
  }
  // ---- algebra
  void algebra() {
    int sp = -1; { int v = choose(V, "vector"); if (v < 0) return; sp = V[v].sp; }
    auto& s = S[sp]; int n = s.n; int d = vec_of(sp, "dst"), x = vec_of(sp, "x"), y = vec_of(sp, "y"), z = vec_of(sp, "z"); resetbig(d); resetbig(x); resetbig(y); resetbig(z);
    int what = (int)draw(15, "operation"); static const char* nm[] = {"fill", "zero", "copy", "scale", "swap", "product", "axpby", "axpbypcz", "dot", "dot3", "norms", "import", "export", "poke/peek", "print"}; last = nm[what];
    double a = scal("alpha"), b = scal("beta"), c = scal("gamma"); if (s.kind == FLT) { }
    Vec X = V[x].m->v, Y = V[y].m->v, Z = V[z].m->v, D = V[d].m->v, E(n), G(n, 0.0); double ep = eps(s.kind);
    clear_lib_error();
    // a vector of another space
    int w = chance(1, 12, "misuse") ? (int)choose(V, "foreign vector") : -1; if (w >= 0 && V[w].sp == sp) w = -1;
    if (w >= 0) { opk_vector *q[4] = {V[d].p, V[x].p, V[y].p, V[z].p}; int nargs; switch (what) { case 2: case 3: case 4: case 8: nargs = 2; break; case 5: case 6: case 9: nargs = 3; break; case 7: nargs = 4; break; default: nargs = 0; }
      if (nargs) { q[draw(nargs, "which argument")] = V[w].p; double r = 0; fault("vector of another space");
        auto* mine = opk_get_error_handler(); int how = (int)draw(5, "error handler"); g_other = 0; g_other_text.clear(); // 0, 1: ours; 2: another one; 3: the default one in between; 4: the default one
        auto misuse = [&]() { switch (what) { case 2: opk_vcopy(q[0], q[1]); break; case 3: opk_vscale(q[0], a, q[1]); break; case 4: opk_vswap(q[0], q[1]); break; case 8: r = opk_vdot(q[0], q[1]); break; case 5: opk_vproduct(q[0], q[1], q[2]); break; case 6: opk_vaxpby(q[0], a, q[1], b, q[2]); break; case 9: r = opk_vdot3(q[0], q[1], q[2]); break; case 7: opk_vaxpbypcz(q[0], a, q[1], b, q[2], c, q[3]); break; } };
        if (how == 4) { static jmp_buf jb; probe("error of the default handler"); if (opk_set_error_handler(nullptr) != mine) return bad("V01.handler", "the former error handler is not the one returned");
          powell::quiet_start(); volatile bool stopped = false; if (setjmp(jb) == 0) { on_abort = &jb; misuse(); } else stopped = true; on_abort = nullptr; long out = powell::quiet_stop(); opk_set_error_handler(mine);
          if (!stopped) return bad("V01.default", "the default error handler does not stop the program"); if (out <= 0) return bad("V01.default", "the default error handler prints no message"); return untouched(nullptr); }
        if (how >= 2) { if (opk_set_error_handler(how == 2 ? other_handler : nullptr) != mine) return bad("V01.handler", "the former error handler is not the one returned"); auto* now = opk_get_error_handler(); if (how == 2 ? now != other_handler : (!now || now == mine || now == other_handler)) return bad("V01.handler", "the error handler in use is not the one which was set"); if (how == 3 && opk_set_error_handler(other_handler) != now) return bad("V01.handler", "the default error handler is not the one returned"); probe("error handler replaced"); }
        misuse();
        if (how >= 2) { if (opk_set_error_handler(mine) != other_handler) return bad("V01.handler", "the former error handler is not the one returned"); if (!lib_error().empty()) return bad("V01.handler", "an error is reported to a handler which is no longer in use"); if (g_other && g_other_text.empty()) return bad("V01.handler", "an error is reported without a message"); if (!g_other) return bad("V01.misuse", "vectors of different spaces were mixed without any error"); return untouched(nullptr); }
        if (lib_error().empty()) return bad("V01.misuse", "vectors of different spaces were mixed without any error"); return untouched(nullptr); } }
    if (mode == 1) nontrivial(); if (d == x || d == y || d == z) probe("aliased destination");
    double af = s.kind == FLT ? (float)a : a; (void)af;
    switch (what) {
    case 0: opk_vfill(V[d].p, a); for (int i = 0; i < n; ++i) E[i] = round_to(s.kind == FLT, a); break;
    case 1: opk_vzero(V[d].p); break;
    case 2: opk_vcopy(V[d].p, V[x].p); E = X; break;
    case 3: opk_vscale(V[d].p, a, V[x].p); for (int i = 0; i < n; ++i) { E[i] = a * X[i]; G[i] = a == 1 ? 0 : std::fabs(E[i]); } break;
    case 4: { opk_vswap(V[x].p, V[y].p); Vec x2 = values(V[x]), y2 = values(V[y]); untouched(V[x].m, V[y].m); if (V[x].m == V[y].m) { Y = X; }
      for (int i = 0; i < n; ++i) if (!same_bits(x2[i], Y[i]) || !same_bits(y2[i], X[i])) { bad("V01.value", "swap does not exchange the contents"); break; } V[x].m->v = x2; V[y].m->v = y2; goto done; }
    case 5: opk_vproduct(V[d].p, V[x].p, V[y].p); for (int i = 0; i < n; ++i) G[i] = std::fabs(E[i] = X[i] * Y[i]); break;
    case 6: opk_vaxpby(V[d].p, a, V[x].p, b, V[y].p); for (int i = 0; i < n; ++i) { E[i] = a * X[i] + b * Y[i]; G[i] = std::fabs(a * X[i]) + std::fabs(b * Y[i]); } break;
    case 7: opk_vaxpbypcz(V[d].p, a, V[x].p, b, V[y].p, c, V[z].p); for (int i = 0; i < n; ++i) { E[i] = a * X[i] + b * Y[i] + c * Z[i]; G[i] = std::fabs(a * X[i]) + std::fabs(b * Y[i]) + std::fabs(c * Z[i]); } break;
    case 8: case 9: { double r = what == 8 ? opk_vdot(V[x].p, V[y].p) : opk_vdot3(V[x].p, V[y].p, V[z].p), e = 0, m = 0; for (int i = 0; i < n; ++i) { double t = X[i] * Y[i] * (what == 9 ? Z[i] : 1); e += t; m += std::fabs(t); } if (!(std::fabs(r - e) <= 4 * (n + 2) * ep * m + 1e-36)) bad("V01.dot", std::string(nm[what]) + " = " + hexd(r) + ", " + hexd(e) + " expected"); untouched(nullptr); goto done; }
    case 10: { double n1 = opk_vnorm1(V[x].p), n2 = opk_vnorm2(V[x].p), ni = opk_vnorminf(V[x].p), e1 = 0, ei = 0; for (double t : X) { e1 += std::fabs(t); ei = std::max(ei, std::fabs(t)); } double e2 = norm2(X); double tol = 4 * (n + 2) * ep;
      if (!(std::fabs(n1 - e1) <= tol * e1)) bad("V01.norm", "norm1"); if (!(std::fabs(n2 - e2) <= tol * e2 + (s.kind == FLT ? 1e-18 : 1e-150))) bad("V01.norm", "norm2 = " + hexd(n2) + ", " + hexd(e2) + " expected"); if (ni != ei) bad("V01.norm", "norminf"); untouched(nullptr); goto done; }
    case 11: { bool f = chance(1, 2, "import floats"); Guarded g((f ? 4 : 8) * n, true, 0); Bulk bulk(n > 40); for (int i = 0; i < n; ++i) { double t = sreal(8, "imported", 64); if (f) { t = (float)t; g.as<float>()[i] = (float)t; } else g.as<double>()[i] = t; E[i] = round_to(s.kind == FLT, t); } 
      if (chance(1, 8, "invalid import")) { int k = (int)draw(3, "which"); opk_status st = k == 0 ? opk_vimport(V[d].p, nullptr, OPK_DOUBLE, n) : k == 1 ? opk_vimport(V[d].p, g.p, (opk_eltype)77, n) : opk_vimport(V[d].p, g.p, f ? OPK_FLOAT : OPK_DOUBLE, n + (chance(1, 2, "more") ? 1 : -1)); if (st != (k == 0 ? OPK_ILLEGAL_ADDRESS : OPK_INVALID_ARGUMENT)) bad("V01.status", "invalid import: status " + std::to_string(st)); untouched(nullptr); goto done; }
      if (opk_vimport(V[d].p, g.p, f ? OPK_FLOAT : OPK_DOUBLE, n) != OPK_SUCCESS) return bad("V01.status", "import failed"); break; }
    case 12: { bool f = chance(1, 2, "export floats"); Guarded g((f ? 4 : 8) * n, chance(1, 2, "left") ? false : true, 0); if (opk_vexport(g.p, f ? OPK_FLOAT : OPK_DOUBLE, n, V[x].p) != OPK_SUCCESS) return bad("V01.status", "export failed"); for (int i = 0; i < n; ++i) { double t = f ? (double)g.as<float>()[i] : g.as<double>()[i]; if (!same_bits(t, f ? (double)(float)X[i] : X[i])) { bad("V01.value", "exported value differs"); break; } } if (!g.intact()) bad("V01.outside", "export wrote outside"); if (opk_vexport(nullptr, OPK_DOUBLE, n, V[x].p) != OPK_ILLEGAL_ADDRESS || opk_vexport(g.p, OPK_DOUBLE, n + 1, V[x].p) != OPK_INVALID_ARGUMENT) bad("V01.status", "an invalid export was accepted"); untouched(nullptr); goto done; }
    case 13: { int i = (int)draw(n, "index"); double t = round_to(s.kind == FLT, sreal(8, "poked", 64)), u = 3; if (opk_vpoke(V[d].p, i, t) != OPK_SUCCESS || opk_vpeek(V[d].p, i, &u) != OPK_SUCCESS || !same_bits(t, u)) return bad("V01.value", "peek does not yield the poked value");
      u = 3; if (opk_vpoke(V[d].p, n, 1) != OPK_OUT_OF_BOUNDS_INDEX || opk_vpoke(V[d].p, -1, 1) != OPK_OUT_OF_BOUNDS_INDEX || opk_vpeek(V[d].p, n, &u) != OPK_OUT_OF_BOUNDS_INDEX || opk_vpeek(V[d].p, -1 - (int)draw(3, "index"), &u) != OPK_OUT_OF_BOUNDS_INDEX || u != 3) bad("V01.status", "an index out of bounds was accepted"); if (opk_vpeek(V[d].p, i, nullptr) != OPK_ILLEGAL_ADDRESS || opk_vpeek(nullptr, i, &u) != OPK_ILLEGAL_ADDRESS || opk_vpoke(nullptr, i, 1) != OPK_ILLEGAL_ADDRESS) bad("V01.status", "a NULL address was accepted");
      E = D; E[i] = t; break; }
    default: { char* buf = nullptr; size_t len = 0; FILE* f = open_memstream(&buf, &len); bool nul = chance(1, 6, "print NULL"); int nmax = (int)draw(4, "nmax"); const char* name = chance(1, 2, "named") ? "x" : nullptr; FILE* so = stdout; if (chance(1, 4, "standard output")) { stdout = f; opk_vprint(nullptr, name, nul ? nullptr : V[x].p, nmax); stdout = so; } else opk_vprint(f, name, nul ? nullptr : V[x].p, nmax); fclose(f); std::string t(buf, len); __real_free(buf);
      std::string e = name ? "x = " : ""; if (nul) e += "NULL;\n"; else { int m = nmax > 0 && nmax < n ? nmax : n; e += "{"; for (int i = 0; i < m; ++i) { char q[40]; snprintf(q, sizeof q, "%g%s", X[i], i < m - 1 ? "," : ""); e += q; } e += m < n ? ",...};\n" : "};\n"; } if (t != e) bad("V01.print", "printed \"" + t + "\", \"" + e + "\" expected"); untouched(nullptr); goto done; }
    }
    if (!lib_error().empty()) bad("V01.error", "unexpected error: " + lib_error());
    if (!failed()) expect(d, E, G, nm[what]);
  done:;
    if (s.kind == USR && !cstats().bad.empty()) bad("V01.contract", cstats().bad);
  }
  // ---- other objects
  void new_lnsrch() { LS l; l.kind = 1 + (int)draw(3, "line search"); last = "new line search"; arm(); opk_lnsrch* p = make_ls(l); if (refused(p, "line search")) return; LSrch q; q.p = p; L.push_back(q); }
  void new_oper() {
    int a = choose(S, "input space"), b = choose(S, "output space"); if (a < 0) return; int m = (int)draw(16, "operator methods") ^ 15; last = "new operator";
    if (chance(1, 10, "NULL space")) { errno = 0; if (opk_allocate_operator(op_table(m), chance(1, 2, "which") ? nullptr : S[a].p, nullptr, 0) || errno != EFAULT) bad("R02.invalid", "an operator without a space was created"); return; }
    arm(); opk_operator* p = opk_allocate_operator(op_table(m), S[a].p, S[b].p, draw(200, "size")); if (refused(p, "operator")) return; Oper o; o.p = p; o.in = a; o.out = b; for (int i = 0; i < 3; ++i) o.has[i] = m >> i & 1; O.push_back(o); S[a].deps++; S[b].deps++;
  }
  void oper_op() {
    int k = choose(O, "operator"); if (k < 0) return; auto& o = O[k]; int w = (int)draw(3, "direct, adjoint, inverse"); int si = w ? o.out : o.in, di = w ? o.in : o.out; int x = vec_of(si, "source"), d = vec_of(di, "destination"); if (x < 0 || d < 0) return; last = "apply operator";
    opk_operator* po = o.p; opk_vector *pd = V[d].p, *px = V[x].p; opk_status want = o.has[w] ? OPK_SUCCESS : OPK_NOT_IMPLEMENTED; g_opfail = 0;
    if (chance(1, 6, "misuse")) { int q = (int)draw(5, "which"); if (q == 0) po = nullptr; else if (q == 1) pd = nullptr; else if (q == 2) px = nullptr; want = OPK_ILLEGAL_ADDRESS; if (q >= 3) { int z = choose(V, "foreign"); if (V[z].sp == (q == 3 ? di : si)) px = nullptr; else { (q == 3 ? pd : px) = V[z].p; want = OPK_BAD_SPACE; } } fault("misuse of an operator"); }
    else if (o.has[w] && chance(1, 6, "operator fails")) { g_opfail = 1; want = OPK_NOT_POSITIVE_DEFINITE; }
    opk_status st = w == 0 ? opk_apply_direct(po, pd, px) : w == 1 ? opk_apply_adjoint(po, pd, px) : opk_apply_inverse(po, pd, px); g_opfail = 0;
    if (st != want) return bad("R02.status", "operator returned status " + std::to_string(st) + ", " + std::to_string(want) + " expected");
    if (st != OPK_SUCCESS) return untouched(nullptr);
    Vec E(S[di].n), G(S[di].n); const Vec& X = V[x].m->v; for (int i = 0; i < S[di].n; ++i) { E[i] = (w == 0 ? 2 : w == 1 ? 3 : 0.5) * X[i % X.size()]; G[i] = std::fabs(E[i]); } expect(d, E, G, "operator"); resetbig(d);
  }
  void new_optim() {
    int sp = choose(S, "space of the optimizer"); if (sp < 0) return; Optim z; z.sp = sp; z.vm = chance(2, 3, "VMLMB"); last = "new optimizer";
    int l = chance(1, 2, "line search given") ? choose(L, "line search") : -1, b = -1; if (z.vm && chance(1, 2, "bounded")) { b = choose(B, "box"); if (b >= 0 && (B[b].sp != sp || !S[sp].box)) b = -1; }
    opk_vmlmb_options vo; opk_get_vmlmb_default_options(&vo); vo.mem = 1 + draw(3, "mem"); opk_nlcg_options no; opk_get_nlcg_default_options(&no); if (b >= 0) { vo.blmvm = draw(2, "blmvm") ? OPK_TRUE : OPK_FALSE; }
    if (z.vm && b < 0 && chance(1, 8, "box of another space")) { int q = choose(B, "foreign box"); if (q >= 0 && B[q].sp != sp) { errno = 0; long l0 = heap::live(); opk_vmlmb* p = opk_new_vmlmb_optimizer(&vo, S[sp].p, nullptr, B[q].p); if (p) bad("R02.invalid", "bounds of another space were accepted"); else if (errno != EINVAL) bad("R02.errno", "box of another space"); if (heap::live() != l0) bad("R02.leak", "refused optimizer left blocks"); return; } }
    arm(); opk_object* p = z.vm ? (opk_object*)opk_new_vmlmb_optimizer(&vo, S[sp].p, l >= 0 ? L[l].p : nullptr, b >= 0 ? B[b].p : nullptr) : (opk_object*)opk_new_nlcg_optimizer(&no, S[sp].p, l >= 0 ? L[l].p : nullptr);
    if (refused(p, "optimizer")) return; z.p = p; z.ls = l; z.bx = b; S[sp].deps++; if (l >= 0) L[l].holders++; if (b >= 0) B[b].holders++; Z.push_back(z);
  }
  void use_optim() {
    int k = choose(Z, "optimizer"); if (k < 0) return; auto& z = Z[k]; int x = vec_of(z.sp, "variables"), g = vec_of(z.sp, "gradient"); if (x < 0 || V[x].m == V[g].m) return; last = "use an optimizer"; int n = S[z.sp].n;
    if (z.bx >= 0) { auto& b = B[z.bx]; if ((b.lv >= 0 && (V[b.lv].m == V[x].m || V[b.lv].m == V[g].m)) || (b.uv >= 0 && (V[b.uv].m == V[x].m || V[b.uv].m == V[g].m))) return; for (int i = 0; i < n; ++i) if (!(lo(b, i) <= hi(b, i))) return; }
    resetbig(x);
    opk_task t = z.vm ? opk_start_vmlmb((opk_vmlmb*)z.p, V[x].p) : opk_start_nlcg((opk_nlcg*)z.p, V[x].p); int steps = (int)draw(6, "steps");
    for (int j = 0; j < steps && !failed(); ++j) { double f = 0; Vec X = values(V[x]); for (int i = 0; i < n; ++i) { double dd = X[i] - 0.5; f += (i + 1) * dd * dd; opk_vpoke(V[g].p, i, 2 * (i + 1) * dd); } V[g].m->v = values(V[g]); t = z.vm ? opk_iterate_vmlmb((opk_vmlmb*)z.p, V[x].p, f, V[g].p) : opk_iterate_nlcg((opk_nlcg*)z.p, V[x].p, f, V[g].p); untouched(V[x].m); if (t == OPK_TASK_ERROR || t == OPK_TASK_WARNING) break; }
    untouched(V[x].m); V[x].m->v = values(V[x]);
    for (auto& v : V) if (!v.dead && !tame(v.m->v)) { opk_vfill(v.p, 1); v.m->v.assign(S[v.sp].n, 1); }
    probe("optimizer used");
  }
  void hold_drop() {
    last = "hold or drop"; bool hold = chance(1, 4, "hold"); if (chance(1, 12, "NULL")) { if (opk_hold_object(nullptr) != nullptr || opk_get_object_references(nullptr) != 0) bad("R02.null", "NULL object"); opk_drop_object(nullptr); return; }
    switch (draw(6, "kind of object")) {
    case 0: { int k = choose(V, "vector"); if (k >= 0) act(hold, V[k].p, V[k].refs); break; } case 1: { int k = choose(S, "space"); if (k >= 0) act(hold, S[k].p, S[k].refs); break; } case 2: { int k = choose(B, "box"); if (k >= 0) act(hold, B[k].p, B[k].refs); break; }
    case 3: { int k = choose(L, "line search"); if (k >= 0) act(hold, L[k].p, L[k].refs); break; } case 4: { int k = choose(O, "operator"); if (k >= 0) act(hold, O[k].p, O[k].refs); break; } default: { int k = choose(Z, "optimizer"); if (k >= 0) act(hold, Z[k].p, Z[k].refs); } }
  }
  void act(bool hold, void* p, int& refs) {
    if (hold) { if (opk_hold_object((opk_object*)p) != p) bad("R02.hold", "hold does not return its argument"); refs++; return; }
    refs--; opk_drop_object((opk_object*)p); settle(); if (refs == 0) { count("last reference dropped"); if (life()) nontrivial(); }
  }
  void run(int steps) {
    new_space(); if (S.empty()) { new_space(); } for (int i = 0; i < 3 && !S.empty(); ++i) new_vector(choose(S, "space"));
    for (int i = 0; i < steps && !failed(); ++i) {
      static const unsigned W[4][11] = {{0}, {2, 4, 30, 1, 2, 3, 1, 2, 1, 1, 1}, {2, 5, 6, 12, 30, 3, 1, 0, 0, 1, 0}, {5, 12, 4, 6, 3, 25, 4, 5, 4, 7, 8}};
      unsigned tot = 0; for (unsigned w : W[mode]) tot += w; unsigned r = (unsigned)draw(tot, "action"); int a = 0; while (r >= W[mode][a]) r -= W[mode][a++];
      if (V.size() > 14 && a == 1) a = 5; if (S.size() > 5 && a == 0) a = 2;
      if (mode == 3 && a == 10) { rewrap(); } else
      switch (a) { case 0: new_space(); break; case 1: new_vector(choose(S, "space")); break; case 2: algebra(); break; case 3: new_box(); break; case 4: box_op(); break; case 5: hold_drop(); break; case 6: new_lnsrch(); break; case 7: new_oper(); break; case 8: oper_op(); break; case 9: chance(1, 2, "use") ? use_optim() : new_optim(); break; case 10: rewrap(); break; }
      settle(); audit(); if (!failed()) untouched(nullptr); ev(last.c_str(), a); state_token(mix(a, mix(V.size(), B.size())));
      if (tracing()) note("%s", last.c_str());
      for (size_t k = 0; k < V.size() && !failed(); ++k) if (!V[k].dead) ev_bytes("v", V[k].m->v.data(), V[k].m->v.size() * 8);
      if (mode == 2 && a == 5 && !failed()) for (size_t k = 0; k < V.size(); ++k) if (!V[k].dead && V[k].refs > 0 && chance(1, 4, "new values")) { bool shared = false; for (auto& b : B) if (!b.dead && (b.lv == (int)k || b.uv == (int)k)) shared = true; if (!shared) fill_random((int)k); }
    }
    if (failed()) return;
    // the caller releases everything, in a random order
    for (;;) { std::vector<std::pair<void*, int*>> a; auto add = [&](auto& q) { for (auto& t : q) if (!t.dead && t.refs > 0) a.push_back({(void*)t.p, &t.refs}); }; add(V); add(S); add(B); add(L); add(O); add(Z); if (a.empty()) break; auto& p = a[draw(a.size(), "next to drop")]; last = "final drops"; act(false, p.first, *p.second); audit(); if (failed()) return; }
    if (heap::live()) bad("R02.leak", std::to_string(heap::live()) + " blocks are still allocated although every reference was dropped");
  }
};
void run_world(int mode, int steps) { cstats() = CSpaceStats(); heap::reset(draw(64, "junk")); g_opfinal = 0; World w; w.mode = mode; w.run(1 + (int)draw(steps, "steps")); }
void run_V01() { run_world(1, 40); }
void run_V02() { run_world(2, 50); }
} void run_classes(); namespace {
void run_R02() { if (chance(1, 6, "classes of the caller")) return run_classes(); run_world(3, 60); }
const char* REAL_ = "algebra.c fltvector.c dblvector.c simple_vector.c vmlmb.c nlcg.c lnsrch.c utils.c";
const char* STUB_ = "caller and its memory (guarded pages), release callbacks, user-supplied vector space and operators, malloc/free (heap model)";
const char* RULE_ = "one evaluation = one random program over the object layer (one seed); it counts when the property's operations were exercised and the hash of its complete event log (operations and all vector values) is new";
Reg rv1({"V01", run_V01, 800000, 3000000, RULE_, REAL_, STUB_});
Reg rv2({"V02", run_V02, 600000, 3000000, RULE_, REAL_, STUB_});
Reg rr2({"R02", run_R02, 500000, 3000000, RULE_, REAL_, STUB_});
}
