// R02, second part: classes implemented by the caller. Objects, vector spaces, vectors, convex sets, line searches and
// operators whose methods are simulated; the library must initialize, count, dispatch and destroy them as documented.
#include "sim.h"
#include "opkpriv.h"
#include <cerrno>
#include <algorithm>
#include <deque>
using namespace sim;
namespace {
enum K { OBJ, SPACE, VEC, SET, LS, OP, NK };
const char* const KN[NK] = {"object", "vector space", "vector", "convex set", "line search", "operator"};
struct It { void* p = nullptr; int kind = 0; size_t size = 0, base = 0; int refs = 1, holders = 0; bool dead = false, fin = false; int a = -1, b = -1, own = -1; int mask = 0; long finals = 0, due = 0; };
struct W; W* g_w;
struct Hook { int which = -1; void *dst = nullptr, *self = nullptr; const void *x = nullptr, *d = nullptr; double *s1 = nullptr, *s2 = nullptr, *s3 = nullptr; int orient = 0; long calls = 0; opk_status ret = OPK_SUCCESS; } g_h;
opk_status hook(int w, void* dst, const void* x, const void* self, const void* d, int o, double* a = nullptr, double* b = nullptr, double* c = nullptr) { g_h.which = w; g_h.dst = dst; g_h.x = x; g_h.self = (void*)self; g_h.d = d; g_h.orient = o; g_h.s1 = a; g_h.s2 = b; g_h.s3 = c; ++g_h.calls; return g_h.ret; }
opk_status projvar(opk_vector* dst, const opk_vector* x, const opk_convexset* s) { return hook(0, dst, x, s, nullptr, 0); }
opk_status projdir(opk_vector* dst, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { return hook(1, dst, x, s, d, o); }
opk_status freevar(opk_vector* dst, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { return hook(2, dst, x, s, d, o); }
opk_status steplim(double* a, double* b, double* c, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { return hook(3, nullptr, x, s, d, o, a, b, c); }
opk_status direct(opk_operator* self, opk_vector* dst, const opk_vector* x) { return hook(4, dst, x, self, nullptr, 0); }
opk_status adjoint(opk_operator* self, opk_vector* dst, const opk_vector* x) { return hook(5, dst, x, self, nullptr, 0); }
opk_status inverse(opk_operator* self, opk_vector* dst, const opk_vector* x) { return hook(6, dst, x, self, nullptr, 0); }
opk_lnsrch_task lstart(opk_lnsrch* self) { hook(7, nullptr, nullptr, self, nullptr, 0); self->task = OPK_LNSRCH_SEARCH; return OPK_LNSRCH_SEARCH; }
opk_lnsrch_task literate(opk_lnsrch* self, double* stp, double f, double df) { hook(8, nullptr, nullptr, self, nullptr, 0); self->task = OPK_LNSRCH_CONVERGENCE; return OPK_LNSRCH_CONVERGENCE; }
void finalized(void* p, int kind, const void* ctx = nullptr);
void fin_obj(opk_object* o) { finalized(o, OBJ); }
void fin_space(opk_vspace* s) { finalized(s, SPACE); }
void fin_vec(opk_vspace* s, opk_vector* v) { finalized(v, VEC, s); }
void fin_set(opk_convexset* s) { finalized(s, SET); }
void fin_ls(opk_lnsrch* s) { finalized(s, LS); }
void fin_op(opk_operator* s) { finalized(s, OP); }
double peek(const opk_vspace* s, const opk_vector* v, opk_index k) { hook(9, nullptr, v, s, nullptr, (int)k); return 100 + k; }
void poke(const opk_vspace* s, opk_vector* v, opk_index k, double x) { hook(10, v, nullptr, s, nullptr, (int)k); }
void import(const opk_vspace* s, opk_vector* v, const void* src, opk_eltype t) { hook(11, v, src, s, nullptr, (int)t); }
void exporter(const opk_vspace* s, void* dst, opk_eltype t, const opk_vector* v) { hook(12, dst, v, s, nullptr, (int)t); }
const opk_vspace_operations* vops(int mask) { static opk_vspace_operations t[8]; auto& o = t[mask]; o.description = "caller's"; o.finalize_space = mask & 1 ? fin_space : nullptr; o.finalize_vector = fin_vec; o.peek = peek; o.poke = poke; o.import = mask & 2 ? import : nullptr; o.export_ = mask & 4 ? exporter : nullptr; return &o; }
opk_lnsrch_operations* lops(int mask) { static opk_lnsrch_operations t[16]; auto& o = t[mask]; o.finalize = mask & 1 ? fin_ls : nullptr; o.start = mask & 4 ? nullptr : lstart; o.iterate = mask & 8 ? nullptr : literate; o.use_deriv = mask & 2 ? OPK_TRUE : OPK_FALSE; o.reset = nullptr; return &o; }
const opk_operator_operations* oops(int mask) { static opk_operator_operations t[16]; auto& o = t[mask]; o.finalize = mask & 8 ? fin_op : nullptr; o.apply_direct = mask & 1 ? direct : nullptr; o.apply_adjoint = mask & 2 ? adjoint : nullptr; o.apply_inverse = mask & 4 ? inverse : nullptr; return &o; }

struct W {
  std::deque<It> I; std::string last;
  void bad(const char* o, const std::string& t) { fail(o, "%s; at: %s", t.c_str(), last.c_str()); }
  unsigned char pat(int k, size_t i) const { return (unsigned char)mix(k * 1315423911u + 7, i); }
  It* find(const void* p) { for (auto& i : I) if (i.p == p && !i.dead) return &i; return nullptr; }
  int pickk(int kind, const char* tag) { std::vector<int> q; for (size_t i = 0; i < I.size(); ++i) if (!I[i].dead && I[i].refs > 0 && (kind < 0 || I[i].kind == kind)) q.push_back((int)i); return q.empty() ? -1 : q[draw(q.size(), tag)]; }
  void on_final(void* p, int kind, const void* ctx) {
    It* i = find(p); if (!i) return bad("R02.finalize", std::string("the destructor of a ") + KN[kind] + " was called for something else");
    ++i->finals; if (i->kind != kind || !i->fin) return bad("R02.finalize", "a destructor was called for an object of another class");
    if (!heap::is_live(p)) return bad("R02.finalize", "a destructor was called for an object already released");
    if (kind == VEC && ctx != I[i->a].p) return bad("R02.finalize", "the destructor of a vector was called with another space");
    for (int d : {i->a, i->b}) if (d >= 0 && !heap::is_live(I[d].p)) return bad("R02.finalize", std::string("an object the ") + KN[kind] + " depends on was released before its destructor was called");
    if (kind == SPACE) { int me = index(*i); for (auto& v : I) if ((v.a == me || v.b == me) && v.fin && !v.finals) return bad("R02.finalize", "a vector space is destroyed before what belongs to it"); }
    extra(*i); int o = i->own; i->own = -1; if (o >= 0) opk_drop_object((opk_object*)I[o].p); // memory allocated by the class is released by its destructor
  }
  void extra(It& i) { unsigned char* b = (unsigned char*)i.p; int id = index(i); for (size_t k = i.base; k < i.size; ++k) if (b[k] != pat(id, k)) return bad("R02.extra", std::string("the members of the derived class of a ") + KN[i.kind] + " were changed"); }
  int index(const It& i) { for (size_t k = 0; k < I.size(); ++k) if (&I[k] == &i) return (int)k; return -1; }
  void settle() { // the model of what must have been destroyed
    for (bool again = true; again;) { again = false; for (auto& i : I) if (!i.dead && i.refs <= 0 && i.holders <= 0) { i.dead = again = true; if (i.fin) i.due = 1; for (int d : {i.a, i.b}) if (d >= 0) I[d].holders--; if (i.fin && owned[index(i)] >= 0) I[owned[index(i)]].holders--; } } }
  std::deque<int> owned; // what each one owned at first
  void audit() {
    if (failed()) return;
    for (size_t k = 0; k < I.size(); ++k) { auto& i = I[k]; std::string n = std::string(KN[i.kind]) + " " + std::to_string(k);
      if (i.finals != i.due) return bad("R02.finalize", "the destructor of " + n + " was called " + std::to_string(i.finals) + " times, " + std::to_string(i.due) + " expected");
      if (heap::is_live(i.p) == i.dead && !(i.dead && find(i.p))) return bad("R02.lifetime", n + (i.dead ? " is still allocated" : " was released too early"));
      if (!i.dead) { if (opk_get_object_references((opk_object*)i.p) != i.refs + i.holders) return bad("R02.refs", n + " has " + std::to_string(opk_get_object_references((opk_object*)i.p)) + " references, " + std::to_string(i.refs + i.holders) + " expected"); extra(i); } }
    std::string why; if (!heap::check(&why)) bad("R02.heap", why);
  }
  size_t base_of(int k) { return k == OBJ ? sizeof(opk_object) : k == SPACE ? sizeof(opk_vspace) : k == VEC ? sizeof(opk_vector) : k == SET ? sizeof(opk_convexset) : k == LS ? sizeof(opk_lnsrch) : sizeof(opk_operator); }
  void create() {
    int kind = (int)draw(NK, "class"); It i; i.kind = kind; i.base = base_of(kind); size_t n = 0; switch (draw(4, "size")) { case 0: n = i.base; break; case 1: n = draw(i.base, "smaller"); break; default: n = i.base + draw(80, "extra bytes"); } i.size = std::max(n, i.base);
    i.mask = (int)draw(16, "methods") ^ 15; int sp = pickk(SPACE, "space"), sq = pickk(SPACE, "other space"); last = std::string("create a ") + KN[kind] + " of " + std::to_string(n) + " bytes";
    long l0 = heap::live(), dim = 1 + (long)draw(5, "dimension-1"); void* p = nullptr; bool wrong = chance(1, 10, "invalid arguments"); int want = 0, mask = i.mask; bool oom = !wrong && chance(1, 8, "allocation fails"); long f0 = heap::failures(); errno = 0; if (oom) heap::fail_at(1);
    switch (kind) {
    case OBJ: i.fin = mask & 1; p = opk_allocate_object(i.fin ? fin_obj : nullptr, n); break;
    case SPACE: i.fin = mask & 1; if (wrong) { dim = pick<long>({0, -1, -1000000}, "wrong dimension"); want = EINVAL; } p = opk_allocate_vector_space(vops(mask & 7), dim, n); break;
    case VEC: i.fin = true; i.a = sp; if (sp < 0) break; p = opk_allocate_vector((opk_vspace*)I[sp].p, n); break;
    case SET: i.fin = chance(2, 3, "destructor"); i.a = sp; if (wrong) want = EFAULT; else if (sp < 0) break; p = opk_allocate_convexset(wrong ? nullptr : (opk_vspace*)I[sp].p, i.fin ? fin_set : nullptr, mask & 1 ? projvar : nullptr, mask & 2 ? projdir : nullptr, mask & 4 ? freevar : nullptr, mask & 8 ? steplim : nullptr, n); break;
    case LS: i.fin = mask & 1; mask &= 3; if (wrong) { want = EFAULT; int q = (int)draw(4, "missing method"); p = opk_allocate_line_search(q ? lops(mask | q * 4) : nullptr, n); } else p = opk_allocate_line_search(lops(mask), n); i.mask = mask; break;
    case OP: i.fin = (mask & 8) != 0; i.a = sp; i.b = sq; if (sp < 0) break; if (wrong) { want = EFAULT; int q = (int)draw(3, "which"); p = opk_allocate_operator(oops(mask), q != 1 ? nullptr : (opk_vspace*)I[sp].p, q != 2 ? nullptr : (opk_vspace*)I[sq].p, n); } else p = opk_allocate_operator(oops(mask), (opk_vspace*)I[sp].p, (opk_vspace*)I[sq].p, n); break;
    }
    int e = errno; heap::fail_at(0); bool hit = heap::failures() > f0;
    if (want) { fault("invalid arguments of a class"); if (p) return bad("R02.invalid", "an object was created in spite of invalid arguments"); if (e != want && !(kind == LS && e == EINVAL)) return bad("R02.errno", "errno " + std::to_string(e) + " for invalid arguments, " + std::to_string(want) + " expected"); if (heap::live() != l0) bad("R02.leak", "blocks left by a refused creation"); return; }
    if (hit) { fault("allocation failure"); nontrivial(); if (p) return bad("R02.dangling", "an object was created without memory"); if (e != ENOMEM) return bad("R02.errno", "errno " + std::to_string(e) + " without memory"); if (heap::live() != l0) bad("R02.leak", "blocks left by a failed creation"); return; }
    if (!p) { if (((kind == VEC || kind == SET || kind == OP) && sp < 0)) return; return bad("R02.refused", "the creation failed"); }
    if (!heap::is_live(p) || heap::block_size(p) < i.size) return bad("R02.size", "the object is made of " + std::to_string(heap::block_size(p)) + " bytes, " + std::to_string(i.size) + " are needed");
    unsigned char* b = (unsigned char*)p; for (size_t k = i.base; k < i.size; ++k) if (b[k]) return bad("R02.zero", "the extra bytes are not zero");
    if (kind == SPACE && ((opk_vspace*)p)->size != dim) return bad("R02.members", "wrong dimension"); if (kind == VEC && ((opk_vector*)p)->owner != I[sp].p) return bad("R02.members", "wrong owner");
    if (kind == LS) { opk_lnsrch* l = (opk_lnsrch*)p; if (opk_lnsrch_get_task(l) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(l) != OPK_NOT_STARTED || (opk_lnsrch_use_deriv(l) != 0) != ((mask & 2) != 0)) return bad("R02.members", "a new line search has task " + std::to_string(opk_lnsrch_get_task(l)) + " and status " + std::to_string(opk_lnsrch_get_status(l))); }
    i.p = p; int id = (int)I.size(); for (size_t k = i.base; k < i.size; ++k) b[k] = pat(id, k);
    for (int d : {i.a, i.b}) if (d >= 0) I[d].holders++;
    if (i.fin && chance(1, 3, "owns another object")) { int o = pickk(-1, "owned"); if (o >= 0) { opk_hold_object((opk_object*)I[o].p); I[o].holders++; i.own = o; probe("destructor releases another object"); } }
    owned.push_back(i.own); I.push_back(i);
  }
  opk_status some() { return pick<opk_status>({OPK_SUCCESS, OPK_SUCCESS, OPK_NOT_POSITIVE_DEFINITE, OPK_NOT_IMPLEMENTED, OPK_INFEASIBLE_BOUNDS, OPK_INSUFFICIENT_MEMORY, OPK_BAD_SPACE}, "status of the method"); }
  int vec_in(int sp, const char* tag) { std::vector<int> q; for (size_t i = 0; i < I.size(); ++i) if (!I[i].dead && I[i].refs > 0 && I[i].kind == VEC && I[i].a == sp) q.push_back((int)i); return q.empty() ? -1 : q[draw(q.size(), tag)]; }
  // dispatch to the methods: with NULL arguments, vectors of other spaces, or missing methods
  void call() {
    int kind = pick<int>({SET, OP, VEC, LS}, "class"); int k = pickk(kind, "which"); if (k < 0) return; It& i = I[k]; g_h = Hook(); g_h.ret = some(); opk_status st = OPK_SUCCESS, want = g_h.ret; int which = -1; last = std::string("call a method of a ") + KN[kind];
    if (kind == VEC) { opk_vector* v = (opk_vector*)i.p; opk_vspace* s = (opk_vspace*)I[i.a].p; int m = I[i.a].mask; long n = s->size; double d[8] = {0, 0, 0, 0, 0, 0, 0, 0}; int w = (int)draw(4, "access"); long idx = (long)draw(n, "index"); opk_eltype t = chance(1, 2, "single") ? OPK_FLOAT : OPK_DOUBLE; int mis = chance(1, 3, "misuse") ? 1 + (int)draw(3, "which misuse") : 0; want = OPK_SUCCESS; which = 9 + w;
      if (w < 2) { if (mis == 1) { idx = pick<long>({n, -1, n + 1000, -1000}, "bad index"); want = OPK_OUT_OF_BOUNDS_INDEX; } else if (mis) { want = OPK_ILLEGAL_ADDRESS; } st = w == 0 ? opk_vpeek(mis == 2 ? nullptr : v, idx, mis == 3 ? nullptr : d) : opk_vpoke(mis > 1 ? nullptr : v, idx, 3); if (!st && w == 0 && d[0] != 100 + idx) return bad("R02.dispatch", "opk_vpeek does not give what the method gives"); if (!st && g_h.orient != idx) return bad("R02.dispatch", "wrong index"); }
      else { bool have = m & (w == 2 ? 2 : 4); long nn = n; void* a = d; opk_vector* vv = v; if (!have) want = OPK_NOT_IMPLEMENTED; if (mis == 1) { nn += chance(1, 2, "less") ? -1 : 1; want = OPK_INVALID_ARGUMENT; } if (mis == 2) { t = (opk_eltype)pick<int>({-1, 2, 77}, "bad type"); want = OPK_INVALID_ARGUMENT; if (t == OPK_FLOAT || t == OPK_DOUBLE) { t = (opk_eltype)77; } } if (mis == 3) { if (chance(1, 2, "NULL vector")) vv = nullptr; else a = nullptr; want = OPK_ILLEGAL_ADDRESS; }
        st = w == 2 ? opk_vimport(vv, a, t, nn) : opk_vexport(a, t, nn, vv); if (!st && (g_h.orient != (int)t || (w == 2 ? g_h.x : g_h.dst) != d)) return bad("R02.dispatch", "wrong arguments for the method"); }
      if (!st && ((w & 1) ^ (w > 1) ? g_h.dst != v && w != 3 : g_h.x != v && w != 2)) return bad("R02.dispatch", "wrong vector for the method"); if (!st && g_h.self != s) return bad("R02.dispatch", "wrong space for the method");
      if (mis) fault("misuse of a vector of a class of the caller"); }
    else if (kind == LS) { opk_lnsrch* l = (opk_lnsrch*)i.p; double stp = 1; bool on = opk_lnsrch_get_task(l) == OPK_LNSRCH_SEARCH; if (chance(1, 2, "start")) { int t = opk_lnsrch_start(l, 1, -1, 1, 0, 10); which = 7; if (t != OPK_LNSRCH_SEARCH || opk_lnsrch_get_task(l) != t) return bad("R02.dispatch", "start"); } else { if (on) which = 8; int t = opk_lnsrch_iterate(l, &stp, 1, -1); if (t != (on ? OPK_LNSRCH_CONVERGENCE : OPK_LNSRCH_ERROR)) return bad("R02.dispatch", "iterate"); if (!on && opk_lnsrch_get_status(l) != OPK_NOT_STARTED) return bad("R02.dispatch", "status of a line search which was not started"); if (!on) fault("method called out of turn"); }
      if (which >= 0 ? g_h.calls != 1 || g_h.which != which || g_h.self != l : g_h.calls != 0) return bad("R02.dispatch", "wrong method of a line search"); nontrivial(); return; }
    else { int w = (int)draw(kind == SET ? 4 : 3, "method"); int si = kind == SET ? i.a : w ? i.b : i.a, di = kind == SET ? i.a : w ? i.a : i.b; int x = vec_in(si, "source"), d = vec_in(di, "destination"), e = kind == SET ? vec_in(si, "direction") : x; if (x < 0 || d < 0 || e < 0) return; which = (kind == SET ? 0 : 4) + w; bool have = i.mask >> w & 1; if (!have) want = OPK_NOT_IMPLEMENTED;
      opk_vector *pd = (opk_vector*)I[d].p, *px = (opk_vector*)I[x].p, *pe = (opk_vector*)I[e].p; void* self = i.p; bool usesd = kind == OP || w != 3, usese = kind == SET && w != 0; int o = chance(1, 2, "descent") ? OPK_DESCENT : OPK_ASCENT; double lim[3] = {-7, -7, -7}; double *l1 = chance(1, 6, "NULL 1") ? nullptr : lim, *l2 = chance(1, 6, "NULL 2") ? nullptr : lim + 1, *l3 = chance(1, 6, "NULL 3") ? nullptr : lim + 2;
      if (chance(1, 4, "misuse")) { int q = (int)draw(4, "argument"), f = chance(1, 2, "vector of another space") ? pickk(VEC, "foreign") : -1; opk_vector* z = f >= 0 ? (opk_vector*)I[f].p : nullptr; int owner = f >= 0 ? I[f].a : -1; bool is = true;
        if (q == 0) { self = nullptr; z = nullptr; f = -1; } else if (q == 1) { if (!usesd) is = false; else { if (owner == di) z = nullptr, f = -1; pd = z; } } else if (q == 2) { if (owner == si) z = nullptr, f = -1; px = z; } else { if (!usese) is = false; else { if (owner == si) z = nullptr, f = -1; pe = z; } }
        if (is) { want = f >= 0 ? OPK_BAD_SPACE : OPK_ILLEGAL_ADDRESS; have = false; fault("misuse of a method of the caller"); } }
      if (kind == SET) { opk_convexset* s = (opk_convexset*)self; st = w == 0 ? opk_project_variables(pd, px, s) : w == 1 ? opk_project_direction(pd, px, s, pe, (opk_orientation)o) : w == 2 ? opk_get_free_variables(pd, px, s, pe, (opk_orientation)o) : opk_get_step_limits(l1, l2, l3, px, s, pe, (opk_orientation)o);
        opk_convexset* t = (opk_convexset*)i.p; if (opk_can_project_variables(t) != (i.mask & 1) || (opk_can_project_directions(t) != 0) != ((i.mask & 2) != 0) || (opk_can_get_free_variables(t) != 0) != ((i.mask & 4) != 0) || (opk_can_get_step_limits(t) != 0) != ((i.mask & 8) != 0) || opk_can_project_variables(nullptr) || opk_can_project_directions(nullptr) || opk_can_get_free_variables(nullptr) || opk_can_get_step_limits(nullptr)) return bad("R02.abilities", "what a convex set can do is not what its methods are"); }
      else { opk_operator* s = (opk_operator*)self; st = w == 0 ? opk_apply_direct(s, pd, px) : w == 1 ? opk_apply_adjoint(s, pd, px) : opk_apply_inverse(s, pd, px); }
      if (have && (g_h.x != px || g_h.self != self || (usesd && g_h.dst != pd) || (usese && (g_h.d != pe || g_h.orient != o)) || (which == 3 && (g_h.s1 != l1 || g_h.s2 != l2 || g_h.s3 != l3)))) return bad("R02.dispatch", "wrong arguments for the method");
      nontrivial(); }
    if (st != want) return bad("R02.status", "status " + std::to_string(st) + ", " + std::to_string(want) + " expected");
    bool called = kind == VEC ? st == OPK_SUCCESS : false; if (kind == VEC) { if (g_h.calls != (called ? 1 : 0) || (called && g_h.which != which)) return bad("R02.dispatch", "wrong method of a vector space"); }
    else if (st == OPK_SUCCESS && (g_h.calls != 1 || g_h.which != which)) return bad("R02.dispatch", "wrong method"); else if (g_h.calls > 1 || (g_h.calls == 1 && g_h.which != which)) return bad("R02.dispatch", "wrong method");
  }
  void act(bool hold, int k) { It& i = I[k]; if (hold) { if (opk_hold_object((opk_object*)i.p) != i.p) bad("R02.hold", "hold does not return its argument"); i.refs++; return; } i.refs--; settle(); opk_drop_object((opk_object*)i.p); if (!i.refs) { nontrivial(); } }
  void run(int steps) {
    for (int s = 0; s < steps && !failed(); ++s) { int w = (int)draw(10, "action"); if (I.size() > 24 && w < 4) w = 9; if (w < 4) create(); else if (w < 7) call(); else { int k = pickk(-1, "object"); if (k >= 0) { bool h = chance(1, 3, "hold"); last = std::string(h ? "hold" : "drop") + " a " + KN[I[k].kind]; act(h, k); } }
      settle(); audit(); ev(last.c_str(), w, I.size()); state_token(mix(w, I.size())); if (tracing()) note("%s", last.c_str()); }
    while (!failed()) { int k = pickk(-1, "next to drop"); if (k < 0) break; last = std::string("final drop of a ") + KN[I[k].kind]; act(false, k); settle(); audit(); }
    if (!failed() && heap::live()) bad("R02.leak", std::to_string(heap::live()) + " blocks are still allocated although every reference was dropped");
  }
};
void finalized(void* p, int kind, const void* ctx) { if (g_w) { // dead in the model already (the drop which caused this comes after)
    for (size_t k = g_w->I.size(); k-- > 0;) if (auto& i = g_w->I[k]; i.p == p && i.finals == 0) { bool d = i.dead; i.dead = false; g_w->on_final(p, kind, ctx); i.dead = d; return; }
    g_w->bad("R02.finalize", std::string("the destructor of a ") + KN[kind] + " was called twice or for something else"); } }
}
void run_classes() { heap::reset(draw(64, "junk")); probe("classes of the caller"); W w; g_w = &w; w.run(4 + (int)draw(50, "steps")); g_w = nullptr; }
