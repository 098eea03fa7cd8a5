// R01: running out of memory.
#include "lm.h"
#include <cerrno>
#include <memory>
#include <algorithm>
extern "C" {
#include "newuoa.h"
#include "cobyla.h"
}
using namespace sim;
using namespace lm;
namespace {
std::string why_diff(const std::vector<Rec>& a, const std::vector<Rec>& b) {
  size_t n = std::min(a.size(), b.size()); for (size_t k = 0; k < n; ++k) if (!(a[k] == b[k])) return "call " + std::to_string(k) + " differs";
  return a.size() == b.size() ? "" : "lengths differ";
}
long refs(const void* p) { return p ? (long)opk_get_object_references((opk_object*)p) : 0; }
void heap_ok(const Plan& p) { std::string w; if (!heap::check(&w)) fail("R01.heap", "%s; plan: %s", w.c_str(), p.text().c_str()); }

void powell() {
  int n = 2 + (int)draw(4, "n-2"), npt = 2 * n + 1, m = (int)draw(4, "constraints"); bool cob = chance(1, 2, "COBYLA"); heap::reset(draw(8, "junk"));
  bool fa = chance(1, 2, "no memory"); if (fa) heap::fail_at(1); errno = 0;
  void* c = cob ? (void*)cobyla_create(n, m, 1, 1e-3, 0, 100) : (void*)newuoa_create(n, npt, 1, 1e-3, 0, 100); heap::fail_at(0);
  if (fa) { fault("allocation failure"); nontrivial(); if (c) fail("R01.context", "%s_create returned a context without memory", cob ? "cobyla" : "newuoa"); else if (errno != ENOMEM) fail("R01.errno", "%s_create fails without memory with errno %d", cob ? "cobyla" : "newuoa", errno); if (heap::live()) fail("R01.leak", "blocks left"); if (failed()) return; c = cob ? (void*)cobyla_create(n, m, 1, 1e-3, 0, 100) : (void*)newuoa_create(n, npt, 1, 1e-3, 0, 100); }
  if (!c) { fail("R01.context", "no context although there is memory"); return; }
  // a few evaluations must not allocate anything
  Guarded x(8 * n, true, 0), con(8 * (m + 1), true, 0); for (int i = 0; i < n; ++i) x.as<double>()[i] = sreal(2, "x0", 16);
  heap::fail_from(1); long f0 = heap::failures();
  for (int k = 0; k < 30; ++k) { double f = 0; for (int i = 0; i < n; ++i) { double t = x.as<double>()[i] - i; f += t * t; } for (int i = 0; i < m; ++i) con.as<double>()[i] = x.as<double>()[i % n] + 1;
    int st = cob ? (int)cobyla_iterate((cobyla_context*)c, f, x.as<double>(), con.as<double>()) : (int)newuoa_iterate((newuoa_context*)c, f, x.as<double>()); if (st != (cob ? (int)COBYLA_ITERATE : (int)NEWUOA_ITERATE)) { if (st != (cob ? (int)COBYLA_SUCCESS : (int)NEWUOA_SUCCESS)) fail("R01.iterate", "%s stops with status %d when there is no memory after the creation", cob ? "cobyla" : "newuoa", st); break; } }
  heap::fail_from(0); if (heap::failures() > f0) probe("allocation during iterations");
  if (cob) cobyla_delete((cobyla_context*)c); else newuoa_delete((newuoa_context*)c);
  if (heap::live()) fail("R01.leak", "%ld blocks are still allocated after the context was deleted", heap::live()); std::string w; if (!heap::check(&w)) fail("R01.heap", "%s", w.c_str());
  ev("powell", n, cob, fa);
}

void during() { // memory runs out during some calls of a running optimization
  Gen G; G.pfault = 0; G.pact = 0; G.max_eval = 60; Plan p = draw_plan(G); p.ef.clear(); p.act.clear(); note("plan %s", p.text().c_str());
  heap::reset(p.junk); std::vector<Rec> ref; { Session s(p); if (!s.open()) return; s.run(); ref = s.hist; }
  long a = 1 + draw(20, "first call without memory"), len = 1 + draw(5, "calls without memory");
  heap::reset(p.junk); { Session s(p); if (!s.open()) { fail("R01.retry", "the constructor refused what it had accepted; plan: %s", p.text().c_str()); return; }
    long l0 = heap::live(); bool hit = false; long k = 0;
    for (;;) { bool in = k >= a && k < a + len; long f0 = heap::failures(); if (in) heap::fail_from(1); bool more = s.step(); heap::fail_from(0); ++k; if (in) fault("no memory during a call"); nontrivial();
      if (in && heap::failures() > f0) { hit = true; if (!s.hist.empty() && s.hist.back().task == OPK_TASK_ERROR) { if (s.hist.back().status != OPK_INSUFFICIENT_MEMORY) fail("R01.status", "a call failed for lack of memory with status %d; plan: %s", s.hist.back().status, p.text().c_str()); probe("call refused for lack of memory"); break; } }
      if (!more) break; }
    if (!hit) { std::string w = why_diff(ref, s.hist); if (!w.empty()) fail("R01.silent", "the results differ although no allocation was refused: %s; plan: %s", w.c_str(), p.text().c_str()); probe("calls do not need memory"); }
    (void)l0; s.close(); if (heap::live()) fail("R01.leak", "%ld blocks left after everything was released; plan: %s", heap::live(), p.text().c_str()); }
  heap_ok(p);
}

void construct() { // each allocation of the constructors may be refused
  Gen G; G.pfault = 0; G.pact = 0; G.max_eval = 25; Plan p = draw_plan(G); p.ef.clear(); p.act.clear(); if (chance(1, 4, "all on the caller's side dropped")) p.junk |= 4;
  bool shared = p.api != 0 && chance(1, 2, "objects given by the caller"); note("plan %s", p.text().c_str());
  heap::reset(p.junk); std::vector<Rec> ref; long A;
  { Session s(p); bool ok = s.open(); A = heap::allocs(); if (!ok) return; s.run(); ref = s.hist; }
  if (heap::live()) { fail("R01.leak", "%ld blocks left without any fault; plan: %s", heap::live(), p.text().c_str()); return; }
  nontrivial();
  heap::reset(p.junk);
  if (!shared) {
    int tries = 1 + (int)draw(3, "failures in a row-1");
    for (int t = 0; t < tries && !failed(); ++t) {
      long k = 1 + draw(A, "allocation refused"); bool from = chance(1, 3, "and all the next ones"); long f0 = heap::failures();
      if (from) heap::fail_from(k); else heap::fail_at(k);
      { Session s(p); errno = 0; bool ok = s.open(); int e = errno; heap::fail_at(0); heap::fail_from(0); bool hit = heap::failures() > f0; if (hit) fault("allocation failure in a constructor");
        if (!ok && !hit) fail("R01.retry", "the constructor refused what it had accepted; plan: %s", p.text().c_str());
        if (!ok && e != ENOMEM) fail("R01.errno", "allocation %ld of %ld refused: the constructor fails with errno %d; plan: %s", k, A, e, p.text().c_str());
        if (ok && hit) { probe("constructor survived an allocation failure"); s.run(); std::string w = why_diff(ref, s.hist); if (!w.empty()) fail("R01.silent", "allocation %ld of %ld refused: the constructor succeeded but the optimizer behaves differently: %s; plan: %s", k, A, w.c_str(), p.text().c_str()); }
        if (!ok) probe("constructor refused"); }
      if (heap::live()) fail("R01.leak", "allocation %ld of %ld refused: %ld blocks left; plan: %s", k, A, heap::live(), p.text().c_str());
      heap_ok(p);
    }
    if (failed()) return;
    Session s(p); if (!s.open()) { fail("R01.retry", "the constructor still fails when there is memory again; plan: %s", p.text().c_str()); return; } s.run(); std::string w = why_diff(ref, s.hist); if (!w.empty()) fail("R01.retry", "after failed constructions the optimizer behaves differently: %s; plan: %s", w.c_str(), p.text().c_str());
  } else {
    // the caller's objects must survive the failed constructor with the same references
    opk_vspace* vs = p.api == 3 ? new_cspace(p.n, p.layout, true) : p.single ? opk_new_simple_float_vector_space(p.n) : opk_new_simple_double_vector_space(p.n);
    opk_lnsrch* ls = make_ls(p.ls); opk_convexset* box = nullptr; Session own(p); own.use_vs = vs; if (p.bounded()) { if (!own.open()) { fail("R01.retry", "cannot build the box; plan: %s", p.text().c_str()); return; } box = own.box; if (!box) { own.close(); opk_drop_object((opk_object*)ls); opk_drop_object((opk_object*)vs); return; } OPK_DROP(own.vmo); own.vmo = nullptr; }
    long rv = refs(vs), rl = refs(ls), rb = refs(box), live0 = heap::live(); opk_vmlmb_options vo = p.vo; opk_nlcg_options no = p.no;
    auto make = [&]() -> opk_object* { return p.vm ? (opk_object*)opk_new_vmlmb_optimizer(p.opts_null ? nullptr : &vo, vs, ls, box) : (opk_object*)opk_new_nlcg_optimizer(p.opts_null ? nullptr : &no, vs, ls); };
    long a0 = heap::allocs(); opk_object* o = make(); long n = heap::allocs() - a0; if (!o) { fail("R01.retry", "constructor failed; plan: %s", p.text().c_str()); return; } opk_drop_object(o);
    if (refs(vs) != rv || refs(ls) != rl || refs(box) != rb || heap::live() != live0) fail("R01.refs", "creating and dropping an optimizer changes the references of the given objects; plan: %s", p.text().c_str());
    for (int t = 0; t < 3 && !failed(); ++t) { long k = 1 + draw(n, "allocation refused"), f0 = heap::failures(); if (chance(1, 3, "and all the next ones")) heap::fail_from(k); else heap::fail_at(k); errno = 0; o = make(); int e = errno; heap::fail_at(0); heap::fail_from(0); if (heap::failures() > f0) fault("allocation failure in a constructor");
      if (o) { probe("constructor survived an allocation failure"); opk_drop_object(o); } else if (e != ENOMEM) fail("R01.errno", "allocation %ld of %ld refused: errno %d; plan: %s", k, n, e, p.text().c_str());
      if (refs(vs) != rv || refs(ls) != rl || refs(box) != rb) fail("R01.refs", "allocation %ld of %ld refused: references of the caller's objects went from %ld %ld %ld to %ld %ld %ld; plan: %s", k, n, rv, rl, rb, refs(vs), refs(ls), refs(box), p.text().c_str());
      else if (heap::live() != live0) fail("R01.leak", "allocation %ld of %ld refused: %ld blocks left; plan: %s", k, n, heap::live() - live0, p.text().c_str());
      heap_ok(p); }
    if (failed()) return; probe("objects of the caller survive");
    Session s(p); s.use_vs = vs; if (box) s.use_box = box; if (!s.open()) fail("R01.retry", "constructor still fails; plan: %s", p.text().c_str()); else { s.run(); std::string w = why_diff(ref, s.hist); if (!w.empty()) fail("R01.retry", "after failed constructions the optimizer behaves differently: %s; plan: %s", w.c_str(), p.text().c_str()); }
    s.close(); own.close(); opk_drop_object((opk_object*)ls); opk_drop_object((opk_object*)vs); if (heap::live()) fail("R01.leak", "%ld blocks left; plan: %s", heap::live(), p.text().c_str());
  }
}
void run_R01() { cstats() = CSpaceStats(); switch (draw(8, "scenario")) { case 7: powell(); break; case 5: case 6: during(); break; default: construct(); } }
Reg rr1({"R01", run_R01, 800000, 4000000, "one evaluation = one simulated run (one seed) in which allocations of the library are refused at seeded moments; it counts when the fault took effect and the hash of its complete event log is new", "driver.c vmlmb.c nlcg.c lnsrch.c algebra.c fltvector.c dblvector.c simple_vector.c newuoa.c cobyla.c", "malloc/free (heap model), caller, objective functions, user-supplied vector space"});
}
