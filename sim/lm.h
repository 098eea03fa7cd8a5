// Simulated callers of the limited-memory optimizers.
#pragma once
#include "sim.h"
#include "opkpriv.h"
#include <memory>

namespace lm {
typedef std::vector<double> Vec;
static const double INF = std::numeric_limits<double>::infinity();

// ------------------------------------------------------------- objectives
struct Obj {
  int family = 0, n = 1;
  Vec a, c, h;           // curvatures, centre, Householder vector
  double off = 0, b = 0, w = 1, unit = 1;
  int wall = 0; Vec wn; double wt = 0;   // f is not a finite number where <wn,x> > wt
  bool beyond(const Vec& x) const { double t = 0; for (size_t i = 0; i < wn.size(); ++i) t += wn[i] * x[i]; return wall && !(t <= wt); }
  bool convex() const { return family <= 1 || family == 3 || family == 4; }
  bool bounded_below() const { return family != 6; }
  double eval(const Vec& x, Vec& g) const;
  void vanish_at(const Vec& x0);   // shift the objective so that its value is exactly zero there
};
Obj draw_obj(int n, int maxfam, int condpow, bool wide = false);

struct LS {
  int kind = 0;          // 0 default (NULL), 1 csrch, 2 backtrack, 3 nonmonotone
  double ftol = 1e-4, gtol = 0.9, xtol = 1e-16, amin = 0.1, s1 = 0.1, s2 = 0.9; int m = 3;
};
struct Bnd {
  opk_bound_type type = OPK_BOUND_NONE;
  Vec v;                 // wished values (one per variable, the same for a scalar bound)
};
enum FaultKind { F_NONE, F_FNAN, F_FPINF, F_FNINF, F_GNAN, F_GINF, F_GZERO, F_GFLIP, F_NOISE, F_FHUGE, F_GTINY, F_GHUGE, F_KINDS };
struct EFault { long at; int kind; int len; int elem; };
enum Action { A_NONE, A_NULLX, A_NULLG, A_RESTART, A_OOM, A_QUERY, A_RELOC, A_EXTRA, A_KINDS };
struct CAct { long at; int kind; };

double eff(const Bnd& b, int i, bool single); // the bound in effect
struct Plan {
  int api = 0;           // 0 driver, 1 library vectors, 2 wrapped arrays, 3 vectors of a user-supplied space
  bool vm = true;        // VMLMB family or NLCG
  bool single = false;
  int n = 1;
  bool opts_null = true;
  opk_vmlmb_options vo; opk_nlcg_options no;
  LS ls; Bnd lo, hi;
  Obj obj; Vec x0;
  long max_eval = 60;
  long after_final = 0;  // how many times to go on after FINAL_X
  std::vector<EFault> ef; std::vector<CAct> act;
  bool stop_on_error = true;
  int restart_how = 0;   // restarts: 0 from where the variables are, 1 from the first point, 2 from a point far away
  int restart_final = 0; // number of restarts after convergence
  int layout = 0;        // storage of the user-supplied space
  bool userset = false, userls = false; int nohooks = 0; // the feasible set, the line search implemented by the caller (set only by L11)
  uint64_t junk = 0;
  double latency = 0.01, stall = 0;
  bool vanish = false; Vec first() const; // first: the starting point once projected
  std::string text() const;
  bool bounded() const { return lo.type != OPK_BOUND_NONE || hi.type != OPK_BOUND_NONE; }
  double grtol() const { return vm ? vo.grtol : no.grtol; }
  double gatol() const { return vm ? vo.gatol : no.gatol; }
};

struct Rec {             // what the caller can observe after each call
  char call; int task, status; double f; Vec x; long evals, iters, restarts; double step, gnorm; Vec g;
  bool operator==(const Rec& o) const;
};

// Vector space of the caller (api 3).
struct CVec { opk_vector base; double* d; int stride, off, n; void* mem; };
struct CSpaceStats { long ops = 0; long creates = 0; long fail_create_at = 0; int fail_box = 0; opk_status fail_status = OPK_NOT_IMPLEMENTED; bool live_check = true; std::string bad; long sets = 0, lss = 0; int fail_set = 0, used = 0; };
opk_vspace* new_cspace(int n, int layout, bool boxops);
CSpaceStats& cstats();
extern std::function<void()> inside;   // called whenever the library calls an operation implemented by the caller

struct Session {
  const Plan& P; int id;
  explicit Session(const Plan& p, int id = 0) : P(p), id(id) {}
  ~Session() { close(); }
  Session(const Session&) = delete;

  // library objects
  opk_optimizer* drv = nullptr; opk_vmlmb* vmo = nullptr; opk_nlcg* cgo = nullptr;
  opk_vspace* vs = nullptr; opk_vector *vx = nullptr, *vg = nullptr; opk_lnsrch* ls = nullptr; opk_convexset* box = nullptr;
  opk_vector *vlo = nullptr, *vhi = nullptr;
  // memory of the caller
  sim::Guarded mx, mg, mlo, mhi;
  Vec elo, ehi;          // effective bounds in the type of the variables

  // shared or imposed library objects (owned by somebody else)
  opk_vspace* use_vs = nullptr; opk_convexset* use_box = nullptr; opk_lnsrch* use_ls = nullptr;
  bool quiet = false;                  // from now on: no fault, no special action
  long limit = -1;                     // evaluation budget (instead of the plan's)

  // progress
  long nstep = 0, neval = 0;           // since open()
  bool opened = false, dead = false;
  int last = -99;                      // last returned task
  double f = 0; Vec x, g;              // last evaluated point (values given to the library)
  bool dirty = false;                  // an evaluation fault was injected since the last start
  bool dirty_nan = false;
  bool wildg = false;                  // a non finite gradient, or values of extreme magnitude, were given since the last start
  bool tame = true;                    // nothing of extreme magnitude since the last start
  long finals = 0, starts = 0;
  std::vector<Rec> hist;
  bool record = true;
  // per start
  double g0norm = 0; bool has_g0 = false;
  struct It { Vec x, g; double f; long ev; };
  long last_fault = -1;                // number of the last faulty evaluation
  bool clean_ls() const { size_t k = iterates.size(); return k < 2 || last_fault < iterates[k - 2].ev; }
  std::vector<It> iterates;            // accepted iterates since the last start
  long evals_since_start = 0, iters_since_start = 0;
  std::vector<std::pair<Vec, Vec>> pairs;
  // oracle hook: called after each call of the library
  std::function<void(Session&, const Rec& before, const Rec& after)> hook;
  bool guarded = false;                // relocate the arrays at each call, poison the old ones

  bool open();                         // false: the constructor failed (a violation, unless an allocation was refused)
  bool open_();
  void close();
  bool step();                         // false: nothing more to do
  void run() { while (step()) {} }
  int start();
  int iterate_once(bool nullx = false, bool nullg = false);
  void evaluate();
  void relocate(); void again(); void sanitize();   // a caller who restarts does not start from an absurd point

  int task() const; int status() const; long evals() const, iters() const, restarts() const; double stp() const, gnorm() const; long mp() const;
  double getx(int i) const; void setx(int i, double v); void setg(int i, double v); double getg(int i) const;
  Vec xs() const { Vec r(P.n); for (int i = 0; i < P.n; ++i) r[i] = getx(i); return r; }
  Vec gs() const { Vec r(P.n); for (int i = 0; i < P.n; ++i) r[i] = getg(i); return r; }
  Rec snap(char call) const;
  void emit(const Rec& r);
  Vec read(const opk_vector* v) const;
  double eps() const { return P.single ? 1.2e-7 : 2.3e-16; }
  // mathematical helpers (independent of the library)
  Vec freemask(const Vec& x, const Vec& g) const;
  double pgnorm(const Vec& x, const Vec& g) const;
  Vec project(Vec x) const;
};

struct Gen {             // what a property wants of its plans
  bool driver = true, lowlevel = true, custom = true, nlcg = true, vmlmb = true, singles = true;
  int bounds = 1;        // 0 none, 1 sometimes, 2 always
  int maxn = 12, maxhuge = 4000; int maxfam = 8; int condpow = 3;
  bool options = true, linesearch = true; double pfault = 0.3, pact = 0.3; long max_eval = 80;
  bool nonmono = true; bool tight = true; bool shared_ls = false;
};
Plan draw_plan(const Gen& g);
double round_to(bool single, double v);
double norm2(const Vec& v); double dot(const Vec& a, const Vec& b);
opk_lnsrch* make_ls(const LS& l);
void o_protocol(Session& s, const Rec& before, const Rec& after); // the oracle of L04
}
