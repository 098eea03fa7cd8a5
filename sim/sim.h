// Simulator core: choice stream, event log, heap model, guarded memory,
// coroutines, property registry.
#pragma once
#include <cstdint>
#include <csetjmp>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is one draw().  0 is always the
// simplest alternative (no fault, smallest size, default option): the
// minimiser drives values towards 0 and drops trailing draws.
uint64_t draw(uint64_t bound, const char* tag);
inline bool chance(unsigned num, unsigned den, const char* tag) {
  return draw(den, tag) >= den - num;
}
template <class T> T pick(std::initializer_list<T> l, const char* tag) {
  return *(l.begin() + draw(l.size(), tag));
}
// Uniform on a grid of [lo,hi]; draw value 0 gives lo.
double real(double lo, double hi, const char* tag, unsigned grid = 4096);
// Symmetric: 0 -> 0, then alternating sign.
double sreal(double mag, const char* tag, unsigned grid = 4096);
// While it lives, draws come from a stream derived from one draw (large arrays).
struct Bulk { explicit Bulk(bool on); ~Bulk(); bool on; };
// Now and then, a size far above those usually drawn; 0 otherwise.
int huge(int most);
uint64_t mix(uint64_t a, uint64_t b);       // stateless hash
struct Rng {                                // derived stream (from a drawn seed)
  uint64_t s; explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next(); double u01(); double sym() { return 2*u01() - 1; }
};

// ---------------------------------------------------------------- event log
void ev(const char* kind, long a = 0, double x = 0, double y = 0);
void ev_bytes(const char* kind, const void* p, size_t n);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only
bool tracing();
uint64_t log_hash();
// coverage measures
void probe(const char* name);               // a rare branch/state was reached
void fault(const char* name);               // a fault was injected (and took effect)
void state_token(uint64_t h);               // contributes to the run's abstract state path
void add_vtime(double seconds);             // simulated time covered
void count(const char* name, double n = 1); // free counters (evaluations, steps ...)

// ---------------------------------------------------------------- verdicts
// Records the first violation of the run.
void fail(const char* oracle, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();
extern jmp_buf* on_abort;                   // where to go (once) if the library calls abort(), null: really abort
const std::string& failed_oracle();
void nontrivial();                          // the run reached its property's interesting region
bool oracle_on(const char* prop);           // is this property the one being checked?
extern const char* g_prop;

// ---------------------------------------------------------------- heap model
namespace heap {
  void reset(uint64_t junk_seed);           // forget every block (start of a run)
  void fail_at(long k);                     // fail the k-th allocation from now (1 = next), 0 = never
  void fail_from(long k);                   // fail every allocation from the k-th on
  long allocs();                            // allocations attempted since reset()
  long failures();                          // allocations refused since reset()
  long live();                              // live blocks
  size_t live_bytes();
  bool check(std::string* why);             // canaries, quarantine poison, bad frees
  bool is_live(const void* p);
  size_t block_size(const void* p);         // 0 if not a live block start
  void release_all();                       // end of run
}

// Memory of the caller.  Guarded: inaccessible page after (align=1) or before
// (align=0) the data; the slack on the other side is filled with canaries.
struct Guarded {
  void* base = nullptr; size_t maplen = 0; unsigned char* p = nullptr; size_t n = 0;
  bool right = true, revoked = false;
  Guarded() {}
  Guarded(size_t bytes, bool right_aligned, uint64_t junk);
  ~Guarded();
  Guarded(const Guarded&) = delete; Guarded& operator=(const Guarded&) = delete;
  Guarded(Guarded&& o) { *this = std::move(o); }
  Guarded& operator=(Guarded&& o);
  bool intact() const;                      // slack canaries untouched
  template <class T> T* as() { return reinterpret_cast<T*>(p); }
  void revoke();                            // make the whole mapping inaccessible
};

// ---------------------------------------------------------------- coroutines
// Lets a callback-style API be driven step by step by the scheduler.
struct Coro {
  explicit Coro(std::function<void(Coro&)> body);
  ~Coro();
  void resume();                            // run until the next yield() or the end
  void yield();                             // called from inside
  bool done() const;
  struct Impl; Impl* impl;
};

// ---------------------------------------------------------------- library errors
const std::string& lib_error();             // last message given to opk_error, "" if none
void clear_lib_error();

// ---------------------------------------------------------------- registry
struct Property {
  const char* id;
  void (*run)();                            // one simulated run
  long quick_runs, thorough_runs;
  const char* rule;                         // how evaluations/distinct are counted
  const char* real_parts;                   // components that ran real code
  const char* stub_parts;                   // components that ran a stub
};
const std::vector<Property>& properties();
bool thorough();                            // tier of this check

// ---------------------------------------------------------------- helpers
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool same_bits(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }
std::string hexd(double d);

} // namespace sim
namespace sim { std::vector<Property>& table(); struct Reg { Reg(Property p) { table().push_back(p); } }; }
