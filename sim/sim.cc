#include <deque>
// Simulator core and runner.
#include "sim.h"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>

extern "C" {
typedef void opk_error_handler(const char* message);
opk_error_handler* opk_set_error_handler(opk_error_handler* handler);
extern char __start_libdata[] __attribute__((weak));
extern char __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak));
extern char __stop_libbss[] __attribute__((weak));
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace sim {

// ---------------------------------------------------------------- shared state
static const size_t MAXCH = 1u << 18;
struct Shared {                     // one per worker; survives a crash of the worker
  volatile long cur;                // run being executed
  volatile uint64_t nchoices;
  volatile int status;              // 0 running/ok, 1 violation
  volatile uint64_t hash;
  volatile long done;               // runs finished
  volatile long nbad; volatile long bad[8]; // runs that failed
  char oracle[160];
  char msg[2000];
  uint64_t choices[MAXCH];
  uint64_t bounds[MAXCH];
};
static Shared* sh = nullptr;
static Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared*)p;
}

const char* g_prop = "";
static bool g_thorough = false;
bool thorough() { return g_thorough; }
bool oracle_on(const char* prop) { return strcmp(prop, g_prop) == 0; }

// ---------------------------------------------------------------- PRNG
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t Rng::next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
double Rng::u01() { return (double)(next() >> 11) * 0x1.0p-53; }
static uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- run state
static std::string g_trace;
static bool g_tracing = false;
static Rng g_rng(0);
static bool g_replaying = false;
static const std::vector<uint64_t>* g_input = nullptr;
static uint64_t g_hash, g_path;
static bool g_failed, g_nontrivial;
static std::string g_oracle, g_msg, g_liberr;
static double g_vtime;
struct Stats {
  std::map<std::string, double> counters, faults, probes;
  long runs = 0, nontriv = 0, steps = 0, redo = 0, nondet = 0;
  double vtime = 0;
  std::unordered_set<uint64_t> traces, paths;
};
static Stats g_stats;
static std::map<std::string, double> g_rcount, g_rfault, g_rprobe; // of the current run

static Rng g_bulk(0);
static bool g_bulk_on = false;
Bulk::Bulk(bool o) : on(o && !g_bulk_on) { if (on) { g_bulk = Rng(draw(1 << 20, "bulk") + 77); g_bulk_on = true; } }
Bulk::~Bulk() { if (on) g_bulk_on = false; }
#ifndef HUGE_DEN
#define HUGE_DEN 1000
#endif
int huge(int most) { if (!chance(1, HUGE_DEN, "huge size")) return 0; int m = pick<int>({100, 300, 1000, 4000}, "order of the size"); return 41 + (int)draw(m < most ? m : most, "huge size-41"); }
uint64_t draw(uint64_t bound, const char* tag) {
  uint64_t v;
  if (bound == 0) bound = 1;
  if (g_bulk_on) return bound == 1 ? 0 : g_bulk.next() % bound;
  size_t i = sh->nchoices;
  if (i >= MAXCH) { v = 0; }
  else {
    if (g_replaying) v = i < g_input->size() ? (*g_input)[i] % bound : 0;
    else v = bound == 1 ? 0 : g_rng.next() % bound;
    sh->choices[i] = v; sh->bounds[i] = bound; sh->nchoices = i + 1;
  }
  if (g_tracing && v) { char b[128]; snprintf(b, sizeof b, "  choice[%zu] %s = %llu / %llu\n", i, tag, (unsigned long long)v, (unsigned long long)bound); g_trace += b; }
  return v;
}
double real(double lo, double hi, const char* tag, unsigned grid) { return lo + (hi - lo) * (double)draw(grid, tag) / (grid - 1); }
double sreal(double mag, const char* tag, unsigned grid) {
  uint64_t v = draw(grid, tag);
  double m = mag * (double)((v + 1) / 2) / (grid / 2);
  return (v & 1) ? m : -m;
}

static void hmix(uint64_t v) { g_hash = mix(g_hash, v); }
void ev(const char* kind, long a, double x, double y) {
  hmix(hash_str(kind)); hmix((uint64_t)a);
  hmix(std::isnan(x) ? 0x7ff8ull << 48 : bits(x)); hmix(std::isnan(y) ? 0x7ff8ull << 48 : bits(y));
  if (g_tracing) { char b[256]; snprintf(b, sizeof b, "%s %ld %.17g %.17g\n", kind, a, x, y); g_trace += b; }
}
void ev_bytes(const char* kind, const void* p, size_t n) {
  hmix(hash_str(kind));
  const unsigned char* c = (const unsigned char*)p; uint64_t h = n;
  while (n >= 8) { uint64_t u; memcpy(&u, c, 8); h = mix(h, u); c += 8; n -= 8; }
  while (n--) h = mix(h, *c++);
  hmix(h);
  if (g_tracing) { char b[128]; snprintf(b, sizeof b, "%s #%016llx\n", kind, (unsigned long long)h); g_trace += b; }
}
void note(const char* fmt, ...) {
  if (!g_tracing) return;
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  g_trace += b; g_trace += '\n';
}
bool tracing() { return g_tracing; }
uint64_t log_hash() { return g_hash; }
void probe(const char* n) { g_rprobe[n] += 1; }
void fault(const char* n) { g_rfault[n] += 1; if (g_tracing) { g_trace += "FAULT "; g_trace += n; g_trace += '\n'; } }
void state_token(uint64_t h) { g_path = mix(g_path, h); }
void add_vtime(double s) { g_vtime += s; }
void count(const char* n, double v) { g_rcount[n] += v; }
void nontrivial() { g_nontrivial = true; }
void fail(const char* oracle, const char* fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_tracing) { g_trace += "VIOLATED "; g_trace += oracle; g_trace += ": "; g_trace += b; g_trace += '\n'; }
  if (g_failed) return;
  g_failed = true; g_oracle = oracle; g_msg = b;
  hmix(hash_str(oracle));
}
bool failed() { return g_failed; }
const std::string& failed_oracle() { return g_oracle; }
std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g(%a)", d, d); return b; }

const std::string& lib_error() { return g_liberr; }
void clear_lib_error() { g_liberr.clear(); }
static void on_lib_error(const char* m) { g_liberr = m ? m : "(null)"; if (g_liberr.empty()) g_liberr = "?"; }

// ---------------------------------------------------------------- heap model
namespace heap {
struct Hdr { uint64_t magic; size_t n; Hdr *next, *prev; uint64_t seq; uint64_t pad[3]; };
static_assert(sizeof(Hdr) == 64, "");
static const uint64_t LIVE = 0xA110CA7EDB10C000ull, DEAD = 0xDEADB10CDEADB10Cull;
static const unsigned char CAN = 0xC7;
static Hdr L{0, 0, &L, &L, 0, {}}, Q{0, 0, &Q, &Q, 0, {}};
static long n_alloc, n_fail, n_live, failat, failfrom; static size_t b_live; static uint64_t junk = 1; static std::string bad;
static bool on = true;
static const uint64_t POISON = 0x7ff4dead7ff4deadull; // a signalling NaN, also as two floats
static void link(Hdr& l, Hdr* h) { h->next = l.next; h->prev = &l; l.next->prev = h; l.next = h; }
static void unlink(Hdr* h) { h->prev->next = h->next; h->next->prev = h->prev; }
static void* get(size_t n, bool zero) {
  ++n_alloc;
  bool f = false;
  if (failat > 0 && --failat == 0) f = true;
  if (failfrom > 0) { if (failfrom == 1) f = true; else --failfrom; }
  if (f) { ++n_fail; errno = ENOMEM; return nullptr; }
  if (n > (size_t)1 << 31) { ++n_fail; errno = ENOMEM; return nullptr; }
  Hdr* h = (Hdr*)__real_malloc(sizeof(Hdr) + n + 16);
  if (!h) { errno = ENOMEM; return nullptr; }
  h->magic = LIVE; h->n = n; h->seq = n_alloc; link(L, h); ++n_live; b_live += n;
  unsigned char* p = (unsigned char*)(h + 1);
  if (zero) memset(p, 0, n);
  else {
    uint64_t m = junk & 3; Rng r(mix(junk, h->seq)); size_t i = 0;
    for (; i < n; i += 8) {
      uint64_t u;
      if (m == 0) u = POISON; else if (m == 1) { double d = r.sym() * 1e3; u = bits(d); } else if (m == 2) u = r.next(); else u = 0;
      memcpy(p + i, &u, n - i < 8 ? n - i : 8);
    }
  }
  memset(p + n, CAN, 16);
  return p;
}
static bool canary_ok(Hdr* h) { unsigned char* p = (unsigned char*)(h + 1) + h->n; for (int i = 0; i < 16; ++i) if (p[i] != CAN) return false; return true; }
static Hdr* find(const void* p) { // only dereference what we know
  for (Hdr* h = L.next; h != &L; h = h->next) if ((void*)(h + 1) == p) return h;
  return nullptr;
}
static void put(void* p) {
  if (!p) return;
  Hdr* h = find(p);
  if (!h) {
    for (Hdr* q = Q.next; q != &Q; q = q->next) if ((void*)(q + 1) == p) { if (bad.empty()) bad = "block released twice"; return; }
    if (bad.empty()) bad = "free() of an address that is not an allocated block"; return;
  }
  if (!canary_ok(h) && bad.empty()) { char b[100]; snprintf(b, sizeof b, "write past the end of a block of %zu bytes", h->n); bad = b; }
  unlink(h); --n_live; b_live -= h->n; h->magic = DEAD; link(Q, h);
  unsigned char* d = (unsigned char*)(h + 1);
  for (size_t i = 0; i < h->n; i += 8) memcpy(d + i, &POISON, h->n - i < 8 ? h->n - i : 8);
}
void reset(uint64_t j) { release_all(); n_alloc = n_fail = failat = failfrom = 0; junk = j; bad.clear(); }
void fail_at(long k) { failat = k; }
void fail_from(long k) { failfrom = k; }
long allocs() { return n_alloc; }
long failures() { return n_fail; }
long live() { return n_live; }
size_t live_bytes() { return b_live; }
bool is_live(const void* p) { return find(p) != nullptr; }
size_t block_size(const void* p) { Hdr* h = find(p); return h ? h->n : 0; }
bool check(std::string* why) {
  if (bad.empty()) for (Hdr* h = L.next; h != &L; h = h->next) if (!canary_ok(h)) { char b[100]; snprintf(b, sizeof b, "write past the end of a live block of %zu bytes", h->n); bad = b; break; }
  if (bad.empty()) for (Hdr* h = Q.next; h != &Q && bad.empty(); h = h->next) {
    unsigned char* d = (unsigned char*)(h + 1);
    for (size_t i = 0; i < h->n; i += 8) if (memcmp(d + i, &POISON, h->n - i < 8 ? h->n - i : 8)) { bad = "write into a released block"; break; }
  }
  if (!bad.empty()) { if (why) *why = bad; return false; }
  return true;
}
void release_all() {
  for (Hdr* l : {&L, &Q}) for (Hdr* h = l->next; h != l;) { Hdr* n = h->next; __real_free(h); h = n; }
  L.next = L.prev = &L; Q.next = Q.prev = &Q; n_live = 0; b_live = 0;
}
} // namespace heap

// ---------------------------------------------------------------- guarded memory
static const unsigned char GC = 0x5A;
static std::map<size_t, std::vector<void*>> g_maps; // mappings to be used again
static std::map<size_t, std::deque<void*>> g_retired; // inaccessible for a while: a pointer kept to former arrays of the caller must not find anything
static void unmap(void* b, size_t len, bool revoked) { if (revoked) { g_retired[len].push_back(b); return; } auto& l = g_maps[len]; if (l.size() >= 64) munmap(b, len); else l.push_back(b); }
Guarded::Guarded(size_t bytes, bool right_aligned, uint64_t junk) : n(bytes), right(right_aligned) {
  size_t pg = 4096, data = (bytes + pg - 1) / pg * pg; if (!data) data = pg;
  maplen = data + 2 * pg;
  auto& l = g_maps[maplen]; auto& q = g_retired[maplen];
  if (!l.empty()) { base = l.back(); l.pop_back(); }
  else if (q.size() > 24) { base = q.front(); q.pop_front(); if (mprotect((char*)base + pg, data, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); } }
  else {
    base = mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(base, pg, PROT_NONE); mprotect((char*)base + pg + data, pg, PROT_NONE);
  }
  unsigned char* d = (unsigned char*)base + pg;
  memset(d, GC, data);
  p = right ? d + data - bytes : d;
  Rng r(junk);
  for (size_t i = 0; i < bytes; i += 8) { uint64_t u = (junk & 1) ? bits(r.sym() * 1e6) : heap::POISON; memcpy(p + i, &u, bytes - i < 8 ? bytes - i : 8); }
}
Guarded::~Guarded() { if (base) unmap(base, maplen, revoked); }
Guarded& Guarded::operator=(Guarded&& o) {
  if (this != &o) { if (base) { if (!revoked) revoke(); unmap(base, maplen, revoked); } base = o.base; revoked = o.revoked; maplen = o.maplen; p = o.p; n = o.n; right = o.right; o.base = nullptr; o.p = nullptr; o.n = 0; }
  return *this;
}
bool Guarded::intact() const {
  if (!base) return true;
  unsigned char* d = (unsigned char*)base + 4096; size_t data = maplen - 8192;
  static unsigned char pat[4096]; if (pat[0] != GC) memset(pat, GC, sizeof pat);
  auto clean = [](const unsigned char* q, const unsigned char* e) { while (q < e) { size_t k = e - q < 4096 ? e - q : 4096; if (memcmp(q, pat, k)) return false; q += k; } return true; };
  return clean(d, p) && clean(p + n, d + data);
}
void Guarded::revoke() { revoked = true; if (base) mprotect(base, maplen, PROT_NONE); }

// ---------------------------------------------------------------- coroutines
struct Coro::Impl { ucontext_t self, back; void* stk; size_t len; bool fin; std::function<void(Coro&)> body; Coro* owner; };
static void coro_entry(unsigned lo, unsigned hi) {
  Coro::Impl* im = (Coro::Impl*)(((uintptr_t)hi << 32) | lo);
  im->body(*im->owner); im->fin = true;
  swapcontext(&im->self, &im->back);
}
Coro::Coro(std::function<void(Coro&)> body) {
  impl = new Impl; impl->fin = false; impl->body = std::move(body); impl->owner = this; impl->len = 1 << 19;
  impl->stk = mmap(nullptr, impl->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(impl->stk, 4096, PROT_NONE);
  getcontext(&impl->self); impl->self.uc_stack.ss_sp = impl->stk; impl->self.uc_stack.ss_size = impl->len; impl->self.uc_link = nullptr;
  uintptr_t u = (uintptr_t)impl;
  makecontext(&impl->self, (void (*)())coro_entry, 2, (unsigned)u, (unsigned)(u >> 32));
}
Coro::~Coro() { munmap(impl->stk, impl->len); delete impl; }
void Coro::resume() { if (!impl->fin) swapcontext(&impl->back, &impl->self); }
void Coro::yield() { swapcontext(&impl->self, &impl->back); }
bool Coro::done() const { return impl->fin; }

// ---------------------------------------------------------------- one run
static std::vector<char> snap_data, snap_bss;
static void snapshot_lib() {
  if (__start_libdata) snap_data.assign(__start_libdata, __stop_libdata);
  if (__start_libbss) snap_bss.assign(__start_libbss, __stop_libbss);
}
static void restore_lib() {
  if (!snap_data.empty()) memcpy(__start_libdata, snap_data.data(), snap_data.size());
  if (!snap_bss.empty()) memcpy(__start_libbss, snap_bss.data(), snap_bss.size());
}
static const double CPU_LIMIT = 6.0;
static void arm(double s) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)s; t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static void begin_run() {
  restore_lib();
  heap::reset(0);
  opk_set_error_handler(on_lib_error);
  g_hash = 0x1234; g_path = 0; g_failed = false; g_nontrivial = false; g_oracle.clear(); g_msg.clear(); g_liberr.clear(); g_vtime = 0;
  g_rcount.clear(); g_rfault.clear(); g_rprobe.clear(); g_trace.clear();
  sh->nchoices = 0; sh->status = 0; sh->hash = 0; sh->oracle[0] = 0; sh->msg[0] = 0; errno = 0;
}
static void end_run() {
  heap::release_all();
  sh->hash = g_hash;
  snprintf(sh->oracle, sizeof sh->oracle, "%s", g_oracle.c_str());
  snprintf(sh->msg, sizeof sh->msg, "%s", g_msg.c_str());
  sh->status = g_failed ? 1 : 0;
}
// Local variables which the library does not initialize hold the same junk in every execution.
static void __attribute__((noinline)) scrub_stack() { volatile unsigned char b[24576]; for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t*)(b + i) = 0xBFE6A09E667F3BCDull; }
static void __attribute__((noinline)) call_run(const Property& p) { p.run(); }
static void exec_run(const Property& p, uint64_t seed, const std::vector<uint64_t>* input) {
  begin_run(); g_bulk_on = false;
  g_replaying = input != nullptr; g_input = input; g_rng = Rng(seed);
  arm(CPU_LIMIT);
  scrub_stack(); call_run(p);
  arm(0);
  end_run();
}
static uint64_t run_seed(uint64_t seed, const char* prop, long i) { return mix(mix(seed, hash_str(prop)), (uint64_t)i); }

// Outcome of a run executed in a child process.
struct Outcome { bool bad = false; std::string oracle, msg, trace; uint64_t hash = 0; std::vector<uint64_t> choices, bnds; };
static int g_devnull = -1;
static void quiet_child() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (g_devnull < 0) g_devnull = open("/dev/null", O_WRONLY);
  dup2(g_devnull, 1); dup2(g_devnull, 2);
  signal(SIGVTALRM, SIG_DFL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static int g_trace_fd = -1;
static void on_crash(int sg) { // keep the trace of a crashed run
  size_t k = 0; while (k < g_trace.size()) { ssize_t w = write(g_trace_fd, g_trace.data() + k, g_trace.size() - k); if (w <= 0) break; k += w; }
  signal(sg, SIG_DFL); raise(sg);
}
static void keep_trace(int fd) {
  g_trace_fd = fd; static char stk[65536]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = stk; st.ss_size = sizeof stk; sigaltstack(&st, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM}) sigaction(sg, &sa, nullptr);
}
struct Batch { uint64_t seed = 0; long first = 0, step = 0, last = -1; };   // the runs of one worker, up to the failing one
static Outcome run_child(const Property& p, uint64_t seed, const std::vector<uint64_t>* input, bool trace, const Batch* batch = nullptr) {
  Shared* s = sh; static Shared* mine = new_shared(); sh = mine;
  sh->nchoices = 0; sh->status = 0; sh->oracle[0] = sh->msg[0] = 0;
  int fd[2] = {-1, -1}; FILE* tf = nullptr;
  if (trace) { tf = tmpfile(); fd[0] = fileno(tf); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    quiet_child(); g_tracing = trace; if (trace) keep_trace(fd[0]);
    if (batch) { g_tracing = false; for (long i = batch->first; i < batch->last; i += batch->step) { exec_run(p, run_seed(batch->seed, p.id, i), nullptr); if (!g_failed && i % 61 == 0) exec_run(p, run_seed(batch->seed, p.id, i), nullptr); } g_tracing = trace; exec_run(p, run_seed(batch->seed, p.id, batch->last), nullptr); }
    else exec_run(p, seed, input);
    if (trace) { size_t k = 0; while (k < g_trace.size()) { ssize_t w = write(fd[0], g_trace.data() + k, g_trace.size() - k); if (w <= 0) break; k += w; } }
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (WIFSIGNALED(st)) {
    o.bad = true; int sg = WTERMSIG(st);
    o.oracle = sg == SIGVTALRM ? "hang" : "crash"; o.msg = sg == SIGVTALRM ? "the run used up its processor time without finishing" : std::string("the library crashed: ") + strsignal(sg);
    o.hash = mix(hash_str(o.oracle.c_str()), sh->nchoices);
  } else if (sh->status) { o.bad = true; o.oracle = sh->oracle; o.msg = sh->msg; o.hash = sh->hash; }
  else if (WEXITSTATUS(st)) { o.bad = true; o.oracle = "exit"; o.msg = "the library ended the process"; o.hash = mix(hash_str("exit"), sh->nchoices); }
  else o.hash = sh->hash;
  size_t n = sh->nchoices;
  o.choices.assign(sh->choices, sh->choices + n); o.bnds.assign(sh->bounds, sh->bounds + n);
  if (tf) { rewind(tf); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, tf)) > 0) o.trace.append(b, k); fclose(tf); }
  sh = s;
  return o;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ---------------------------------------------------------------- minimiser
static Outcome shrink(const Property& p, Outcome best, double budget, long* tries) {
  double t0 = now();
  auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
    if (now() - t0 > budget) return false;
    ++*tries;
    Outcome o = run_child(p, 0, &c, false);
    if (!o.bad || o.oracle != best.oracle) return false;
    while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
    // accept only progress in (length, lexicographic sum)
    auto w = [](const std::vector<uint64_t>& v) { double s = 0; size_t nz = 0; for (uint64_t x : v) { s += std::log2(1.0 + (double)x); nz += x != 0; } return std::make_tuple(v.size(), nz, s); };
    if (!(w(o.choices) < w(best.choices))) return false;
    best = o; return true;
  };
  while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = best.choices.size() / 2; len >= 1 && now() - t0 < budget; len /= 2) { // drop a tail
      if (len < best.choices.size()) { std::vector<uint64_t> c(best.choices.begin(), best.choices.end() - len); if (attempt(c)) { progress = true; } }
    }
    for (size_t blk : {64, 32, 16, 8, 4, 2, 1}) for (size_t i = best.choices.size(); i-- > 0 && now() - t0 < budget;) { // delete blocks
      if (i + blk > best.choices.size()) continue;
      std::vector<uint64_t> c(best.choices); c.erase(c.begin() + i, c.begin() + i + blk);
      if (attempt(c)) progress = true;
    }
    for (size_t blk : {16, 8, 4, 2, 1}) for (size_t i = 0; i + blk <= best.choices.size() && now() - t0 < budget; i += blk) { // zero blocks
      bool any = false; for (size_t k = 0; k < blk; ++k) any |= best.choices[i + k] != 0;
      if (!any) continue;
      std::vector<uint64_t> c(best.choices); std::fill(c.begin() + i, c.begin() + i + blk, 0);
      if (attempt(c)) progress = true;
    }
    for (size_t i = 0; i < best.choices.size() && now() - t0 < budget; ++i) { // lower values
      uint64_t lo = 0, hi = best.choices[i];
      for (int it = 0; it < 12 && lo + 1 < hi && i < best.choices.size(); ++it) {
        uint64_t m = lo + (hi - lo) / 2; std::vector<uint64_t> c(best.choices); c[i] = m;
        if (attempt(c)) { hi = m; progress = true; } else lo = m;
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------- output
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string jmap(const std::map<std::string, double>& m) { std::string o = "{"; bool f = true; for (auto& kv : m) { char b[64]; snprintf(b, sizeof b, "%.15g", kv.second); o += (f ? "" : ",") + ("\"" + jesc(kv.first) + "\":") + b; f = false; } return o + "}"; }

static const Property* find_prop(const std::string& id) { for (auto& p : properties()) if (id == p.id) return &p; return nullptr; }

static void merge_run() {
  g_stats.runs++; g_stats.vtime += g_vtime;
  for (auto& kv : g_rcount) g_stats.counters[kv.first] += kv.second;
  for (auto& kv : g_rfault) g_stats.faults[kv.first] += kv.second;
  for (auto& kv : g_rprobe) g_stats.probes[kv.first] += 1;
  if (g_stats.traces.size() < 4000000) { if (g_nontrivial) { g_stats.nontriv++; g_stats.traces.insert(g_hash); } if (g_path) g_stats.paths.insert(g_path); }
}
static void dump_stats(const std::string& fn) {
  std::ofstream f(fn, std::ios::binary);
  auto dm = [&](const char* t, const std::map<std::string, double>& m) { for (auto& kv : m) { f << t << '\t' << kv.first << '\t'; char b[64]; snprintf(b, sizeof b, "%.17g", kv.second); f << b << '\n'; } };
  dm("c", g_stats.counters); dm("f", g_stats.faults); dm("p", g_stats.probes);
  char b[64]; snprintf(b, sizeof b, "%.17g", g_stats.vtime);
  f << "s\truns\t" << g_stats.runs << "\ns\tnontriv\t" << g_stats.nontriv << "\ns\tvtime\t" << b << "\ns\tredo\t" << g_stats.redo << "\ns\tnondet\t" << g_stats.nondet << "\n";
  for (uint64_t h : g_stats.traces) f << "t\t" << h << "\t0\n";
  for (uint64_t h : g_stats.paths) f << "h\t" << h << "\t0\n";
}

struct Control { volatile long min_bad; };

static int cmd_check(int argc, char** argv) {
  std::string id, outdir = ".", known; uint64_t seed = 1; long runs = -1; double tmax = 1e9, shrink_t = 20; int nw = 8; long only = -1;
  for (int i = 0; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") id = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = atol(nx().c_str());
    else if (a == "--tier") g_thorough = nx() == "thorough"; else if (a == "--out") outdir = nx(); else if (a == "--time") tmax = atof(nx().c_str());
    else if (a == "--known") known = nx(); else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "--shrink") shrink_t = atof(nx().c_str());
    else if (a == "--only") only = atol(nx().c_str());
  }
  const Property* p = find_prop(id); if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
  g_prop = p->id;
  if (runs < 0) runs = g_thorough ? p->thorough_runs : p->quick_runs;
  if (only >= 0) { // debugging aid: one run with its trace
    sh = new_shared(); snapshot_lib();
    Outcome o = run_child(*p, run_seed(seed, p->id, only), nullptr, true);
    printf("%s\nbad=%d oracle=%s msg=%s hash=%016llx choices=%zu\n", o.trace.c_str(), o.bad, o.oracle.c_str(), o.msg.c_str(), (unsigned long long)o.hash, o.choices.size()); return o.bad;
  }
  std::set<std::string> knownset; { std::stringstream ss(known); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) knownset.insert(t); }
  snapshot_lib();
  double t0 = now();
  Control* ctl = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl->min_bad = -1;
  std::vector<Shared*> shs; std::vector<pid_t> pids(nw, 0); std::vector<int> gen(nw, 0);
  for (int w = 0; w < nw; ++w) { shs.push_back(new_shared()); shs[w]->cur = w - nw; shs[w]->done = 0; shs[w]->nbad = 0; }
  std::map<std::string, long> known_seen;
  auto note_bad = [&](long i) { if (ctl->min_bad < 0 || i < ctl->min_bad) ctl->min_bad = i; };
  auto spawn = [&](int w) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      quiet_child(); sh = shs[w]; g_stats = Stats();
      std::map<std::string, long> kn;
      for (long i = sh->cur + nw; i < runs; i += nw) {
        long mb = ctl->min_bad;
        if (mb >= 0 && i > mb + 400 * nw) break;
        if (now() - t0 > tmax) break;
        sh->cur = i;
        exec_run(*p, run_seed(seed, p->id, i), nullptr);
        merge_run();
        sh->done = sh->done + 1;
        if (g_failed) {
          if (knownset.count(g_oracle)) { g_stats.counters["known:" + g_oracle] += 1; }
          else { // keep the lowest
            for (;;) { long m = ctl->min_bad; if (m >= 0 && m <= i) break; if (__sync_bool_compare_and_swap(&ctl->min_bad, m, i)) break; }
            shs[w]->bad[shs[w]->nbad++] = i; if (shs[w]->nbad >= 4) break;
          }
        } else if (i % 61 == 0) { // same seed, same execution
          uint64_t h = g_hash; Stats keep = std::move(g_stats);
          exec_run(*p, run_seed(seed, p->id, i), nullptr);
          g_stats = std::move(keep); g_stats.redo++; if (g_hash != h) g_stats.nondet++;
        }
      }
      char fn[300]; snprintf(fn, sizeof fn, "%s/%s.stats.%d.%d", outdir.c_str(), p->id, w, gen[w]);
      dump_stats(fn);
      _exit(0);
    }
    pids[w] = pid;
  };
  for (int w = 0; w < nw; ++w) spawn(w);
  long crashes = 0;
  for (int left = nw; left > 0;) {
    int st; pid_t pid = waitpid(-1, &st, 0); if (pid < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int k = 0; k < nw; ++k) if (pids[k] == pid) w = k; if (w < 0) continue;
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
      ++crashes; note_bad(shs[w]->cur); shs[w]->bad[shs[w]->nbad++] = shs[w]->cur;
    }
    --left;
  }
  double t_search = now() - t0;
  // merge
  Stats S;
  for (int w = 0; w < nw; ++w) for (int g = 0; g <= gen[w]; ++g) {
    char fn[300]; snprintf(fn, sizeof fn, "%s/%s.stats.%d.%d", outdir.c_str(), p->id, w, g);
    std::ifstream f(fn); std::string line;
    while (std::getline(f, line)) {
      size_t a = line.find('\t'), b = line.rfind('\t'); std::string t = line.substr(0, a), k = line.substr(a + 1, b - a - 1); double v = atof(line.c_str() + b + 1);
      if (t == "c") S.counters[k] += v; else if (t == "f") S.faults[k] += v; else if (t == "p") S.probes[k] += v;
      else if (t == "t") S.traces.insert(strtoull(k.c_str(), 0, 10)); else if (t == "h") S.paths.insert(strtoull(k.c_str(), 0, 10));
      else if (k == "runs") S.runs += (long)v; else if (k == "nontriv") S.nontriv += (long)v; else if (k == "vtime") S.vtime += v; else if (k == "redo") S.redo += (long)v; else if (k == "nondet") S.nondet += (long)v;
    }
    f.close(); unlink(fn);
  }
  long bad = ctl->min_bad; int rc = 0; std::string vjson = "null";
  if (bad >= 0) {
    // The lowest run that repeats exactly; failing that, the lowest that fails again in the same way.
    std::set<long> cand; for (int w = 0; w < nw; ++w) for (long k = 0; k < shs[w]->nbad; ++k) cand.insert((long)shs[w]->bad[k]);
    Outcome o, o2, weak; long weak_run = -1; bool exact = false; long lowest = bad;
    for (long b : cand) {
      uint64_t rs = run_seed(seed, p->id, b);
      o = run_child(*p, rs, nullptr, false); o2 = run_child(*p, rs, nullptr, false);
      if (o.bad && o2.bad && o.oracle == o2.oracle && o.hash == o2.hash && !knownset.count(o.oracle)) { bad = b; exact = true; break; }
      if (weak_run < 0 && o.bad && o2.bad && o.oracle == o2.oracle && !knownset.count(o.oracle)) { weak = o; weak_run = b; }
    }
    if (!exact && weak_run >= 0) { o = o2 = weak; bad = weak_run; }
    char exe[4000]; ssize_t ke = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[ke > 0 ? ke : 0] = 0;
    // write a replay file, and require that a fresh process reproduces it
    auto report = [&](const Outcome& fin, const std::string& trace, long run, const std::string& hash, const Batch* bt, const std::string& how) -> bool {
      char fn[400]; snprintf(fn, sizeof fn, "%s/%s-seed%llu-run%ld.replay", outdir.c_str(), p->id, (unsigned long long)seed, run);
      std::ofstream f(fn);
      f << "# replay of a violation; run: " << "python3 /verif/check.py replay " << fn << "\n";
      f << "property " << p->id << "\ntier " << (g_thorough ? "thorough" : "quick") << "\nseed " << seed << "\nrun " << run << "\noracle " << fin.oracle << "\nmessage " << fin.msg << "\n";
      f << "hash " << hash << "\n# " << how << "\n";
      if (bt) f << "batch " << bt->seed << ' ' << bt->first << ' ' << bt->step << ' ' << bt->last << "\n";
      f << "choices " << fin.choices.size(); for (uint64_t c : fin.choices) f << ' ' << c;
      f << "\n# ---- schedule and fault trace of the " << (bt ? "failing" : "minimised") << " run\n";
      { std::stringstream ss(trace); std::string l; size_t k = 0; while (std::getline(ss, l) && k++ < 20000) f << "| " << l << "\n"; }
      f.close();
      pid_t pid = fork(); if (pid == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); execl(exe, exe, "replay", fn, (char*)nullptr); _exit(9); }
      int st; waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) { unlink(fn); return false; }
      rc = 1;
      printf("violated oracle: %s\n%s\n(seed %llu, run %ld; %s)\n", fin.oracle.c_str(), fin.msg.c_str(), (unsigned long long)seed, run, how.c_str());
      printf("VIOLATION property=%s replay=%s\n", p->id, fn);
      vjson = "{\"oracle\":\"" + jesc(fin.oracle) + "\",\"message\":\"" + jesc(fin.msg) + "\",\"replay\":\"" + jesc(fn) + "\",\"run\":" + std::to_string(run) + "}";
      return true;
    };
    auto hex = [](uint64_t h) { char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)h); return std::string(hb); };
    auto trim = [](Outcome& x) { while (!x.choices.empty() && x.choices.back() == 0) x.choices.pop_back(); };
    bool done = false;
    if (exact || weak_run >= 0) {
      size_t n0 = o.choices.size(); long tries = 0;
      Outcome m = shrink(*p, o, shrink_t, &tries);
      for (int t = 0; t < 2 && !done; ++t) {
        const Outcome& src = t == 0 ? m : o; Outcome fin = run_child(*p, 0, &src.choices, false); if (!fin.bad || fin.oracle != o.oracle) continue;
        std::string trace = run_child(*p, 0, &src.choices, true).trace; trim(fin);
        std::string how = std::to_string(n0) + " choices minimised to " + std::to_string(fin.choices.size()) + " in " + std::to_string(tries) + " attempts";
        if (exact) done = report(fin, trace, bad, hex(fin.hash), nullptr, how);
        if (!done) done = report(fin, trace, bad, "none", nullptr, how);
      }
    }
    // The failure depends on the runs made before by the same process (memory which the library never initialized, for instance): the history of that process is the replay.
    int nb = 0;
    for (long b : cand) {
      if (done || nb++ >= 4) break;
      Batch bt; bt.seed = seed; bt.first = b % nw; bt.step = nw; bt.last = b;
      Outcome fin = run_child(*p, 0, nullptr, false, &bt); if (!fin.bad || knownset.count(fin.oracle)) continue;
      std::string how = "the history of " + std::to_string((b - bt.first) / nw + 1) + " runs of one process";
      done = report(fin, "", b, hex(fin.hash), &bt, how);
      if (!done) done = report(fin, "", b, "none", &bt, how);
    }
    if (!done) { printf("%zu runs from %ld failed in the search but no replay reproduces a violation: the execution is not deterministic\n", cand.size(), lowest); rc = 4; }
  }
  if (S.nondet) { printf("%ld of %ld repeated runs differed from their first execution\n", S.nondet, S.redo); }
  double wall = now() - t0;
  char fn[400]; snprintf(fn, sizeof fn, "%s/%s.summary.json", outdir.c_str(), p->id);
  std::ofstream f(fn);
  // samples: a few runs of this seed, identified by run index and trace hash
  f << "{\"property\":\"" << p->id << "\",\"tier\":\"" << (g_thorough ? "thorough" : "quick") << "\",\"seed\":" << seed
    << ",\"runs\":" << S.runs << ",\"requested_runs\":" << runs << ",\"nontrivial_runs\":" << S.nontriv << ",\"distinct_traces\":" << S.traces.size() << ",\"distinct_state_paths\":" << S.paths.size()
    << ",\"simulated_seconds\":" << S.vtime << ",\"search_s\":" << t_search << ",\"wall_s\":" << wall << ",\"repeated_runs\":" << S.redo << ",\"repeated_runs_that_differed\":" << S.nondet
    << ",\"workers\":" << nw << ",\"faults\":" << jmap(S.faults) << ",\"probes\":" << jmap(S.probes) << ",\"counters\":" << jmap(S.counters)
    << ",\"rule\":\"" << jesc(p->rule) << "\",\"real\":\"" << jesc(p->real_parts) << "\",\"stub\":\"" << jesc(p->stub_parts) << "\",\"violation\":" << vjson << ",\"samples\":[";
  for (long i = 0; i < 3 && i < runs; ++i) { Outcome o = run_child(*p, run_seed(seed, p->id, i), nullptr, true);
    std::string t = o.trace.substr(0, 700); char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
    f << (i ? "," : "") << "{\"run\":" << i << ",\"seed\":\"" << run_seed(seed, p->id, i) << "\",\"choices\":" << o.choices.size() << ",\"trace_hash\":\"" << hb << "\",\"trace_head\":\"" << jesc(t) << "\"}"; }
  f << "]}\n";
  return rc;
}

static int cmd_replay(const char* fn) {
  std::ifstream f(fn); if (!f) { fprintf(stderr, "cannot read %s\n", fn); return 3; }
  std::string line, id, oracle, hash, tier; std::vector<uint64_t> ch; Batch bt;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#' || line[0] == '|') continue;
    std::stringstream ss(line); std::string k; ss >> k;
    if (k == "property") ss >> id; else if (k == "oracle") { ss >> oracle; } else if (k == "hash") ss >> hash; else if (k == "tier") ss >> tier;
    else if (k == "batch") ss >> bt.seed >> bt.first >> bt.step >> bt.last;
    else if (k == "choices") { size_t n; ss >> n; uint64_t v; while (ss >> v) ch.push_back(v); }
  }
  const Property* p = find_prop(id); if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
  g_prop = p->id; g_thorough = tier == "thorough"; snapshot_lib(); sh = new_shared();
  // the verdict comes from an execution without the cost of tracing, the trace from a second one
  const Batch* b = bt.last >= 0 ? &bt : nullptr;
  Outcome o = run_child(*p, 0, b ? nullptr : &ch, false, b); o.trace = run_child(*p, 0, b ? nullptr : &ch, true, b).trace;
  char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
  printf("%s", o.trace.c_str());
  if (!o.bad) { printf("RESULT property=%s: no violation\n", id.c_str()); return 0; }
  printf("RESULT property=%s oracle=%s hash=%s (%s)\n%s\n", id.c_str(), o.oracle.c_str(), hb, hash == hb ? "identical to the recorded execution" : "differs from the recorded execution", o.msg.c_str());
  return (o.oracle == oracle && (hash == hb || hash == "none")) ? 1 : 2;
}

jmp_buf* on_abort;
static int cmd_list() { for (auto& p : properties()) printf("%s %ld %ld\n", p.id, p.quick_runs, p.thorough_runs); return 0; }

} // namespace sim

extern "C" {
void* __wrap_malloc(size_t n) { return sim::heap::get(n, false); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return sim::heap::get(a * b, true); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return sim::heap::get(n, false);
  size_t o = sim::heap::block_size(p); void* q = sim::heap::get(n, false); if (!q) return nullptr; memcpy(q, p, o < n ? o : n); sim::heap::put(p); return q;
}
void __wrap_free(void* p) { sim::heap::put(p); }
void __real_abort();
void __wrap_abort() { if (sim::on_abort) { jmp_buf* b = sim::on_abort; sim::on_abort = nullptr; longjmp(*b, 1); } __real_abort(); }
}

int main(int argc, char** argv) {
  // The same addresses in every execution, where the system allows it.
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_REEXEC", "1", 1); char exe[4000]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k > 0) { exe[k] = 0; execv(exe, argv); }
  }
  if (argc >= 2 && !strcmp(argv[1], "check")) return sim::cmd_check(argc - 2, argv + 2);
  if (argc >= 3 && !strcmp(argv[1], "replay")) return sim::cmd_replay(argv[2]);
  if (argc >= 2 && !strcmp(argv[1], "list")) return sim::cmd_list();
  fprintf(stderr, "usage: simrun check --prop ID [--seed N] [--tier quick|thorough] [--runs N] [--time S] --out DIR | replay FILE | list\n");
  return 3;
}
