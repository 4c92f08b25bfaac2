// Monitors shared by all workloads: failure reporting, transcripts, caller buffers with
// guard pages, the monitored system allocator and the arena red zones.
#ifndef CORE_H
#define CORE_H
#include "ref.h"
#include <cstdarg>
#include <cmath>
#include <climits>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define VF_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VF_ASAN 1
#endif
#ifdef __SANITIZE_THREAD__
#define VF_TSAN 1
#endif
#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#endif
#ifdef VF_MSAN
#include <sanitizer/msan_interface.h>
#endif

enum Cnt {
  N_CASES, N_TEXTS, N_ACCEPT, N_REJECT, N_OPS, N_OPS_OK, N_OPS_REFUSED, N_AUDITS, N_NODES, N_READS, N_KEPT, N_KEPT_CHECKS,
  N_BUFS, N_BUFS_GUARD, N_BUFS_RO, N_SCRIBBLED, N_SYSALLOC, N_SYSFREE, N_ARENA, N_ALLOCATORS, N_RELEASES, N_CROSS,
  N_NUMBERS, N_STRINGS, N_SETS, N_THREADS, N_HANDOVER, N_DEEP, N_COPIES, N_BORROWED, N_REBOUND, N_MAX
};
static const char *const CNT_NAME[N_MAX] = {
  "cases", "texts", "accepted", "rejected", "operations", "operations_ok", "operations_refused", "audits", "nodes_audited", "reads_checked", "results_retained", "retained_results_rechecked",
  "caller_buffers", "buffers_at_guard_page", "buffers_read_only", "buffers_scribbled_and_revoked", "system_allocations", "system_frees", "arena_blocks_hooked", "allocators", "allocator_releases", "cross_allocator_operations",
  "numbers_checked", "strings_decoded_or_encoded", "setter_calls", "threads", "handovers", "deep_documents", "copies", "arguments_in_library_memory", "fast_then_copying_calls"};

struct Shared { // in a file, read by the runner after a crash
  char mode[32];
  int64_t caseNo;
  int64_t opNo;
  char op[400];
};

struct Ctx {
  const zapi *api = nullptr;
  Rng rng{1}, brng{2};
  const char *mode = "";
  uint64_t caseNo = 0, opNo = 0;
  uint64_t th = FNV0;    // transcript hash
  FILE *log = nullptr;   // transcript text
  FILE *trf = nullptr;   // per-case transcript hashes
  Shared *sh = nullptr;  // only the main context
  bool threaded = false; // no shared bookkeeping
  int level = 1;         // 1 quick, 2 thorough
  bool ro = false;       // no edits (beta header, parse and read checks)
  bool beta = false;     // beta header: Set and SetFast between two values with keys take the key, too
  const char *kinds = ""; // which kinds of a mode to run (letters from 'a'); all if empty
  bool verdictOnly = false;
  uint64_t cnt[N_MAX] = {0};
  vector<uint64_t> distinct;
  const char *phase = "model"; // kind reported on a mismatch
  vector<string> samples;
  string trail; // the first operations of the current case
};

extern int g_failfd;
static pthread_mutex_t g_failmx = PTHREAD_MUTEX_INITIALIZER;

static inline string esc(const string &s, size_t max = 160) {
  string o;
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20 || c >= 0x7f || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  if (s.size() > max) { char t[40]; snprintf(t, sizeof t, "...(%zu bytes)", s.size()); o += t; }
  return o;
}

[[noreturn]] static inline void fail(Ctx &c, const char *kind, const char *fmt, ...) {
  char b[3000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  (void)n;
  va_end(ap);
  pthread_mutex_lock(&g_failmx);
  char o[4000];
  int m = snprintf(o, sizeof o, "FAIL kind=%s mode=%s case=%llu op=%llu :: %s\n", kind, c.mode, (unsigned long long)c.caseNo, (unsigned long long)c.opNo, b);
  if (m > (int)sizeof o - 1) m = (int)sizeof o - 1;
  ssize_t w = write(g_failfd, o, (size_t)m);
  w = write(2, o, (size_t)m);
  (void)w;
  if (c.log) fflush(c.log);
  _exit(10);
}
[[noreturn]] static inline void harness_error(const char *msg) {
  fprintf(stderr, "HARNESS-ERROR %s\n", msg);
  _exit(3);
}

static inline void tr(Ctx &c, const char *what, const string &s) {
  c.th = fnv(c.th, what, strlen(what) + 1);
  c.th = fnv(c.th, s.data(), s.size());
  c.th = fnv(c.th, "|", 1);
  if (c.log) fprintf(c.log, "%s %s\n", what, esc(s, 4000).c_str());
}
static inline void tri(Ctx &c, const char *what, long long v) {
  c.th = fnv(c.th, what, strlen(what) + 1);
  c.th = fnv(c.th, &v, sizeof v);
  if (c.log) fprintf(c.log, "%s %lld\n", what, v);
}
static inline void crumb(Ctx &c, const char *op, const string &arg = string()) {
  c.opNo++;
  if (c.samples.size() < 2 && c.trail.size() < 180) { c.trail += op; if (!arg.empty()) c.trail += "(" + arg.substr(0, 24) + ")"; c.trail += "; "; }
  if (c.log) fprintf(c.log, "#%llu %s %s\n", (unsigned long long)c.opNo, op, esc(arg, 1000).c_str());
  if (c.sh) {
    c.sh->opNo = (int64_t)c.opNo;
    size_t n = strlen(op);
    if (n > 60) n = 60;
    memcpy(c.sh->op, op, n);
    c.sh->op[n] = ' ';
    size_t m = arg.size() > 300 ? 300 : arg.size();
    if (m) memcpy(c.sh->op + n + 1, arg.data(), m);
    c.sh->op[n + 1 + m] = 0;
  }
}
static inline void seen(Ctx &c, const string &s) {
  if (c.distinct.size() < 400000) c.distinct.push_back(fnv(FNV0, s.data(), s.size()));
}
static inline void sample(Ctx &c, const string &s) {
  if (c.samples.size() < 4 && s.size() > 10) c.samples.push_back(esc(s, 200));
}

// ---------------------------------------------------------------- system allocator monitor
struct VfState {
  bool track = false;
  int fill = -1;
  struct Blk { void *p; size_t n; int owner; };
  vector<Blk> tab; // open addressing
  size_t used = 0, live = 0;
  size_t liveBytes = 0, maxBytes = 0, maxLive = 0;
  uint64_t nalloc = 0, nfree = 0, narena = 0;
  uint64_t cBytes = 0, cAlloc = 0, cFree = 0; // whether tracked or not
  bool custom = false; // custom memory mode
  bool hooks = false;
  int owner = -1;
  const char *error = nullptr;
  char errbuf[200];
};
extern VfState g_vf;
static inline size_t vf_hash(void *p, size_t m) { return (size_t)((((uintptr_t)p) >> 4) * 0x9E3779B97F4A7C15ull >> 20) & (m - 1); }
static inline VfState::Blk *vf_find(void *p) {
  if (g_vf.tab.empty()) return nullptr;
  size_t m = g_vf.tab.size();
  for (size_t i = vf_hash(p, m);; i = (i + 1) & (m - 1)) {
    if (g_vf.tab[i].p == p) return &g_vf.tab[i];
    if (!g_vf.tab[i].p) return nullptr;
  }
}
static inline void vf_insert(void *p, size_t n, int owner) {
  if (g_vf.tab.empty() || g_vf.used * 2 > g_vf.tab.size()) {
    vector<VfState::Blk> old;
    old.swap(g_vf.tab);
    size_t want = 1024;
    while (want < g_vf.live * 4 + 16) want *= 2;
    g_vf.tab.assign(want, VfState::Blk{nullptr, 0, 0});
    g_vf.used = 0;
    for (auto &b : old)
      if (b.p && b.p != (void *)1) {
        size_t i = vf_hash(b.p, want);
        while (g_vf.tab[i].p) i = (i + 1) & (want - 1);
        g_vf.tab[i] = b;
        g_vf.used++;
      }
  }
  size_t m = g_vf.tab.size(), i = vf_hash(p, m);
  while (g_vf.tab[i].p) i = (i + 1) & (m - 1);
  g_vf.tab[i] = VfState::Blk{p, n, owner};
  g_vf.used++;
}
// live blocks of one owner
static inline size_t vf_ownedBy(int owner) {
  size_t k = 0;
  for (auto &b : g_vf.tab) if (b.p && b.p != (void *)1 && b.owner == owner) k++;
  return k;
}

// ---------------------------------------------------------------- caller buffers
struct Buf {
  char *p = nullptr;
  size_t n = 0;
  string copy;
  char *base = nullptr; // guard mapping
  size_t pages = 0;
  bool ro = false, revoked = false, scratch = false;
};
struct Bufs {
  Ctx &c;
  vector<Buf *> held; // retained (Fast) or revoked buffers, until the session ends
  struct Map { char *base; size_t pages; };
  static vector<Map> &freeMaps() { static thread_local vector<Map> f; return f; }
  static int *nMaps() { static int n = 0; return &n; }
  int guardChance; // of 8
  // one buffer that call after call reuses at the same address, as callers' own buffers often are
  char scratch[2048];
  bool scratchBusy = false;
  explicit Bufs(Ctx &x) : c(x) {
    memset(scratch, '"', sizeof scratch);
#if defined(VF_ASAN)
    guardChance = 2;
#elif defined(VF_TSAN) || defined(VF_MSAN)
    guardChance = 0;
#else
    guardChance = 4;
#endif
  }
  static char *mapPages(size_t pages) {
    auto &f = freeMaps();
    for (size_t i = 0; i < f.size(); i++)
      if (f[i].pages == pages) { char *b = f[i].base; f[i] = f.back(); f.pop_back(); return b; }
    if (__atomic_load_n(nMaps(), __ATOMIC_RELAXED) >= 6000) { // stay far below the kernel's limit on mappings
      for (auto &m : f) { munmap(m.base, (m.pages + 1) * 4096); __atomic_sub_fetch(nMaps(), 1, __ATOMIC_RELAXED); }
      f.clear();
      if (__atomic_load_n(nMaps(), __ATOMIC_RELAXED) >= 6000) return nullptr;
    }
    __atomic_add_fetch(nMaps(), 1, __ATOMIC_RELAXED);
    char *b = (char *)mmap(nullptr, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) harness_error("mmap");
    if (mprotect(b + pages * 4096, 4096, PROT_NONE)) harness_error("mprotect");
    return b;
  }
  // exact bytes (plus terminator if z); lives until drop()
  Buf *make(const string &s, bool z, bool allowRo) {
    Buf *b = new Buf();
    b->n = s.size() + (z ? 1 : 0);
    b->copy = s;
    if (z) b->copy += '\0';
    c.cnt[N_BUFS]++;
    bool guard = b->n < 200000 && (int)c.brng.below(8) < guardChance;
    bool ro = c.brng.chance(1, 2);
    b->pages = b->n ? (b->n + 4095) / 4096 : 1;
    if (!scratchBusy && b->n < 1000 && c.brng.chance(1, 8)) {
      b->p = scratch + 8;
      b->scratch = scratchBusy = true;
      if (b->n) memcpy(b->p, b->copy.data(), b->n);
      return b;
    }
    if (guard && (b->base = mapPages(b->pages))) {
      b->p = b->base + b->pages * 4096 - b->n;
      memcpy(b->p, b->copy.data(), b->n);
      c.cnt[N_BUFS_GUARD]++;
      if (ro && allowRo) {
        b->ro = true;
        c.cnt[N_BUFS_RO]++;
        if (mprotect(b->base, b->pages * 4096, PROT_READ)) harness_error("mprotect ro");
      }
    } else {
      b->p = (char *)malloc(b->n ? b->n : 1);
      if (b->n) memcpy(b->p, b->copy.data(), b->n);
#ifdef VF_ASAN
      if (!b->n) __asan_poison_memory_region(b->p, 1);
#endif
    }
    return b;
  }
  void verify(Buf *b) {
    if (!b->revoked && b->n && memcmp(b->p, b->copy.data(), b->n) != 0)
      fail(c, "buffer", "caller buffer modified by the library: was \"%s\" now \"%s\"", esc(b->copy).c_str(), esc(string(b->p, b->n)).c_str());
  }
  void hold(Buf *b) { held.push_back(b); }
  // nothing that still lives was given these texts by reference: the caller takes them away
  void revokeHeld() {
    vector<Buf *> h;
    h.swap(held);
    for (Buf *b : h) revoke(b);
  }
  // the call was a copying one: overwrite and take away the memory
  void revoke(Buf *b) {
    verify(b);
    c.cnt[N_SCRIBBLED]++;
    char fillc = "\"9z}\\\xEE"[c.brng.below(6)];
    if (b->scratch) {
      memset(b->p, fillc, b->n);
      scratchBusy = false;
      delete b;
      return;
    }
    if (b->base) {
      if (b->ro && mprotect(b->base, b->pages * 4096, PROT_READ | PROT_WRITE)) harness_error("mprotect rw");
      b->ro = false;
      memset(b->p, fillc, b->n);
      if (c.brng.chance(1, 2)) {
        if (mprotect(b->base, b->pages * 4096, PROT_NONE)) harness_error("mprotect none");
        b->ro = true; // needs restoring
      }
      b->revoked = true;
      held.push_back(b);
    } else {
#ifdef VF_ASAN
      if (!b->n) __asan_unpoison_memory_region(b->p, 1);
#endif
      memset(b->p, fillc, b->n);
      free(b->p);
      delete b;
    }
  }
  void endSession() {
    for (Buf *b : held) {
      verify(b);
      if (b->scratch) scratchBusy = false;
      else if (b->base) {
        if (b->ro && mprotect(b->base, b->pages * 4096, PROT_READ | PROT_WRITE)) harness_error("mprotect rw");
        if (b->pages <= 4 && freeMaps().size() < 64) freeMaps().push_back(Map{b->base, b->pages});
        else { munmap(b->base, (b->pages + 1) * 4096); __atomic_sub_fetch(nMaps(), 1, __ATOMIC_RELAXED); }
      } else {
#ifdef VF_ASAN
        if (!b->n) __asan_unpoison_memory_region(b->p, 1);
#endif
        free(b->p);
      }
      delete b;
    }
    held.clear();
  }
  ~Bufs() { endSession(); }
};
#endif
