#include <stdarg.h>
// Workloads. usage: driver --mode M --seed S --cases N [--from K] [--to K] [--stride n --offset k]
//                         [--out FILE] [--shared FILE] [--hashes FILE] [--tr FILE] [--log FILE]
//                         [--corpus DIR] [--level L] [--track 0/1] [--fill B] [--cpu SECONDS]
#include "session.h"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>

int g_failfd = 2;
VfState g_vf;
static const char *g_corpus = nullptr;
static int g_ops = 0; // override of operations per session
// constants that occur in the tree under test: sizes, number texts, tokens. They only steer
// the workload towards the places where the code changes its behaviour; the oracle is the same.
static vector<size_t> g_sizes;
static vector<string> g_vals, g_toks;
static void loadDict(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) harness_error("dict");
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    string v = line + 2;
    while (!v.empty() && v.back() == '\n') v.pop_back();
    if (line[0] == 'S') g_sizes.push_back(strtoull(v.c_str(), nullptr, 10));
    else if (line[0] == 'V') g_vals.push_back(v);
    else if (line[0] == 'T') {
      string t;
      for (size_t i = 0; i + 1 < v.size(); i += 2) t += (char)strtol(v.substr(i, 2).c_str(), nullptr, 16);
      if (!t.empty() && t.find('\0') == string::npos) g_toks.push_back(t);
    }
  }
  fclose(f);
}
bool g_keep = true;   // retain results and re-check them

// ---------------------------------------------------------------- backend services
static thread_local int g_inUser;
extern "C" void *vf_malloc(size_t n) {
  void *p = malloc(n);
#if !defined(VF_TSAN)
  g_vf.cBytes += n, g_vf.cAlloc++;
  if (g_vf.custom && !g_inUser && !g_vf.error) g_vf.error = "memory is obtained without the user's function in the custom memory mode";
  if (g_vf.track) {
    g_vf.nalloc++;
    g_vf.live++;
    g_vf.liveBytes += n;
    if (g_vf.liveBytes > g_vf.maxBytes) g_vf.maxBytes = g_vf.liveBytes;
    if (g_vf.live > g_vf.maxLive) g_vf.maxLive = g_vf.live;
    vf_insert(p, n, g_vf.owner);
#if !defined(VF_MSAN)
    if (g_vf.fill >= 0 && p) memset(p, g_vf.fill, n < 65536 ? n : 65536);
#endif
  }
#endif
  return p;
}
extern "C" void vf_free(void *p) {
#if !defined(VF_TSAN)
  g_vf.cFree++;
  if (g_vf.custom && !g_inUser && !g_vf.error) g_vf.error = "memory is freed without the user's function in the custom memory mode";
  if (g_vf.track && p) {
    g_vf.nfree++;
    VfState::Blk *b = vf_find(p);
    if (!b) {
      if (!g_vf.error) {
        snprintf(g_vf.errbuf, sizeof g_vf.errbuf, "the library frees a block it does not own (double free or foreign pointer)");
        g_vf.error = g_vf.errbuf;
      }
      return;
    }
    g_vf.live--;
    g_vf.liveBytes -= b->n;
    b->p = (void *)1;
#if !defined(VF_MSAN) && !defined(VF_ASAN)
    memset(p, 0xDB, b->n); // what was freed no longer reads as it did
#endif
  }
#endif
  free(p);
}
extern "C" void vf_error(const char *s) {
#if !defined(VF_TSAN)
  if (!g_vf.error) g_vf.error = s;
#endif
  (void)s;
}
extern "C" void *vf_calloc(size_t a, size_t b) {
  void *p = vf_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
extern "C" void *vf_realloc(void *p, size_t n) {
  if (!p) return vf_malloc(n);
  if (!g_vf.track) return realloc(p, n);
  VfState::Blk *b = vf_find(p);
  size_t old = b ? b->n : 0;
  int ow = b ? b->owner : -1, cur = g_vf.owner;
  g_vf.owner = ow;
  void *q = vf_malloc(n);
  g_vf.owner = cur;
  if (q) memcpy(q, p, old < n ? old : n);
  vf_free(p);
  return q;
}
extern "C" void *vf_user_new(size_t n) {
  g_inUser++;
#if !defined(VF_TSAN)
  g_vf.custom = true;
#endif
  void *p = vf_malloc(n);
  g_inUser--;
  return p;
}
extern "C" void vf_user_free(void *p) {
  g_inUser++;
  vf_free(p);
  g_inUser--;
}
extern "C" char *vf_strndup(const char *s, size_t n) {
  size_t l = strnlen(s, n);
  char *p = (char *)vf_malloc(l + 1);
  if (p) { memcpy(p, s, l); p[l] = 0; }
  return p;
}
extern "C" char *vf_strdup(const char *s) { return vf_strndup(s, strlen(s)); }
extern "C" size_t vf_pad(size_t n) { return ((n + 7) & ~(size_t)7) + 16; }
extern "C" void vf_arena(void *p, size_t req, size_t n) {
#ifndef VF_TSAN
  g_vf.narena++;
#endif
#ifdef VF_ASAN
  __asan_unpoison_memory_region(p, n);
  __asan_poison_memory_region((char *)p + req, n - req);
#endif
#ifdef VF_MSAN
  __msan_allocated_memory(p, n);
#endif
  (void)p; (void)req; (void)n;
}

// ---------------------------------------------------------------- work monitor
static uint64_t g_work = 0; // edges executed in the library plus bytes touched through libc
extern "C" void __sanitizer_cov_trace_pc(void) { g_work++; }
extern "C" size_t vf_strlen(const char *s) { size_t n = strlen(s); g_work += n; return n; }
extern "C" int vf_strcmp(const char *a, const char *b) { size_t n = strlen(a), m = strlen(b); g_work += n < m ? n : m; return strcmp(a, b); }
extern "C" int vf_strncmp(const char *a, const char *b, size_t n) { g_work += strnlen(a, n); return strncmp(a, b, n); }
extern "C" void *vf_memcpy(void *d, const void *s, size_t n) { g_work += n; return memcpy(d, s, n); }
extern "C" void *vf_memmove(void *d, const void *s, size_t n) { g_work += n; return memmove(d, s, n); }
extern "C" void *vf_memset(void *d, int c, size_t n) { g_work += n; return memset(d, c, n); }
extern "C" int vf_memcmp(const void *a, const void *b, size_t n) { g_work += n; return memcmp(a, b, n); }
extern "C" void *vf_memchr(const void *a, int c, size_t n) { g_work += n; return (void *)memchr(a, c, n); }
extern "C" char *vf_strchr(const char *s, int ch) { const char *r = strchr(s, ch); g_work += r ? (size_t)(r - s) : strlen(s); return (char *)r; }
extern "C" char *vf_strstr(const char *s, const char *t) { g_work += strlen(s); return (char *)strstr(s, t); }
extern "C" char *vf_strcpy(char *d, const char *s) { g_work += strlen(s); return strcpy(d, s); }
extern "C" char *vf_strncpy(char *d, const char *s, size_t n) { g_work += n; return strncpy(d, s, n); }
extern "C" char *vf_strcat(char *d, const char *s) { g_work += strlen(d) + strlen(s); return strcat(d, s); }
extern "C" size_t vf_strspn(const char *s, const char *t) { size_t n = strspn(s, t); g_work += n; return n; }
extern "C" size_t vf_strcspn(const char *s, const char *t) { size_t n = strcspn(s, t); g_work += n; return n; }
extern "C" double vf_strtod(const char *s, char **e) { char *x; double d = strtod(s, &x); g_work += (size_t)(x - s); if (e) *e = x; return d; }
#define VF_SSCANF(name) extern "C" int name(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); g_work += strlen(s); int r = vsscanf(s, f, ap); va_end(ap); return r; }
VF_SSCANF(vf_sscanf) VF_SSCANF(vf_sscanf99) VF_SSCANF(vf_sscanf23)
extern "C" int vf_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); if (r > 0) g_work += (size_t)r; return r; }
extern "C" int vf_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); if (r > 0) g_work += (size_t)r; return r; }

// ---------------------------------------------------------------- light-weight users
struct Light { // an allocator recycled every few hundred values
  Ctx &c;
  const zapi *api;
  Bufs bufs;
  void *a = nullptr;
  int used = 0;
  explicit Light(Ctx &x) : c(x), api(x.api), bufs(x) { open(); }
  void open() {
    if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
    a = api->NewAllocator();
    c.cnt[N_ALLOCATORS]++;
    if (!a) fail(c, "model", "NewAllocator returned NULL");
  }
  void close() {
    if (a) {
      api->ReleaseAllocator(a);
      c.cnt[N_RELEASES]++;
      if (g_vf.track) {
        if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
        if (g_vf.live) fail(c, "balance", "%zu blocks still allocated after releasing the only allocator", g_vf.live);
      }
    }
    a = nullptr;
    bufs.endSession();
  }
  void recycle(int every = 60) { if (++used >= every) { close(); open(); used = 0; } }
  void *val() { return api->NewValue(a); }
  ~Light() { close(); }
};

// every parse entry point must give the reference verdict
static void checkVerdict(Ctx &c, Light &L, const string &t, bool expect, bool deepUse) {
  const zapi *api = c.api;
  c.cnt[N_TEXTS]++;
  c.cnt[expect ? N_ACCEPT : N_REJECT]++;
  if (c.sh || c.log) crumb(c, "verdict", t);
  bool got[8];
  int n = 0;
  static const char *names[8] = {"ParseFast", "Parse", "ParseLen", "ParseLen(followed by other bytes)", "ParseFast into a used value", "ParseFast into a member", "ParseLen of the beginning of a text the library returned", "a parse of a text the library returned"};
  Buf *b = L.bufs.make(t, true, true);
  got[n++] = api->ParseFast(L.val(), b->p);
  got[n++] = api->Parse(L.val(), b->p);
  if (deepUse) {
    void *v = L.val();
    if (c.ro) api->ParseFast(v, "\"old\""); else api->SetStrFast(v, "old");
    got[4] = api->ParseFast(v, b->p);
    void *o = L.val();
    if (api->ParseFast(o, "{\"a\":[1,2,3],\"b\":2}")) {
      void *m = api->ObjGet(o, "a");
      if (!m) fail(c, "read", "ObjGet failed on a fixed document");
      got[5] = api->ParseFast(m, b->p);
    } else got[5] = !expect;
  } else got[4] = got[5] = expect;
  got[6] = got[7] = expect;
  if (deepUse && t.size() < 5000 && t.find('\0') == string::npos) {
    // the same text, in memory the library handed out
    string q = "\"";
    char hx[8];
    for (char ch : t + "]1") { unsigned char u = (unsigned char)ch; if (u < 0x20 || u == '"' || u == '\\') { snprintf(hx, sizeof hx, "\\u%04x", u); q += hx; } else q += ch; }
    q += '"';
    void *h = L.val();
    if (api->Parse(h, q.c_str())) {
      const char *p = api->GetUnEscapeStr(h);
      if (!p || t + "]1" != p) fail(c, "read", "unescaped text: got \"%s\" expected \"%s\"", p ? esc(p, 600).c_str() : "(null)", esc(t + "]1", 600).c_str());
      got[6] = api->ParseLen(L.val(), p, t.size());
      if (t + "]1" != p) fail(c, "stable", "a text returned earlier and parsed was changed by that");
      h = L.val();
      q.resize(q.size() - 3);
      q += '"';
      if (api->Parse(h, q.c_str()) && (p = api->GetUnEscapeStr(h)) != nullptr) got[7] = c.rng.chance(1, 2) ? api->Parse(L.val(), p) : api->ParseFast(L.val(), p);
      c.cnt[N_BORROWED] += 2;
    }
  }
  L.bufs.hold(b);
  Buf *b2 = L.bufs.make(t, false, true);
  got[2] = api->ParseLen(L.val(), b2->p, t.size());
  L.bufs.revoke(b2);
  static const char *tails[] = {"]", "}", "\"", "1", " ", ",", "e5", "x", "\\"};
  Buf *b3 = L.bufs.make(t + tails[c.rng.below(9)], true, true);
  got[3] = api->ParseLen(L.val(), b3->p, t.size());
  L.bufs.revoke(b3);
  for (int i = 0; i < 8; i++)
    if (got[i] != expect) fail(c, "accept", "%s %s the %s text \"%s\"", names[i], got[i] ? "accepts" : "rejects", expect ? "valid" : "invalid", esc(t, 600).c_str());
  tri(c, "verdict", expect);
  if (L.bufs.held.size() > 200) { L.close(); L.open(); L.used = 0; }
  L.recycle();
}

// ---------------------------------------------------------------- modes
typedef void (*CaseFn)(Ctx &, uint64_t idx, uint64_t n);

static void m_verdict(Ctx &c, uint64_t, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  for (int k = 0; k < 12; k++) {
    string t = g.doc(c.rng.range(1, 30), c.rng.range(1, 10));
    { MArena a; string m = g.mutate(t); if (r_valid(m) != (r_parse(m, a) != nullptr)) harness_error("the two reference parsers disagree"); }
    checkVerdict(c, L, t, r_valid(t), true);
    if (t.size() > 4) seen(c, t);
    for (int j = 0; j < 4; j++) {
      string m = g.mutate(t);
      checkVerdict(c, L, m, r_valid(m), j == 0);
      if (m.size() > 3) seen(c, m);
    }
    sample(c, t);
  }
}
// enumerate all sequences of at most `len` tokens; case idx of n takes every n-th
static void enumerate(Ctx &c, uint64_t idx, uint64_t n, const vector<string> &tok, int len, const char *pre, const char *post) {
  Light L(c);
  uint64_t total = 0, p = 1;
  for (int l = 0; l <= len; l++) { total += p; p *= tok.size(); }
  for (uint64_t k = idx; k < total; k += n) {
    uint64_t q = k, base = 1;
    int l = 0;
    while (q >= base) { q -= base; base *= tok.size(); l++; }
    string t = pre;
    for (int i = 0; i < l; i++) { t += tok[q % tok.size()]; q /= tok.size(); }
    t += post;
    bool v = r_valid(t);
    checkVerdict(c, L, t, v, (k & 15) == 0);
    if (v) seen(c, t);
  }
}
// long tokens and runs of whitespace, with one thing wrong somewhere inside or at the end
static void m_longverdict(Ctx &c, uint64_t idx, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  static const int base[] = {7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 20000, 32768, 65535, 65536, 70000, 131072, 300000};
  int top = c.level > 1 ? 29 : idx % 4 == 0 ? 28 : 24;
  for (int k = 0; k < 6; k++) {
    int len = base[c.rng.below((uint32_t)top)] + c.rng.range(-3, 3);
    if (len < 1) len = 1;
    size_t n = (size_t)len;
    string body, pre, post;
    int kind = (int)c.rng.below(8);
    switch (kind) {
    case 0: body.assign(n, (char)c.rng.range('a', 'z')); pre = "[\""; post = "\"]"; break;
    case 1: body.assign(n, (char)c.rng.range('a', 'z')); pre = "{\""; post = "\":1}"; break;
    case 2: while (body.size() < n) body += g.piece(); pre = c.rng.chance(1, 2) ? "\"" : "{\"a\":\""; post = pre.size() == 1 ? "\"" : "\"}"; break;
    case 3: body = g.digits(len, false); pre = "["; post = c.rng.chance(1, 2) ? "]" : ".5e-3]"; break;
    case 4: body = "0." + g.digits(len); pre = "{\"n\":-"; post = "}"; break;
    case 5: body.resize(n); for (auto &ch : body) ch = " \t\n\r"[c.rng.below(4)]; pre = c.rng.chance(1, 2) ? "[1" : "{\"a\":"; post = pre == "[1" ? ",2]" : "{}}"; break;
    case 6: for (size_t i = 0; body.size() < n; i++) { if (i) body += ','; switch (c.rng.below(5)) { case 0: body += "true"; break; case 1: body += "null"; break; case 2: body += "\"" + g.strBody(3) + "\""; break; case 3: body += g.num(); break; default: body += "[]"; } } pre = "["; post = "]"; break;
    default: for (size_t i = 0; body.size() < n; i++) { if (i) body += ','; body += "\"" + g.key() + "\":" + (c.rng.chance(1, 2) ? string("{}") : std::to_string(i)); } pre = "{"; post = "}"; break;
    }
    string lead((size_t)c.rng.range(0, 17), ' ');
    string t = lead + pre + body + post;
    bool v = r_valid(t);
    checkVerdict(c, L, t, v, k == 0);
    seen(c, std::to_string(kind) + ":" + std::to_string(fnv(FNV0, t.data(), t.size())));
    for (int j = 0; j < 5; j++) {
      string m = t;
      size_t lo = lead.size(), at = c.rng.chance(1, 3) ? m.size() - 1 - c.rng.below((uint32_t)(post.size() + 5 < m.size() ? post.size() + 5 : 1)) : lo + c.rng.below((uint32_t)(m.size() - lo));
      switch (c.rng.below(7)) {
      case 0: m[at] = (char)c.rng.range(1, 31); break;
      case 1: m[at] = '"'; break;
      case 2: m[at] = '\\'; break;
      case 3: m.resize(at); break;
      case 4: m[at] = g.hostile(); break;
      case 5: m.insert(at, 1, g.hostile()); break;
      default: m.erase(at, 1);
      }
      if (m.find('\0') != string::npos) continue;
      checkVerdict(c, L, m, r_valid(m), false);
      seen(c, std::to_string(kind) + ":" + std::to_string(fnv(FNV0, m.data(), m.size())));
    }
    L.close();
    L.open();
    L.used = 0;
  }
}
// nesting of every depth around powers of two, objects and arrays mixed, one bracket wrong
static void m_deepverdict(Ctx &c, uint64_t idx, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  int e = 1 + (int)(idx % (c.level > 1 ? 19 : 17));
  int d = (1 << e) + c.rng.range(-2, 2);
  if (c.rng.chance(1, 4)) d = c.rng.range(1, 1 << e);
  if (!g_sizes.empty() && c.rng.chance(1, 4)) d = (int)g_sizes[c.rng.below((uint32_t)g_sizes.size())] % 140000 + c.rng.range(-1, 1);
  if (d < 1) d = 1;
  int style = (int)c.rng.below(4);
  string t, close;
  vector<size_t> opens;
  for (int i = 0; i < d; i++) {
    bool arr = style == 0 || (style != 1 && c.rng.chance(1, 2));
    opens.push_back(t.size());
    if (arr) t += '['; else t += "{\"k\":";
    close += arr ? ']' : '}';
    if (style == 3 && c.rng.chance(1, 8)) { if (arr) t += "1,"; else t += "1,\"l\":"; }
  }
  if (t.back() == ':' || t.back() == ',' || c.rng.chance(1, 2)) t += style == 3 ? "[]" : "0";
  vector<size_t> closes;
  for (int i = d; i-- > 0;) {
    if (style == 3 && c.rng.chance(1, 8)) t += close[(size_t)i] == ']' && t.back() != '[' ? ",2" : " ";
    closes.push_back(t.size());
    t += close[(size_t)i];
  }
  checkVerdict(c, L, t, r_valid(t), idx % 4 == 0);
  seen(c, std::to_string(fnv(FNV0, t.data(), t.size())));
  for (int j = 0; j < 8; j++) {
    string m = t;
    size_t q = c.rng.chance(1, 3) ? (c.rng.chance(1, 2) ? 0 : closes.size() - 1) : c.rng.below((uint32_t)closes.size());
    if (c.rng.chance(1, 4)) { size_t p = 1; while (p * 2 <= closes.size() && c.rng.chance(7, 8)) p *= 2; q = closes.size() >= p ? closes.size() - p : 0; }
    size_t at = closes[q];
    switch (c.rng.below(6)) {
    case 0: case 1: m[at] = m[at] == ']' ? '}' : ']'; break;
    case 2: m.erase(at, 1); break;
    case 3: m.insert(at, 1, c.rng.chance(1, 2) ? ']' : '}'); break;
    case 4: { size_t o = opens[c.rng.below((uint32_t)opens.size())]; m[o] = m[o] == '[' ? '{' : '['; break; }
    default: m.resize(at);
    }
    checkVerdict(c, L, m, r_valid(m), false);
    seen(c, std::to_string(fnv(FNV0, m.data(), m.size())));
  }
}
static void m_enum_struct(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"[", "]", "{", "}", ",", ":", "\"a\"", "\"\"", "1", "null", " ", "tru"};
  enumerate(c, i, n, tok, c.level > 1 ? 6 : 5, "", "");
}
static void m_enum_obj(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"[", "]", "}", ",", ":", "\"b\"", "-0.5e1", "true", "\n", "{\"k\":"};
  enumerate(c, i, n, tok, c.level > 1 ? 6 : 5, "{\"a\":", "");
}
static void m_enum_num(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"-", "0", "1", "9", ".", "e", "E", "+"};
  enumerate(c, i, n, tok, c.level > 1 ? 7 : 6, "", "");
}
static void m_enum_num2(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"-", "0", "5", ".", "e", "+", " ", ","};
  enumerate(c, i, n, tok, c.level > 1 ? 6 : 5, "[", "]");
}
static void m_enum_str(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"\\uD800", "\\udbff", "\\uDC00", "\\uDfFF", "\\uE000", "\\u0041", "\\u00", "\\n", "\\\"", "\\\\", "\\", "u", "a", "\x1f", "\xc3", "\""};
  enumerate(c, i, n, tok, c.level > 1 ? 5 : 4, "\"", "\"");
}
static void m_enum_chars(Ctx &c, uint64_t i, uint64_t n) {
  vector<string> tok = {"[", "]", "{", "}", ",", ":", "\"", "\\", "0", "1", "-", ".", "e", "t", "r", "u", " ", "n"};
  enumerate(c, i, n, tok, c.level > 1 ? 5 : 4, "", "");
}
// every byte value in every position of texts that visit each part of the grammar
static const char *const TEMPLATES[] = {
  "[1,-20.5e+3,\"a\\n\\u00e9\\uD83D\\uDE00z\",true,false,null,{\"k\":[],\"l\":{}}]", "\"\\u12aF\"", "-0.1E-7", "true", "false", "null", " { \"a\\tb\" : [ ] , \"\" : 1 } ", "[[],[{}],\"\"]", "\"x\"", "10", "{\"a\":{\"b\":null},\"c\":\"\\\\\"}", "[true,false,null]", "{\"t\":true,\"f\":false,\"n\":null,\"s\":\"s\",\"d\":0}", "\t[\r\n1 ]\n", "[0,0.0,0e0,-0]"};
static void m_sweep_bytes(Ctx &c, uint64_t idx, uint64_t n) {
  Light L(c);
  uint64_t k = 0;
  for (const char *tp : TEMPLATES) {
    string t = tp;
    for (size_t p = 0; p <= t.size(); p++)
      for (int b = 1; b < 256; b++) {
        if (k++ % n != idx) continue;
        string m = t;
        if (p < t.size()) { m[p] = (char)b; bool v = r_valid(m); checkVerdict(c, L, m, v, (k & 7) == 0); if (v) seen(c, m); }
        m = t;
        m.insert(p, 1, (char)b);
        bool v = r_valid(m);
        checkVerdict(c, L, m, v, false);
        if (v) seen(c, m);
      }
    for (size_t p = 0; p <= t.size(); p++) {
      if (k++ % n != idx) continue;
      string m = t.substr(0, p);
      checkVerdict(c, L, m, r_valid(m), true);
      m = t.substr(p);
      checkVerdict(c, L, m, r_valid(m), true);
      for (size_t q = 1; q < 4 && p + q <= t.size(); q++) { m = t; m.erase(p, q); checkVerdict(c, L, m, r_valid(m), true); }
    }
  }
}
// all 65536 code units as an escape, alone and in pairs with boundary units
static void m_sweep_units(Ctx &c, uint64_t idx, uint64_t n) {
  Light L(c);
  static const unsigned other[] = {0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x0041};
  char b[64];
  for (unsigned u = (unsigned)idx; u < 0x10000; u += (unsigned)n) {
    snprintf(b, sizeof b, (u & 1) ? "\"\\u%04x\"" : "\"\\u%04X\"", u);
    checkVerdict(c, L, b, r_valid(b), false);
    if (u >= 0xD700 && u < 0xE100) {
      for (unsigned o : other) {
        snprintf(b, sizeof b, "{\"\\u%04x\\u%04X\":0}", u, o);
        checkVerdict(c, L, b, r_valid(b), false);
        snprintf(b, sizeof b, "[\"\\u%04x\\u%04X\"]", o, u);
        checkVerdict(c, L, b, r_valid(b), false);
      }
    }
  }
}
static vector<string> &corpus() {
  static vector<string> files;
  static bool loaded = false;
  if (!loaded && g_corpus) {
    loaded = true;
    vector<string> dirs = {g_corpus};
    for (size_t d = 0; d < dirs.size() && d < 200; d++) {
      DIR *dp = opendir(dirs[d].c_str());
      if (!dp) continue;
      vector<string> names;
      while (struct dirent *e = readdir(dp)) if (e->d_name[0] != '.') names.push_back(e->d_name);
      closedir(dp);
      std::sort(names.begin(), names.end());
      for (auto &nm : names) {
        string p = dirs[d] + "/" + nm;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) dirs.push_back(p);
        else if (S_ISREG(st.st_mode) && st.st_size < 4000000 && nm.size() > 5 && nm.substr(nm.size() - 5) == ".json") {
          FILE *f = fopen(p.c_str(), "rb");
          if (!f) continue;
          string s((size_t)st.st_size, 0);
          size_t got = fread(&s[0], 1, s.size(), f);
          s.resize(got);
          fclose(f);
          if (s.find('\0') == string::npos && s.size()) files.push_back(s);
        }
      }
    }
  }
  return files;
}
static void m_corpus(Ctx &c, uint64_t idx, uint64_t) {
  auto &f = corpus();
  if (f.empty()) return;
  Light L(c);
  Gen g(c.rng);
  const string &s = f[idx % f.size()];
  checkVerdict(c, L, s, r_valid(s), false);
  // a window of the file keeps big files cheap
  for (int k = 0; k < 6; k++) {
    string t;
    if (s.size() < 3000) t = s;
    else { size_t p = c.rng.below((uint32_t)(s.size() - 2000)); t = "[" + s.substr(p, c.rng.below(2000)) + "]"; }
    if (k) t = g.mutate(t);
    checkVerdict(c, L, t, r_valid(t), false);
    seen(c, t);
  }
}
// ---- C02
static void roundtrip(Ctx &c, Light &L, const string &t) {
  const zapi *api = c.api;
  MArena M;
  MNode *d = r_parse(t, M);
  if (!d) return;
  string want = r_ser(d);
  c.cnt[N_TEXTS]++;
  crumb(c, "roundtrip", t);
  void *v = L.val();
  int variant = (int)c.rng.below(3);
  Buf *b = L.bufs.make(t, variant != 2, true);
  bool ok = variant == 0 ? api->ParseFast(v, b->p) : variant == 1 ? api->Parse(v, b->p) : api->ParseLen(v, b->p, t.size());
  if (variant == 0) L.bufs.hold(b); else L.bufs.revoke(b);
  if (!ok) fail(c, "accept", "valid text rejected: \"%s\"", esc(t, 600).c_str());
  const char *s = api->Stringify(v);
  if (!s || want != s) fail(c, "text", "Stringify of \"%s\" gives \"%s\" instead of \"%s\"", esc(t, 500).c_str(), s ? esc(s, 500).c_str() : "(null)", esc(want, 500).c_str());
  tr(c, "text", s);
  const char *s2 = api->Stringify(v);
  if (!s2 || want != s2 || want != s) fail(c, "text", "second Stringify of \"%s\" differs", esc(t, 500).c_str());
  void *v2 = L.val();
  if (!api->ParseFast(v2, s)) fail(c, "text", "the result of Stringify does not parse: \"%s\"", esc(s, 500).c_str());
  const char *s3 = api->Stringify(v2);
  if (!s3 || want != s3) fail(c, "text", "parse/stringify of compact text \"%s\" gives \"%s\"", esc(want, 500).c_str(), s3 ? esc(s3, 500).c_str() : "(null)");
  // sub-values, iteratively
  struct F { void *h; MNode *n; };
  vector<F> st = {{v, d}};
  while (!st.empty()) {
    F f = st.back();
    st.pop_back();
    c.cnt[N_NODES]++;
    string w = r_ser(f.n);
    if (f.n != d) {
      const char *p = api->Stringify(f.h);
      if (!p || w != p) fail(c, "text", "Stringify of a sub-value gives \"%s\" instead of \"%s\" in \"%s\"", p ? esc(p, 300).c_str() : "(null)", esc(w, 300).c_str(), esc(t, 300).c_str());
    }
    if (w.size() > 20000 && f.n != d) continue;
    void *k = api->Begin(f.h);
    for (size_t i = 0; i < f.n->kids.size(); i++) {
      if (!k) fail(c, "text", "a parsed value lost children: \"%s\"", esc(w, 300).c_str());
      if (f.n->kids.size() < 300 || i < 3 || i + 3 > f.n->kids.size() || c.rng.chance(1, 50)) st.push_back({k, f.n->kids[i]});
      k = api->Next(k);
    }
  }
  if (d->kids.size()) seen(c, want);
  L.recycle(40);
}
static void m_roundtrip(Ctx &c, uint64_t idx, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  for (int k = 0; k < 8; k++) {
    int b = c.rng.range(1, 40);
    if (idx % 16 == 7 && k == 0) b = c.rng.range(500, 4000);
    string t = g.doc(b, c.rng.range(1, 12));
    roundtrip(c, L, t);
    sample(c, t);
  }
  if (idx % 8 == 3) { // deep-ish
    int d = c.rng.range(50, 600);
    string t, e;
    for (int i = 0; i < d; i++) {
      if (c.rng.chance(1, 2)) { t += "["; if (c.rng.chance(1, 3)) t += "1,"; e = (c.rng.chance(1, 3) ? string(",2]") : string("]")) + e; }
      else { t += "{\"" + g.key() + "\":"; e = (c.rng.chance(1, 4) ? string(",\"z\":0}") : string("}")) + e; }
    }
    roundtrip(c, L, t + "0" + e);
  }
}
static void m_rt_corpus(Ctx &c, uint64_t idx, uint64_t) {
  auto &f = corpus();
  if (f.empty()) return;
  const string &s = f[idx % f.size()];
  if (s.size() > 1500000 || !r_valid(s)) return;
  Light L(c);
  roundtrip(c, L, s);
}
// every output length around the buffer sizes, with the last token of every kind
static void m_rt_sweep(Ctx &c, uint64_t idx, uint64_t n) {
  Light L(c);
  int max = c.level > 1 ? 9000 : 2300;
  for (int len = (int)idx; len < max; len += (int)n) {
    string pad((size_t)len, 'x');
    const string forms[] = {"\"" + pad + "\"", "[\"" + pad + "\",1]", "{\"" + pad + "\":[]}", "[\"" + pad + "\",\"tail\",{\"k\":null}]", "[[\"" + pad + "\"],{}]", "{\"a\":\"" + pad + "\",\"b\":true}"};
    for (auto &f : forms) roundtrip(c, L, f);
    if (len % 7 == 0) {
      string t = "[";
      for (int i = 0; i < len; i++) t += i ? ",1" : "1";
      roundtrip(c, L, t + "]");
    }
  }
}
// ---- C03
static const Profile P_READ = {"read", {0}, 1, 1, 0, 0};
static void m_read(Ctx &c, uint64_t idx, uint64_t) {
  c.phase = "read";
  Session s(c, &P_READ);
  Gen g(c.rng);
  for (int k = 0; k < 5; k++) {
    string t = g.doc(idx % 20 == 3 ? c.rng.range(100, 600) : c.rng.range(1, 40), c.rng.range(1, 8));
    MNode *d = r_parse(t, s.M);
    if (!d) continue;
    c.cnt[N_TEXTS]++;
    crumb(c, "read", t);
    Handle h = s.newVal(0);
    Buf *b = s.bufs.make(t, true, true);
    s.own(0);
    bool fast = c.rng.chance(1, 2);
    bool ok = fast ? c.api->ParseFast(h.h, b->p) : c.api->Parse(h.h, b->p);
    if (fast) s.bufs.hold(b); else s.bufs.revoke(b);
    if (!ok) fail(c, "accept", "valid text rejected: \"%s\"", esc(t, 600).c_str());
    Session::addDeps(d, 1);
    for (auto &x : s.pool) if (x.h == h.h) x.n = d;
    s.checkTree(h.h, d, 0, true);
    s.checkText(h.h, d, 0);
    s.checkTree(h.h, d, 0, true); // reading is repeatable
    sample(c, t);
    seen(c, t);
    // a large flat container: every index and key
    if (k == 0 && idx % 10 == 0) {
      int n = c.rng.range(30, 300);
      bool obj = c.rng.chance(1, 2);
      string u = obj ? "{" : "[";
      for (int i = 0; i < n; i++) { if (i) u += ","; if (obj) u += "\"k" + std::to_string(i % (n - 3)) + "\":"; u += std::to_string(i); }
      u += obj ? "}" : "]";
      MNode *e = r_parse(u, s.M);
      Handle hh = s.newVal(0);
      s.own(0);
      if (!c.api->Parse(hh.h, u.c_str())) fail(c, "accept", "flat container rejected");
      Session::addDeps(e, 1);
      for (auto &x : s.pool) if (x.h == hh.h) x.n = e;
      for (size_t i = 0; i < e->kids.size(); i++) {
        if (obj) s.lookup(hh.h, e, e->kids[i]->key, 0);
        else { void *x = c.api->ArrayGet(hh.h, i); if (!x) s.bad("ArrayGet", e, "(null)", std::to_string(i)); s.same(x, e->kids, i, 0, "ArrayGet"); }
      }
    }
  }
  s.finish();
}
// objects whose keys are as alike as possible
static void m_keys(Ctx &c, uint64_t, uint64_t) {
  c.phase = "read";
  Session s(c, &P_READ);
  Gen &g = s.g;
  for (int k = 0; k < 4; k++) {
    int n = c.rng.range(2, 30);
    g.stem.clear();
    string t = "{";
    for (int i = 0; i < n; i++) { if (i) t += ","; t += "\"" + g.famKey() + "\":" + std::to_string(i); }
    t += "}";
    MNode *d = r_parse(t, s.M);
    if (!d) continue;
    c.cnt[N_TEXTS]++;
    crumb(c, "keys", t);
    Handle h = s.newVal(0);
    s.own(0);
    Buf *b = s.bufs.make(t, true, true);
    if (!c.api->Parse(h.h, b->p)) fail(c, "accept", "valid text rejected: \"%s\"", esc(t, 600).c_str());
    s.bufs.revoke(b);
    Session::addDeps(d, 1);
    size_t pi = 0;
    while (s.pool[pi].h != h.h) pi++;
    s.pool[pi].n = d;
    for (MNode *m : d->kids) {
      s.lookup(h.h, d, m->key, 0);
      for (int q = 0; q < 6; q++) s.lookup(h.h, d, g.nearKey(m->key), 0);
    }
    for (int q = 0; q < 12; q++) s.lookup(h.h, d, g.famKey(), 0);
    seen(c, t);
    for (int q = 0; q < n / 2 && !c.ro; q++) s.doDel(s.pool[pi], false);
    s.checkTree(h.h, d, 0, true);
  }
  s.finish();
}
// ---- C04
static void checkDecode(Ctx &c, Light &L, const string &raw, bool key) {
  const zapi *api = c.api;
  string want = r_decode(raw);
  c.cnt[N_STRINGS]++;
  crumb(c, "decode", raw);
  string doc = key ? "{\"" + raw + "\":0}" : "[\"" + raw + "\"]";
  void *v = L.val();
  int how = (int)c.rng.below(3);
  Buf *b;
  void *m;
  if (how == 0 || (how == 1 && key) || c.ro) {
    b = L.bufs.make(doc, true, true);
    if (!(how ? api->ParseFast(v, b->p) : api->Parse(v, b->p))) fail(c, "accept", "valid text rejected: \"%s\"", esc(doc, 600).c_str());
    L.bufs.hold(b);
    m = api->Begin(v);
    if (!m) fail(c, "read", "Begin failed");
  } else {
    b = L.bufs.make(raw, false, true);
    if (!(key ? api->SetKeyLenFast(v, b->p, raw.size()) : api->SetStrLenFast(v, b->p, raw.size()))) fail(c, "escape", "legal string refused by the setter: \"%s\"", esc(raw, 600).c_str());
    L.bufs.hold(b);
    m = v;
  }
  const char *p = key ? api->GetUnEscapeKey(m) : api->GetUnEscapeStr(m);
  if (!p) fail(c, "escape", "no unescaped text for \"%s\"", esc(raw, 600).c_str());
  if (strcmp(p, want.c_str()) != 0) fail(c, "escape", "\"%s\" unescapes to \"%s\" instead of \"%s\"", esc(raw, 600).c_str(), esc(p, 600).c_str(), esc(want, 600).c_str());
  const char *q = key ? api->GetKey(m) : api->GetStr(m);
  if (!q || raw != q) fail(c, "escape", "raw read of \"%s\" gives \"%s\"", esc(raw, 600).c_str(), q ? esc(q, 600).c_str() : "(null)");
  tr(c, "dec", p);
  seen(c, raw);
  L.recycle(100);
}
static void checkEncode(Ctx &c, Light &L, const string &bytes, bool key, bool len) {
  const zapi *api = c.api;
  if (c.ro) return;
  c.cnt[N_STRINGS]++;
  crumb(c, "encode", bytes);
  void *v = L.val();
  Buf *b = L.bufs.make(len && c.rng.chance(1, 2) ? bytes + "\"\\" : bytes, !len, true);
  bool ok = key ? (len ? api->SetKeyLenEscape(v, b->p, bytes.size()) : api->SetKeyEscape(v, b->p)) : (len ? api->SetStrLenEscape(v, b->p, bytes.size()) : api->SetStrEscape(v, b->p));
  L.bufs.revoke(b);
  if (!ok) fail(c, "escape", "escaping setter refused \"%s\"", esc(bytes, 600).c_str());
  const char *raw = key ? api->GetKey(v) : api->GetStr(v);
  if (!raw) fail(c, "escape", "nothing stored for \"%s\"", esc(bytes, 600).c_str());
  if (!r_legalStr(raw)) fail(c, "escape", "escaping \"%s\" stored the illegal string \"%s\"", esc(bytes, 600).c_str(), esc(raw, 600).c_str());
  if (r_decode(raw) != bytes) fail(c, "escape", "escaping \"%s\" stored \"%s\"", esc(bytes, 600).c_str(), esc(raw, 600).c_str());
  const char *u = key ? api->GetUnEscapeKey(v) : api->GetUnEscapeStr(v);
  if (!u || strcmp(u, bytes.c_str()) != 0) fail(c, "escape", "\"%s\" comes back as \"%s\"", esc(bytes, 600).c_str(), u ? esc(u, 600).c_str() : "(null)");
  // through a document: serialize, parse again, read
  if (c.rng.chance(1, 4)) {
    void *o = L.val();
    string want;
    if (key) { api->SetObj(o); if (!api->ObjAdd(o, v)) fail(c, "escape", "ObjAdd failed"); want = string("{\"") + raw + "\":null}"; }
    else { api->SetArray(o); if (!api->ArrayAdd(o, v)) fail(c, "escape", "ArrayAdd failed"); want = string("[\"") + raw + "\"]"; }
    const char *t = api->Stringify(o);
    if (!t || want != t) fail(c, "escape", "document with \"%s\" serializes as \"%s\"", esc(bytes, 300).c_str(), t ? esc(t, 600).c_str() : "(null)");
    void *w = L.val();
    if (!api->ParseFast(w, t)) fail(c, "escape", "document with \"%s\" does not parse back: \"%s\"", esc(bytes, 300).c_str(), esc(t, 600).c_str());
    void *k = api->Begin(w);
    u = !k ? nullptr : key ? api->GetUnEscapeKey(k) : api->GetUnEscapeStr(k);
    if (!u || strcmp(u, bytes.c_str()) != 0) fail(c, "escape", "\"%s\" comes back from a document as \"%s\"", esc(bytes, 600).c_str(), u ? esc(u, 600).c_str() : "(null)");
  }
  tr(c, "enc", raw);
  seen(c, bytes);
  L.recycle(100);
}
static void m_esc(Ctx &c, uint64_t, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  for (int k = 0; k < 25; k++) {
    string raw = g.strBody(c.rng.range(1, 40));
    checkDecode(c, L, raw, c.rng.chance(1, 3));
    bool len = c.rng.chance(1, 2);
    string by = g.bytes(c.rng.range(1, 60), len);
    if (c.rng.chance(1, 40)) by += string((size_t)c.rng.range(100, 9000), (char)c.rng.range(1, 255));
    checkEncode(c, L, by, c.rng.chance(1, 3), len);
    sample(c, raw);
  }
}
static void m_esc_units(Ctx &c, uint64_t idx, uint64_t n) { // all code units, singly and in batches
  Light L(c);
  char b[16];
  string batch;
  for (unsigned u = (unsigned)idx; u < 0x10000; u += (unsigned)n) {
    if (u >= 0xD800 && u <= 0xDFFF) continue;
    snprintf(b, sizeof b, (u / (unsigned)n) & 1 ? "\\u%04x" : "\\u%04X", u);
    checkDecode(c, L, b, (u & 3) == 0);
    if (u) batch += b;
    if (batch.size() > 6 * 40) { checkDecode(c, L, batch, false); batch.clear(); }
  }
}
static void m_esc_pairs(Ctx &c, uint64_t idx, uint64_t n) { // all surrogate pairs, 64 to a string
  Light L(c);
  char b[32];
  for (unsigned hi = 0xD800 + (unsigned)idx; hi < 0xDC00; hi += (unsigned)n) {
    string batch;
    for (unsigned lo = 0xDC00; lo < 0xE000; lo++) {
      snprintf(b, sizeof b, lo & 1 ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", hi, lo);
      batch += b;
      if ((lo & 63) == 63) { checkDecode(c, L, batch, (lo & 64) != 0); batch.clear(); }
    }
  }
}
static void m_esc_bytes(Ctx &c, uint64_t idx, uint64_t n) { // every byte and pair of bytes
  Light L(c);
  for (unsigned k = (unsigned)idx; k < 256 * 257; k += (unsigned)n) {
    string s;
    if (k < 256) s = string(1, (char)k);
    else { s += (char)((k - 256) / 256); s += (char)((k - 256) % 256); }
    bool nul = s.find('\0') != string::npos;
    checkEncode(c, L, s, (k & 1) != 0, nul || (k & 2));
    if (k < 256) { checkEncode(c, L, "ab" + s + "cd", true, true); checkEncode(c, L, "ab" + s + "cd", false, true); if (!nul) { checkEncode(c, L, s, true, false); checkEncode(c, L, s + s, false, false); } }
    if (r_legalStr(s)) checkDecode(c, L, s, (k & 4) != 0);
  }
}
// ---- C05
static void checkNumberText(Ctx &c, Light &L, const string &t) {
  const zapi *api = c.api;
  c.cnt[N_NUMBERS]++;
  crumb(c, "number", t);
  Gen g(c.rng);
  string pre = "[", post = "]";
  void *v = L.val(), *m = nullptr;
  int how = (int)c.rng.below(c.ro ? 5 : 7);
  switch (how) {
  case 0: break;
  case 1: pre = "["; post = "," + g.digits(4, false) + "]"; break;
  case 2: pre = "[" + g.digits(3, false) + ","; post = "]"; break;
  case 3: pre = "{\"a\":"; post = ",\"1\":2}"; break;
  case 4: pre = ""; post = ""; break;
  default: break;
  }
  if (how <= 4) {
    string doc = pre + t + post;
    int variant = (int)c.rng.below(3);
    Buf *b = L.bufs.make(doc, variant != 2, true);
    bool ok = variant == 0 ? api->ParseFast(v, b->p) : variant == 1 ? api->Parse(v, b->p) : api->ParseLen(v, b->p, doc.size());
    if (variant == 0) L.bufs.hold(b); else L.bufs.revoke(b);
    if (!ok) fail(c, "accept", "valid text rejected: \"%s\"", esc(doc, 600).c_str());
    if (how == 4) m = v;
    else {
      m = api->Begin(v);
      if (how == 2 && m) m = api->Next(m);
    }
    if (!m) fail(c, "read", "navigation failed in \"%s\"", esc(doc, 600).c_str());
  } else { // through the setters, with digits behind the number
    Buf *b = L.bufs.make(how == 5 ? t + g.digits(5) : t, how == 6, true);
    bool fast = c.rng.chance(1, 2);
    bool ok = how == 5 ? (fast ? api->SetNumStrLenFast(v, b->p, t.size()) : api->SetNumStrLen(v, b->p, t.size())) : (fast ? api->SetNumStrFast(v, b->p) : api->SetNumStr(v, b->p));
    if (fast) L.bufs.hold(b); else L.bufs.revoke(b);
    if (!ok) fail(c, "number", "legal number refused: \"%s\"", esc(t, 600).c_str());
    m = v;
  }
  double w = strtod(t.c_str(), nullptr);
  const double *p = c.rng.chance(1, 2) ? api->GetDouble(m) : api->GetNum(m);
  if (!p || memcmp(p, &w, 8) != 0) fail(c, "number", "\"%s\" reads as double %.17g instead of %.17g", esc(t, 900).c_str(), p ? *p : 0.0, w);
  const char *s = api->GetNumStr(m);
  if (!s || t != s) fail(c, "number", "raw number text \"%s\" reads as \"%s\"", esc(t, 900).c_str(), s ? esc(s, 900).c_str() : "(null)");
  if (r_intLiteral(t)) {
    errno = 0;
    long long e = strtoll(t.c_str(), nullptr, 10);
    if (errno == 0) {
      const long long *q = api->GetLongLong(m);
      if (!q || *q != e) fail(c, "number", "\"%s\" reads as long long %lld", t.c_str(), q ? *q : -1);
      const long *l = api->GetLong(m);
      if (!l || *l != (long)e) fail(c, "number", "\"%s\" reads as long %ld", t.c_str(), l ? *l : -1);
      if (e >= INT_MIN && e <= INT_MAX) {
        const int *i = api->GetInt(m);
        if (!i || *i != (int)e) fail(c, "number", "\"%s\" reads as int %d", t.c_str(), i ? *i : -1);
      }
    }
  }
  const char *js = api->Stringify(m);
  if (!js || t != js) fail(c, "number", "number \"%s\" serializes as \"%s\"", esc(t, 900).c_str(), js ? esc(js, 900).c_str() : "(null)");
  tr(c, "n", t);
  seen(c, t);
  L.recycle(40);
}
static string dec128(unsigned __int128 x) {
  string o;
  do o.insert(o.begin(), (char)('0' + (int)(x % 10))), x /= 10; while (x);
  return o;
}
// digits and exponents near the places where counters and mantissas of some width would wrap, and the
// neighbourhood of what a double holds exactly
static string wrapNum(Ctx &c, Gen &g) {
  static const int W[] = {15, 16, 31, 32, 52, 53, 54, 63, 64, 64, 64, 96};
  auto near = [&](int top) {
    int w = W[c.rng.below((uint32_t)top)];
    unsigned __int128 x = ((unsigned __int128)1 << w) * (unsigned)c.rng.range(1, c.rng.chance(1, 2) ? 6 : 400);
    switch (c.rng.below(4)) {
    case 0: x += (unsigned)c.rng.range(0, 3); break;
    case 1: x -= (unsigned)c.rng.range(1, 3); break;
    case 2: x += c.rng.next() >> c.rng.range(11, 60); break;
    default: x += (unsigned)c.rng.range(0, 2000);
    }
    return x;
  };
  string t = c.rng.chance(1, 3) ? g.digits(c.rng.range(14, 21), false) : dec128(near(12));
  if (c.rng.chance(1, 8)) t += string((size_t)c.rng.range(1, 30), '0');
  if (c.rng.chance(1, 3)) {
    size_t p = (size_t)c.rng.range(0, (int)t.size());
    if (!p) t = "0." + string((size_t)(c.rng.chance(1, 2) ? c.rng.range(0, 30) : 0), '0') + t;
    else if (p < t.size()) t.insert(p, ".");
  }
  switch (c.rng.below(4)) {
  case 0: t += "e" + std::to_string(c.rng.range(-45, 45)); break;
  case 1: if (c.rng.chance(1, 2)) { int d = c.rng.range(-3, 3); t += string(c.rng.chance(1, 2) ? "e" : "E-") + dec128(near(10) + (unsigned)(d < 0 ? 0 : d)); } break;
  case 2: t += string("e") + (c.rng.chance(1, 2) ? "-" : "+") + std::to_string(c.rng.range(285, 345)); break;
  default:;
  }
  return (c.rng.chance(1, 4) ? "-" : "") + t;
}
static void m_num(Ctx &c, uint64_t idx, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  for (int k = 0; k < 45; k++) {
    string t = k < 30 ? g.num() : wrapNum(c, g);
    if (k >= 30) {
      if (!r_legalNum(t)) harness_error("number generator");
      checkNumberText(c, L, t);
      continue;
    }
    if (c.rng.chance(1, 25)) { // every length, huge ones included
      t = g.digits(c.rng.chance(1, 4) ? c.rng.range(300, 6000) : c.rng.range(100, 160), false);
      if (c.rng.chance(1, 2)) t.insert((size_t)c.rng.range(1, (int)t.size() - 1), ".");
      if (c.rng.chance(1, 3)) t += "e" + string(c.rng.chance(1, 2) ? "-" : "") + g.digits(3);
    }
    if (c.rng.chance(1, 8)) { // halfway cases of doubles, written out exactly
      double d = fabs((double)(int64_t)(c.rng.next() >> 1));
      char b[400];
      snprintf(b, sizeof b, "%.0f", d);
      t = string(b) + (c.rng.chance(1, 2) ? ".5" : ".50000000000000000000001");
      if (c.rng.chance(1, 2)) { double x; uint64_t u = ((uint64_t)c.rng.range(1, 2046) << 52) | (c.rng.next() >> 12); memcpy(&x, &u, 8); snprintf(b, sizeof b, "%.*e", c.rng.range(14, 60), x); t = b; }
    }
    if (!r_legalNum(t)) continue;
    checkNumberText(c, L, t);
    sample(c, t);
  }
  for (int L2 = 1; L2 < 3; L2++) { // exact length sweep around internal buffer sizes
    int len = 1 + (int)((idx * 2 + (uint64_t)L2) % 420);
    checkNumberText(c, L, g.digits(len, false));
    checkNumberText(c, L, "0." + g.digits(len));
    checkNumberText(c, L, "-" + g.digits(len, false) + "e-" + std::to_string(len));
  }
}
static void m_numset(Ctx &c, uint64_t, uint64_t) {
  c.phase = "number";
  Session s(c, &P_READ);
  for (int k = 0; k < 60; k++) {
    if (s.pool.size() > 20 || c.rng.chance(1, 3)) s.newVal(0);
    int i = s.pick();
    s.doSetNumV(s.pool[(size_t)i]);
  }
  s.finish();
}
// ---- C06
static void checkSetter(Ctx &c, Light &L, int what, const string &arg, bool used) {
  const zapi *api = c.api;
  bool nul = arg.find('\0') != string::npos;
  bool legal = !nul && (what == 2 ? r_legalNum(arg) : r_legalStr(arg));
  static const char *names[3][4] = {{"SetStr", "SetStrLen", "SetStrFast", "SetStrLenFast"}, {"SetKey", "SetKeyLen", "SetKeyFast", "SetKeyLenFast"}, {"SetNumStr", "SetNumStrLen", "SetNumStrFast", "SetNumStrLenFast"}};
  crumb(c, names[what][0], arg);
  static const char *stail[] = {"\"", "\\", "u", "0041", "n", "", "\\uDC00", "x"}, *ntail[] = {"0", ".5", "e1", "-", "x", "", "5", " "};
  for (int variant = 0; variant < 4; variant++) {
    bool len = variant & 1, fast = variant & 2;
    if (nul && !len) continue;
    c.cnt[N_SETS]++;
    void *v = L.val();
    if (used) { if (what == 1) { if (!api->SetKeyFast(v, "old")) fail(c, "setter", "SetKeyFast refused \"old\""); } else if (!api->SetStrFast(v, "old")) fail(c, "setter", "SetStrFast refused \"old\""); }
    string tail = len ? (what == 2 ? ntail : stail)[c.rng.below(8)] : "";
    Buf *b = L.bufs.make(arg + tail, !len, true);
    bool got;
    switch (what * 4 + variant) {
    case 0: got = api->SetStr(v, b->p); break;
    case 1: got = api->SetStrLen(v, b->p, arg.size()); break;
    case 2: got = api->SetStrFast(v, b->p); break;
    case 3: got = api->SetStrLenFast(v, b->p, arg.size()); break;
    case 4: got = api->SetKey(v, b->p); break;
    case 5: got = api->SetKeyLen(v, b->p, arg.size()); break;
    case 6: got = api->SetKeyFast(v, b->p); break;
    case 7: got = api->SetKeyLenFast(v, b->p, arg.size()); break;
    case 8: got = api->SetNumStr(v, b->p); break;
    case 9: got = api->SetNumStrLen(v, b->p, arg.size()); break;
    case 10: got = api->SetNumStrFast(v, b->p); break;
    default: got = api->SetNumStrLenFast(v, b->p, arg.size()); break;
    }
    if (fast && got) L.bufs.hold(b); else L.bufs.revoke(b);
    if (got != legal) fail(c, "setter", "%s %s the %s argument \"%s\" (followed by \"%s\")", names[what][variant], got ? "accepts" : "refuses", legal ? "legal" : "illegal", esc(arg, 600).c_str(), esc(tail).c_str());
    const char *want = got ? arg.c_str() : used && what != 2 ? "old" : nullptr;
    const char *p = what == 0 ? api->GetStr(v) : what == 1 ? api->GetKey(v) : api->GetNumStr(v);
    if ((p != nullptr) != (want != nullptr) || (p && strcmp(p, want) != 0)) fail(c, "setter", "after %s(\"%s\") the value reads \"%s\" instead of \"%s\"", names[what][variant], esc(arg, 600).c_str(), p ? esc(p, 600).c_str() : "(null)", want ? esc(want, 600).c_str() : "(null)");
    size_t l = 0;
    const char *q = what == 0 ? api->GetStrFast(v, &l) : what == 1 ? api->GetKeyFast(v, &l) : api->GetNumFast(v, &l);
    if ((q != nullptr) != (want != nullptr) || (q && (l != strlen(want) || memcmp(q, want, l) != 0))) fail(c, "setter", "after %s(\"%s\") the fast read differs", names[what][variant], esc(arg, 600).c_str());
    if (got && what != 1) {
      const char *js = api->Stringify(v);
      string w = what == 0 ? "\"" + arg + "\"" : arg;
      if (!js || w != js) fail(c, "setter", "after %s(\"%s\") the value serializes as \"%s\"", names[what][variant], esc(arg, 600).c_str(), js ? esc(js, 600).c_str() : "(null)");
    }
    if (!got && used && what == 2) { const char *js = api->Stringify(v); if (!js || strcmp(js, "\"old\"") != 0) fail(c, "setter", "a refused %s changed the value", names[what][variant]); }
  }
  tri(c, "setter", legal);
  c.cnt[legal ? N_ACCEPT : N_REJECT]++;
  if (arg.size() > 1) seen(c, arg);
  L.recycle(30);
}
static void m_setter(Ctx &c, uint64_t, uint64_t) {
  Light L(c);
  Gen g(c.rng);
  for (int k = 0; k < 25; k++) {
    int what = (int)c.rng.below(3);
    string a = what == 2 ? g.num() : g.strBody(c.rng.range(1, 15));
    sample(c, a);
    checkSetter(c, L, what, a, c.rng.chance(1, 2));
    for (int j = 0; j < 3; j++) {
      string m = g.mutate(a);
      if (c.rng.chance(1, 20)) m.insert(c.rng.below((uint32_t)m.size() + 1), 1, '\0');
      checkSetter(c, L, what, m, c.rng.chance(1, 2));
    }
  }
}
static void m_setter_sweep(Ctx &c, uint64_t idx, uint64_t n) {
  Light L(c);
  uint64_t k = 0;
  // all code units; boundary pairs
  char b[64];
  static const unsigned other[] = {0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
  for (unsigned u = 0; u < 0x10000; u++) {
    bool dense = u < 0x100 || (u >= 0xD700 && u < 0xE100) || u >= 0xFF00 || c.level > 1;
    if (!dense && u % 7 != 3) continue;
    if (k++ % n != idx) continue;
    snprintf(b, sizeof b, u & 1 ? "\\u%04X" : "\\u%04x", u);
    checkSetter(c, L, (int)(u & 1), b, (u & 2) != 0);
    if (u >= 0xD7F0 && u < 0xE010)
      for (unsigned o : other) {
        snprintf(b, sizeof b, "\\u%04x\\u%04X", u, o);
        checkSetter(c, L, 0, b, false);
        snprintf(b, sizeof b, "\\u%04x\\u%04X", o, u);
        checkSetter(c, L, 1, b, true);
      }
  }
  // every byte in every position of a few strings and numbers
  static const char *st[] = {"", "a", "a\\nb", "\\u00e9", "\\uD83D\\uDE00", "\\\\\\\"", "/\\/"};
  static const char *nt[] = {"0", "-1", "12", "0.5", "1e5", "-10.25E+07", "1E-0"};
  for (int which = 0; which < 2; which++)
    for (const char *tp : (which ? nt : st)) {
      string t = tp;
      for (size_t p = 0; p <= t.size(); p++)
        for (int by = 0; by < 256; by++) {
          if (k++ % n != idx) continue;
          string m = t;
          if (p < t.size()) { m[p] = (char)by; checkSetter(c, L, which ? 2 : by & 1, m, (by & 2) != 0); }
          m = t;
          m.insert(p, 1, (char)by);
          checkSetter(c, L, which ? 2 : (by + 1) & 1, m, (by & 4) != 0);
        }
    }
  // all short number-like strings
  const char *al = "-01.eE+";
  uint64_t tot = 1, A = strlen(al);
  int len = c.level > 1 ? 6 : 5;
  uint64_t total = 0;
  for (int l = 0; l <= len; l++) { total += tot; tot *= A; }
  for (uint64_t i = 0; i < total; i++) {
    if (k++ % n != idx) continue;
    uint64_t q = i, base = 1;
    int l = 0;
    while (q >= base) { q -= base; base *= A; l++; }
    string t;
    for (int j = 0; j < l; j++) { t += al[q % A]; q /= A; }
    checkSetter(c, L, 2, t, (i & 1) != 0);
  }
}
// ---- sessions
static void session(Ctx &c, const Profile *p, int ops) {
  Session s(c, p);
  s.run(g_ops ? g_ops : ops);
  s.finish();
  if (g_vf.track && g_vf.live) fail(c, "balance", "%zu blocks still allocated after every allocator was released", g_vf.live);
}
static void m_edit(Ctx &c, uint64_t i, uint64_t) { session(c, &P_EDIT, i % 10 == 9 ? 1200 : 150); }
static void m_edit2(Ctx &c, uint64_t i, uint64_t) { session(c, &P_EDIT2, i % 10 == 9 ? 1200 : 150); }
static void m_fail(Ctx &c, uint64_t, uint64_t) { session(c, &P_FAIL, 120); }
static void m_copy(Ctx &c, uint64_t i, uint64_t) { session(c, &P_COPY, i % 10 == 9 ? 800 : 150); }
static void m_buf(Ctx &c, uint64_t, uint64_t) { session(c, &P_BUF, 150); }
static void m_alloc(Ctx &c, uint64_t, uint64_t) { session(c, &P_ALLOC, 250); }
static void m_stable(Ctx &c, uint64_t i, uint64_t) { session(c, &P_STABLE, i % 10 == 9 ? 1000 : 200); }

// short histories, enumerated: every sequence of edits of a small vocabulary on a
// three-child container, with audits after each step
static void m_enum_edit(Ctx &c, uint64_t idx, uint64_t n) {
  const int OPS = 20;
  int len = c.level > 1 ? 4 : 3;
  uint64_t total = 1;
  for (int i = 0; i < len; i++) total *= OPS;
  static const Profile P = {"enum", {0}, 1, 0, 0, 0};
  for (uint64_t k = idx; k < total * 4; k += n) {
    Session s(c, &P);
    s.pool.clear();
    bool obj = k & 1, big = k & 2;
    uint64_t q = k >> 2;
    c.rng = Rng(k);
    auto mk = [&](const string &t) -> size_t {
      s.newVal(0);
      size_t i = s.pool.size() - 1;
      s.doParse(s.pool[i], t);
      return i;
    };
    size_t root = mk(obj ? (big ? "{\"a\":1,\"b\":[2],\"c\":\"3\"}" : "{\"a\":1}") : (big ? "[1,[2],\"3\"]" : "[1]"));
    s.newVal(0);
    size_t fresh = s.pool.size() - 1;
    s.doSetKey(s.pool[fresh], "n");
    s.doSetStr(s.pool[fresh], "new");
    size_t other = mk("{\"x\":[9],\"y\":8}");
    auto kid = [&](MNode *p, size_t i) -> int { // pool index of a fresh handle on child i
      if (!p || p->kids.empty()) return -1;
      if (i >= p->kids.size()) i = p->kids.size() - 1;
      Handle &h = s.pool[p == s.pool[root].n ? root : other];
      s.own(0);
      void *x = c.api->Begin(h.h);
      for (size_t j = 0; j < i && x; j++) x = c.api->Next(x);
      if (!x) s.bad("walk to a child", p, "(null)", std::to_string(i));
      s.pool.push_back(Handle{x, p->kids[i], 0, false});
      return (int)s.pool.size() - 1;
    };
    for (int st = 0; st < len; st++) {
      int op = (int)(q % OPS);
      q /= OPS;
      MNode *R = s.pool[root].n, *O = s.pool[other].n;
      bool arr = R && R->type == T_ARRAY;
      int a, b;
      size_t last = R && R->kids.size() ? R->kids.size() - 1 : 0;
      auto del = [&](size_t i) {
        if (!R || i >= R->kids.size()) return;
        a = kid(R, i);
        s.doMove(s.pool[(size_t)a]);
      };
      auto apiDel = [&](size_t i) {
        if (!R) return;
        MNode *m = i < R->kids.size() ? R->kids[i] : nullptr;
        bool got, want = m != nullptr;
        s.own(0);
        if (arr) got = c.api->ArrayDel(s.pool[root].h, i);
        else {
          string key = m ? m->key : string("zz");
          if (m) for (MNode *x : R->kids) if (x->key == key) { m = x; break; }
          got = c.api->ObjDel(s.pool[root].h, key.c_str());
        }
        s.result("Del", got, want);
        if (m) Session::detach(m);
        s.after(want, R, m);
      };
      switch (op) {
      case 0: if (s.pool[fresh].n) s.doAdd(s.pool[root], s.pool[fresh], arr, true); break;
      case 1: s.doAdd(s.pool[root], s.pool[fresh], arr, false); break;
      case 2: del(0); break;
      case 3: del(1); break;
      case 4: del(last); break;
      case 5: apiDel(0); break;
      case 6: apiDel(1); break;
      case 7: apiDel(last); break;
      case 8: if ((a = kid(R, 0)) >= 0) s.doAdd(s.pool[root], s.pool[(size_t)a], arr, true); break;   // first to the end
      case 9: if ((a = kid(R, last)) >= 0) s.doAdd(s.pool[root], s.pool[(size_t)a], arr, true); break; // last to the end
      case 10: if ((a = kid(R, 1)) >= 0) s.doAdd(s.pool[root], s.pool[(size_t)a], arr, false); break;  // duplicate
      case 11: if ((a = kid(O, 0)) >= 0) s.doAdd(s.pool[root], s.pool[(size_t)a], arr, true); break;   // steal
      case 12: if ((a = kid(R, last)) >= 0 && (b = kid(O, 0)) >= 0) s.doSet(s.pool[(size_t)a], s.pool[(size_t)b]); break;
      case 13: if ((a = kid(R, 0)) >= 0 && (b = kid(O, 1)) >= 0) s.doSetFast(s.pool[(size_t)a], s.pool[(size_t)b]); break;
      case 14: if ((a = kid(R, last)) >= 0) s.doSetFast(s.pool[root], s.pool[(size_t)a]); break; // promote a child
      case 15: s.doSet(s.pool[root], s.pool[other]); break;
      case 16: if ((a = kid(R, 1)) >= 0) s.doParse(s.pool[(size_t)a], "[true,{\"q\":0}]"); break;
      case 17: s.doAdd(s.pool[other], s.pool[fresh], false, false); break;
      case 18: if ((a = kid(R, last)) >= 0) s.doSetFast(s.pool[fresh], s.pool[(size_t)a]); break;
      case 19: {
        s.own(0);
        if (arr) c.api->SetArray(s.pool[root].h); else c.api->SetObj(s.pool[root].h);
        MNode *m = s.ensure(s.pool[root]);
        s.mSetContent(m, arr ? T_ARRAY : T_OBJECT, "");
        s.after(true, m);
        break;
      }
      }
      s.auditH(s.pool[root], false);
      s.auditH(s.pool[other], false);
      s.auditH(s.pool[fresh], false);
    }
    s.finish();
    seen(c, std::to_string(k));
  }
}
// ---- C07: parse failures at every position, into values of every kind and place
static void m_parsefail(Ctx &c, uint64_t, uint64_t) {
  static const Profile P = {"parsefail", {0}, 1, 1, 0, 0};
  Session s(c, &P);
  Gen g(c.rng);
  c.phase = "unchanged";
  s.newVal(0);
  s.doParse(s.pool.back(), g.doc(c.rng.range(3, 14), 4));
  for (int k = 0; k < 6; k++) { int i = s.pick(); s.doNav(s.pool[(size_t)i]); }
  s.newVal(0);
  string t = g.doc(c.rng.range(2, 10), 5);
  if (t.size() > 160) t.resize(160);
  for (size_t p = 0; p <= t.size(); p++) {
    int i = s.pick();
    string m = t.substr(0, p);
    bool v = r_valid(m);
    if (!v) s.doParse(s.pool[(size_t)i], m);
    m = t;
    if (p < t.size()) m[p] = g.hostile(); else m += g.hostile();
    i = s.pick();
    if (!r_valid(m)) { s.doParse(s.pool[(size_t)i], m); seen(c, m); }
    if (p % 16 == 15) { // the document must stay editable
      s.pf = &P_EDIT;
      s.run(4);
      s.pf = &P;
      c.phase = "unchanged";
    }
  }
  s.run(0);
  s.pf = &P_EDIT;
  s.run(20);
  s.finish();
}
// ---- C09: a copy and its source, edited node by node
static void m_copyiso(Ctx &c, uint64_t, uint64_t) {
  static const Profile P = {"copyiso", {0}, 2, 1, 0, 0};
  Session s(c, &P);
  Gen g(c.rng);
  c.phase = "copy";
  s.pool.clear();
  for (int round = 0; round < 3; round++) {
    s.pool.clear();
    bool crossA = c.rng.chance(1, 2);
    s.newVal(0);
    s.doParse(s.pool[0], g.doc(c.rng.range(3, 18), 5));
    if (c.rng.chance(1, 3)) s.doSetKey(s.pool[0], g.key());
    int way = (int)c.rng.below(5);
    s.newVal(crossA ? 1 : 0);
    switch (way) {
    case 0: { s.pool.pop_back(); s.doCopy(s.pool[0]); break; }
    case 1: s.doSet(s.pool[1], s.pool[0]); break;
    case 2: s.doSetStr(s.pool[1], "old"); s.doSet(s.pool[1], s.pool[0]); break;
    case 3: {
      s.doParse(s.pool[1], c.rng.chance(1, 2) ? "[]" : "[0,1]");
      s.doAdd(s.pool[1], s.pool[0], true, false);
      break;
    }
    default: {
      s.doSetKey(s.pool[0], g.key());
      s.doParse(s.pool[1], c.rng.chance(1, 2) ? "{}" : "{\"p\":[]}");
      s.doAdd(s.pool[1], s.pool[0], false, false);
    }
    }
    if (s.pool.size() < 2) continue;
    // edit both sides through handles reached by navigation
    for (int e = 0; e < 14; e++) {
      int side = (int)c.rng.below(2);
      Handle cur = s.pool[(size_t)side];
      for (int d = c.rng.range(0, 4); d > 0 && cur.n && !cur.n->kids.empty(); d--) {
        size_t i = c.rng.below((uint32_t)cur.n->kids.size());
        s.own(cur.a);
        void *x = c.api->Begin(cur.h);
        for (size_t j = 0; j < i && x; j++) x = c.api->Next(x);
        if (!x) s.bad("walk to a child", cur.n, "(null)", std::to_string(i));
        cur = Handle{x, cur.n->kids[i], cur.a, false};
      }
      s.pool.resize(2);
      s.pool.push_back(cur);
      Handle &h = s.pool[2];
      switch (c.rng.below(9)) {
      case 0: s.doSetStr(h, g.strBody()); break;
      case 1: s.doSetNumTxt(h, g.num()); break;
      case 2: s.doSetKey(h, g.key()); break;
      case 3: s.doParse(h, g.doc(6, 3)); break;
      case 4: if (h.n && h.n->parent) s.doMove(h); break;
      case 5: s.doDel(h, true); break;
      case 6: s.doDel(h, false); break;
      case 7: { s.newVal(h.a); s.doSetStr(s.pool.back(), "added"); s.doAdd(s.pool[2], s.pool.back(), true, c.rng.chance(1, 2)); break; }
      default: { s.newVal(h.a); s.doSetKey(s.pool.back(), "added"); s.doAdd(s.pool[2], s.pool.back(), false, c.rng.chance(1, 2)); break; }
      }
      c.phase = "copy";
      s.pool.resize(2);
      s.auditH(s.pool[0], false);
      s.auditH(s.pool[1], false);
    }
    seen(c, r_ser(s.pool[0].n) + r_ser(s.pool[1].n));
    if (crossA && round == 2) { s.release(0); for (auto &h : s.pool) s.auditH(h, true); break; }
  }
  s.finish();
}
// ---- C09, C10: copies of values whose texts were given by reference outlive those texts
static string bulk(Ctx &c, Gen &g, int kind) { // 0 string 1 number
  static const int L[] = {0, 1, 3, 7, 8, 15, 16, 24, 31, 32, 48, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 5000, 65536};
  size_t n = (size_t)std::max(1, L[c.rng.below(c.rng.chance(1, 12) ? 29 : 26)] + c.rng.range(-1, 2));
  if (!g_sizes.empty() && c.rng.chance(1, 5)) { size_t x = g_sizes[c.rng.below((uint32_t)g_sizes.size())]; if (x < 70000) n = std::max<size_t>(1, x + (size_t)c.rng.range(0, 2)); }
  if (kind) return g.digits((int)std::min<size_t>(n, 5000), false);
  string t;
  if (c.rng.chance(1, 2)) t.assign(n, (char)c.rng.range('a', 'z'));
  else while (t.size() < n) t += g.piece();
  return t;
}
static void overwrite(Session &s, size_t i, int how) { // content and key of a value come from copied texts now
  s.force = 2;
  Handle &h = s.pool[i];
  if (s.c.ro || how == 0) s.doParse(h, "null");
  else if (how == 1) s.doSetStr(h, "w");
  else { s.own(h.a); crumb(s.c, "SetNull"); s.api->SetNull(h.h); s.result("SetNull/Bool", true, true); MNode *n = s.ensure(h); s.mSetContent(n, T_NULL, "null"); }
  if (!s.c.ro && h.n->hasKey) s.doSetKey(h, "k");
}
static void m_fastcopy(Ctx &c, uint64_t, uint64_t) {
  static const Profile P = {"fastcopy", {0}, 2, 0, 0, 0};
  Session s(c, &P);
  Gen &g = s.g;
  s.nodeCap = 2000;
  for (int round = 0; round < 5; round++) {
    c.phase = "copy";
    s.pool.clear();
    s.quiet = c.rng.chance(1, 2);
    s.force = 1;
    s.newVal(0);
    int kind = c.ro ? 0 : (int)c.rng.below(4);
    string t;
    if (kind == 0) {
      int n = c.rng.range(1, 6);
      bool obj = c.rng.chance(1, 2);
      t = obj ? "{" : "[";
      for (int i = 0; i < n; i++) {
        if (i) t += ",";
        if (obj) t += "\"" + (c.rng.chance(1, 3) ? bulk(c, g, 0) : g.key()) + "\":";
        switch (c.rng.below(5)) {
        case 0: t += bulk(c, g, 1); break;
        case 1: t += "[\"" + bulk(c, g, 0) + "\"]"; break;
        case 2: t += "{\"" + bulk(c, g, 0) + "\":" + bulk(c, g, 1) + "}"; break;
        case 3: t += c.rng.chance(1, 2) ? "true" : "null"; break;
        default: t += "\"" + bulk(c, g, 0) + "\"";
        }
      }
      t += obj ? "}" : "]";
      if (c.rng.chance(1, 6)) t = "\"" + bulk(c, g, 0) + "\"";
      s.doParse(s.pool[0], t);
    } else if (kind == 1) s.doSetStr(s.pool[0], bulk(c, g, 0));
    else if (kind == 2) s.doSetNumTxt(s.pool[0], bulk(c, g, 1));
    else {
      s.own(0);
      bool obj = c.rng.chance(1, 2);
      s.force = 2;
      s.doParse(s.pool[0], obj ? "{}" : "[]");
      s.force = 1;
      for (int i = c.rng.range(1, 3); i > 0; i--) {
        s.newVal(0);
        if (c.rng.chance(1, 2)) s.doSetStr(s.pool.back(), bulk(c, g, 0)); else s.doSetNumTxt(s.pool.back(), bulk(c, g, 1));
        if (obj) s.doSetKey(s.pool.back(), c.rng.chance(1, 2) ? bulk(c, g, 0) : g.key());
        s.doAdd(s.pool[0], s.pool.back(), !obj, true);
        s.pool.pop_back();
      }
    }
    if (!c.ro && c.rng.chance(1, 3)) s.doSetKey(s.pool[0], bulk(c, g, 0));
    // a source somewhere inside
    Handle src = s.pool[0];
    for (int d = c.rng.range(0, 2); d > 0 && src.n && !src.n->kids.empty(); d--) {
      size_t i = c.rng.below((uint32_t)src.n->kids.size());
      s.own(src.a);
      void *x = c.api->Begin(src.h);
      for (size_t j = 0; j < i && x; j++) x = c.api->Next(x);
      if (!x) s.bad("walk to a child", src.n, "(null)", std::to_string(i));
      src = Handle{x, src.n->kids[i], src.a, false};
    }
    s.pool.push_back(src);
    int way = c.ro ? 0 : (int)c.rng.below(6);
    size_t first = s.pool.size(); // the destination's place
    s.force = 2;
    if (way == 0 || (way == 4 && !src.n->hasKey)) s.doCopy(s.pool[1]);
    else {
      s.newVal(c.rng.chance(1, 3) ? 1 : 0);
      switch (way) {
      case 1: s.doSet(s.pool[2], s.pool[1]); break;
      case 2: s.doSetStr(s.pool[2], "old"); s.doSet(s.pool[2], s.pool[1]); break;
      case 3: s.doParse(s.pool[2], c.rng.chance(1, 2) ? "[]" : "[0,1]"); s.doAdd(s.pool[2], s.pool[1], true, false); break;
      case 4: s.doParse(s.pool[2], c.rng.chance(1, 2) ? "{}" : "{\"p\":[]}"); s.doAdd(s.pool[2], s.pool[1], false, false); break;
      default: { // a copy of the copy
        s.doSet(s.pool[2], s.pool[1]);
        s.doCopy(s.pool[2]);
        if (s.pool.size() == 4) { overwrite(s, 2, 1); first = 3; }
      }
      }
    }
    if (s.pool.size() <= first) continue;
    overwrite(s, 0, (int)c.rng.below(3));
    s.pool[1] = s.pool[0]; // the inner source is gone
    c.phase = "copy";
    s.bufs.revokeHeld();
    if (c.rng.chance(1, 2)) { size_t l = 0; s.own(s.pool[first].a); c.api->Stringify(s.pool[first].h); (void)l; }
    s.auditH(s.pool[first], true);
    s.auditH(s.pool[0], true);
    seen(c, r_ser(s.pool[first].n));
  }
  s.quiet = false;
  s.force = 0;
  s.finish();
}
// ---- queries with nothing but edits between them: what a query left behind may not show in the next
static void light(Session &s, void *e, MNode *m, const char *what) {
  const void *raw = nullptr;
  int t = s.api->Type(e, &raw);
  if (t != m->type) s.bad(what, m, "another value", r_ser(m));
  size_t l = 0;
  const char *p = t == T_STRING ? s.api->GetStrFast(e, &l) : t == T_NUMBER ? s.api->GetNumFast(e, &l) : nullptr;
  if (t == T_STRING || t == T_NUMBER) s.expLen(what, m, p, l, true, m->text);
  else if (t == T_ARRAY || t == T_OBJECT) { size_t n = s.api->SizeOf(e); if (n != m->kids.size()) s.bad(what, m, std::to_string(n), std::to_string(m->kids.size())); }
}
static void probeQ(Session &s, Handle &h, int kind, size_t arg, const string &missing) {
  MNode *n = h.n;
  const zapi *api = s.api;
  s.own(h.a);
  size_t k = n ? n->kids.size() : 0;
  crumb(s.c, "query", std::to_string(kind) + ":" + std::to_string(arg));
  s.c.cnt[N_READS]++;
  switch (kind) {
  case 0: {
    void *e = api->ArrayGet(h.h, arg);
    bool in = n && n->type == T_ARRAY && arg < k;
    if ((e != nullptr) != in) s.bad("ArrayGet", n, e ? "found" : "(null)", std::to_string(arg));
    if (e) light(s, e, n->kids[arg], "ArrayGet");
    break;
  }
  case 1: case 2: {
    string key = k && arg < k + 3 && n->type == T_OBJECT ? n->kids[arg % k]->key : missing;
    if (key.find('\0') != string::npos) return;
    MNode *m = nullptr;
    if (n && n->type == T_OBJECT) for (MNode *x : n->kids) if (x->key == key) { m = x; break; }
    Buf *b = s.bufs.make(key, kind == 1, true);
    void *e = kind == 1 ? api->ObjGet(h.h, b->p) : api->ObjGetLen(h.h, b->p, key.size());
    s.bufs.revoke(b);
    if ((e != nullptr) != (m != nullptr)) s.bad("ObjGet", n, e ? "found" : "absent", (m ? "found " : "absent ") + key);
    if (e) light(s, e, m, "ObjGet");
    break;
  }
  case 3: { size_t z = api->SizeOf(h.h), w = n && (n->type == T_ARRAY || n->type == T_OBJECT) ? k : 0; if (z != w) s.bad("SizeOf", n, std::to_string(z), std::to_string(w)); break; }
  case 4: s.expStr("Stringify", n, api->Stringify(h.h), true, n ? r_ser(n) : string(), h.a); break;
  case 5: { bool is = n && n->type == T_STRING; s.expStr("GetUnEscapeStr", n, api->GetUnEscapeStr(h.h), is, is ? r_decode(n->text) : string(), h.a); break; }
  case 6: { bool is = n && n->type == T_STRING; s.expStr("GetStr", n, api->GetStr(h.h), is, is ? n->text : string(), h.a); break; }
  case 7: { bool is = n && n->type == T_NUMBER; s.expStr("GetNumStr", n, api->GetNumStr(h.h), is, is ? n->text : string(), h.a); break; }
  case 8: s.expDbl("GetDouble", n, api->GetDouble(h.h), h.a); break;
  case 9: if (s.fitsLL(n)) { if (!n || n->type != T_NUMBER || s.intPartInRange(n->text) || r_intLiteral(n->text)) s.expInt<long long>("GetLongLong", n, api->GetLongLong(h.h), LLONG_MIN, LLONG_MAX, h.a); } break;
  case 10: { bool is = n && n->hasKey; s.expStr("GetKey", n, api->GetKey(h.h), is, is ? n->key : string(), h.a); break; }
  case 11: { bool is = n && n->hasKey; s.expStr("GetUnEscapeKey", n, api->GetUnEscapeKey(h.h), is, is ? r_decode(n->key) : string(), h.a); break; }
  case 12: {
    void *e = api->Begin(h.h);
    for (size_t i = 0; e && i < arg && i <= k; i++) e = api->Next(e);
    bool in = arg < k;
    if ((e != nullptr) != in) s.bad("Begin/Next", n, e ? "found" : "(null)", std::to_string(arg));
    if (e) light(s, e, n->kids[arg], "Begin/Next");
    break;
  }
  case 13: {
    MNode *m = nullptr;
    if (n && n->parent) for (size_t i = 0; i + 1 < n->parent->kids.size(); i++) if (n->parent->kids[i] == n) m = n->parent->kids[i + 1];
    void *e = api->Next(h.h);
    if ((e != nullptr) != (m != nullptr)) s.bad("Next", n, e ? "found" : "(null)", m ? r_ser(m) : "(null)");
    if (e) light(s, e, m, "Next");
    break;
  }
  case 14: { bool is = n && n->type == T_BOOL; const bool *p = api->GetBool(h.h); if ((p != nullptr) != is || (p && *p != (n->text == "true"))) s.bad("GetBool", n, p ? *p ? "true" : "false" : "(null)", r_ser(n)); break; }
  default: { const void *raw; int t = api->Type(h.h, &raw); if (t != (n ? n->type : 0)) s.bad("Type", n, std::to_string(t), r_ser(n)); if (api->IsNull(h.h) != (n && n->type == T_NULL)) s.bad("IsNull", n, "wrong", ""); }
  }
  s.vfcheck();
}
static void m_probe(Ctx &c, uint64_t, uint64_t) {
  static const Profile P = {"probe", {0}, 1, 0, 1, 0};
  Session s(c, &P);
  Gen &g = s.g;
  c.phase = "model";
  string fixed = g.strBody(8);
  for (int round = 0; round < 10; round++) {
    s.pool.clear();
    s.quiet = true;
    s.force = c.rng.chance(3, 4) ? 2 : 0;
    int al = s.liveAlloc();
    s.newVal(al);
    s.newVal(al);
    bool obj = c.rng.chance(1, 2);
    int n = c.rng.range(1, 9);
    string t = obj ? "{" : "[";
    for (int i = 0; i < n; i++) {
      if (i) t += ",";
      if (obj) t += "\"k" + std::to_string(c.rng.below(12)) + "\":";
      switch (c.rng.below(6)) { case 0: t += "\"\\n" + std::to_string(c.rng.range(10, 99)) + "\""; break; case 1: t += "[" + std::to_string(c.rng.below(90)) + "]"; break; case 2: t += c.rng.chance(1, 2) ? "true" : "false"; break; default: t += std::to_string(c.rng.range(10, 99)); }
    }
    s.doParse(s.pool[0], t + (obj ? "}" : "]"));
    { // handles of all children, by iteration
      void *x = c.api->Begin(s.pool[0].h);
      for (MNode *m : vector<MNode *>(s.pool[0].n->kids)) { if (!x) s.bad("Next", s.pool[0].n, "(null)", r_ser(m)); s.pool.push_back(Handle{x, m, al, false}); x = c.api->Next(x); }
    }
    int focus = c.rng.chance(2, 3) ? (int)c.rng.below(16) : -1;
    size_t farg = c.rng.below((uint32_t)n + 1), fh = focus >= 5 && focus != 12 ? 2 + c.rng.below((uint32_t)n) : 0;
    for (int q = 0; q < 12; q++) {
      int kind = focus >= 0 && c.rng.chance(5, 6) ? focus : (int)c.rng.below(16);
      size_t hi = kind == focus && c.rng.chance(4, 5) ? fh : kind < 5 || kind == 12 ? 0 : c.rng.below((uint32_t)s.pool.size());
      if (hi >= s.pool.size() || !s.ok(s.pool[hi])) hi = 0;
      size_t arg = c.rng.chance(2, 3) ? farg : c.rng.below((uint32_t)n + 2);
      probeQ(s, s.pool[hi], kind, arg, "k99");
      if (c.ro) continue;
      for (int e = c.rng.range(1, 3); e > 0; e--) {
        size_t i = 1 + c.rng.below((uint32_t)s.pool.size() - 1);
        if (!s.ok(s.pool[i])) i = 1;
        if (!s.ok(s.pool[i]) || !s.ok(s.pool[0])) continue;
        Handle &h = s.pool[i], &C = s.pool[0];
        switch (c.rng.below(12)) {
        case 0: case 1: if (h.n && h.n->parent) s.doMove(h); break;
        case 2: case 3: // out of the container and in again, at the end
          if (h.n && h.n->parent == C.n && C.n) { void *hh = h.h; (void)hh; s.doMove(h); s.doAdd(C, h, !obj, true); } break;
        case 4: case 5: { // a new child
          s.newVal(al);
          size_t w = s.pool.size() - 1;
          s.doSetNumTxt(s.pool[w], std::to_string(c.rng.range(10, 99)));
          if (obj) s.doSetKey(s.pool[w], "k" + std::to_string(c.rng.below(12)));
          s.doAdd(s.pool[0], s.pool[w], !obj, c.rng.chance(1, 2));
          if (!s.pool[w].n) s.pool.pop_back();
          break;
        }
        case 6: s.doSetStr(h, "\\t" + std::to_string(c.rng.range(10, 99))); break;
        case 7: s.doSetNumTxt(h, std::to_string(c.rng.range(10, 99))); break;
        case 8: s.doSetKey(h, "k" + std::to_string(c.rng.below(12))); break;
        case 9: s.doDel(C, c.rng.chance(1, 8) ? obj : !obj); break;
        case 10: { size_t j = 1 + c.rng.below((uint32_t)s.pool.size() - 1); if (s.ok(s.pool[j]) && j != i) s.doSetFast(s.pool[i], s.pool[j]); break; }
        default: s.own(al); crumb(c, "SetBool"); c.api->SetBool(h.h, e & 1); s.result("SetNull/Bool", true, true); s.mSetContent(s.ensure(h), T_BOOL, e & 1 ? "true" : "false");
        }
        c.phase = "model";
      }
    }
    s.quiet = false;
    if (s.ok(s.pool[0])) { s.auditH(s.pool[0], true); if (s.pool[0].n) seen(c, r_ser(s.pool[0].n)); }
    // a value that comes to lie where another one lay before its allocator went away
    int what = (int)c.rng.below(16), len = c.rng.range(2, 7);
    for (int gen = 0; gen < 3; gen++) {
      s.quiet = true;
      s.pool.clear();
      if (gen) { s.release(al); al = s.newAlloc(); if (al < 0) break; s.pool.clear(); }
      s.newVal(al);
      string d = g.digits(len, false), w = "\\n" + d;
      s.force = 2;
      switch (what) {
      case 0: case 12: case 13: s.doParse(s.pool[0], "[" + d + ",\"" + w + "\"," + (gen & 1 ? "true" : "null") + "]"); break;
      case 1: case 2: case 3: case 4: s.doParse(s.pool[0], "{\"k99\":" + d + "}"); break;
      case 5: case 6: s.doParse(s.pool[0], "\"" + w + "\""); break;
      case 7: case 8: case 9: s.doParse(s.pool[0], d); break;
      case 10: case 11: s.doParse(s.pool[0], "{\"" + w + "\":1}"); break;
      default: s.doParse(s.pool[0], gen & 1 ? "true " : "false");
      }
      if ((what == 10 || what == 11 || what == 13)) { void *x = c.api->Begin(s.pool[0].h); s.pool[0] = Handle{x, s.pool[0].n->kids[0], al, false}; }
      probeQ(s, s.pool[0], what, 0, "k99");
    }
    s.quiet = false;
    if (s.A.size() > 50) break;
  }
  s.force = 0;
  s.finish();
}
// copies of values at all positions, the source parsed anew in between
static void m_copies(Ctx &c, uint64_t idx, uint64_t) {
  static const Profile P = {"copies", {0}, 1, 2, 0, 0};
  Session s(c, &P);
  Gen &g = s.g;
  s.pool.clear();
  for (int round = 0; round < 5; round++) {
    s.pool.clear();
    s.newVal(0);
    int budget = idx % 16 == 5 ? c.rng.range(100, 600) : c.rng.range(2, 40);
    s.doParse(s.pool[0], g.doc(budget, c.rng.range(1, 8)));
    c.phase = "copy";
    for (int k = c.rng.range(1, 6); k > 0; k--) {
      Handle cur = s.pool[c.rng.below((uint32_t)s.pool.size())];
      for (int d = c.rng.range(0, 6); d > 0 && cur.n && !cur.n->kids.empty(); d--) {
        size_t i = c.rng.below((uint32_t)cur.n->kids.size());
        s.own(cur.a);
        void *x = c.api->Begin(cur.h);
        for (size_t j = 0; j < i && x; j++) x = c.api->Next(x);
        if (!x) s.bad("walk to a child", cur.n, "(null)", std::to_string(i));
        cur = Handle{x, cur.n->kids[i], cur.a, false};
      }
      if (!s.ok(cur)) continue;
      s.pool.push_back(cur);
      s.doCopy(s.pool.back());
      for (size_t q = 0; q < s.pool.size(); q++) if (s.pool[q].h == cur.h && q) { s.pool.erase(s.pool.begin() + (long)q); break; } // keep the copy, drop the handle that was copied from
      if (c.rng.chance(1, 3)) { s.doParse(s.pool[0], c.rng.chance(1, 4) ? g.mutate(g.doc(10, 4)) : g.doc(c.rng.range(1, 30), 6)); c.phase = "copy"; }
    }
    s.auditAll(true);
    for (auto &h : s.pool) if (h.n) seen(c, r_ser(h.n));
  }
  s.finish();
}
// ---- C11/C13: block boundary sweep; every kind of request at every fill level
static void m_bounds(Ctx &c, uint64_t idx, uint64_t n) {
  static const Profile P = {"bounds", {0}, 1, 8, 0, 0};
  int max = c.level > 1 ? 4400 : 1400;
  for (int fillLen = (int)idx; fillLen < max; fillLen += (int)n) {
    Session s(c, &P);
    s.pool.clear();
    crumb(c, "bounds", std::to_string(fillLen));
    s.newVal(0);
    // bring the first block to the wanted fill level in one or several requests
    int lead = c.level > 1 ? fillLen : 2700 + fillLen;
    string pad((size_t)lead, 'p');
    s.doSetStr(s.pool[0], pad);
    s.kept.clear();
    s.newVal(0);
    switch ((fillLen / (int)n) % 4) {
    case 0: s.doParse(s.pool[1], "{\"k\":[1,\"\\u00e9x\",true],\"l\":12.5}"); break;
    case 1: s.doSetEsc(s.pool[1], false, string("\x01\x02\"\\\xff", 5)); break;
    case 2: s.doSetKey(s.pool[1], "key"); s.doSetNumV(s.pool[1]); break;
    default: s.doSetStr(s.pool[1], "abc"); s.doCopy(s.pool[1]); break;
    }
    s.auditAll(true);
    s.newVal(0);
    s.doSet(s.pool.back(), s.pool[1]);
    s.auditAll(true);
    s.finish();
    seen(c, std::to_string(fillLen));
  }
}
// ---- lengths and counts around powers of two, for every kind of text and every call
static void ladderOne(Ctx &c, int kind, size_t len, const char *label) {
  static const Profile P = {"ladder", {0}, 1, 1, 0, 0};
  Session s(c, &P);
  s.nodeCap = 1u << 23;
  s.pool.clear();
  Gen &g = s.g;
  s.newVal(0);
  string pad(len, 'q'), t;
  for (size_t i = 0; i < len; i += 97) pad[i] = (char)c.rng.range('A', 'Z');
  crumb(c, label, std::to_string(kind) + ":" + std::to_string(len));
  Handle &h = s.pool[0];
  switch (kind) {
  case 0: s.doParse(h, "[\"" + pad + "\",\"end\"]"); break;
  case 1: s.doParse(h, "{\"" + pad + "\":{\"k\":1},\"z\":2}"); break;
  case 2: s.doParse(h, "[" + g.digits((int)len, false) + ",1]"); break;
  case 3: s.doParse(h, "[1," + string(len, " \t\n\r"[c.rng.below(4)]) + "2]"); break;
  case 4: { t = "["; for (size_t i = 0; i < len; i++) { if (i) t += ','; t += std::to_string(i & 7); } s.doParse(h, t + "]"); break; }
  case 5: { t = "{"; for (size_t i = 0; i < len; i++) { if (i) t += ','; t += "\"k" + std::to_string(i) + "\":" + std::to_string(i & 7); } s.doParse(h, t + "}"); break; }
  case 6: s.doSetStr(h, pad); break;
  case 7: s.doSetKey(h, pad); break;
  case 8: s.doSetNumTxt(h, g.digits((int)len, false)); break;
  case 9: { string b = pad; for (size_t i = 0; i < b.size(); i += 3) b[i] = "\n\x01\"\\\xc3/"[c.rng.below(6)]; s.doSetEsc(h, false, b); break; }
  case 10: { string b = pad; for (size_t i = 0; i < b.size(); i += 5) b[i] = "\n\x02\"\\\xc3\t"[c.rng.below(6)]; s.doSetEsc(h, true, b); break; }
  case 23: { // runs of plain bytes of that length before, between and behind escapes, in strings and keys
    static const char *es[] = {"\\n", "\\\"", "\\\\", "\\/", "\\u00e9", "\\uD83D\\uDE00", "\\u0041", "\\b"};
    auto E = [&]() { return string(es[c.rng.below(8)]); };
    string a = E() + pad + E(), b = pad + E() + pad, d = E() + E() + pad + E() + "x" + E() + pad.substr(0, len / 2) + E(), e = pad + E() + E();
    s.doParse(h, "{\"" + a + "\":\"" + b + "\",\"" + b + "\":\"" + a + "\",\"k\":[\"" + d + "\",\"" + e + "\"],\"" + e + "\":\"" + d + "\"}");
    break;
  }
  case 24: { // numbers with that many digits in each part
    size_t m = len > 3000 ? 3000 : len;
    string z(m, '0'), g1 = g.digits((int)(m ? m : 1), false), g2 = g.digits((int)(m ? m : 1), true);
    s.doParse(h, "[0." + z + "1," + g1 + "." + g2 + ",1e" + z + "5,-1E-" + z + "7," + g1 + "e-" + std::to_string(m) + ",0." + z + "3e" + std::to_string(m) + ",-0." + z + "0," + g1 + ".0e+0]");
    break;
  }
  case 25: { // white space of that length at every place
    string w(len, ' ');
    for (char &x : w) x = " \t\n\r"[c.rng.below(4)];
    s.doParse(h, w + "{" + w + "\"k\"" + w + ":" + w + "[" + w + "1" + w + "," + w + "true" + w + "," + w + "[" + w + "]" + w + "]" + w + "," + w + "\"\"" + w + ":" + w + "{" + w + "}" + w + "}" + w);
    break;
  }
  case 26: { // setters: runs between escapes, and what the escaping setters turn into them
    string b = pad;
    if (len) b[len / 2] = '\n';
    s.doSetStr(h, "\\t" + pad + "\\u0001" + pad + "\\\"");
    s.doSetKey(h, pad + "\\\\" + pad);
    s.auditAll(true);
    s.doSetEsc(h, false, "\x02" + b + "\"" + pad + "\\");
    s.doSetEsc(h, true, b + "\x1f\x7f\xff" + pad);
    break;
  }
  default: { t = "\""; while (t.size() < len) t += "\\uD83D\\uDE00x"; s.doParse(h, "[" + t + "\"]"); break; }
  }
  s.auditAll(true);
  // the same content once more by copy, by move, and next to other values
  s.doCopy(s.pool[0]);
  if (c.ro) { s.auditAll(true); s.finish(); seen(c, std::to_string(kind) + ":" + std::to_string(len)); return; }
  s.newVal(0);
  s.doParse(s.pool.back(), "[[],{}]");
  size_t dst = s.pool.size() - 1;
  s.doAdd(s.pool[dst], s.pool[0], true, false);
  s.newVal(0);
  s.doSet(s.pool.back(), s.pool[0]);
  s.doAdd(s.pool[dst], s.pool[0], true, true);
  if (s.pool[dst].n->kids.size() == 4) {
    void *x = c.api->ArrayGet(s.pool[dst].h, 2);
    if (!x) s.bad("ArrayGet", s.pool[dst].n, "(null)", "2");
    s.pool.push_back(Handle{x, s.pool[dst].n->kids[2], 0, false});
    s.doMove(s.pool.back());
  }
  s.auditAll(true);
  s.finish();
  seen(c, std::to_string(kind) + ":" + std::to_string(len));
}
static void m_ladder(Ctx &c, uint64_t idx, uint64_t n) {
  int maxk = c.level > 1 ? 20 : c.level ? 17 : 14;
  uint64_t k = 0;
  for (int e = 5; e <= maxk; e++)
    for (int d = -2; d <= 2; d++)
      for (int kind = 0; kind < 27; kind++) {
        if (kind >= 12 && kind < 23) continue;
        size_t len = ((size_t)1 << e) + (size_t)d;
        if (c.level <= 1 && e > 13 && (d == -2 || d == 2)) continue;
        if ((kind == 4 || kind == 5) && e > 16) continue;
        if (c.ro && ((kind >= 6 && kind <= 10) || kind == 26)) continue;
        if (k++ % n != idx) continue;
        ladderOne(c, kind, len, "ladder");
      }
}
// ---- C14
// ---- the constants of the tree under test, and every small size: lengths, counts, depths, repetitions
enum { CK_MAX = 27 };
static void constOne(Ctx &c, int kind, size_t len) {
  static const Profile P = {"consts", {0}, 1, 3, 0, 0};
  if (kind < 12 || kind >= 23) { ladderOne(c, kind, len, "consts"); return; }
  crumb(c, "consts", std::to_string(kind) + ":" + std::to_string(len));
  seen(c, std::to_string(kind) + ":" + std::to_string(len));
  string pad(len, 'q');
  if (kind == 16 || kind == 17) { // as a number, a code unit, a byte
    Light L(c);
    string n = std::to_string(len);
    if (kind == 16) {
      for (const char *f : {"", "0", ".0", ".5", "e1", "E-3", ".25e+2", "9"}) if (r_legalNum(n + f)) { checkNumberText(c, L, n + f); checkNumberText(c, L, "-" + n + f); }
      checkNumberText(c, L, "1e" + n);
      checkNumberText(c, L, "1e-" + n);
      checkNumberText(c, L, "0." + n);
    } else {
      char b[32];
      if (len < 0x10000 && !(len >= 0xD800 && len < 0xE000)) {
        snprintf(b, sizeof b, "\\u%04zx", len);
        for (int k = 0; k < 2; k++) { checkDecode(c, L, b, k); checkDecode(c, L, string("a") + b, k); checkDecode(c, L, string(b) + "z" + b, k); }
      } else if (len >= 0x10000 && len < 0x110000) {
        snprintf(b, sizeof b, "\\u%04x\\u%04x", (unsigned)(0xD800 + ((len - 0x10000) >> 10)), (unsigned)(0xDC00 + (len & 0x3FF)));
        for (int k = 0; k < 2; k++) { checkDecode(c, L, b, k); checkDecode(c, L, string("a") + b, k); checkDecode(c, L, string(b) + "z" + b, k); }
      }
      if (len < 256) for (int k = 0; k < 2; k++) { string by(1, (char)len); checkEncode(c, L, by, k, true); checkEncode(c, L, "a" + by + by, k, true); checkEncode(c, L, by + "z", k, true); }
    }
    return;
  }
  Session s(c, &P);
  s.nodeCap = 1u << 23;
  s.pool.clear();
  Gen &g = s.g;
  s.newVal(0);
  string t;
  switch (kind) {
  case 12: { // nesting
    if (len > (c.level ? 1100u : 300u)) break;
    string cl;
    for (size_t i = 0; i < len; i++) { bool a = c.rng.chance(1, 2); t += a ? "[" : "{\"k\":"; cl += a ? ']' : '}'; }
    t += "1";
    for (size_t i = cl.size(); i-- > 0;) t += cl[i];
    s.doParse(s.pool[0], t);
    if (!c.ro) { s.doCopy(s.pool[0]); s.newVal(0); s.doSet(s.pool.back(), s.pool[0]); }
    s.auditAll(true);
    break;
  }
  case 13: { // that many appends, then deletions, to one container
    if (c.ro || len > 2500) break;
    bool arr = c.rng.chance(1, 2);
    size_t have = len > 260 ? len - 12 : 0; // the larger ones cross the size from a parsed container
    t = arr ? "[" : "{";
    for (size_t i = 0; i < have; i++) { if (i) t += ','; if (!arr) t += "\"k" + std::to_string(i) + "\":"; t += std::to_string(i); }
    s.doParse(s.pool[0], t + (arr ? "]" : "}"));
    for (size_t i = have; i < (have ? len + 4 : len); i++) {
      s.newVal(0);
      if (!arr) s.doSetKey(s.pool[1], "k" + std::to_string(i % 7 == 3 ? i / 2 : i));
      if (i % 3 == 0) s.doSetStr(s.pool[1], "v"); else if (i % 3 == 1) s.doSetNumTxt(s.pool[1], std::to_string(i)); else if (i % 5) s.doParse(s.pool[1], "[{}]"); else s.doParse(s.pool[1], "null");
      s.doAdd(s.pool[0], s.pool[1], arr, c.rng.chance(1, 2));
      s.pool.resize(1);
    }
    s.auditAll(true);
    for (size_t i = 0; i < len && i < (have ? 20u : 64u); i++) s.doDel(s.pool[0], arr);
    s.auditAll(true);
    break;
  }
  case 14: { // that many results retained from one value and from many
    if (len > 2500) break;
    s.doParse(s.pool[0], "{\"k\":[\"a\\nb\",1.5,\"\\u00e9\",true,\"\",-7]}");
    void *k = c.api->Begin(s.pool[0].h), *x = k ? c.api->Begin(k) : nullptr;
    if (!x) fail(c, "read", "navigation failed in a fixed document");
    MNode *kn = s.pool[0].n->kids[0];
    s.own(0);
    for (size_t i = 0; i < len; i++) s.checkSelf(x, kn->kids[0], 0);
    for (size_t i = 0; i < len; i++) {
      size_t j = i % 6;
      void *e = c.api->ArrayGet(k, j);
      if (!e) s.bad("ArrayGet", kn, "(null)", std::to_string(j));
      s.own(0);
      s.checkSelf(e, kn->kids[j], 0);
      if (i % 64 == 63) s.checkAllKept();
    }
    s.auditAll(true);
    break;
  }
  case 15: { // refusals of that size
    s.doParse(s.pool[0], "{\"a\":[1,2,{\"b\":\"c\"}],\"d\":\"e\"}");
    s.newVal(0);
    s.doParse(s.pool[1], "[\"\\u00e9\",0.5]");
    static const char *bad[] = {"\x01", "\"", "\\", "\\u12", "\\uDC00"};
    for (int q = 0; q < 2; q++) {
      for (const char *x : bad) {
        s.doParse(s.pool[(size_t)q], "[\"" + pad + x + "\"]");
        if (c.ro) continue;
        s.doSetStr(s.pool[(size_t)q], pad + x);
        s.doSetKey(s.pool[(size_t)q], pad + x);
      }
      s.doParse(s.pool[(size_t)q], "[1," + pad);
      s.doParse(s.pool[(size_t)q], "{\"" + pad + "\"}");
      s.doParse(s.pool[(size_t)q], "{\"" + pad + "\":1");
      s.doParse(s.pool[(size_t)q], string(len, ' '));
      s.doParse(s.pool[(size_t)q], "1" + string(len, ' ') + "1");
      s.doParse(s.pool[(size_t)q], "[" + g.digits((int)len) + ".]");
      if (len <= 5000) { string d; for (size_t i = 0; i < len; i++) d += "["; s.doParse(s.pool[(size_t)q], d); s.doParse(s.pool[(size_t)q], d + string(len, ']') + "]"); if (len) s.doParse(s.pool[(size_t)q], d + string(len - 1, ']') + "}"); }
      if (!c.ro) { s.doSetNumTxt(s.pool[(size_t)q], "1" + g.digits((int)len) + "x"); s.doSetNumTxt(s.pool[(size_t)q], "0" + g.digits((int)len + 1, false)); }
    }
    s.auditAll(true);
    if (!c.ro) { s.newVal(0); s.doSetStr(s.pool.back(), "ok"); s.doAdd(s.pool[1], s.pool.back(), true, true); s.auditAll(true); }
    break;
  }
  case 18: { // that many allocators at once
    if (len > 400) break;
    vector<void *> as;
    for (size_t i = 0; i < len; i++) {
      if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
      void *a = c.api->NewAllocator();
      void *v = a ? c.api->NewValue(a) : nullptr;
      string d = "[\"" + std::to_string(i) + "\"]";
      if (!v || !c.api->Parse(v, d.c_str())) fail(c, "model", "allocator %zu is not usable", i);
      const char *o = c.api->Stringify(v);
      if (!o || d != o) fail(c, "model", "the value of allocator %zu reads \"%s\"", i, o ? esc(o).c_str() : "(null)");
      as.push_back(a);
    }
    c.cnt[N_ALLOCATORS] += len;
    c.cnt[N_RELEASES] += len;
    while (!as.empty()) { size_t i = c.rng.below((uint32_t)as.size()); c.api->ReleaseAllocator(as[i]); as[i] = as.back(); as.pop_back(); s.vfcheck(); }
    s.own(0);
    break;
  }
  case 19: { // keys of that length that differ in one place
    string a = pad, b = pad, e = pad + "x";
    if (len) { a[len - 1] = 'A'; b[0] = 'B'; }
    string m = pad;
    m[len / 2] = len ? 'M' : m[len / 2];
    s.doParse(s.pool[0], "{\"" + a + "\":1,\"" + b + "\":2,\"" + e + "\":3,\"" + m + "\":4,\"" + pad + "\":5}");
    for (const string &k : {a, b, e, m, pad, pad.substr(0, len ? len - 1 : 0), pad + "qq", string("A")}) s.lookup(s.pool[0].h, s.pool[0].n, k, 0);
    s.auditAll(true);
    break;
  }
  case 20: { // compact texts of exactly that length
    if (len < 8 || len > 70000) break;
    string one = "[\"" + string(len - 4, 'w') + "\"]", num = "[" + g.digits((int)len - 2, false) + "]", obj = "{\"k\":" + g.digits((int)len - 6, false) + "}", many = "[1";
    while (many.size() + 2 < len - 1) many += ",2";
    many += string(len - 1 - many.size() == 1 ? "3" : "") + "]";
    string esc = "[\"";
    while (esc.size() + 6 < len - 2) esc += "\\u00e9";
    esc += string(len - 2 - esc.size(), 'e') + "\"]";
    string lead = string(len - 2, ' ') + "[]", trail = "[]" + string(len - 2, '\n');
    for (const string &d : {one, num, obj, many, esc, lead, trail}) {
      s.doParse(s.pool[0], d);
      s.auditAll(true);
    }
    break;
  }
  case 21: { // one array index / many children reached by index and key after edits
    if (len > 4000) break;
    bool arr = c.rng.chance(1, 2);
    t = arr ? "[" : "{";
    for (size_t i = 0; i <= len; i++) { if (i) t += ','; if (!arr) t += "\"k" + std::to_string(i) + "\":"; t += i % 2 ? "\"v\"" : std::to_string(i); }
    s.doParse(s.pool[0], t + (arr ? "]" : "}"));
    MNode *n = s.pool[0].n;
    for (size_t i : {len, len + 1, len ? len - 1 : 0, (size_t)0, len / 2}) {
      if (arr) { void *x = c.api->ArrayGet(s.pool[0].h, i); if ((x != nullptr) != (i < n->kids.size())) s.bad("ArrayGet", n, x ? "(a value)" : "(null)", std::to_string(i)); if (x) s.same(x, n->kids, i, 0, "ArrayGet"); }
      else s.lookup(s.pool[0].h, n, "k" + std::to_string(i), 0);
    }
    if (!c.ro) {
      for (int q = 0; q < 6; q++) s.doDel(s.pool[0], arr);
      s.newVal(0);
      if (!arr) s.doSetKey(s.pool.back(), "new");
      s.doSetStr(s.pool.back(), "tail");
      s.doAdd(s.pool[0], s.pool.back(), arr, true);
    }
    s.auditAll(true);
    break;
  }
  default: { // that many values and repetitions of one call on one allocator
    if (c.ro || len > 3000) break;
    s.doParse(s.pool[0], "{\"a\":[1,\"two\",{\"b\":null}]}");
    s.newVal(0);
    int what = (int)c.rng.below(6);
    for (size_t i = 0; i < len; i++) {
      switch (what) {
      case 0: s.doSetStr(s.pool[1], "s" + std::to_string(i)); break;
      case 1: s.doParse(s.pool[1], "[" + std::to_string(i) + "]"); break;
      case 2: s.doSet(s.pool[1], s.pool[0]); break;
      case 3: s.doSetEsc(s.pool[1], c.rng.chance(1, 2), "x\n" + std::to_string(i)); break;
      case 4: s.doSetKey(s.pool[1], "k" + std::to_string(i)); break;
      default: s.own(0); if (!c.api->NewValue(s.A[0])) fail(c, "model", "NewValue returned NULL");
      }
      if (s.kept.size() > 60) { s.checkAllKept(); s.kept.erase(s.kept.begin(), s.kept.begin() + 30); }
    }
    s.auditAll(true);
    break;
  }
  }
  s.finish();
}
// ---- C12: allocators that grew in every way, each released and balanced on its own
static void growOp(Ctx &c, void *a, int op, size_t len) {
  const zapi *api = c.api;
  string pad(len, 'g');
  void *v = api->NewValue(a);
  bool ok = true;
  switch (op) {
  case 0: if (c.ro) { ok = api->Parse(v, ("\"" + pad + "\"").c_str()); break; } ok = api->SetStr(v, pad.c_str()); break;
  case 1: ok = api->Parse(v, ("[\"" + pad + "\"]").c_str()); break;
  case 2: ok = api->Parse(v, ("\"" + pad + "\"").c_str()) && api->GetStr(v); break;
  case 3: ok = api->Parse(v, ("\"" + pad + "\\n\"").c_str()) && api->GetUnEscapeStr(v); break;
  case 4: ok = api->Parse(v, ("[\"" + pad + "\"]").c_str()) && api->Stringify(v); break;
  case 5: if (c.ro) break; ok = api->SetStrEscape(v, ("\n" + pad).c_str()); break;
  case 6: if (c.ro) break; ok = api->SetKey(v, pad.c_str()) && api->GetKey(v); break;
  case 7: { string d = "["; for (size_t i = 0; i < len / 40; i++) d += i ? ",1" : "1"; ok = api->Parse(v, (d + "]").c_str()); break; }
  case 8: { string d = "["; for (size_t i = 0; i < len / 40; i++) d += i ? ",{}" : "{}"; ok = api->Parse(v, (d + "]").c_str()) && (c.ro || api->Copy(v)); break; }
  default: ok = !api->Parse(v, ("[\"" + pad).c_str());
  }
  if (!ok) fail(c, "model", "call %d of size %zu failed", op, len);
}
static void m_grow(Ctx &c, uint64_t idx, uint64_t n) {
  const zapi *api = c.api;
  vector<size_t> sz;
  for (int e = 6; e <= (c.level > 1 ? 22 : c.level ? 20 : 18); e++) { sz.push_back((size_t)1 << e); sz.push_back(((size_t)1 << e) - 40); sz.push_back(3 * ((size_t)1 << e) / 2); }
  for (size_t s : g_sizes) if (s > 64) { sz.push_back(s); sz.push_back(s + 1); sz.push_back(s + s / 4); }
  uint64_t k = 0;
  if (!g_vf.track) harness_error("grow needs tracking");
  for (size_t s : sz)
    for (int op = 0; op < 10; op++)
      for (int pat = 0; pat < 5; pat++) {
        if (k++ % n != idx) continue;
        if (s > 300000 && pat > 1 && c.level < 2) continue;
        crumb(c, "grow", std::to_string(s) + " op " + std::to_string(op) + " pattern " + std::to_string(pat));
        size_t other = 0;
        void *b = nullptr;
        if (pat & 1) { // another allocator alive meanwhile
          g_vf.owner = ++Session::ownerSeq();
          b = api->NewAllocator();
          growOp(c, b, (op + 3) % 10, s / 2 + 7);
          other = g_vf.live;
        }
        size_t l0 = g_vf.live;
        g_vf.owner = ++Session::ownerSeq();
        void *a = api->NewAllocator();
        if (pat == 2 || pat == 3) for (int i = 0; i < 3; i++) growOp(c, a, (op + i) % 10, s >> (3 - i));
        growOp(c, a, op, s);
        if (pat == 4) { growOp(c, a, (op + 1) % 10, 3); growOp(c, a, (op + 2) % 10, s * 3); growOp(c, a, op, 5); }
        if (g_vf.live <= l0) fail(c, "balance", "the library holds no block for a live allocator");
        c.cnt[N_OPS]++;
        c.cnt[N_ALLOCATORS]++;
        c.cnt[N_RELEASES]++;
        api->ReleaseAllocator(a);
        if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
        if (g_vf.live != l0) fail(c, "balance", "%lld blocks still allocated after a release", (long long)g_vf.live - (long long)l0);
        if (b) {
          if (g_vf.live != other) fail(c, "balance", "the release of one allocator changed what another holds");
          api->ReleaseAllocator(b);
          if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
          if (g_vf.live) fail(c, "balance", "%zu blocks still allocated after every allocator was released", g_vf.live);
        }
        seen(c, std::to_string(s) + ":" + std::to_string(op) + ":" + std::to_string(pat));
      }
  if (idx == 0) sample(c, std::to_string(sz.size()) + " sizes x 10 calls x 5 patterns, balance checked after every release");
}
// ---- positions far into a container
static void m_bigidx(Ctx &c, uint64_t idx, uint64_t) {
  const zapi *api = c.api;
  size_t N = (idx % 4 < 2 ? 66000 : c.level > 1 ? 300000 : 133000) + c.rng.below(500);
  bool obj = idx & 1;
  string t = obj ? "{" : "[";
  for (size_t i = 0; i < N; i++) { if (i) t += ','; if (obj) t += "\"k" + std::to_string(i) + "\":"; t += std::to_string(i); }
  t += obj ? "}" : "]";
  crumb(c, "bigidx", std::to_string(N));
  if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
  void *a = api->NewAllocator(), *v = api->NewValue(a);
  if (!api->Parse(v, t.c_str())) fail(c, "accept", "a flat container of %zu members was rejected", N);
  vector<long> live(N);
  for (size_t i = 0; i < N; i++) live[i] = (long)i;
  for (int round = 0; round < 3; round++) {
    if (api->SizeOf(v) != live.size()) fail(c, "read", "SizeOf is %zu for a container of %zu", api->SizeOf(v), live.size());
    vector<size_t> at = {0, 1, live.size() - 1, live.size() - 2, live.size() / 2};
    for (int e = 4; e < 19; e++) for (int d = -1; d <= 1; d++) at.push_back(((size_t)1 << e) + (size_t)d);
    for (size_t s : g_sizes) { at.push_back(s); at.push_back(s + 1); }
    for (int i = 0; i < 10; i++) at.push_back(c.rng.below((uint32_t)live.size()));
    for (size_t i : at) {
      void *x = nullptr;
      c.cnt[N_OPS]++;
      if (obj) {
        if (i >= N) { string k = "k" + std::to_string(i); if (api->ObjGet(v, k.c_str())) fail(c, "read", "key %zu found in an object of %zu", i, N); continue; }
        if (i >= live.size()) continue;
        string k = "k" + std::to_string(live[i]);
        x = api->ObjGet(v, k.c_str());
      } else x = api->ArrayGet(v, i);
      if (i >= live.size()) { if (x) fail(c, "read", "index %zu of an array of %zu yields a value", i, live.size()); continue; }
      const long *q = x ? api->GetLong(x) : nullptr;
      if (!q || *q != live[i]) fail(c, "read", "position %zu of %zu reads %ld instead of %ld", i, live.size(), q ? *q : -1L, live[i]);
    }
    if (!obj) for (size_t big : {(size_t)0x7fffffff, (size_t)0x80000000, (size_t)0xffffffff, (size_t)0xffff0000}) { c.cnt[N_OPS]++; if (api->ArrayGet(v, big)) fail(c, "read", "index %zu of an array of %zu yields a value", big, live.size()); if (!c.ro && api->ArrayDel(v, big)) fail(c, "model", "ArrayDel at %zu of an array of %zu succeeds", big, live.size()); }
    if (c.ro) break;
    for (size_t i : {(size_t)65536, (size_t)65535, live.size() - 1, (size_t)256, (size_t)c.rng.below((uint32_t)live.size())}) { // deletions far in
      if (i >= live.size()) continue;
      bool ok = obj ? api->ObjDel(v, ("k" + std::to_string(live[i])).c_str()) : api->ArrayDel(v, i);
      c.cnt[N_OPS]++;
      if (!ok) fail(c, "model", "deleting position %zu of %zu failed", i, live.size());
      live.erase(live.begin() + (long)i);
    }
    size_t j = 0;
    for (void *x = api->Begin(v); x; x = api->Next(x), j++) {
      const long *q = j % 97 && j + 100 < live.size() ? nullptr : api->GetLong(x);
      if (j >= live.size() || (q && *q != live[j])) fail(c, "read", "member %zu of %zu reads %ld", j, live.size(), q ? *q : -1L);
    }
    if (j != live.size()) fail(c, "read", "iteration yields %zu members of %zu", j, live.size());
    if (!obj) { // and an append, which must come last
      void *e = api->NewValue(a);
      api->SetInt(e, 7);
      if (!api->ArrayAddFast(v, e)) fail(c, "model", "ArrayAddFast failed");
      live.push_back(7);
    }
  }
  seen(c, std::to_string(N) + (obj ? "o" : "a"));
  api->ReleaseAllocator(a);
  if (g_vf.track && (g_vf.error || g_vf.live)) fail(c, "balance", "%s", g_vf.error ? g_vf.error : "blocks not freed");
}
static void m_consts(Ctx &c, uint64_t idx, uint64_t n) {
  vector<size_t> sz;
  size_t cap = c.level > 1 ? 1u << 20 : c.level ? 140000 : 9000;
  for (size_t i = 0; i <= 40; i++) sz.push_back(i);
  for (size_t S : g_sizes) for (int d = -1; d <= 2; d++) if (S + (size_t)d <= cap) sz.push_back(S + (size_t)d);
  std::sort(sz.begin(), sz.end());
  sz.erase(std::unique(sz.begin(), sz.end()), sz.end());
  uint64_t k = 0;
  for (size_t len : sz)
    for (int kind = 0; kind < CK_MAX; kind++) {
      if ((kind == 2 || kind == 8) && !len) continue;
      if ((kind == 4 || kind == 5) && len > 9000) continue;
      if (c.ro && ((kind >= 6 && kind <= 10) || kind == 26)) continue;
      if (k++ % n != idx) continue;
      constOne(c, kind, len);
    }
  if (idx % 16 == 0) {
    Light L(c);
    for (const string &v : g_vals) if (r_legalNum(v)) { for (const string &w : {v, "-" + v, v + "0", v + (v.find_first_of("eE") == string::npos ? "e1" : "1")}) if (r_legalNum(w)) checkNumberText(c, L, w); }
  }
}
// tokens of the tree under test in and around documents
static void m_dict(Ctx &c, uint64_t idx, uint64_t n) {
  Light L(c);
  vector<string> tk = g_toks;
  for (const char *x : {"NaN", "nan", "Infinity", "-Infinity", "inf", "undefined", "TRUE", "True", "FALSE", "NULL", "Null", "nil", "none", "yes", "//", "/*", "*/", "/**/", "#", "'", "`", "\xef\xbb\xbf", "0x10", "0b1", "0o7", "1_000", "1f", "1L", "1d", "+", "$", "@", ";", "(", ")", "...", "=", "\\x41", "\\v", "\\a", "\\0", "\\e", "\\'", "\\U0001F600", "\\u{41}"}) tk.push_back(x);
  std::sort(tk.begin(), tk.end());
  tk.erase(std::unique(tk.begin(), tk.end()), tk.end());
  static const char *const T[] = {"%", "[%]", "{\"a\":%}", "\"%\"", "{\"%\":1}", "{%:1}", "[1%]", "[%1]", "[1,%,2]", "%[1]", "[1]%", "[\"x%y\"]", "{\"a\"%1}", "{\"a\":1%}", "[ % ]", "1%", "-%", "1.%", "1e%", "true%", "\"\\%\"", "{\"a\":1,%}", "[[%],{}]", " % ", "\n%\n"};
  uint64_t k = 0;
  auto one = [&](const string &t) {
    if (k++ % n != idx) return;
    for (const char *f : T) {
      string d = f;
      size_t p = d.find('%');
      d.replace(p, 1, t);
      bool v = r_valid(d);
      checkVerdict(c, L, d, v, true);
      seen(c, d);
      if (v && f[0] == '"') checkDecode(c, L, d.substr(1, d.size() - 2), c.rng.chance(1, 2));
      if (v && !f[1] && r_legalNum(t)) checkNumberText(c, L, t);
    }
    if (!c.ro) {
      for (int w = 0; w < 3; w++) { checkSetter(c, L, w, t, c.rng.chance(1, 2)); checkSetter(c, L, w, t + "1", false); checkSetter(c, L, w, "1" + t, true); }
      checkEncode(c, L, t, c.rng.chance(1, 2), c.rng.chance(1, 2));
      checkEncode(c, L, "a" + t + "b" + t, c.rng.chance(1, 2), c.rng.chance(1, 2));
    }
  };
  for (const string &t : tk) one(t);
  // what other parsers let through
  for (const char *x : {"//x\n", "/*x*/", "#x\n", "\xc2\xa0", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xe3\x80\x80", "\xfe\xff", "\xff\xfe", "\x1a", "\x1e", "\x04", "'a'", "''", "a", "a:1", "-Inf", "-NaN", "+NaN", "1e", "0e", "00", "01", "-01", "-00", "+1", "-", "--1", "-+1", ".5",
                        "5.", "1.e1", "-.5", "0x", "0xF", "0XF", "1e+", "1e-", "1e1.5", "1.5.1", "1e1e1", "1E", "1 2", "\"a\" \"b\"", ",,", "::", "[,]", "{,}", "[1,]", "{\"a\":1,}", "{\"a\"}", "{\"a\":}", "{:1}", "{\"a\",1}", "[1:2]", "[\"a\":1]", "{1:2}", "{null:1}", "{[]:1}", "[1;2]", "[1 2]",
                        "\\\n", "\\\r\n", "\n", "\t", "\r", "\f", "\v", "\b", "%", "new Date(0)", "@\"a\"", "b\"a\"", "u\"a\"", "r\"a\"", "\"\"\"", "\"\"", "<!--", "-->", ")]}'\n", "while(1);", "truefalse", "tru", "truee", "nul", "nulll", "fals", "falsee", "t", "f", "n", "]", "}", "[", "{", "[}", "{]",
                        "]]", "}}", "\\u12", "\\u12g4", "\\uD83D", "\\u-123", "\\u 123", "\\u+123", "\\u0x41", "\\x", "\\ ", "\\/", "\\N", "\\T", "\\u00 0", "\xf0\x9f\x98\x80", "\xc0\x80", "\xed\xa0\xbd", "\xf5", "\xff", "\xe2\x82", "\x80"}) one(x);
  vector<string> sh;
  for (const string &t : tk) if (t.size() == 1 && (unsigned char)t[0] < 0x80) sh.push_back(t); else if (t.size() > 1 && t.size() < 9 && t[0] != '\\') sh.push_back(t);
  for (const string &a : sh) for (const string &b : sh) {
    if (c.level < 2 && (a.size() > 1 || b.size() > 1) && fnv(fnv(FNV0, a.data(), a.size()), b.data(), b.size()) % 4) { k++; continue; }
    one(a + b);
  }
}
struct TArg {
  Ctx *c;
  uint64_t seed;
  int sessions;
  pthread_barrier_t *bar;
  const string *shared;
  uint64_t hash;
  Session *handover;
};
static void threadBody(TArg *t) {
  static const Profile P_BIG = {"big", {0}, 1, 0, 0, 0};
  static const Profile *ps[] = {&P_EDIT, &P_BUF, &P_STABLE, &P_FAIL, &P_COPY};
  Ctx &c = *t->c;
  uint64_t h = FNV0;
  for (int k = 0; k < t->sessions; k++) {
    c.rng = Rng(mix64(t->seed, (uint64_t)k));
    c.brng = Rng(mix64(t->seed, (uint64_t)k + 77));
    c.th = FNV0;
    c.phase = "model";
    Session s(c, ps[(t->seed + (uint64_t)k) % 5]);
    // shared read-only input
    s.newVal(0);
    bool ok = c.api->ParseFast(s.pool.back().h, t->shared->c_str());
    if (!ok) fail(c, "accept", "shared text rejected");
    s.pool.back().n = r_parse(*t->shared, s.M);
    Session::addDeps(s.pool.back().n, 1);
    s.run(60);
    s.finish();
    for (int q = 0; q < 1; q++) { // paths that only long or deep content takes
      static const int sizes[] = {40, 130, 300, 1100, 4200, 20000};
      int n = sizes[c.rng.below(6)] + c.rng.range(-2, 2);
      string t;
      Session s(c, &P_BIG);
      s.pool.clear();
      s.newVal(0);
      Handle &x = s.pool.back();
      switch (c.rng.below(6)) {
      case 0: t = "[\""; while ((int)t.size() < n) t += s.g.piece(); s.doParse(x, t + "\"]"); break;
      case 1: s.doSetNumTxt(x, s.g.digits(n < 6000 ? n : 6000, false)); break;
      case 2: if (n > 300) n = 300; t = string((size_t)n, '['); t.append((size_t)n, ']'); s.doParse(x, t); break;
      case 3: { string b((size_t)n, 'b'); for (size_t i = 0; i < b.size(); i += 7) b[i] = "\n\x01\"\\\xc3\t"[c.rng.below(6)]; s.doSetEsc(x, c.rng.chance(1, 2), b); break; }
      case 4: { t = "{"; for (int i = 0; i < n / 20 && i < 300; i++) t += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + std::to_string(i); s.doParse(x, t + "}"); break; }
      default: s.doSetStr(x, string((size_t)n, 's'));
      }
      s.doCopy(s.pool.back());
      s.finish();
    }
    h = fnv(h, &c.th, 8);
  }
  t->hash = h;
}
static void *threadMain(void *p) {
  TArg *t = (TArg *)p;
  if (t->bar) pthread_barrier_wait(t->bar);
  if (t->handover) { // continue somebody else's session (ownership passed by create/join)
    t->handover->run(40);
    return nullptr;
  }
  threadBody(t);
  return nullptr;
}
static void m_threads(Ctx &c, uint64_t, uint64_t) {
  const int T = 6;
  Gen g(c.rng);
  string shared = g.doc(20, 5);
  uint64_t base = c.rng.next();
  int sess = c.level > 1 ? 6 : 4;
  bool track = g_vf.track;
  g_vf.track = false;
  vector<TArg> ta((size_t)T);
  vector<Ctx *> cs;
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, T);
  vector<pthread_t> th((size_t)T);
  crumb(c, "threads");
  for (int i = 0; i < T; i++) {
    Ctx *x = new Ctx();
    x->api = c.api;
    x->beta = c.beta;
    x->mode = c.mode;
    x->caseNo = c.caseNo;
    x->threaded = true;
    cs.push_back(x);
    // two threads run the very same work, so that they hit the same code together
    ta[(size_t)i] = TArg{x, mix64(base, (uint64_t)(i / 2)), sess, &bar, &shared, 0, nullptr};
  }
  for (int i = 0; i < T; i++) if (pthread_create(&th[(size_t)i], nullptr, threadMain, &ta[(size_t)i])) harness_error("pthread_create");
  for (int i = 0; i < T; i++) pthread_join(th[(size_t)i], nullptr);
  pthread_barrier_destroy(&bar);
  c.cnt[N_THREADS] += T;
  // the same work alone
  for (int i = 0; i < T; i++) {
    Ctx y;
    y.api = c.api;
    y.beta = c.beta;
    y.mode = c.mode;
    y.caseNo = c.caseNo;
    TArg t = ta[(size_t)i];
    t.c = &y;
    t.bar = nullptr;
    uint64_t conc = ta[(size_t)i].hash;
    threadBody(&t);
    if (t.hash != conc) fail(c, "transcript", "thread %d obtained other results than the same calls running alone", i);
    for (int k = 0; k < N_MAX; k++) c.cnt[k] += cs[(size_t)i]->cnt[k] + y.cnt[k];
    for (uint64_t d : cs[(size_t)i]->distinct) c.distinct.push_back(d);
  }
  for (auto *x : cs) delete x;
  // hand-over: a session continued by other threads, one after the other
  {
    Ctx y;
    y.api = c.api;
    y.beta = c.beta;
    y.mode = c.mode;
    y.caseNo = c.caseNo;
    y.rng = Rng(base);
    Session s(y, &P_EDIT2);
    s.run(30);
    for (int k = 0; k < 3; k++) {
      TArg t{&y, 0, 0, nullptr, nullptr, 0, &s};
      pthread_t p;
      if (pthread_create(&p, nullptr, threadMain, &t)) harness_error("pthread_create");
      pthread_join(p, nullptr);
      c.cnt[N_HANDOVER]++;
    }
    s.finish();
    for (int k = 0; k < N_MAX; k++) c.cnt[k] += y.cnt[k];
  }
  g_vf.track = track;
}
// ---- C19
struct DeepArg { Ctx *c; uint64_t idx; };
static void deepCheckMem(Ctx &c, const char *what, size_t data) {
  if (!g_vf.track) return;
  // generous: linear with a large constant, logarithmic with a large constant
  size_t lim = 600 * data + 200000;
  if (g_vf.maxBytes > lim) fail(c, "resource", "%s: %zu bytes held for %zu bytes of data", what, g_vf.maxBytes, data);
  size_t lg = 1;
  while ((1ull << lg) < data) lg++;
  if (g_vf.maxLive > 16 + 6 * lg) fail(c, "resource", "%s: %zu system blocks held for %zu bytes of data", what, g_vf.maxLive, data);
}
static void deepBody(Ctx &c, uint64_t idx) {
  const zapi *api = c.api;
  static const size_t sizes_q[] = {1000, 20000, 200000, 500000}, sizes_t[] = {100000, 1000000, 2000000, 4000000};
  size_t n = (c.level > 1 ? sizes_t : sizes_q)[idx / 6 % 4];
#if defined(VF_MSAN) || defined(VF_ASAN)
  if (n > 500000) n = 500000;
#endif
  g_vf.maxBytes = g_vf.liveBytes;
  g_vf.maxLive = g_vf.live;
  if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
  int shape = (int)(idx % 6);
  string t, want;
  t.reserve(n * 8);
  size_t depth = 0, width = 0;
  switch (shape) {
  case 0: t.assign(n, '['); t.append(n, ']'); depth = n; break;
  case 1: for (size_t i = 0; i < n; i++) t += "{\"a\":"; t += "1"; t.append(n, '}'); depth = n; break;
  case 2: for (size_t i = 0; i < n; i++) t += i & 1 ? "[1," : "{\"k\":"; t += "[]"; for (size_t i = n; i-- > 0;) t += i & 1 ? ",2]" : ",\"z\":3}"; depth = n; break;
  case 3: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",1" : "1"; t += "]"; width = n; break;
  case 4: t = "{"; for (size_t i = 0; i < n; i++) t += i ? ",\"kk\":true" : "\"kk\":true"; t += "}"; width = n; break;
  default: t = "[\""; for (size_t i = 0; i < n; i++) t += "\\u00e9"; t += "\"]"; width = 1; break;
  }
  crumb(c, "deep", "shape " + std::to_string(shape) + " size " + std::to_string(n));
  c.cnt[N_DEEP]++;
  c.cnt[N_TEXTS]++;
  void *a = api->NewAllocator();
  void *v = api->NewValue(a);
  if (!api->ParseFast(v, t.c_str())) fail(c, "accept", "a valid document of shape %d and size %zu is rejected", shape, n);
  const char *s = api->Stringify(v);
  if (!s || t != s) fail(c, "text", "a document of shape %d and size %zu does not survive parse and stringify", shape, n);
  deepCheckMem(c, "parse and stringify", t.size());
  void *cp = api->Copy(v);
  if (!cp) fail(c, "copy", "Copy of a document of shape %d and size %zu failed", shape, n);
  s = api->Stringify(cp);
  if (!s || t != s) fail(c, "copy", "Copy of a document of shape %d and size %zu differs", shape, n);
  c.cnt[N_COPIES]++;
  if (width && api->SizeOf(v) != width) fail(c, "read", "SizeOf gives %zu instead of %zu", api->SizeOf(v), width);
  // walk down / along
  void *p = v;
  if (depth) {
    size_t d = 0;
    for (;;) {
      void *k = api->Begin(p);
      if (!k) break;
      if (shape == 2 && (d & 1)) k = api->Next(k);
      if (!k) break;
      p = k;
      d++;
    }
    size_t wantd = shape == 0 ? depth - 1 : depth;
    if (d != wantd) fail(c, "read", "walked %zu levels instead of %zu", d, wantd);
  } else {
    size_t k = 0;
    for (void *e = api->Begin(v); e; e = api->Next(e)) k++;
    if (k != width) fail(c, "read", "iterated %zu children instead of %zu", k, width);
  }
  // edit at the bottom / end, then serialize again
  if (depth) {
    if (!api->SetStr(p, "bottom")) fail(c, "model", "SetStr failed");
    string w;
    switch (shape) {
    case 0: w.assign(n - 1, '['); w += "\"bottom\""; w.append(n - 1, ']'); break;
    case 1: w = t; w.replace(n * 5, 1, "\"bottom\""); break;
    default: { w = t; size_t pos = (n / 2) * 3 + (n - n / 2) * 5; w.replace(pos, 2, "\"bottom\""); }
    }
    s = api->Stringify(v);
    if (!s || w != s) fail(c, "model", "editing the innermost value of a document of shape %d and size %zu gives a wrong text", shape, n);
  }
  s = api->Stringify(cp);
  if (!s || t != s) fail(c, "copy", "editing the source changed its copy");
  void *x = api->NewValue(a);
  api->SetArray(x);
  if (!api->ArrayAddFast(x, cp)) fail(c, "model", "ArrayAddFast failed");
  if (!api->ArrayAdd(x, v)) fail(c, "model", "ArrayAdd failed");
  if (!api->ArrayDel(x, 0)) fail(c, "model", "ArrayDel failed");
  const char *fin = api->Stringify(x);
  const char *cur = api->Stringify(v);
  if (!fin || !cur || string("[") + cur + "]" != fin) fail(c, "model", "large document wrong after adding and deleting");
  deepCheckMem(c, "whole history", 10 * t.size());
  // invalid: one closing bracket missing / a wrong one, into fresh and used values
  if (depth) {
    string bad = t;
    char last = bad.back();
    bad.pop_back();
    void *y = api->NewValue(a);
    if (api->ParseFast(y, bad.c_str())) fail(c, "accept", "unclosed deep document accepted");
    if (api->ParseLen(v, t.data(), bad.size())) fail(c, "accept", "unclosed deep document accepted by ParseLen");
    bad += last == '}' ? ']' : '}';
    if (api->Parse(v, bad.c_str())) fail(c, "accept", "deep document with a wrong last bracket accepted");
    s = api->Stringify(v);
    if (!s || strcmp(s, cur)) fail(c, "unchanged", "a refused parse changed a deep document");
  }
  // the other ways to bring a document in and to move it about
  void *p1 = api->NewValue(a), *p2 = api->NewValue(a), *o = api->NewValue(a), *q = api->NewValue(a), *r = api->NewValue(a);
  if (!api->Parse(p1, t.c_str()) || !api->ParseLen(p2, t.data(), t.size())) fail(c, "accept", "Parse or ParseLen rejects a valid document of shape %d and size %zu", shape, n);
  s = api->Stringify(p1);
  if (!s || t != s) fail(c, "text", "a copied document of shape %d and size %zu does not survive", shape, n);
  if (!api->Set(q, p1)) fail(c, "copy", "Set failed");
  api->SetObj(o);
  if (!api->SetKey(p1, "first") || !api->SetKey(p2, "second")) fail(c, "model", "SetKey failed");
  if (!api->ObjAdd(o, p1) || !api->ObjAddFast(o, p2)) fail(c, "model", "ObjAdd failed");
  if (!api->SetFast(r, p1)) fail(c, "model", "SetFast failed");
  s = api->Stringify(o);
  if (!s || "{\"first\":" + t + ",\"second\":" + t + "}" != s) fail(c, "model", "object with two documents of shape %d and size %zu serializes wrongly", shape, n);
  void *g1 = api->ObjGet(o, "second");
  if (!g1 || !api->Move(g1)) fail(c, "model", "moving a large member out failed");
  s = api->Stringify(g1);
  if (!s || t != s) fail(c, "model", "a moved-out document of shape %d and size %zu differs", shape, n);
  if (!api->ObjDel(o, "first") || api->SizeOf(o) != 0) fail(c, "model", "ObjDel failed");
  s = api->Stringify(q);
  if (!s || t != s) fail(c, "copy", "the target of Set differs for shape %d and size %zu", shape, n);
  s = api->Stringify(r);
  if (!s || t != s) fail(c, "model", "the target of SetFast differs for shape %d and size %zu", shape, n);
  api->SetNull(r);
  if (!api->ParseFast(q, "[7]")) fail(c, "model", "parsing over a large document failed");
  s = api->Stringify(q);
  if (!s || strcmp(s, "[7]")) fail(c, "model", "parsing over a large document gives \"%s\"", s ? esc(s, 200).c_str() : "(null)");
  api->ReleaseAllocator(a);
  seen(c, std::to_string(shape) + ":" + std::to_string(n));
}
// many small edits and reads: memory stays linear in the work done, blocks logarithmic
static void growthBody(Ctx &c, uint64_t idx) {
  const zapi *api = c.api;
  g_vf.maxBytes = g_vf.liveBytes;
  g_vf.maxLive = g_vf.live;
  if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
  size_t n = c.level > 1 ? 60000 : 20000;
  crumb(c, "growth");
  void *a = api->NewAllocator();
  void *arr = api->NewValue(a), *obj = api->NewValue(a);
  api->SetArray(arr);
  api->SetObj(obj);
  size_t work = 0;
  for (size_t i = 0; i < n; i++) {
    void *e = api->NewValue(a);
    string k = "k" + std::to_string(i);
    api->SetKey(e, k.c_str());
    switch ((i + idx) % 5) {
    case 0: api->SetStrLen(e, "hello", 5); break;
    case 1: api->SetLongLong(e, (long long)i); break;
    case 2: api->SetDouble(e, (double)i * 0.1); break;
    case 3: api->SetStrEscape(e, "a\nb"); break;
    default: api->SetNumStrLen(e, "12345", 5);
    }
    api->GetKey(e);
    api->GetStr(e);
    api->GetDouble(e);
    work += 64;
    if (!(i & 1 ? api->ArrayAddFast(arr, e) : api->ObjAddFast(obj, e))) fail(c, "model", "adding element %zu failed", i);
    c.cnt[N_OPS] += 6;
  }
  if (api->SizeOf(arr) + api->SizeOf(obj) != n) fail(c, "model", "%zu elements after %zu additions", api->SizeOf(arr) + api->SizeOf(obj), n);
  deepCheckMem(c, "small edits", work);
  // delete from both ends until empty, refill
  for (size_t i = n / 2; i-- > 0;) {
    if (i % 2 == 0 || i < 1) { if (!api->ArrayDel(arr, 0)) fail(c, "model", "ArrayDel first failed"); }
    else if (i < 2000) { if (!api->ArrayDel(arr, i)) fail(c, "model", "ArrayDel last failed"); }
    else if (!api->ArrayDel(arr, 1)) fail(c, "model", "ArrayDel second failed");
    if (api->SizeOf(arr) != i) fail(c, "model", "size %zu instead of %zu while deleting", api->SizeOf(arr), i);
    c.cnt[N_OPS]++;
  }
  const char *s = api->Stringify(arr);
  if (!s || strcmp(s, "[]") != 0) fail(c, "model", "emptied array serializes as \"%s\"", s ? esc(s).c_str() : "(null)");
  for (int i = 0; i < 3; i++) { void *e = api->NewValue(a); api->SetInt(e, i); if (!api->ArrayAdd(arr, e)) fail(c, "model", "refill failed"); }
  s = api->Stringify(arr);
  if (!s || strcmp(s, "[0,1,2]") != 0) fail(c, "model", "refilled array serializes as \"%s\"", s ? esc(s).c_str() : "(null)");
  api->ReleaseAllocator(a);
  seen(c, "growth" + std::to_string(idx % 5));
}
static void *deepMain(void *p) {
  DeepArg *d = (DeepArg *)p;
  if (d->idx % 8 == 7) growthBody(*d->c, d->idx / 8); else deepBody(*d->c, d->idx - d->idx / 8);
  return nullptr;
}
static void m_deep(Ctx &c, uint64_t idx, uint64_t) {
  // a small stack: recursion proportional to the depth cannot survive
  pthread_attr_t at;
  pthread_attr_init(&at);
#if defined(VF_ASAN) || defined(VF_MSAN) || defined(VF_TSAN)
  size_t st = 256 * 1024;
#else
  size_t st = 96 * 1024;
#endif
  pthread_attr_setstacksize(&at, st);
  DeepArg d{&c, idx};
  pthread_t t;
  int e = pthread_create(&t, &at, deepMain, &d);
  if (e) harness_error("pthread_create with a small stack");
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
  if (g_vf.track) {
    if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
    if (g_vf.live) fail(c, "balance", "%zu blocks not freed", g_vf.live);
  }
}

// ---- C19: the work of every whole-document operation grows linearly
static const int WORK_KINDS = 20;
static string workText(int kind, size_t n) {
  string t;
  switch (kind) {
  case 0: t.assign(n, '['); t.append(n, ']'); break;
  case 1: for (size_t i = 0; i < n; i++) t += "{\"a\":"; t += "1"; t.append(n, '}'); break;
  case 2: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",1" : "1"; t += "]"; break;
  case 3: t = "{"; for (size_t i = 0; i < n; i++) t += (i ? ",\"k" : "\"k") + std::to_string(i % 10) + "\":true"; t += "}"; break;
  case 4: t = "\"" + string(n, 'x') + "\""; break;
  case 5: t = "[\""; for (size_t i = 0; i < n; i++) t += "\\u00e9"; t += "\"]"; break;
  case 6: t = string(n, '7'); break;
  case 7: t = "[1" + string(n, ' ') + ",2" + string(n, '\n') + "]"; break;
  case 8: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",[\"s\",{}]" : "[\"s\",{}]"; t += "]"; break;
  case 9: t = "{\"" + string(n, 'k') + "\":\"" + string(n, 'v') + "\"}"; break;
  case 10: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",\"\\n\"" : "\"\\n\""; t += "]"; break;
  case 11: for (size_t i = 0; i < n; i++) t += i & 1 ? "[1," : "{\"k\":"; t += "0"; for (size_t i = n; i-- > 0;) t += i & 1 ? ",2]" : ",\"z\":3}"; break;
  case 12: t = "0." + string(n, '3') + "e-5"; break;
  case 13: t = "[\"" ; for (size_t i = 0; i < n; i++) t += "\\uD83D\\uDE00"; t += "\"]"; break;
  case 14: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",null" : "null"; t += "]"; break;
  case 15: t = "{"; for (size_t i = 0; i < n; i++) t += i ? ", \"\" : false" : "\"\":false"; t += "}"; break;
  case 16: t = "["; for (size_t i = 0; i < n; i++) t += (i ? "\n,-" : "-") + std::to_string(i) + (i % 3 == 0 ? ".5" : i % 3 == 1 ? "E+2" : ""); t += "]"; break;
  case 17: t = "{"; for (size_t i = 0; i < n; i++) t += (i ? ",\"\\u006b" : "\"\\u006b") + std::to_string(i) + "\\n\":\"\\\\" + std::to_string(i) + "\\\"\""; t += "}"; break;
  case 18: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",{\"a\":[],\"b\":{\"c\":[{}]}}" : "{}"; t += "]"; break;
  default: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",true\t" : "true"; t += "]"; break;
  }
  return t;
}
enum { W_PARSE, W_PARSECOPY, W_PARSEBAD, W_STRINGIFY, W_COPY, W_SET, W_ADD, W_WALK, W_READ, W_EDIT, W_RELEASE, W_APPEND, W_APPENDCOPY, W_OAPPEND, W_DELFIRST, W_MOVEALL, W_ESC, W_SETTEXT, W_SETKEYTEXT, W_SETNUMTEXT, W_REFUSED, W_LOOKUP, W_SETLOOP, W_PARSELOOP, W_REFUSEDLOOP, W_MAX };
static const char *const W_NAME[] = {"ParseFast", "Parse", "failing ParseFast", "Stringify", "Copy", "Set", "ArrayAdd", "iteration", "reading every value", "editing every value", "ReleaseAllocator", "ArrayAddFast in a loop", "ArrayAdd in a loop", "ObjAddFast in a loop", "deleting the first element in a loop", "moving the elements to another array", "escaping setter", "setting a long string", "setting a long key", "setting a long number", "refusing a long argument", "lookup with a long key", "setting one value in a loop", "parsing into one value in a loop", "refused calls in a loop"};
static void workWalk(Ctx &c, void *v, int what, uint64_t &w) {
  const zapi *api = c.api;
  vector<void *> st = {v};
  while (!st.empty()) {
    void *x = st.back();
    st.pop_back();
    size_t l;
    uint64_t before = g_work;
    if (what == 1) { api->GetKey(x); api->GetStr(x); api->GetUnEscapeStr(x); api->GetNumStr(x); api->GetDouble(x); api->GetStrFast(x, &l); api->GetBool(x); api->GetUnEscapeKey(x); }
    w += g_work - before;
    vector<void *> kids;
    before = g_work;
    for (void *k = api->Begin(x); k; k = api->Next(k)) kids.push_back(k);
    w += g_work - before;
    if (what == 2 && kids.empty()) { before = g_work; api->SetStr(x, "e"); api->SetInt(x, 3); api->SetDouble(x, 0.5); api->SetBool(x, true); w += g_work - before; }
    for (void *k : kids) st.push_back(k);
  }
}
static void workRun(Ctx &c, int kind, size_t n, uint64_t w[W_MAX]) {
  const zapi *api = c.api;
  string t = workText(kind, n), bad = t;
  bad.pop_back();
  if (kind == 6 || kind == 12) bad += 'e';
  if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
  void *a = api->NewAllocator();
  memset(w, 0, sizeof(uint64_t) * W_MAX);
#define W(i, ...) { uint64_t before_ = g_work; __VA_ARGS__; w[i] += g_work - before_; }
  void *v = api->NewValue(a), *v2 = api->NewValue(a), *v3 = api->NewValue(a), *v4 = api->NewValue(a), *arr = api->NewValue(a), *cp = nullptr;
  bool ok = false;
  W(W_PARSE, ok = api->ParseFast(v, t.c_str()));
  if (!ok) fail(c, "accept", "valid document of kind %d and size %zu rejected", kind, n);
  W(W_PARSECOPY, ok = api->Parse(v2, t.c_str()));
  if (!ok) fail(c, "accept", "valid document of kind %d and size %zu rejected by Parse", kind, n);
  W(W_PARSEBAD, ok = api->ParseFast(v3, bad.c_str()));
  if (ok) fail(c, "accept", "invalid document of kind %d and size %zu accepted", kind, n);
  const char *s = nullptr;
  W(W_STRINGIFY, s = api->Stringify(v));
  if (!s) fail(c, "text", "Stringify failed");
  W(W_COPY, cp = api->Copy(v));
  if (!cp) fail(c, "copy", "Copy failed");
  W(W_SET, ok = api->Set(v4, v));
  if (!ok) fail(c, "copy", "Set failed");
  api->SetArray(arr);
  W(W_ADD, ok = api->ArrayAdd(arr, v));
  if (!ok) fail(c, "copy", "ArrayAdd failed");
  workWalk(c, v, 0, w[W_WALK]);
  workWalk(c, v, 1, w[W_READ]);
  workWalk(c, v4, 2, w[W_EDIT]);
  if (kind == 4) {
    string by;
    for (size_t i = 0; i < n; i++) by += "a\n\x01\"\xc3"[i % 5];
    void *e = api->NewValue(a);
    W(W_ESC, ok = api->SetStrLenEscape(e, by.data(), by.size()));
    if (!ok) fail(c, "escape", "SetStrLenEscape failed");
  }
  if (kind == 4 || kind == 5 || kind == 6) { // long arguments
    string by = kind == 4 ? string(n, 'x') : string(), num = "-" + string(n, '3') + (kind == 6 ? ".5e1" : "");
    if (kind != 4) for (size_t i = 0; i < n; i++) by += kind == 5 ? "\\u00e9" : "\\n";
    void *e = api->NewValue(a), *o = api->NewValue(a);
    api->SetObj(o);
    W(W_SETTEXT, ok = api->SetStr(e, by.c_str()) && api->SetStrLen(e, by.data(), by.size()) && api->SetStrFast(e, by.c_str()) && api->SetStrLenFast(e, by.data(), by.size()));
    if (!ok) fail(c, "setter", "a string setter refused a legal text of %zu bytes", by.size());
    W(W_SETKEYTEXT, ok = api->SetKey(e, by.c_str()) && api->SetKeyLen(e, by.data(), by.size()) && api->SetKeyFast(e, by.c_str()) && api->SetKeyLenFast(e, by.data(), by.size()));
    if (!ok) fail(c, "setter", "a key setter refused a legal text of %zu bytes", by.size());
    void *mem = api->Copy(e);
    if (!mem || !api->ObjAdd(o, e)) fail(c, "model", "ObjAdd failed");
    W(W_LOOKUP, ok = api->ObjGet(o, by.c_str()) && api->ObjGetLen(o, by.data(), by.size()) && !api->ObjGet(o, (by + "y").c_str()));
    if (!ok) fail(c, "model", "lookup with a key of %zu bytes failed", by.size());
    W(W_SETNUMTEXT, ok = api->SetNumStr(e, num.c_str()) && api->SetNumStrLen(e, num.data(), num.size()) && api->SetNumStrFast(e, num.c_str()) && api->SetNumStrLenFast(e, num.data(), num.size()));
    if (!ok) fail(c, "setter", "a number setter refused a number of %zu bytes", num.size());
    string b2 = by + "\x01", n2 = num + "x";
    W(W_REFUSED, ok = api->SetStr(e, b2.c_str()) || api->SetStrLen(e, b2.data(), b2.size()) || api->SetKey(e, b2.c_str()) || api->SetKeyLen(e, b2.data(), b2.size()) || api->SetNumStr(e, n2.c_str()) || api->SetNumStrLen(e, n2.data(), n2.size()) || api->ParseLen(e, n2.data(), n2.size()));
    if (ok) fail(c, "setter", "an illegal argument of %zu bytes was accepted", b2.size());
  }
  if (kind == 3) { // one value used again and again
    void *e = api->NewValue(a), *f = api->NewValue(a);
    api->SetArray(f);
    for (size_t i = 0; i < n; i++) {
      W(W_SETLOOP, ok = api->SetStr(e, "abc") && api->SetInt(e, (int)i) && api->SetDouble(e, 0.25) && api->SetKey(e, "k") && api->Set(e, f) && api->GetKey(e) && api->Stringify(e));
      if (!ok) fail(c, "model", "a call failed");
      W(W_PARSELOOP, ok = api->Parse(e, "{\"a\":[1,2,\"x\"]}") && api->ParseFast(e, "[true]") && api->SizeOf(e) == 1);
      if (!ok) fail(c, "model", "a parse failed");
      W(W_REFUSEDLOOP, ok = api->Parse(e, "{\"a\":[1,2,\"x\"]") || api->SetStr(e, "\x01") || api->SetNumStr(e, "1.") || api->ArrayDel(e, 5) || api->ObjAdd(e, f));
      if (ok) fail(c, "model", "a call that must be refused succeeded");
    }
  }
  if (kind == 0) { // loops over single calls
    void *x = api->NewValue(a), *y = api->NewValue(a), *o = api->NewValue(a), *z = api->NewValue(a), *one = api->NewValue(a);
    api->SetArray(x); api->SetArray(y); api->SetObj(o); api->SetArray(z); api->SetInt(one, 1);
    for (size_t i = 0; i < n; i++) {
      void *e = api->NewValue(a);
      api->SetInt(e, (int)i);
      W(W_APPEND, ok = api->ArrayAddFast(x, e));
      if (!ok) fail(c, "model", "ArrayAddFast failed");
      W(W_APPENDCOPY, ok = api->ArrayAdd(y, one));
      if (!ok) fail(c, "model", "ArrayAdd failed");
      e = api->NewValue(a);
      api->SetKeyFast(e, "k");
      W(W_OAPPEND, ok = api->ObjAddFast(o, e));
      if (!ok) fail(c, "model", "ObjAddFast failed");
    }
    for (size_t i = 0; i < n; i++) {
      W(W_DELFIRST, ok = api->ArrayDel(x, 0));
      if (!ok) fail(c, "model", "ArrayDel failed");
      W(W_MOVEALL, void *f = api->Begin(y); ok = f && api->ArrayAddFast(z, f));
      if (!ok) fail(c, "model", "moving elements failed");
    }
    if (api->SizeOf(x) || api->SizeOf(y) || api->SizeOf(z) != n || api->SizeOf(o) != n) fail(c, "model", "wrong sizes after loops");
  }
  W(W_RELEASE, api->ReleaseAllocator(a));
#undef W
}
static void m_work(Ctx &c, uint64_t idx, uint64_t) {
  int kind = (int)(idx % WORK_KINDS);
  const int F = 16;
  size_t n = c.level > 1 ? 8000 : 2000;
  n += c.rng.below(200);
  uint64_t a[W_MAX], b[W_MAX];
  bool track = g_vf.track;
  g_vf.track = false;
  crumb(c, "work", std::to_string(kind) + " n=" + std::to_string(n));
  workRun(c, kind, n, a);
  workRun(c, kind, n * F, b);
  g_vf.track = track;
  if (!a[W_PARSE] || !a[W_STRINGIFY]) harness_error("the work monitor saw nothing");
  for (int i = 0; i < W_MAX; i++) {
    c.cnt[N_OPS] += 2;
    if (b[i] > (uint64_t)F * 5 / 2 * a[i] + 20000) // linear: about F; quadratic: about F*F
      fail(c, "resource", "%s on documents of kind %d: %llu steps for size %zu but %llu for size %zu (more than linear)", W_NAME[i], kind, (unsigned long long)a[i], n, (unsigned long long)b[i], n * F);
  }
  if (c.log) for (int i = 0; i < W_MAX; i++) fprintf(c.log, "%s %llu %llu\n", W_NAME[i], (unsigned long long)a[i], (unsigned long long)b[i]);
  seen(c, std::to_string(kind) + ":" + std::to_string(n));
  if (c.samples.size() < 2) sample(c, "work kind " + std::to_string(kind) + " n=" + std::to_string(n) + ": ParseFast " + std::to_string(a[W_PARSE]) + " -> " + std::to_string(b[W_PARSE]) + " steps at 16n, Stringify " + std::to_string(a[W_STRINGIFY]) + " -> " + std::to_string(b[W_STRINGIFY]));
}

// ---- C19: memory and blocks held, at a size and at four and sixteen times that size
static const int MEM_KINDS = WORK_KINDS + 8;
static void memRun(Ctx &c, int kind, size_t n, bool fast, size_t &bytes, size_t &blocks) {
  const zapi *api = c.api;
  size_t b0 = g_vf.liveBytes, l0 = g_vf.live;
  g_vf.maxBytes = b0;
  g_vf.maxLive = l0;
  g_vf.owner = ++Session::ownerSeq();
  void *a = api->NewAllocator(), *v = api->NewValue(a);
  bool ok = true;
  if (kind < WORK_KINDS) {
    string t = workText(kind, n);
    ok = fast ? api->ParseFast(v, t.c_str()) : api->Parse(v, t.c_str());
    void *k = api->Copy(v);
    const char *s = api->Stringify(v);
    ok = ok && k && s;
    if (kind == 2) { string bad = t; bad.back() = 'x'; void *w = api->NewValue(a); if (api->ParseFast(w, bad.c_str())) fail(c, "accept", "invalid text accepted"); }
  } else {
    void *arr = api->NewValue(a);
    string txt(40, 'y'), raw = "[\"" + txt + "\",12.5,true,{\"k\":null}]";
    api->SetArray(arr);
    api->SetStrFast(v, "v");
    for (size_t i = 0; i < n && ok; i++) {
      void *e;
      size_t l;
      switch (kind - WORK_KINDS) {
      case 0: e = api->NewValue(a); api->SetLongLong(e, (long long)i); ok = api->ArrayAddFast(arr, e); break;
      case 1: ok = api->SetStr(v, txt.c_str()) && api->GetStr(v); break;              // one value set and read again and again
      case 2: ok = api->SetStrEscape(v, "a\nb\x01") && api->GetUnEscapeStr(v); break;
      case 3: ok = api->SetDouble(v, (double)i * 0.37) && api->GetDouble(v) && api->GetNumStr(v); break;
      case 4: ok = api->Parse(v, raw.c_str()) && api->Stringify(v); break;
      case 5: ok = !api->ParseFast(v, "[1,2,[3,\"abc\"") && !api->SetStr(v, "\x01") && !api->SetNumStr(v, "1."); break; // refused calls
      case 6: ok = api->ArrayAdd(arr, v) && api->ArrayDel(arr, 0); break;             // added and deleted
      default: e = api->Copy(v); ok = e && api->SetKey(e, "k") && api->GetKey(e) && api->GetStrFast(e, &l); break;
      }
    }
  }
  if (!ok) fail(c, "model", "a call failed at size %zu of kind %d", n, kind);
  bytes = g_vf.maxBytes - b0;
  blocks = g_vf.maxLive - l0;
  api->ReleaseAllocator(a);
  if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
  if (g_vf.live != l0) fail(c, "balance", "%zu blocks not freed", g_vf.live - l0);
}
static void m_memory(Ctx &c, uint64_t idx, uint64_t) {
  int kind = (int)(idx % MEM_KINDS);
  size_t n = (c.level > 1 ? 60000 : 20000) + c.rng.below(30000), by[3], bl[3];
  if (!g_vf.track) harness_error("the memory monitor needs tracking");
  crumb(c, "memory", std::to_string(kind) + " n=" + std::to_string(n));
  if (kind == 1 || kind == 8 || kind == 11 || kind == 18 || kind == 19) n /= 4;
  const int S = 3;
  for (int i = 0; i < S; i++) memRun(c, kind, n << (2 * i), (idx / MEM_KINDS) & 1, by[i], bl[i]);
  for (int i = 0; i < S; i++)
    for (int j = i + 1; j < S; j++) {
      size_t f = (size_t)1 << (2 * (j - i));
      if (by[j] > 4 * f * by[i] + 100000) // geometric growth of blocks: within a factor of about two of linear
        fail(c, "resource", "kind %d: %zu bytes held at size %zu but %zu at size %zu (more than linear)", kind, by[i], n << (2 * i), by[j], n << (2 * j));
      if (bl[j] > bl[i] + (size_t)(5 * (j - i)) + 6) // a factor of four is two doublings
        fail(c, "resource", "kind %d: %zu system blocks held at size %zu but %zu at size %zu (more than logarithmic)", kind, bl[i], n << (2 * i), bl[j], n << (2 * j));
      c.cnt[N_OPS]++;
    }
  if (c.log) fprintf(c.log, "kind %d n %zu bytes %zu %zu %zu blocks %zu %zu %zu\n", kind, n, by[0], by[1], by[2], bl[0], bl[1], bl[2]);
  seen(c, std::to_string(kind) + ":" + std::to_string(n));
  if (c.samples.size() < 2) sample(c, "memory kind " + std::to_string(kind) + " n=" + std::to_string(n) + ": " + std::to_string(by[0]) + " bytes in " + std::to_string(bl[0]) + " blocks -> " + std::to_string(by[2]) + " in " + std::to_string(bl[2]) + " at 16n");
}
// ---- sizes far beyond the other modes: texts, tokens, counts around 2^20 ... 2^24
static void m_huge(Ctx &c, uint64_t idx, uint64_t) {
  const zapi *api = c.api;
  vector<int> kinds;
  for (const char *k = c.kinds; *k; k++) kinds.push_back(*k - 'a');
  if (kinds.empty()) for (int k = 0; k < 12; k++) kinds.push_back(k);
  int kind = kinds[idx % kinds.size()], step = (int)(idx / kinds.size()) % 6;
  static const size_t len6[] = {(1u << 24) + 1, (1u << 20) + 1, (1u << 24) - 1, (1u << 22) - 1, 1u << 24, (1u << 23) + 1}, cnt6[] = {(1u << 20) + 1, (1u << 18) + 1, (1u << 20) - 1, (1u << 19) - 1, 1u << 20, (1u << 21) + 1};
  size_t n = kind >= 8 ? cnt6[step] : len6[step];
  if (c.level > 1 && kind >= 8 && step == 5) n = (1u << 22) + 1;
  if (c.sh && c.level < 1) n /= 16; // slow builds
  crumb(c, "huge", std::to_string(kind) + ":" + std::to_string(n));
  auto bad = [&](const char *what) { fail(c, "model", "%s is wrong at size %zu (kind %d)", what, n, kind); };
  auto eq = [&](const char *got, const string &want, const char *what) { if (!got || want.size() != strlen(got) || memcmp(got, want.data(), want.size())) bad(what); };
  auto eqn = [&](const char *got, size_t len, const string &want, const char *what) { if (!got || want.size() != len || memcmp(got, want.data(), len)) bad(what); };
  Light L(c);
  string big(n, 'q');
  if (kind < 8) for (size_t i = 0; i < n; i += 61) big[i] = (char)c.rng.range('A', 'Z');
  void *v = L.val();
  if (c.verdictOnly) { // acceptance alone
    auto verdict = [&](const string &t, bool want) { checkVerdict(c, L, t, want, false); };
    string w(n, "\t \n\r"[c.rng.below(4)]), d(n, (char)('1' + c.rng.below(9)));
    switch (kind) {
    case 0: { string t = "[1,\"" + big + "\",\"end\"]"; verdict(t, true); t[t.size() - 9] = '\x1f'; verdict(t, false); t[t.size() - 9] = '\\'; verdict(t, false); break; }
    case 2: { string t = "{\"" + big + "\":1}"; verdict(t, true); t[t.size() - 4] = '\n'; verdict(t, false); break; }
    case 3: verdict(w + "[1," + w + "2" + w + "]" + w, true); verdict(w + "[1," + w + "]", false); verdict(w, false); verdict("1" + w + "1", false); break;
    case 4: verdict("[" + d + "." + d + "e" + d + "]", true); verdict("[" + d + ".]", false); verdict("0" + d, false); verdict("-" + d + "e", false); verdict(d + " ", true); break;
    default: { string t = "["; t.reserve(n * 3); for (size_t i = 0; i < n; i++) t += i ? ",[]" : "[]"; verdict(t + "]", true); verdict(t, false); verdict(t + ",]", false); verdict(t + "}", false); break; }
    }
    c.cnt[N_OPS]++;
    seen(c, std::to_string(kind) + ":" + std::to_string(n));
    return;
  }
  auto parse = [&](void *x, const string &t) {
    c.cnt[N_TEXTS]++;
    int how = (int)c.rng.below(3);
    Buf *f = how == 2 ? L.bufs.make(t, true, true) : nullptr;
    if (f) L.bufs.hold(f);
    bool ok = how == 0 ? api->Parse(x, t.c_str()) : how == 1 ? api->ParseLen(x, t.data(), t.size()) : api->ParseFast(x, f->p);
    c.cnt[ok ? N_ACCEPT : N_REJECT]++;
    return ok;
  };
  size_t len = 0;
  switch (kind) {
  case 0: case 1: { // one string
    string raw = kind ? "\\n" + big + "\\u00e9" : big, dec = kind ? "\n" + big + "\xc3\xa9" : big, t = "[1,\"" + raw + "\",\"end\"]";
    if (!parse(v, t)) bad("the verdict");
    void *x = api->ArrayGet(v, 1);
    const char *f = x ? api->GetStrFast(x, &len) : nullptr;
    eqn(f, len, raw, "GetStrFast");
    eq(api->GetStr(x), raw, "GetStr");
    eq(api->GetUnEscapeStr(x), dec, "GetUnEscapeStr");
    void *y = api->ArrayGet(v, 2);
    eq(y ? api->GetStr(y) : nullptr, "end", "the value behind the string");
    eq(api->Stringify(v), t, "Stringify");
    eq(api->Stringify(x), "\"" + raw + "\"", "Stringify of the string");
    string wrong = t;
    wrong[t.size() - 9] = '\x01';
    if (parse(v, wrong)) bad("the verdict on an illegal text");
    eq(api->Stringify(v), t, "Stringify after the refusal");
    break;
  }
  case 2: { // one key
    string t = "{\"a\":1,\"" + big + "\":{\"" + big.substr(1) + "\":2},\"z\":3}";
    if (!parse(v, t)) bad("the verdict");
    void *x = api->ObjGetLen(v, big.data(), n), *y = api->ObjGet(v, big.c_str());
    if (!x || !y) bad("the lookup");
    const char *f = api->GetKeyFast(x, &len);
    eqn(f, len, big, "GetKeyFast");
    eq(api->GetKey(y), big, "GetKey");
    eq(api->GetUnEscapeKey(y), big, "GetUnEscapeKey");
    if (api->ObjGetLen(v, big.data(), n - 1) || api->ObjGet(x, big.c_str()) || !api->ObjGet(x, big.c_str() + 1)) bad("a lookup of a part");
    eq(api->Stringify(v), t, "Stringify");
    if (c.ro) break;
    void *k = api->Copy(v);
    if (!k || !api->ObjDel(v, big.c_str())) bad("the deletion");
    eq(api->Stringify(v), "{\"a\":1,\"z\":3}", "Stringify after the deletion");
    eq(api->Stringify(k), t, "Stringify of the copy");
    break;
  }
  case 3: { // white space
    string w(n, ' ');
    for (size_t i = 0; i < n; i += 3) w[i] = " \t\n\r"[c.rng.below(4)];
    if (!parse(v, w + "[1," + w.substr(n / 2) + "{\"k\"" + w.substr(n / 3) + ":2}]" + w)) bad("the verdict");
    eq(api->Stringify(v), "[1,{\"k\":2}]", "Stringify");
    if (parse(v, w + "[1," + w + "]") || parse(v, w) || parse(v, "[1]" + w + "]")) bad("the verdict on an illegal text");
    eq(api->Stringify(v), "[1,{\"k\":2}]", "Stringify after the refusals");
    break;
  }
  case 4: { // one number text
    string d = big;
    for (size_t i = 0; i < n; i++) d[i] = (char)('0' + (i * 7 + 3) % 10);
    string t = "[0," + d + "." + d.substr(n / 2) + ",7]";
    if (!parse(v, t)) bad("the verdict");
    void *x = api->ArrayGet(v, 1);
    const char *f = x ? api->GetNumFast(x, &len) : nullptr;
    eqn(f, len, t.substr(3, t.size() - 6), "GetNumFast");
    eq(api->GetNumStr(x), t.substr(3, t.size() - 6), "GetNumStr");
    eq(api->Stringify(v), t, "Stringify");
    if (parse(v, "[" + d + ".]") || parse(v, "[0" + d + "]") || parse(v, d + "x")) bad("the verdict on an illegal text");
    if (!c.ro) {
      void *w = L.val();
      if (!api->SetNumStr(w, d.c_str()) || api->SetNumStrLen(w, (d + "+").data(), n + 1) || !api->SetNumStrLen(w, d.data(), n - 1)) bad("the verdict of a setter");
      eq(api->Stringify(w), d.substr(0, n - 1), "Stringify of a set number");
    }
    break;
  }
  case 5: { // setters
    if (c.ro) break;
    void *w = L.val();
    if (!api->SetStrLen(v, big.data(), n) || !api->SetStr(w, big.c_str()) || !api->SetKey(w, big.c_str())) bad("the verdict of a setter");
    eq(api->Stringify(v), "\"" + big + "\"", "Stringify of a set string");
    string no = big;
    no[n - 1] = '"';
    if (api->SetStrLen(v, no.data(), n) || api->SetKeyLen(v, no.data(), n) || api->SetStr(w, no.c_str())) bad("the refusal of a setter");
    if (!api->SetStrLen(v, no.data(), n - 1)) bad("the verdict of a setter");
    eq(api->GetStr(v), big.substr(0, n - 1), "GetStr");
    eq(api->GetKey(w), big, "GetKey");
    void *o = L.val();
    api->SetObj(o);
    if (!api->ObjAdd(o, w) || api->SizeOf(o) != 1) bad("ObjAdd");
    eq(api->Stringify(o), "{\"" + big + "\":\"" + big + "\"}", "Stringify of the object");
    break;
  }
  case 6: { // escaping setters: every byte grows to two or six
    if (c.ro || !api->SetStrEscape) break;
    string raw, want;
    for (size_t i = 0; i < n / 4; i++) { static const char *e[][2] = {{"\n", "\\n"}, {"\"", "\\\""}, {"x", "x"}, {"\\", "\\\\"}}; int q = (int)((uint32_t)i * 2654435761u >> 30); raw += e[q][0]; want += e[q][1]; }
    if (!api->SetStrEscape(v, raw.c_str())) bad("the verdict of a setter");
    eq(api->GetUnEscapeStr(v), raw, "GetUnEscapeStr");
    if (api->SetStrLenEscape && !api->SetStrLenEscape(v, raw.data(), raw.size() - 1)) bad("the verdict of a setter");
    eq(api->GetUnEscapeStr(v), raw.substr(0, raw.size() - 1), "GetUnEscapeStr");
    if (!api->SetKeyEscape(v, raw.c_str())) bad("the verdict of a setter");
    eq(api->GetUnEscapeKey(v), raw, "GetUnEscapeKey");
    break;
  }
  case 7: { // copies between allocators
    if (c.ro) break;
    string t = "{\"k\":[\"" + big + "\"," + string(1000, '7') + "],\"" + big.substr(2) + "\":null}";
    if (!parse(v, t)) bad("the verdict");
    if (g_vf.track) g_vf.owner = ++Session::ownerSeq();
    unsigned long long second = g_vf.owner;
    void *a2 = api->NewAllocator(), *w = api->NewValue(a2), *x = api->NewValue(a2);
    if (!api->Set(w, v)) bad("Set");
    api->SetArray(x);
    if (!api->ArrayAdd(x, v) || !api->ArrayAdd(x, w)) bad("ArrayAdd");
    g_vf.owner = second - 1;
    void *k = api->Copy(v);
    eq(k ? api->Stringify(k) : nullptr, t, "Stringify of a copy");
    g_vf.owner = second;
    eq(api->Stringify(w), t, "Stringify of a copy in another allocator");
    eq(api->Stringify(x), "[" + t + "," + t + "]", "Stringify of copies in another allocator");
    api->ReleaseAllocator(a2);
    g_vf.owner = second - 1;
    eq(api->Stringify(v), t, "Stringify of the source");
    break;
  }
  default: { // many children: arrays (even), objects (odd); parsed (8, 9) and edited or copied (10, 11)
    bool arr = kind % 2 == 0;
    string t = arr ? "[" : "{";
    t.reserve(n * 14);
    char b[40];
    for (size_t i = 0; i < n; i++) t.append(b, (size_t)(arr ? snprintf(b, sizeof b, i ? ",%zu" : "%zu", i % 10) : snprintf(b, sizeof b, i ? ",\"%zx\":%zu" : "\"%zx\":%zu", i, i % 10)));
    t += arr ? ']' : '}';
    if (!parse(v, t)) bad("the verdict");
    if (api->SizeOf(v) != n) bad("the size");
    if (kind < 10) {
      eq(api->Stringify(v), t, "Stringify");
      for (size_t i : {n - 1, n - 2, n / 2, (size_t)0, n}) {
        snprintf(b, sizeof b, "%zx", i);
        void *x = arr ? api->ArrayGet(v, i) : api->ObjGet(v, b);
        if ((x != nullptr) != (i < n)) bad("access to a child");
        if (!x) continue;
        eq(api->GetNumStr(x), std::to_string(i % 10), "a child");
        if ((api->Next(x) != nullptr) != (i + 1 < n)) bad("Next");
      }
      if (parse(v, t.substr(0, t.size() - 1)) || parse(v, t.substr(0, t.size() - 1) + ",]")) bad("the verdict on an illegal text");
      if (api->SizeOf(v) != n) bad("the size after a refusal");
      break;
    }
    if (c.ro) break;
    void *w = L.val(), *k = api->Copy(v);
    if (!k || api->SizeOf(k) != n) bad("the copy");
    string last = t.substr(0, t.size() - 1), e = arr ? ",null]" : ",\"new\":null}";
    api->SetNull(w);
    if (!arr && !api->SetKey(w, "new")) bad("SetKey");
    if (!(arr ? api->ArrayAdd(v, w) : api->ObjAdd(v, w)) || api->SizeOf(v) != n + 1) bad("adding");
    snprintf(b, sizeof b, "%zx", n - 1);
    if (!(arr ? api->ArrayDel(k, n - 1) : api->ObjDel(k, b)) || api->SizeOf(k) != n - 1) bad("deleting the last");
    if (!(arr ? api->ArrayAddFast(k, w) : api->ObjAddFast(k, w)) || api->SizeOf(k) != n) bad("adding");
    eq(api->Stringify(v), last + e, "Stringify after adding");
    eq(api->Stringify(k), last.substr(0, last.rfind(',')) + e, "Stringify of the edited copy");
    break;
  }
  }
  c.cnt[N_OPS] += 10;
  seen(c, std::to_string(kind) + ":" + std::to_string(n));
}
// ---- C08: large containers edited at random places
static void m_bigedit(Ctx &c, uint64_t idx, uint64_t) {
  static const Profile P = {"bigedit", {0}, 1, 0, 0, 0};
  Session s(c, &P);
  s.nodeCap = 1u << 23;
  s.pool.clear();
  static const int sizes[] = {60, 255, 256, 257, 1000, 1023, 1025, 3000, 4096, 9000, 33000, 65534, 65535, 65536, 65537, 70000};
  int n = sizes[idx % (c.level > 1 ? 16 : idx % 7 == 0 ? 16 : 10)] + c.rng.range(-2, 2);
  bool arr = c.rng.chance(1, 2);
  s.newVal(0);
  string t = arr ? "[" : "{";
  for (int i = 0; i < n; i++) { if (i) t += ','; if (!arr) t += "\"k" + std::to_string(c.rng.chance(1, 20) ? c.rng.range(0, n) : i) + "\":"; switch (c.rng.below(12)) { case 0: t += "[1,2]"; break; case 1: t += "{\"q\":\"r\"}"; break; case 2: t += "\"s\""; break; default: t += std::to_string(i); } }
  t += arr ? "]" : "}";
  crumb(c, "bigedit", std::to_string(n));
  s.doParse(s.pool[0], t);
  s.newVal(0);
  s.doParse(s.pool[1], arr ? "[0,1]" : "{\"z\":1}");
  int ops = c.rng.range(10, 40);
  for (int k = 0; k < ops; k++) {
    s.pool.resize(2);
    int side = c.rng.chance(1, 4) ? 1 : 0;
    MNode *R = s.pool[(size_t)side].n;
    if (!R || R->kids.empty()) { side = 0; R = s.pool[0].n; }
    if (!R || R->kids.empty()) break;
    size_t m = R->kids.size(), i;
    switch (c.rng.below(6)) {
    case 0: i = 0; break;
    case 1: i = m - 1; break;
    case 2: i = m > 1 ? m - 2 : 0; break;
    case 3: i = m / 2; break;
    case 4: { i = 1; while (i * 2 < m && c.rng.chance(6, 7)) i *= 2; i = i + c.rng.below(3) - 1; if (i >= m) i = m - 1; break; }
    default: i = c.rng.below((uint32_t)m);
    }
    void *x = nullptr;
    if (R->type == T_ARRAY) {
      if (c.rng.chance(1, 2)) x = c.api->ArrayGet(s.pool[(size_t)side].h, i);
      else { x = c.api->Begin(s.pool[(size_t)side].h); for (size_t j = 0; j < i && x; j++) x = c.api->Next(x); }
      if (c.api->ArrayGet(s.pool[(size_t)side].h, m)) fail(c, "model", "ArrayGet at the size of an array of %zu yields a value", m);
    } else {
      string key = R->kids[i]->key;
      for (i = 0; R->kids[i]->key != key; i++) {}
      x = c.api->ObjGet(s.pool[(size_t)side].h, key.c_str());
    }
    if (!x) fail(c, "model", "child %zu of %zu not found", i, m);
    s.pool.push_back(Handle{x, R->kids[i], 0, false});
    Handle &h = s.pool[2];
    Handle &dst = s.pool[c.rng.below(2)];
    bool sameKind = dst.n && (dst.n->type == T_ARRAY) == arr;
    switch (c.rng.below(9)) {
    case 0: s.doMove(h); break;
    case 1: if (sameKind) s.doAdd(dst, h, arr, true); break;
    case 2: if (sameKind) s.doAdd(dst, h, arr, false); break;
    case 3: s.doSetStr(h, s.g.strBody()); break;
    case 4: s.doParse(h, s.g.doc(6, 3)); break;
    case 5: { // delete by position or key
      bool ok;
      MNode *m2 = h.n;
      s.own(0);
      if (R->type == T_ARRAY) ok = c.api->ArrayDel(s.pool[(size_t)side].h, i); else ok = c.api->ObjDel(s.pool[(size_t)side].h, m2->key.c_str());
      s.result("Del", ok, true);
      Session::detach(m2);
      s.after(true, R, m2);
      break;
    }
    case 6: { s.newVal(0); s.doSetKey(s.pool.back(), "new"); s.doSetNumV(s.pool.back()); s.doSetFast(s.pool[2], s.pool.back()); break; }
    case 7: s.doSet(h, s.pool[1]); break;
    default: { s.newVal(0); s.doSetKey(s.pool.back(), "app"); s.doAdd(s.pool[0], s.pool.back(), arr, c.rng.chance(1, 2)); }
    }
    s.pool.resize(2);
    for (int q = 0; q < 2; q++) if (s.pool[(size_t)q].n && c.api->SizeOf(s.pool[(size_t)q].h) != s.pool[(size_t)q].n->kids.size()) fail(c, "model", "SizeOf gives %zu instead of %zu", (size_t)c.api->SizeOf(s.pool[(size_t)q].h), s.pool[(size_t)q].n->kids.size());
    if (n < 1100 || k == ops - 1) { s.checkText(s.pool[0].h, s.pool[0].n, 0); s.auditH(s.pool[1], false); }
    c.cnt[N_OPS]++;
  }
  s.auditAll(true);
  seen(c, r_ser(s.pool[0].n));
  s.finish();
}
struct Mode { const char *name; CaseFn fn; };
static const Mode MODES[] = {
  {"verdict", m_verdict}, {"enum_struct", m_enum_struct}, {"enum_obj", m_enum_obj}, {"enum_num", m_enum_num}, {"enum_num2", m_enum_num2}, {"enum_str", m_enum_str}, {"enum_chars", m_enum_chars}, {"sweep_bytes", m_sweep_bytes}, {"sweep_units", m_sweep_units}, {"corpus", m_corpus}, {"longverdict", m_longverdict}, {"deepverdict", m_deepverdict},
  {"roundtrip", m_roundtrip}, {"rt_corpus", m_rt_corpus}, {"rt_sweep", m_rt_sweep}, {"read", m_read}, {"esc", m_esc}, {"esc_units", m_esc_units}, {"esc_pairs", m_esc_pairs}, {"esc_bytes", m_esc_bytes},
  {"num", m_num}, {"numset", m_numset}, {"setter", m_setter}, {"setter_sweep", m_setter_sweep}, {"edit", m_edit}, {"edit2", m_edit2}, {"fail", m_fail}, {"copy", m_copy}, {"buf", m_buf}, {"alloc", m_alloc}, {"stable", m_stable},
  {"enum_edit", m_enum_edit}, {"parsefail", m_parsefail}, {"copyiso", m_copyiso}, {"bounds", m_bounds}, {"ladder", m_ladder}, {"keys", m_keys}, {"copies", m_copies}, {"threads", m_threads}, {"deep", m_deep}, {"work", m_work}, {"memory", m_memory}, {"bigedit", m_bigedit}, {"consts", m_consts}, {"dict", m_dict}, {"grow", m_grow}, {"bigidx", m_bigidx}, {"huge", m_huge}, {"fastcopy", m_fastcopy}, {"probe", m_probe}};

static void onProf(int) {
  static const char m[] = "FAIL kind=hang :: a case exceeded its CPU budget (no progress)\n";
  ssize_t w = write(g_failfd, m, sizeof m - 1);
  w = write(2, m, sizeof m - 1);
  (void)w;
  _exit(11);
}

int main(int argc, char **argv) {
  const char *mode = "", *out = nullptr, *shared = nullptr, *hashes = nullptr, *trf = nullptr, *log = nullptr;
  uint64_t seed = 1, cases = 1, from = 0, to = ~0ull, stride = 1, offset = 0;
  int cpu = 60, track = 1;
  bool edits = false;
  Ctx c;
  for (int i = 1; i + 1 < argc; i += 2) {
    string k = argv[i];
    const char *v = argv[i + 1];
    if (k == "--mode") mode = v;
    else if (k == "--seed") seed = strtoull(v, nullptr, 10);
    else if (k == "--cases") cases = strtoull(v, nullptr, 10);
    else if (k == "--from") from = strtoull(v, nullptr, 10);
    else if (k == "--to") to = strtoull(v, nullptr, 10);
    else if (k == "--stride") stride = strtoull(v, nullptr, 10);
    else if (k == "--offset") offset = strtoull(v, nullptr, 10);
    else if (k == "--out") out = v;
    else if (k == "--shared") shared = v;
    else if (k == "--hashes") hashes = v;
    else if (k == "--tr") trf = v;
    else if (k == "--log") log = v;
    else if (k == "--corpus") g_corpus = v;
    else if (k == "--level") c.level = atoi(v);
    else if (k == "--track") track = atoi(v);
    else if (k == "--fill") g_vf.fill = atoi(v);
    else if (k == "--cpu") cpu = atoi(v);
    else if (k == "--ops") g_ops = atoi(v);
    else if (k == "--dict") loadDict(v);
    else if (k == "--kinds") { c.kinds = v; if (*v == 'V') { c.verdictOnly = true; c.kinds = v + 1; } }
    else if (k == "--edits") edits = atoi(v) != 0;
    else if (k == "--keep") g_keep = atoi(v) != 0;
    else harness_error("bad option");
  }
  c.api = zapi_get();
  c.beta = !strcmp(c.api->name, "beta");
  c.ro = c.beta && !edits;
  c.mode = mode;
#ifndef VF_TSAN
  g_vf.track = track != 0;
#else
  (void)track;
#endif
  if (log && !(c.log = fopen(log, "w"))) harness_error("log");
  if (out) {
    g_failfd = open(out, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (g_failfd < 0) harness_error("out");
  }
  if (shared) {
    int fd = open(shared, O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) harness_error("shared");
    c.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (c.sh == MAP_FAILED) harness_error("shared map");
    close(fd);
    strncpy(c.sh->mode, mode, sizeof c.sh->mode - 1);
  }
  FILE *tf = trf ? fopen(trf, "w") : nullptr;
  CaseFn fn = nullptr;
  for (auto &m : MODES) if (!strcmp(m.name, mode)) fn = m.fn;
  if (!fn) harness_error("unknown mode");
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onProf;
  sigaction(SIGPROF, &sa, nullptr);
  uint64_t mh = fnv(FNV0, mode, strlen(mode));
  for (uint64_t k = offset; k < cases; k += stride) {
    if (k < from || k > to) continue;
    struct itimerval it = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    c.caseNo = k;
    c.opNo = 0;
    c.trail.clear();
    c.th = FNV0;
    c.phase = "model";
    c.rng = Rng(mix64(mix64(seed, mh), k));
    c.brng = Rng(mix64(mix64(seed, mh), k) ^ 0x5555);
    if (c.sh) c.sh->caseNo = (int64_t)k;
    if (c.log) fprintf(c.log, "=== case %llu\n", (unsigned long long)k);
    fn(c, k, cases);
    c.cnt[N_CASES]++;
    if (c.api->Counters && !g_vf.hooks) {
      unsigned long long n[3], m = c.api->size_max;
      c.api->Counters(n);
      if (n[0] != (g_vf.cBytes & m) || n[1] != (g_vf.cAlloc & m) || n[2] != (g_vf.cFree & m))
        fail(c, "balance", "the library counted %llu bytes, %llu blocks, %llu freed; %llu, %llu, %llu were", n[0], n[1], n[2], (unsigned long long)g_vf.cBytes, (unsigned long long)g_vf.cAlloc, (unsigned long long)g_vf.cFree);
    }
    if (g_vf.error) fail(c, "balance", "%s", g_vf.error);
    if (tf) fprintf(tf, "%llu %016llx\n", (unsigned long long)k, (unsigned long long)c.th);
#ifdef VF_ASAN
    if (track && c.cnt[N_CASES] % 64 == 0 && __lsan_do_recoverable_leak_check()) fail(c, "balance", "LeakSanitizer reports a leak");
#endif
  }
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &off, nullptr);
#ifdef VF_ASAN
  if (track && __lsan_do_recoverable_leak_check()) fail(c, "balance", "LeakSanitizer reports a leak");
#endif
  if (tf) fclose(tf);
  c.cnt[N_SYSALLOC] = g_vf.nalloc;
  c.cnt[N_SYSFREE] = g_vf.nfree;
  c.cnt[N_ARENA] = g_vf.narena;
  std::sort(c.distinct.begin(), c.distinct.end());
  c.distinct.erase(std::unique(c.distinct.begin(), c.distinct.end()), c.distinct.end());
  if (hashes) {
    FILE *f = fopen(hashes, "wb");
    if (!f) harness_error("hashes");
    if (!c.distinct.empty()) fwrite(c.distinct.data(), 8, c.distinct.size(), f);
    fclose(f);
  }
  string o = "DONE";
  for (int i = 0; i < N_MAX; i++) if (c.cnt[i]) o += string(" ") + CNT_NAME[i] + "=" + std::to_string(c.cnt[i]);
  o += "\n";
  for (auto &s : c.samples) o += "SAMPLE " + s + "\n";
  ssize_t w = write(g_failfd, o.data(), o.size());
  if (w != (ssize_t)o.size()) harness_error("write");
  if (c.log) fclose(c.log);
  return 0;
}
