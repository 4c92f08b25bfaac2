// A session drives the real library through a history of public API calls while an
// abstract ordered-tree model is kept next to it; audits compare every observable.
#ifndef SESSION_H
#define SESSION_H
#include "core.h"

extern bool g_keep;
struct Handle { void *h; MNode *n; int a; bool dead; };
struct Kept { const void *p; string content; uint64_t deps; };

enum Op { oNewVal, oParse, oParseBad, oSetNullBool, oSetNumV, oSetNumTxt, oSetStr, oSetStrEsc, oSetKey, oSetKeyEsc, oSetArr, oSetObj, oSet, oSetFast,
  oArrAdd, oArrAddFast, oObjAdd, oObjAddFast, oArrDel, oObjDel, oMove, oCopy, oNav, oRead, oNewAlloc, oRelAlloc, oAuditAll, oMax };

struct Profile {
  const char *name;
  int w[oMax];
  int allocs;     // allocators at start
  int keep;       // of 8: retain results
  int failBias;   // of 8: choose operands that must be refused
  int bigDocs;    // of 64
};
//                          NewV Par Bad NB NumV NumT Str StrE Key KeyE Arr Obj Set SetF AA AAF OA OAF AD OD Mv Cp Nav Rd NA RA Aud
static const Profile P_EDIT = {"edit", {4, 4, 1, 2, 2, 2, 3, 1, 5, 1, 2, 2, 6, 6, 8, 10, 8, 10, 8, 8, 8, 5, 22, 4, 0, 0, 1}, 1, 1, 1, 1};
static const Profile P_EDIT2 = {"edit2", {4, 4, 1, 2, 2, 2, 3, 1, 5, 1, 2, 2, 6, 6, 8, 10, 8, 10, 8, 8, 8, 5, 22, 4, 1, 0, 1}, 2, 1, 1, 1};
static const Profile P_FAIL = {"fail", {3, 4, 20, 1, 3, 5, 6, 1, 8, 1, 2, 2, 5, 5, 6, 7, 6, 7, 6, 6, 4, 3, 12, 3, 0, 0, 1}, 1, 1, 5, 1};
static const Profile P_COPY = {"copy", {3, 6, 1, 1, 1, 1, 2, 1, 3, 1, 1, 1, 14, 5, 14, 5, 14, 5, 6, 6, 5, 14, 20, 2, 2, 2, 1}, 3, 1, 1, 1};
static const Profile P_BUF = {"buf", {4, 14, 6, 1, 1, 10, 12, 6, 12, 6, 1, 1, 3, 3, 4, 5, 4, 5, 3, 3, 2, 4, 10, 4, 0, 0, 1}, 1, 1, 2, 2};
static const Profile P_ALLOC = {"alloc", {5, 14, 3, 1, 2, 3, 5, 3, 3, 1, 1, 1, 5, 2, 5, 3, 5, 3, 3, 3, 2, 5, 8, 5, 10, 9, 0}, 3, 1, 1, 14};
static const Profile P_STABLE = {"stable", {3, 6, 6, 2, 4, 4, 5, 3, 4, 2, 1, 1, 4, 4, 5, 6, 5, 6, 5, 5, 4, 5, 12, 26, 1, 1, 1}, 1, 8, 2, 3};

struct Session {
  Ctx &c;
  const zapi *api;
  Rng &r;
  Gen g;
  Bufs bufs;
  MArena M;
  vector<void *> A;      // allocators (null once released)
  vector<int> aid;       // owner tag of each
  vector<Handle> pool;
  vector<Kept> kept;
  const Profile *pf;
  size_t nodeCap = 300;
  bool quiet = false; // no queries except those the mode asks for
  int force = 0;      // 1: texts by reference, 2: texts by copy
  static int &ownerSeq() { static thread_local int s = 0; return s; }

  Session(Ctx &x, const Profile *p) : c(x), api(x.api), r(x.rng), g(x.rng), bufs(x), pf(p) {
    for (int i = 0; i < p->allocs; i++) newAlloc();
    for (int i = 0; i < 2; i++) newVal((int)r.below((uint32_t)A.size()));
  }
  // ---------------------------------------------------------- helpers
  uint64_t bit(int a) { return 1ull << a; }
  void own(int a) { if (g_vf.track) g_vf.owner = a < 0 ? -1 : aid[(size_t)a]; }
  void vfcheck() {
    if (g_vf.track && g_vf.error) fail(c, "balance", "%s", g_vf.error);
  }
  uint64_t liveMask() { uint64_t m = 0; for (size_t i = 0; i < A.size(); i++) if (A[i]) m |= bit((int)i); return m; }
  bool ok(const Handle &h) { return !h.dead && A[(size_t)h.a] && !(h.n && h.n->dead); }
  static MNode *root(MNode *n) { while (n->parent) n = n->parent; return n; }
  static bool ancOrSelf(MNode *x, MNode *y) { for (; y; y = y->parent) if (x == y) return true; return false; }
  static void kill(MNode *n) { n->dead = true; for (MNode *k : n->kids) kill(k); }
  static void dropKids(MNode *n) { for (MNode *k : n->kids) { k->parent = nullptr; kill(k); } n->kids.clear(); }
  static void detach(MNode *n) {
    if (!n->parent) return;
    auto &v = n->parent->kids;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == n) { v.erase(v.begin() + (long)i); break; }
    n->parent = nullptr;
  }
  MNode *clone(const MNode *s, uint64_t deps) {
    MNode *n = M.make();
    n->type = s->type; n->hasKey = s->hasKey; n->key = s->key; n->text = s->text; n->deps = deps;
    for (MNode *k : s->kids) { MNode *m = clone(k, deps); m->parent = n; n->kids.push_back(m); }
    return n;
  }
  static void addDeps(MNode *n, uint64_t d) { n->deps |= d; for (MNode *k : n->kids) addDeps(k, d); }
  void keep(const void *p, size_t n, uint64_t deps) {
    if (g_keep && kept.size() < 3000 && n < 20000 && (int)r.below(8) < pf->keep) {
      kept.push_back(Kept{p, string((const char *)p, n), deps});
      c.cnt[N_KEPT]++;
    }
  }
  void keepStr(const char *p, int a) { keep(p, strlen(p) + 1, bit(a)); }
  void checkKept(const Kept &k) {
    c.cnt[N_KEPT_CHECKS]++;
    if (memcmp(k.p, k.content.data(), k.content.size()) != 0)
      fail(c, "stable", "a result returned earlier changed: was \"%s\" now \"%s\"", esc(k.content).c_str(), esc(string((const char *)k.p, k.content.size())).c_str());
  }
  void checkAllKept() { for (auto &k : kept) checkKept(k); }
  void put(Handle h) {
    if (pool.size() >= 40) {
      size_t i = r.below((uint32_t)pool.size());
      for (size_t k = 0; k < pool.size(); k++) if (!ok(pool[k])) { i = k; break; }
      pool[i] = h;
    } else pool.push_back(h);
  }
  int newAlloc() {
    if (A.size() >= 60) return -1;
    aid.push_back(++ownerSeq());
    A.push_back(nullptr);
    own((int)A.size() - 1);
    crumb(c, "NewAllocator");
    void *a = api->NewAllocator();
    vfcheck();
    if (!a) fail(c, "model", "NewAllocator returned NULL");
    A.back() = a;
    c.cnt[N_ALLOCATORS]++;
    return (int)A.size() - 1;
  }
  Handle newVal(int a) {
    own(a);
    crumb(c, "NewValue");
    void *h = nullptr;
    bool from = r.chance(1, 3);
    if (from && api->NewValueFrom)
      for (auto &x : pool) if (ok(x) && x.a == a) { h = api->NewValueFrom(x.h); break; }
    if (!h) h = api->NewValue(A[(size_t)a]);
    vfcheck();
    if (!h) fail(c, "model", "NewValue returned NULL");
    Handle x{h, nullptr, a, false};
    put(x);
    return x;
  }
  // ---------------------------------------------------------- audits
  [[noreturn]] void bad(const char *what, MNode *n, const string &got, const string &want) {
    string ctx = n ? r_ser(n) : string("(empty value)");
    fail(c, c.phase, "%s: got \"%s\" expected \"%s\" on value %s", what, esc(got).c_str(), esc(want).c_str(), esc(ctx, 300).c_str());
  }
  void expStr(const char *what, MNode *n, const char *got, bool present, const string &want, int a, bool cstr = true) {
    c.cnt[N_READS]++;
    if (!present) {
      if (got) bad(what, n, string("non-null:") + got, "(null)");
      return;
    }
    if (!got) bad(what, n, "(null)", want);
    // compare as a C string (the only thing the API promises)
    size_t wl = strlen(want.c_str());
    if (strncmp(got, want.c_str(), wl + 1) != 0) bad(what, n, string(got, strnlen(got, wl + 64)), want);
    if (cstr) keep(got, wl + 1, bit(a));
  }
  void expLen(const char *what, MNode *n, const char *got, size_t len, bool present, const string &want) {
    c.cnt[N_READS]++;
    if (!present) {
      if (got) bad(what, n, "non-null", "(null)");
      return;
    }
    if (!got) bad(what, n, "(null)", want);
    if (len != want.size()) { char b[64]; snprintf(b, sizeof b, "length %zu", len); bad(what, n, b, want); }
    if (len && memcmp(got, want.data(), len) != 0) bad(what, n, string(got, len), want);
    keep(got, len, n->deps);
  }
  template <class T> void expInt(const char *what, MNode *n, const T *p, T lo, T hi, int a) {
    c.cnt[N_READS]++;
    if (n == nullptr || n->type != T_NUMBER) {
      if (p) bad(what, n, "non-null", "(null)");
      return;
    }
    if (!p) bad(what, n, "(null)", n->text);
    keep(p, sizeof(T), bit(a));
    if (!r_intLiteral(n->text) || n->text.size() > 21) return;
    bool neg = n->text[0] == '-';
    __int128 v = 0;
    for (size_t i = neg ? 1 : 0; i < n->text.size(); i++) v = v * 10 + (n->text[i] - '0');
    if (neg) v = -v;
    if (v < (__int128)lo || v > (__int128)hi) return;
    if (*p != (T)v) { char b[64]; snprintf(b, sizeof b, "%lld", (long long)*p); bad(what, n, b, n->text); }
    c.cnt[N_NUMBERS]++;
  }
  bool intPartInRange(const string &t) { // integer part small enough for int
    size_t i = t[0] == '-' ? 1 : 0, k = i;
    while (k < t.size() && r_dig((unsigned char)t[k])) k++;
    return k - i <= 9;
  }
  void expDbl(const char *what, MNode *n, const double *p, int a) {
    c.cnt[N_READS]++;
    if (n == nullptr || n->type != T_NUMBER) {
      if (p) bad(what, n, "non-null", "(null)");
      return;
    }
    if (!p) bad(what, n, "(null)", n->text);
    double w = strtod(n->text.c_str(), nullptr);
    if (memcmp(&w, p, sizeof w) != 0) { char b[64]; snprintf(b, sizeof b, "%.17g", *p); bad(what, n, b, n->text); }
    keep(p, sizeof(double), bit(a));
    c.cnt[N_NUMBERS]++;
  }
  // all queries that concern the value itself
  void checkSelf(void *h, MNode *n, int a, bool numbers = true) {
    own(a);
    const void *raw = nullptr;
    int t = api->Type(h, &raw);
    c.cnt[N_READS]++;
    if (t != (n ? n->type : 0)) { char b[40]; snprintf(b, sizeof b, "%d", t); bad("Type", n, b, std::to_string(n ? n->type : 0)); }
    if (raw) keep(raw, 1, bit(a)); // (the type constants fit in the first byte)
    bool isS = n && n->type == T_STRING, isN = n && n->type == T_NUMBER, isB = n && n->type == T_BOOL, hasK = n && n->hasKey;
    size_t len = 0;
    const char *p = api->GetStrFast(h, &len);
    expLen("GetStrFast", n, p, len, isS, isS ? n->text : string());
    expStr("GetStr", n, api->GetStr(h), isS, isS ? n->text : string(), a);
    p = api->GetUnEscapeStr(h);
    expStr("GetUnEscapeStr", n, p, isS, isS ? r_decode(n->text) : string(), a);
    p = api->GetNumFast(h, &len);
    expLen("GetNumFast", n, p, len, isN, isN ? n->text : string());
    expStr("GetNumStr", n, api->GetNumStr(h), isN, isN ? n->text : string(), a);
    const bool *bp = api->GetBool(h);
    c.cnt[N_READS]++;
    if (isB) {
      if (!bp) bad("GetBool", n, "(null)", n->text);
      if (*bp != (n->text == "true")) bad("GetBool", n, *bp ? "true" : "false", n->text);
      keep(bp, sizeof(bool), bit(a));
    } else if (bp) bad("GetBool", n, "non-null", "(null)");
    c.cnt[N_READS]++;
    if (api->IsNull(h) != (n && n->type == T_NULL)) bad("IsNull", n, "wrong", "");
    p = api->GetKeyFast(h, &len);
    expLen("GetKeyFast", n, p, len, hasK, hasK ? n->key : string());
    expStr("GetKey", n, api->GetKey(h), hasK, hasK ? n->key : string(), a);
    expStr("GetUnEscapeKey", n, api->GetUnEscapeKey(h), hasK, hasK ? r_decode(n->key) : string(), a);
    size_t sz = api->SizeOf(h);
    c.cnt[N_READS]++;
    size_t wsz = n && (n->type == T_ARRAY || n->type == T_OBJECT) ? n->kids.size() : 0;
    if (sz != wsz) bad("SizeOf", n, std::to_string(sz), std::to_string(wsz));
    if (numbers || !isN) {
      expDbl("GetDouble", n, api->GetDouble(h), a);
      expDbl("GetNum", n, api->GetNum(h), a);
      if (!isN || r_intLiteral(n->text) || intPartInRange(n->text)) {
        bool small = !isN || n->text.size() <= 21 || intPartInRange(n->text);
        if (small && (!isN || intPartInRange(n->text) || n->text.size() <= 11)) expInt<int>("GetInt", n, fitsOr<int>(h, n), INT_MIN, INT_MAX, a);
        if (small && fitsLL(n)) {
          expInt<long>("GetLong", n, api->GetLong(h), LONG_MIN, LONG_MAX, a);
          expInt<long long>("GetLongLong", n, api->GetLongLong(h), LLONG_MIN, LLONG_MAX, a);
        }
      }
    }
    if (n == nullptr) {
      p = api->Stringify(h);
      if (p && *p) bad("Stringify of an empty value", n, p, "");
      if (api->Begin(h)) bad("Begin", n, "non-null", "(null)");
      if (api->Next(h)) bad("Next", n, "non-null", "(null)");
      if (api->ArrayGet(h, 0)) bad("ArrayGet", n, "non-null", "(null)");
      if (api->ObjGet(h, "a")) bad("ObjGet", n, "non-null", "(null)");
      if (api->ObjGetLen(h, "a", 1)) bad("ObjGetLen", n, "non-null", "(null)");
    }
    vfcheck();
  }
  // integer reads of values that do not fit are unspecified: do not even ask
  bool fitsLL(MNode *n) {
    if (!n || n->type != T_NUMBER) return true;
    if (!r_intLiteral(n->text)) return true;
    size_t d = n->text.size() - (n->text[0] == '-' ? 1 : 0);
    if (d > 19) return false;
    if (d < 19) return true;
    const char *lim = n->text[0] == '-' ? "9223372036854775808" : "9223372036854775807";
    return n->text.compare(n->text[0] == '-' ? 1 : 0, 19, lim) <= 0;
  }
  template <class T> const T *fitsOr(void *h, MNode *n) {
    if (n && n->type == T_NUMBER && r_intLiteral(n->text)) {
      size_t d = n->text.size() - (n->text[0] == '-' ? 1 : 0);
      long long v = d <= 18 ? atoll(n->text.c_str()) : LLONG_MAX;
      if (v > INT_MAX || v < INT_MIN) { static const int zero = 0; (void)h; return &zero; }
    }
    return api->GetInt(h);
  }
  void checkText(void *h, MNode *n, int a) {
    own(a);
    const char *p = api->Stringify(h);
    string want = r_ser(n);
    expStr("Stringify", n, p, true, want, a);
    tr(c, "=", want);
  }
  // the value and everything below it; `full` adds index/key probes
  void checkTree(void *h, MNode *n, int a, bool full, bool numbers = true) {
    c.cnt[N_NODES]++;
    checkSelf(h, n, a, numbers);
    if (!n) return;
    bool cont = n->type == T_ARRAY || n->type == T_OBJECT;
    void *k = api->Begin(h);
    if (!cont || n->kids.empty()) {
      if (k) bad("Begin of a childless value", n, "non-null", "(null)");
    } else {
      size_t i = 0;
      while (k) {
        if (i >= n->kids.size()) bad("iteration yields too many children", n, std::to_string(i + 1), std::to_string(n->kids.size()));
        checkTree(k, n->kids[i], a, full, numbers);
        i++;
        k = api->Next(k);
      }
      if (i != n->kids.size()) bad("iteration ends early", n, std::to_string(i), std::to_string(n->kids.size()));
    }
    size_t step = n->kids.size() > 24 ? n->kids.size() / 12 : 1;
    if (n->type == T_ARRAY) {
      for (size_t i = 0; i < n->kids.size(); i += full ? step : n->kids.size() / 2 + 1) {
        void *e = api->ArrayGet(h, i);
        if (!e) bad("ArrayGet in range", n, "(null)", std::to_string(i));
        same(e, n->kids, i, a, "ArrayGet");
      }
      if (full) {
        if (!n->kids.empty()) { size_t i = n->kids.size() - 1; void *e = api->ArrayGet(h, i); if (!e) bad("ArrayGet last", n, "(null)", std::to_string(i)); same(e, n->kids, i, a, "ArrayGet"); }
        if (api->ArrayGet(h, n->kids.size() + 1)) bad("ArrayGet past the end", n, "non-null", "(null)");
        if (api->ArrayGet(h, api->size_max)) bad("ArrayGet(max)", n, "non-null", "(null)");
        if (api->ObjGet(h, "a")) bad("ObjGet on an array", n, "non-null", "(null)");
      }
      if (api->ArrayGet(h, n->kids.size())) bad("ArrayGet at the size", n, "non-null", "(null)");
    } else if (full) {
      if (api->ArrayGet(h, 0)) bad("ArrayGet on a non-array", n, "non-null", "(null)");
    }
    if (n->type == T_OBJECT) {
      for (size_t i = 0; i < n->kids.size(); i += full ? step : n->kids.size() / 2 + 1) lookup(h, n, n->kids[i]->key, a);
      if (full) {
        const string k0 = n->kids.empty() ? string("a") : n->kids[r.below((uint32_t)n->kids.size())]->key;
        lookup(h, n, k0 + "x", a);
        lookup(h, n, k0.substr(0, k0.size() / 2), a);
        if (!k0.empty()) lookup(h, n, k0.substr(0, k0.size() - 1), a);
        if (!k0.empty()) { string q = k0; q[q.size() - 1] ^= 1; if (q[q.size() - 1]) lookup(h, n, q, a); }
        lookup(h, n, g.nearKey(k0), a);
        lookup(h, n, "", a);
        lookup(h, n, g.key(), a);
        lookup(h, n, "a", a);
      }
    } else if (full && n->type != T_ARRAY) {
      if (api->ObjGet(h, "a")) bad("ObjGet on a non-object", n, "non-null", "(null)");
      if (api->ObjGetLen(h, "a", 1)) bad("ObjGetLen on a non-object", n, "non-null", "(null)");
    }
    vfcheck();
  }
  // e must denote kids[i]: same content, key and distance from the end
  void same(void *e, vector<MNode *> &kids, size_t i, int a, const char *what) {
    MNode *m = kids[i];
    own(a);
    const char *p = api->Stringify(e);
    string w = r_ser(m);
    if (!p || w != p) bad(what, m, p ? p : "(null)", w);
    size_t len = 0;
    const char *k = api->GetKeyFast(e, &len);
    expLen(what, m, k, len, m->hasKey, m->key);
    if (kids.size() - i <= 6 || r.chance(1, 8)) {
      size_t rest = 0;
      void *x = api->Next(e);
      while (x && rest <= kids.size()) { rest++; x = api->Next(x); }
      if (rest != kids.size() - i - 1) bad("position of a looked-up value (siblings after it)", m, std::to_string(rest), std::to_string(kids.size() - i - 1));
    }
  }
  void lookup(void *h, MNode *n, const string &key, int a) {
    if (key.find('\0') != string::npos) return;
    size_t i = 0;
    while (i < n->kids.size() && n->kids[i]->key != key) i++;
    bool present = i < n->kids.size();
    for (int variant = 0; variant < 2; variant++) {
      Buf *b = bufs.make(key, variant == 0, true);
      own(a);
      void *e = variant == 0 ? api->ObjGet(h, b->p) : api->ObjGetLen(h, b->p, key.size());
      bufs.revoke(b);
      c.cnt[N_READS]++;
      if ((e != nullptr) != present) bad(variant ? "ObjGetLen" : "ObjGet", n, e ? "found" : "absent", string(present ? "found " : "absent ") + key);
      if (e) same(e, n->kids, i, a, variant ? "ObjGetLen" : "ObjGet");
    }
    // length-delimited lookup inside a longer text
    if (r.chance(1, 4)) {
      Buf *b = bufs.make(key + "tail", true, true);
      own(a);
      void *e = api->ObjGetLen(h, b->p, key.size());
      bufs.revoke(b);
      if ((e != nullptr) != present) bad("ObjGetLen (prefix of a longer text)", n, e ? "found" : "absent", string(present ? "found " : "absent ") + key);
      // no key contains a NUL byte: a length that takes in the terminator, or more, finds nothing
      string z = key + '\0' + (r.chance(1, 2) ? "" : key.empty() ? string("a") : key);
      b = bufs.make(z, false, true);
      own(a);
      e = api->ObjGetLen(h, b->p, z.size());
      bufs.revoke(b);
      if (e) bad("ObjGetLen (key with a NUL byte)", n, "found", "absent");
    }
  }
  void auditH(Handle &h, bool full) {
    if (!ok(h)) return;
    c.cnt[N_AUDITS]++;
    checkTree(h.h, h.n, h.a, full, r.chance(1, 3));
    if (h.n) checkText(h.h, h.n, h.a);
    if (h.n) {
      own(h.a);
      void *nx = api->Next(h.h);
      MNode *want = nullptr;
      if (h.n->parent) {
        auto &v = h.n->parent->kids;
        for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == h.n) want = v[i + 1];
      }
      if ((nx != nullptr) != (want != nullptr)) bad("Next", h.n, nx ? "non-null" : "(null)", want ? r_ser(want) : "(null)");
      if (nx) {
        const char *p = api->Stringify(nx);
        if (!p || r_ser(want) != p) bad("Next", h.n, p ? p : "(null)", r_ser(want));
      }
    }
  }
  // audit the document a node belongs to, through some handle on its root if there is one
  void auditTreeOf(MNode *n) {
    MNode *rt = root(n);
    for (auto &h : pool) if (ok(h) && h.n == rt) { auditH(h, r.chance(1, 4)); return; }
    for (auto &h : pool) if (ok(h) && h.n && root(h.n) == rt) { auditH(h, r.chance(1, 4)); return; }
  }
  void auditAll(bool full) {
    for (size_t i = 0; i < pool.size(); i++) auditH(pool[i], full && r.chance(1, 2));
  }
  // ---------------------------------------------------------- picking operands
  int pick(int type = -1) { // pool index of a usable handle (of a type: 0 = empty)
    for (int k = 0; k < 12; k++) {
      size_t i = r.below((uint32_t)pool.size());
      if (!ok(pool[i])) continue;
      if (type < 0 || (pool[i].n ? pool[i].n->type : 0) == type) return (int)i;
    }
    if (type < 0) { for (size_t i = 0; i < pool.size(); i++) if (ok(pool[i])) return (int)i; }
    return -1;
  }
  int liveAlloc() {
    vector<int> l;
    for (size_t i = 0; i < A.size(); i++) if (A[i]) l.push_back((int)i);
    if (l.empty()) return newAlloc();
    return l[r.below((uint32_t)l.size())];
  }
  void result(const char *op, bool got, bool want, const string &arg = string()) {
    tri(c, op, got);
    vfcheck();
    c.cnt[N_OPS]++;
    c.cnt[want ? N_OPS_OK : N_OPS_REFUSED]++;
    if (got != want) fail(c, "verdict", "%s returned %s, expected %s; argument \"%s\"", op, got ? "success" : "failure", want ? "success" : "failure", esc(arg, 300).c_str());
  }
  void after(bool success, MNode *x, MNode *y = nullptr) {
    if (quiet) return;
    const char *old = c.phase;
    if (success) {
      if (x && !x->dead) auditTreeOf(x);
      if (y && !y->dead && !(x && !x->dead && root(x) == root(y))) auditTreeOf(y);
      if (x && !x->dead) { string s = r_ser(root(x)); if (s.size() > 6) seen(c, s); }
      if (r.chance(1, 40)) auditAll(false);
    } else {
      c.phase = "unchanged";
      auditAll(false);
    }
    c.phase = old;
    if (!kept.empty()) for (int i = 0; i < 3; i++) checkKept(kept[r.below((uint32_t)kept.size())]);
  }
  // ---------------------------------------------------------- operations
  void mSetContent(MNode *n, int type, const string &text) { dropKids(n); n->type = type; n->text = text; }
  MNode *ensure(Handle &h) { // node for a setter on a possibly empty value
    if (!h.n) { h.n = M.make(); }
    h.n->deps |= bit(h.a);
    return h.n;
  }
  // An argument that lies in memory of the library itself: a text returned earlier by some value
  struct Borrow { const char *p; size_t n; bool z; uint64_t deps; };
  bool borrow(Borrow &b, int what) { // what: 0 string, 1 key, 2 number, 3 document
    int j = pick(what == 2 ? T_NUMBER : what == 0 && r.chance(1, 2) ? T_STRING : -1);
    int k = (int)r.below(6);
    if (j < 0) return false;
    Handle &s = pool[(size_t)j];
    if (!s.n) return false;
    own(s.a);
    b.z = true;
    b.n = 0;
    b.deps = bit(s.a);
    bool str = s.n->type == T_STRING, num = s.n->type == T_NUMBER, key = s.n->hasKey;
    if (what == 3 && k < 4) b.p = api->Stringify(s.h);
    else if (str && k < 2) b.p = k ? api->GetStr(s.h) : api->GetUnEscapeStr(s.h);
    else if (str && k == 2) { b.p = api->GetStrFast(s.h, &b.n); b.z = false; b.deps = s.n->deps; }
    else if (num && k < 2) b.p = api->GetNumStr(s.h);
    else if (num && k == 2) { b.p = api->GetNumFast(s.h, &b.n); b.z = false; b.deps = s.n->deps; }
    else if (key && k < 4) b.p = r.chance(1, 2) ? api->GetKey(s.h) : api->GetUnEscapeKey(s.h);
    else if (key && k == 4) { b.p = api->GetKeyFast(s.h, &b.n); b.z = false; b.deps = s.n->deps; }
    else b.p = api->Stringify(s.h);
    vfcheck();
    if (!b.p) return false;
    if (b.z) b.n = strlen(b.p);
    b.deps |= bit(s.a);
    if (b.n > 1500) return false;
    c.cnt[N_BORROWED]++;
    return true;
  }
  void unchanged(const Borrow &b, const string &was) {
    if (b.n && memcmp(b.p, was.data(), b.n) != 0) fail(c, "stable", "a text returned earlier and passed as an argument was changed by the call: was \"%s\" now \"%s\"", esc(was).c_str(), esc(string(b.p, b.n)).c_str());
  }
  void doParse(Handle &h, const string &text, const Borrow *bw = nullptr) {
    MNode *d = r_parse(text, M);
    bool want = d != nullptr;
    int variant = (int)r.below(3);
    if (force) variant = force == 1 ? 0 : 1 + variant % 2;
    bool twice = variant && !bw && r.chance(1, 8); // first by reference, then by copy, from one buffer
    if (bw && !bw->z) variant = 2;
    bool junk = r.chance(1, 2);
    static const char *names[] = {"ParseFast", "Parse", "ParseLen"};
    crumb(c, names[variant], text);
    bool got;
    own(h.a);
    if (bw) {
      got = variant == 0 ? api->ParseFast(h.h, bw->p) : variant == 1 ? api->Parse(h.h, bw->p) : api->ParseLen(h.h, bw->p, bw->n);
      unchanged(*bw, text);
    } else if (twice) {
      Buf *b = bufs.make(text, true, true);
      bool first = api->ParseFast(h.h, b->p);
      got = variant == 1 ? api->Parse(h.h, b->p) : api->ParseLen(h.h, b->p, text.size());
      bufs.revoke(b);
      c.cnt[N_REBOUND]++;
      if (first != got) fail(c, "verdict", "ParseFast and %s disagree on \"%s\"", names[variant], esc(text, 300).c_str());
    } else if (variant == 0) {
      Buf *b = bufs.make(text, true, true);
      got = api->ParseFast(h.h, b->p);
      bufs.verify(b);
      if (got) bufs.hold(b);
      else bufs.revoke(b); // a refused parse may not leave references behind
    } else if (variant == 1) {
      Buf *b = bufs.make(text, true, true);
      got = api->Parse(h.h, b->p);
      bufs.revoke(b);
    } else {
      Buf *b = bufs.make(junk ? text + "]}\",1" : text, false, true);
      got = api->ParseLen(h.h, b->p, text.size());
      bufs.revoke(b);
    }
    c.cnt[N_TEXTS]++;
    c.cnt[want ? N_ACCEPT : N_REJECT]++;
    result(names[variant], got, want, text);
    if (want) {
      MNode *n = ensure(h);
      dropKids(n);
      n->type = d->type;
      n->text = d->text;
      n->kids = d->kids;
      if (bw && variant == 0) n->deps |= bw->deps;
      for (MNode *k : n->kids) { k->parent = n; addDeps(k, bit(h.a) | (bw && variant == 0 ? bw->deps : 0)); }
      d->kids.clear();
      d->dead = true;
    }
    after(want, h.n);
  }
  // a string/key/number setter with one of the four calling conventions
  bool callSetter(Handle &h, int what, const string &arg, bool &legal, const Borrow *bw = nullptr) {
    // what: 0 string, 1 key, 2 number
    legal = arg.find('\0') == string::npos && (what == 2 ? r_legalNum(arg) : r_legalStr(arg));
    int variant = (int)r.below(4);
    if (force) variant = (variant & 1) | (force == 1 ? 2 : 0);
    bool hasNul = arg.find('\0') != string::npos;
    if (hasNul || (bw && !bw->z)) variant |= 1; // needs a length
    bool len = variant & 1, fast = variant & 2;
    static const char *names[3][4] = {{"SetStr", "SetStrLen", "SetStrFast", "SetStrLenFast"}, {"SetKey", "SetKeyLen", "SetKeyFast", "SetKeyLenFast"}, {"SetNumStr", "SetNumStrLen", "SetNumStrFast", "SetNumStrLenFast"}};
    crumb(c, names[what][variant], arg);
    string s = arg;
    bool junk = r.chance(1, 2);
    string tail = what == 2 ? g.digits(3) : string("\\\"xyz");
    bool twice = !fast && !bw && r.chance(1, 8); // first by reference, then by copy, from one buffer
    Buf *b = bw ? nullptr : bufs.make(len && junk ? s + tail : s, !len, true);
    const char *p = bw ? bw->p : b->p;
    bool got;
    if (twice) {
      bool first = setterCall(h, what * 4 + variant + 2, p, s.size());
      got = setterCall(h, what * 4 + variant, p, s.size());
      c.cnt[N_REBOUND]++;
      if (first != got) fail(c, "verdict", "%s and %s disagree on \"%s\"", names[what][variant + 2], names[what][variant], esc(arg, 300).c_str());
    } else got = setterCall(h, what * 4 + variant, p, s.size());
    if (bw) {
      unchanged(*bw, arg);
      if (fast && got) fastDeps = bw->deps;
    } else {
      bufs.verify(b);
      if (fast && got) bufs.hold(b);
      else bufs.revoke(b);
    }
    c.cnt[N_SETS]++;
    return got;
  }
  uint64_t fastDeps = 0; // allocators that hold the text the last Fast setter was given
  bool setterCall(Handle &h, int which, const char *p, size_t n) {
    own(h.a);
    switch (which) {
    case 0: return api->SetStr(h.h, p);
    case 1: return api->SetStrLen(h.h, p, n);
    case 2: return api->SetStrFast(h.h, p);
    case 3: return api->SetStrLenFast(h.h, p, n);
    case 4: return api->SetKey(h.h, p);
    case 5: return api->SetKeyLen(h.h, p, n);
    case 6: return api->SetKeyFast(h.h, p);
    case 7: return api->SetKeyLenFast(h.h, p, n);
    case 8: return api->SetNumStr(h.h, p);
    case 9: return api->SetNumStrLen(h.h, p, n);
    case 10: return api->SetNumStrFast(h.h, p);
    default: return api->SetNumStrLenFast(h.h, p, n);
    }
  }
  void addFastDeps(Handle &h) { if (h.n) h.n->deps |= fastDeps; fastDeps = 0; }
  void doSetStr(Handle &h, const string &arg, const Borrow *bw = nullptr) {
    bool legal;
    bool got = callSetter(h, 0, arg, legal, bw);
    result("SetStr*", got, legal, arg);
    if (legal) mSetContent(ensure(h), T_STRING, arg);
    addFastDeps(h);
    after(legal, h.n);
  }
  void doSetNumTxt(Handle &h, const string &arg, const Borrow *bw = nullptr) {
    bool legal;
    bool got = callSetter(h, 2, arg, legal, bw);
    result("SetNumStr*", got, legal, arg);
    if (legal) mSetContent(ensure(h), T_NUMBER, arg);
    addFastDeps(h);
    after(legal, h.n);
  }
  void setKeyModel(Handle &h, const string &raw) {
    bool fresh = !h.n;
    MNode *n = ensure(h);
    if (fresh) { n->type = T_NULL; n->text = "null"; }
    n->hasKey = true;
    n->key = raw;
  }
  void doSetKey(Handle &h, const string &arg, const Borrow *bw = nullptr) {
    bool legal;
    bool got = callSetter(h, 1, arg, legal, bw);
    bool want = legal && !(h.n && h.n->parent && h.n->parent->type != T_OBJECT);
    result("SetKey*", got, want, arg);
    if (want) setKeyModel(h, arg);
    addFastDeps(h);
    after(want, h.n);
  }
  // escaping setters: any bytes; the stored raw text is read back and must denote them
  void doSetEsc(Handle &h, bool key, const string &arg, const Borrow *bw = nullptr) {
    bool len = arg.find('\0') != string::npos || r.chance(1, 2) || (bw && !bw->z);
    crumb(c, key ? (len ? "SetKeyLenEscape" : "SetKeyEscape") : (len ? "SetStrLenEscape" : "SetStrEscape"), arg);
    bool junk = r.chance(1, 2);
    Buf *b = bw ? nullptr : bufs.make(len && junk ? arg + "\"\\n" : arg, !len, true);
    const char *p = bw ? bw->p : b->p;
    own(h.a);
    bool got = key ? (len ? api->SetKeyLenEscape(h.h, p, arg.size()) : api->SetKeyEscape(h.h, p))
                   : (len ? api->SetStrLenEscape(h.h, p, arg.size()) : api->SetStrEscape(h.h, p));
    if (bw) unchanged(*bw, arg);
    else bufs.revoke(b);
    bool want = !(key && h.n && h.n->parent && h.n->parent->type != T_OBJECT);
    result(key ? "SetKey*Escape" : "SetStr*Escape", got, want, arg);
    if (want) {
      size_t rl = 0;
      own(h.a);
      p = key ? api->GetKeyFast(h.h, &rl) : api->GetStrFast(h.h, &rl);
      if (!p) fail(c, "escape", "no %s after an escaping setter with \"%s\"", key ? "key" : "string", esc(arg).c_str());
      string raw(p, rl);
      if (raw.find('\0') != string::npos || !r_legalStr(raw)) fail(c, "escape", "escaping \"%s\" stored an illegal JSON string \"%s\"", esc(arg).c_str(), esc(raw).c_str());
      if (r_decode(raw) != arg) fail(c, "escape", "escaping \"%s\" stored \"%s\", which denotes \"%s\"", esc(arg).c_str(), esc(raw).c_str(), esc(r_decode(raw)).c_str());
      tr(c, "esc", raw);
      c.cnt[N_STRINGS]++;
      if (key) setKeyModel(h, raw);
      else mSetContent(ensure(h), T_STRING, raw);
    }
    after(want, h.n);
  }
  double rndDouble() {
    uint64_t u;
    double d;
    switch (r.below(6)) {
    case 0: u = r.next(); break;
    case 1: u = r.next() & 0x800FFFFFFFFFFFFFull; break; // subnormal
    case 2: d = (double)(int64_t)r.next(); return d;
    case 3: d = (double)r.range(-1000, 1000) / 8; return d;
    case 4: u = (r.next() & 0x8000000000000000ull) | ((uint64_t)(r.chance(1, 2) ? 0x7FE : 1) << 52) | (r.next() >> 12); break;
    default: {
      static const uint64_t e[] = {0, 0x8000000000000000ull, 1, 0x8000000000000001ull, 0x7FEFFFFFFFFFFFFFull, 0xFFEFFFFFFFFFFFFFull, 0x0010000000000000ull, 0x000FFFFFFFFFFFFFull, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0xFFF8000000000001ull, 0x3FF0000000000000ull, 0x3FB999999999999Aull, 0x4340000000000000ull, 0x7FF0000000000001ull};
      u = e[r.below(16)];
    }
    }
    memcpy(&d, &u, 8);
    return d;
  }
  long long rndInt(int bits) {
    unsigned long long full = bits == 32 ? 0xFFFFFFFFull : ~0ull;
    unsigned long long v;
    switch (r.below(4)) {
    case 0: v = r.next(); break;
    case 1: v = (unsigned long long)(long long)r.range(-20, 20); break;
    case 2: { static const long long e32[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0, -1, 999999999, 1000000000, -1000000000}; static const long long e64[] = {LLONG_MAX, LLONG_MIN, LLONG_MAX - 1, LLONG_MIN + 1, 0, -1, INT_MAX, INT_MIN, 999999999999999999ll}; v = (unsigned long long)(bits == 32 ? e32 : e64)[r.below(9)]; break; }
    default: v = r.next() >> r.below(63); if (r.chance(1, 2)) v = 0 - v;
    }
    v &= full;
    return bits == 32 ? (long long)(int32_t)(uint32_t)v : (long long)v;
  }
  void doSetNumV(Handle &h) {
    int k = (int)r.below(6);
    bool want = true, got;
    char what[64];
    double d = 0;
    long long ll = 0;
    if (k < 3) {
      d = rndDouble();
      snprintf(what, sizeof what, "%a", d);
      crumb(c, k ? "SetDouble" : "SetNum", what);
      want = std::isfinite(d);
      own(h.a);
      got = k ? api->SetDouble(h.h, d) : api->SetNum(h.h, d);
    } else {
      ll = rndInt(k == 3 ? 32 : 64);
      snprintf(what, sizeof what, "%lld", ll);
      crumb(c, k == 3 ? "SetInt" : k == 4 ? "SetLong" : "SetLongLong", what);
      own(h.a);
      got = k == 3 ? api->SetInt(h.h, (int)ll) : k == 4 ? api->SetLong(h.h, (long)ll) : api->SetLongLong(h.h, ll);
    }
    c.cnt[N_SETS]++;
    result("SetNum/Int/..", got, want, what);
    if (want) {
      size_t rl = 0;
      own(h.a);
      const char *p = api->GetNumFast(h.h, &rl);
      if (!p) fail(c, "number", "no number after setting %s", what);
      string raw(p, rl);
      if (!r_legalNum(raw)) fail(c, "number", "setting %s stored \"%s\", which is not a JSON number", what, esc(raw).c_str());
      if (k < 3) {
        double e = strtod(raw.c_str(), nullptr);
        if (memcmp(&e, &d, 8) != 0) fail(c, "number", "setting %s stored %s = %a", what, raw.c_str(), e);
        const double *q = api->GetDouble(h.h);
        if (!q || memcmp(q, &d, 8) != 0) fail(c, "number", "setting %s (stored %s) reads back as %a", what, raw.c_str(), q ? *q : 0.0);
      } else {
        if (!r_intLiteral(raw) || strtoll(raw.c_str(), nullptr, 10) != ll) fail(c, "number", "setting %s stored %s", what, raw.c_str());
        const long long *q = api->GetLongLong(h.h);
        if (!q || *q != ll) fail(c, "number", "setting %s reads back as %lld", what, q ? *q : -1);
        const long *q2 = api->GetLong(h.h);
        if (!q2 || *q2 != (long)ll) fail(c, "number", "setting %s reads back as long %ld", what, q2 ? *q2 : -1);
        if (ll >= INT_MIN && ll <= INT_MAX) {
          const int *q3 = api->GetInt(h.h);
          if (!q3 || *q3 != (int)ll) fail(c, "number", "setting %s reads back as int %d", what, q3 ? *q3 : -1);
        }
      }
      tr(c, "num", raw);
      c.cnt[N_NUMBERS]++;
      mSetContent(ensure(h), T_NUMBER, raw);
    }
    after(want, h.n);
  }
  bool cross(Handle &x, Handle &y) { if (x.a != y.a) { c.cnt[N_CROSS]++; return true; } return false; }

  void doSet(Handle &v, Handle &vv) {
    if (vv.n && (r_count(vv.n) > nodeCap || (v.n && r_count(root(v.n)) > nodeCap))) return;
    crumb(c, "Set", r_ser(v.n) + " <- " + r_ser(vv.n));
    cross(v, vv);
    own(v.a);
    bool got = api->Set(v.h, vv.h), want = vv.n != nullptr;
    result("Set", got, want);
    if (want) {
      c.cnt[N_COPIES]++;
      MNode *cp = clone(vv.n, bit(v.a));
      if (!v.n) { v.n = cp; }
      else {
        MNode *n = v.n;
        dropKids(n);
        n->type = cp->type; n->text = cp->text; n->kids = cp->kids; n->deps |= bit(v.a);
        if (c.beta && n->hasKey && cp->hasKey) n->key = cp->key;
        for (MNode *k : n->kids) k->parent = n;
        cp->kids.clear();
        cp->dead = true;
      }
    }
    after(want, v.n, vv.n);
  }
  void doSetFast(Handle &v, Handle &vv) {
    if (&v == &vv) return;
    if (v.n && vv.n && ancOrSelf(vv.n, v.n)) return; // excluded by contract
    crumb(c, "SetFast", r_ser(v.n) + " <- " + r_ser(vv.n));
    cross(v, vv);
    own(v.a);
    bool got = api->SetFast(v.h, vv.h), want = vv.n != nullptr;
    result("SetFast", got, want);
    MNode *src = vv.n ? vv.n->parent : nullptr;
    if (want) {
      MNode *m = vv.n;
      detach(m);
      if (!v.n) { v.n = m; m->deps |= bit(v.a); }
      else {
        MNode *n = v.n;
        vector<MNode *> kids = m->kids;
        m->kids.clear();
        m->dead = true;
        dropKids(n);
        n->type = m->type; n->text = m->text; n->kids = kids; n->deps |= m->deps;
        if (c.beta && n->hasKey && m->hasKey) n->key = m->key;
        for (MNode *k : kids) k->parent = n;
      }
      vv.n = nullptr;
    }
    after(want, v.n, src);
    if (want && !quiet) { c.phase = "model"; auditH(vv, false); }
  }
  void doAdd(Handle &v, Handle &vv, bool arr, bool fast) {
    if (fast && (&v == &vv || (v.n && vv.n && ancOrSelf(vv.n, v.n)))) return;
    if (!fast && vv.n && (r_count(vv.n) > nodeCap || (v.n && r_count(root(v.n)) > nodeCap))) return;
    static const char *names[4] = {"ObjAdd", "ObjAddFast", "ArrayAdd", "ArrayAddFast"};
    const char *nm = names[(arr ? 2 : 0) + (fast ? 1 : 0)];
    crumb(c, nm, r_ser(v.n) + " <- " + r_ser(vv.n));
    cross(v, vv);
    own(v.a);
    bool got = arr ? (fast ? api->ArrayAddFast(v.h, vv.h) : api->ArrayAdd(v.h, vv.h)) : (fast ? api->ObjAddFast(v.h, vv.h) : api->ObjAdd(v.h, vv.h));
    bool want = v.n && v.n->type == (arr ? T_ARRAY : T_OBJECT) && vv.n && (arr || vv.n->hasKey);
    result(nm, got, want);
    MNode *src = vv.n;
    if (want) {
      MNode *m;
      MNode *oldp = vv.n->parent;
      if (fast) { m = vv.n; detach(m); vv.n = nullptr; src = oldp; }
      else { m = clone(vv.n, bit(v.a)); c.cnt[N_COPIES]++; }
      if (arr) { m->hasKey = false; m->key.clear(); }
      m->parent = v.n;
      v.n->kids.push_back(m);
    }
    after(want, v.n, src);
    if (want && fast && !quiet) auditH(vv, false);
  }
  void doDel(Handle &v, bool arr) {
    size_t n = v.n ? v.n->kids.size() : 0;
    MNode *m = nullptr;
    bool got;
    if (arr) {
      size_t i;
      switch (r.below(6)) {
      case 0: i = 0; break;
      case 1: i = n ? n - 1 : 0; break;
      case 2: i = n + r.below(3); break;
      case 3: i = (int)r.below(8) < pf->failBias ? n : r.below((uint32_t)n + 1); break;
      default: i = r.below((uint32_t)n + 1);
      }
      if (r.chance(1, 50)) i = api->size_max;
      crumb(c, "ArrayDel", r_ser(v.n) + " @" + std::to_string(i == api->size_max ? (size_t)-1 : i));
      own(v.a);
      got = api->ArrayDel(v.h, i);
      if (v.n && v.n->type == T_ARRAY && i < n) m = v.n->kids[i];
    } else {
      string k = v.n && n && r.chance(3, 4) ? v.n->kids[r.below((uint32_t)n)]->key : g.key();
      if (r.chance(1, 10)) k += "z";
      else if (r.chance(1, 10)) { string q = g.nearKey(k); if (q.find('\0') == string::npos) k = q; }
      crumb(c, "ObjDel", r_ser(v.n) + " @" + k);
      Buf *b = bufs.make(k, true, true);
      own(v.a);
      got = api->ObjDel(v.h, b->p);
      bufs.revoke(b);
      if (v.n && v.n->type == T_OBJECT)
        for (MNode *x : v.n->kids) if (x->key == k) { m = x; break; }
    }
    result(arr ? "ArrayDel" : "ObjDel", got, m != nullptr);
    if (m) detach(m);
    after(m != nullptr, v.n, m);
  }
  void doMove(Handle &v) {
    crumb(c, "Move", r_ser(v.n));
    own(v.a);
    bool got = api->Move(v.h), want = v.n != nullptr;
    result("Move", got, want);
    MNode *p = v.n ? v.n->parent : nullptr;
    if (want) detach(v.n);
    after(want, v.n, p);
  }
  void doCopy(Handle &v) {
    if (v.n && r_count(v.n) > nodeCap) return;
    crumb(c, "Copy", r_ser(v.n));
    own(v.a);
    void *h = api->Copy(v.h);
    vfcheck();
    result("Copy", h != nullptr, v.n != nullptr);
    MNode *src = v.n;
    if (h) {
      c.cnt[N_COPIES]++;
      Handle x{h, clone(v.n, bit(v.a)), v.a, false};
      if (!quiet) auditH(x, true);
      put(x);
      src = x.n;
    }
    after(h != nullptr, src);
  }
  void doNav(Handle &v) {
    if (!v.n) return;
    own(v.a);
    MNode *n = v.n, *m = nullptr;
    void *h = nullptr;
    switch (r.below(4)) {
    case 0: crumb(c, "Begin"); h = api->Begin(v.h); if (!n->kids.empty()) m = n->kids[0]; break;
    case 1: {
      crumb(c, "Next");
      h = api->Next(v.h);
      if (n->parent) for (size_t i = 0; i + 1 < n->parent->kids.size(); i++) if (n->parent->kids[i] == n) m = n->parent->kids[i + 1];
      break;
    }
    default:
      if (n->type == T_ARRAY) {
        size_t i = r.below((uint32_t)n->kids.size() + 1);
        if (r.chance(1, 4) && !n->kids.empty()) i = n->kids.size() - 1;
        crumb(c, "ArrayGet", std::to_string(i));
        h = api->ArrayGet(v.h, i);
        if (i < n->kids.size()) m = n->kids[i];
      } else if (n->type == T_OBJECT) {
        string k = n->kids.empty() ? g.key() : n->kids[r.below((uint32_t)n->kids.size())]->key;
        crumb(c, "ObjGet", k);
        Buf *b = bufs.make(k, true, true);
        h = api->ObjGet(v.h, b->p);
        bufs.revoke(b);
        for (MNode *x : n->kids) if (x->key == k) { m = x; break; }
      } else return;
    }
    vfcheck();
    if ((h != nullptr) != (m != nullptr)) bad("navigation", n, h ? "found" : "absent", m ? r_ser(m) : "absent");
    c.cnt[N_OPS]++;
    if (h) {
      Handle x{h, m, v.a, false};
      if (r.chance(1, 4)) auditH(x, false);
      put(x);
    }
  }
  void doRelease() {
    vector<int> l;
    for (size_t i = 0; i < A.size(); i++) if (A[i]) l.push_back((int)i);
    if (l.empty()) return;
    int a = l[r.below((uint32_t)l.size())];
    release(a);
    if (r.chance(1, 2)) auditAll(false);
  }
  void release(int a) {
    uint64_t b = bit(a);
    for (size_t i = 0; i < kept.size();) {
      if (kept[i].deps & b) { checkKept(kept[i]); kept[i] = kept.back(); kept.pop_back(); }
      else i++;
    }
    crumb(c, "ReleaseAllocator");
    own(a);
    size_t liveBefore = g_vf.live, owned = 0;
    if (g_vf.track) owned = vf_ownedBy(aid[(size_t)a]);
    api->ReleaseAllocator(A[(size_t)a]);
    A[(size_t)a] = nullptr;
    c.cnt[N_RELEASES]++;
    vfcheck();
    if (g_vf.track) {
      size_t left = vf_ownedBy(aid[(size_t)a]);
      if (left) fail(c, "balance", "%zu of %zu blocks obtained for an allocator are still allocated after its release", left, owned);
      if (liveBefore - g_vf.live != owned) fail(c, "balance", "release freed %zu blocks, the allocator had obtained %zu", liveBefore - g_vf.live, owned);
    }
    for (MNode *n : M.all)
      if (!n->dead && (n->deps & b)) kill(root(n));
    for (auto &h : pool) if (h.a == a) h.dead = true;
    pruneDead();
  }
  void pruneDead() {
    for (size_t i = 0; i < pool.size();) {
      if (!ok(pool[i])) { pool[i] = pool.back(); pool.pop_back(); }
      else i++;
    }
  }
  string docText() {
    int big = (int)r.below(64) < pf->bigDocs ? r.range(60, 400) : r.range(1, 25);
    return g.doc(big, 8);
  }
  int opIdx() {
    int sum = 0;
    for (int x : pf->w) sum += x;
    int k = (int)r.below((uint32_t)sum), i = 0;
    while (k >= pf->w[i]) k -= pf->w[i++];
    return i;
  }
  void step() {
    if (c.opNo % 16 == 0) pruneDead();
    if (pool.size() < 2) { newVal(liveAlloc()); return; }
    bool wrong = (int)r.below(8) < pf->failBias;
    int op = opIdx();
    int i = -1, j = pick();
    switch (op) {
    case oArrAdd: case oArrAddFast: case oArrDel: if (!wrong) i = pick(T_ARRAY); break;
    case oObjAdd: case oObjAddFast: case oObjDel: if (!wrong) i = pick(T_OBJECT); break;
    default: break;
    }
    if (i < 0) i = pick();
    if (i < 0 || j < 0) { newVal(liveAlloc()); return; }
    Handle &v = pool[(size_t)i], &vv = pool[(size_t)j];
    Borrow bw;
    if (r.chance(1, 8)) {
      int what = op == oParse || op == oParseBad ? 3 : op == oSetNumTxt ? 2 : op == oSetKey || op == oSetKeyEsc ? 1 : op == oSetStr || op == oSetStrEsc ? 0 : -1;
      if (what >= 0 && borrow(bw, what)) {
        string t(bw.p, bw.n);
        if (what == 3) doParse(v, t, &bw);
        else if (what == 2) doSetNumTxt(v, t, &bw);
        else if (op == oSetStr) doSetStr(v, t, &bw);
        else if (op == oSetKey) doSetKey(v, t, &bw);
        else doSetEsc(v, what == 1, t, &bw);
        return;
      }
    }
    switch (op) {
    case oNewVal: newVal(liveAlloc()); break;
    case oParse: {
      string t = docText();
      if (pool.size() && r.chance(1, 2)) { Handle x = newVal(v.a); for (auto &h : pool) if (h.h == x.h) { doParse(h, t); break; } }
      else doParse(v, t);
      break;
    }
    case oParseBad: doParse(v, g.mutate(docText())); break;
    case oSetNullBool: {
      bool b = r.chance(1, 2), nul = r.chance(1, 2);
      crumb(c, nul ? "SetNull" : "SetBool");
      own(v.a);
      if (nul) api->SetNull(v.h); else api->SetBool(v.h, b);
      result("SetNull/Bool", true, true);
      MNode *n = ensure(v);
      mSetContent(n, nul ? T_NULL : T_BOOL, nul ? "null" : b ? "true" : "false");
      after(true, n);
      break;
    }
    case oSetNumV: doSetNumV(v); break;
    case oSetNumTxt: { string t = g.num(); if (wrong) t = g.mutate(t); doSetNumTxt(v, t); break; }
    case oSetStr: { string t = g.strBody(); if (wrong) t = g.mutate(t); if (r.chance(1, 30)) t.insert(r.below((uint32_t)t.size() + 1), 1, '\0'); doSetStr(v, t); break; }
    case oSetStrEsc: doSetEsc(v, false, g.bytes(20, r.chance(1, 3))); break;
    case oSetKey: { string t = g.key(); if (wrong && r.chance(1, 2)) t = g.mutate(t); doSetKey(v, t); break; }
    case oSetKeyEsc: doSetEsc(v, true, g.bytes(10, r.chance(1, 6))); break;
    case oSetArr: case oSetObj: {
      crumb(c, op == oSetArr ? "SetArray" : "SetObj", r_ser(v.n));
      own(v.a);
      if (op == oSetArr) api->SetArray(v.h); else api->SetObj(v.h);
      result("SetArray/Obj", true, true);
      MNode *n = ensure(v);
      mSetContent(n, op == oSetArr ? T_ARRAY : T_OBJECT, "");
      after(true, n);
      break;
    }
    case oSet: doSet(v, vv); break;
    case oSetFast: doSetFast(v, vv); break;
    case oArrAdd: doAdd(v, vv, true, false); break;
    case oArrAddFast: doAdd(v, vv, true, true); break;
    case oObjAdd: doAdd(v, vv, false, false); break;
    case oObjAddFast: doAdd(v, vv, false, true); break;
    case oArrDel: doDel(v, true); break;
    case oObjDel: doDel(v, false); break;
    case oMove: doMove(v); break;
    case oCopy: doCopy(v); break;
    case oNav: doNav(v); break;
    case oRead: crumb(c, "Read"); auditH(v, r.chance(1, 3)); c.cnt[N_OPS]++; break;
    case oNewAlloc: { int a = newAlloc(); if (a >= 0) newVal(a); break; }
    case oRelAlloc: doRelease(); break;
    case oAuditAll: auditAll(true); break;
    }
  }
  void run(int ops) {
    for (int k = 0; k < ops; k++) step();
  }
  void finish() {
    if (c.samples.size() < 2) sample(c, "history of " + std::to_string(c.opNo) + " operations: " + c.trail);
    crumb(c, "finish");
    auditAll(true);
    checkAllKept();
    vector<int> l;
    for (size_t i = 0; i < A.size(); i++) if (A[i]) l.push_back((int)i);
    while (!l.empty()) {
      size_t k = r.below((uint32_t)l.size());
      release(l[k]);
      l.erase(l.begin() + (long)k);
      if (!l.empty()) auditAll(false);
    }
    bufs.endSession();
  }
};
#endif
