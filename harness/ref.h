// Reference semantics, independent of zzzJSON: RFC 8259 grammar, ordered-tree model,
// UTF-8 decoding of JSON strings, and input generators. Uses only std::vector and
// std::string so that it also works in MemorySanitizer builds.
#ifndef REF_H
#define REF_H
#include "zapi.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using std::string;
using std::vector;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
};
static inline uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull));
  return r.next();
}
static inline uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
static const uint64_t FNV0 = 1469598103934665603ull;

// ---------------------------------------------------------------- grammar
static inline bool r_ws(unsigned char c) { return c == 0x20 || c == 0x09 || c == 0x0A || c == 0x0D; }
static inline bool r_dig(unsigned char c) { return c >= '0' && c <= '9'; }
static inline int r_hex(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
// one JSON "char" (RFC 8259 section 7, with paired surrogates) at s[i]; returns its
// length in bytes, or 0 if there is none. A quote is not a char.
static inline size_t r_char(const string &s, size_t i) {
  if (i >= s.size()) return 0;
  unsigned char c = (unsigned char)s[i];
  if (c < 0x20 || c == '"') return 0;
  if (c != '\\') return 1;
  if (i + 1 >= s.size()) return 0;
  c = (unsigned char)s[i + 1];
  if (c != 'u')
    return (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't') ? 2 : 0;
  auto unit = [&](size_t k, unsigned &u) {
    u = 0;
    for (int j = 0; j < 4; j++) {
      if (k + (size_t)j >= s.size()) return false;
      int h = r_hex((unsigned char)s[k + (size_t)j]);
      if (h < 0) return false;
      u = u * 16 + (unsigned)h;
    }
    return true;
  };
  unsigned u;
  if (!unit(i + 2, u)) return 0;
  if (u < 0xD800 || u > 0xDFFF) return 6;
  if (u >= 0xDC00) return 0;
  if (i + 7 >= s.size() || s[i + 6] != '\\' || s[i + 7] != 'u') return 0;
  unsigned lo;
  if (!unit(i + 8, lo)) return 0;
  return (lo >= 0xDC00 && lo <= 0xDFFF) ? 12 : 0;
}
// legal content of a JSON string
static inline bool r_legalStr(const string &s) {
  for (size_t i = 0; i < s.size();) {
    size_t n = r_char(s, i);
    if (!n) return false;
    i += n;
  }
  return true;
}
// longest number starting at i; returns its length or 0
static inline size_t r_num(const string &s, size_t i) {
  size_t b = i, n = s.size();
  auto at = [&](size_t k) -> unsigned char { return k < n ? (unsigned char)s[k] : 0; };
  if (at(i) == '-') i++;
  if (at(i) == '0') i++;
  else if (at(i) >= '1' && at(i) <= '9') { while (r_dig(at(i))) i++; }
  else return 0;
  if (at(i) == '.') {
    if (!r_dig(at(i + 1))) return 0;
    i++;
    while (r_dig(at(i))) i++;
  }
  if (at(i) == 'e' || at(i) == 'E') {
    size_t j = i + 1;
    if (at(j) == '+' || at(j) == '-') j++;
    if (!r_dig(at(j))) return 0;
    while (r_dig(at(j))) j++;
    i = j;
  }
  return i - b;
}
static inline bool r_legalNum(const string &s) { return !s.empty() && r_num(s, 0) == s.size(); }
static inline bool r_intLiteral(const string &s) {
  size_t i = s[0] == '-' ? 1 : 0;
  for (; i < s.size(); i++)
    if (!r_dig((unsigned char)s[i])) return false;
  return true;
}
static inline void r_utf8(string &o, unsigned cp) {
  if (cp < 0x80) o += (char)cp;
  else if (cp < 0x800) { o += (char)(0xC0 + cp / 64); o += (char)(0x80 + cp % 64); }
  else if (cp < 0x10000) { o += (char)(0xE0 + cp / 4096); o += (char)(0x80 + cp / 64 % 64); o += (char)(0x80 + cp % 64); }
  else { o += (char)(0xF0 + cp / 262144); o += (char)(0x80 + cp / 4096 % 64); o += (char)(0x80 + cp / 64 % 64); o += (char)(0x80 + cp % 64); }
}
// the bytes a legal string content denotes
static inline string r_decode(const string &s) {
  string o;
  for (size_t i = 0; i < s.size();) {
    size_t n = r_char(s, i);
    if (n == 0) abort();
    if (n == 1) o += s[i];
    else if (n == 2) {
      switch (s[i + 1]) {
      case 'b': o += (char)8; break;
      case 'f': o += (char)12; break;
      case 'n': o += (char)10; break;
      case 'r': o += (char)13; break;
      case 't': o += (char)9; break;
      default: o += s[i + 1];
      }
    } else {
      auto unit = [&](size_t k) { unsigned u = 0; for (int j = 0; j < 4; j++) u = u * 16 + (unsigned)r_hex((unsigned char)s[k + (size_t)j]); return u; };
      unsigned u = unit(i + 2);
      if (n == 12) u = 0x10000 + (u - 0xD800) * 0x400 + (unit(i + 8) - 0xDC00);
      r_utf8(o, u);
    }
    i += n;
  }
  return o;
}

// ---------------------------------------------------------------- model tree
struct MNode {
  int type = T_NULL;
  bool hasKey = false;
  bool dead = false;
  string key;  // raw, as written
  string text; // raw string content / number text / literal
  vector<MNode *> kids;
  MNode *parent = nullptr;
  uint64_t deps = 0; // allocators (bit set) this node's storage lives in
};
struct MArena {
  vector<MNode *> all;
  MNode *make() { MNode *n = new MNode(); all.push_back(n); return n; }
  ~MArena() { for (MNode *n : all) delete n; }
};
struct RefParser {
  const string &s;
  MArena &A;
  size_t i = 0;
  RefParser(const string &t, MArena &a) : s(t), A(a) {}
  void ws() { while (i < s.size() && r_ws((unsigned char)s[i])) i++; }
  bool lit(const char *w) {
    size_t n = strlen(w);
    if (s.compare(i, n, w) != 0) return false;
    i += n;
    return true;
  }
  bool str(string &out) {
    if (i >= s.size() || s[i] != '"') return false;
    size_t b = ++i;
    while (size_t n = r_char(s, i)) i += n;
    if (i >= s.size() || s[i] != '"') return false;
    out = s.substr(b, i - b);
    i++;
    return true;
  }
  MNode *value() {
    ws();
    if (i >= s.size()) return nullptr;
    MNode *n = A.make();
    char c = s[i];
    if (c == '"') {
      n->type = T_STRING;
      return str(n->text) ? n : nullptr;
    }
    if (c == '[' || c == '{') {
      bool obj = c == '{';
      n->type = obj ? T_OBJECT : T_ARRAY;
      i++;
      ws();
      if (i < s.size() && s[i] == (obj ? '}' : ']')) { i++; return n; }
      for (;;) {
        string k;
        if (obj) {
          ws();
          if (!str(k)) return nullptr;
          ws();
          if (i >= s.size() || s[i] != ':') return nullptr;
          i++;
        }
        MNode *m = value();
        if (!m) return nullptr;
        m->hasKey = obj;
        m->key = k;
        m->parent = n;
        n->kids.push_back(m);
        ws();
        if (i >= s.size()) return nullptr;
        if (s[i] == ',') { i++; continue; }
        if (s[i] == (obj ? '}' : ']')) { i++; return n; }
        return nullptr;
      }
    }
    if (c == 't') { n->type = T_BOOL; n->text = "true"; return lit("true") ? n : nullptr; }
    if (c == 'f') { n->type = T_BOOL; n->text = "false"; return lit("false") ? n : nullptr; }
    if (c == 'n') { n->type = T_NULL; n->text = "null"; return lit("null") ? n : nullptr; }
    size_t len = r_num(s, i);
    if (!len) return nullptr;
    n->type = T_NUMBER;
    n->text = s.substr(i, len);
    i += len;
    return n;
  }
  MNode *parse() {
    MNode *n = value();
    if (!n) return nullptr;
    ws();
    return i == s.size() ? n : nullptr;
  }
};
static inline MNode *r_parse(const string &t, MArena &a) { RefParser p(t, a); return p.parse(); }
// the same grammar once more, without a tree and without recursion
static inline bool r_valid(const string &s) {
  string st; // open containers
  size_t i = 0, n = s.size();
  auto ws = [&]() { while (i < n && r_ws((unsigned char)s[i])) i++; };
  auto str = [&]() {
    if (i >= n || s[i] != '"') return false;
    i++;
    while (size_t k = r_char(s, i)) i += k;
    if (i >= n || s[i] != '"') return false;
    i++;
    return true;
  };
  auto member = [&]() { // key and colon
    ws();
    if (!str()) return false;
    ws();
    if (i >= n || s[i] != ':') return false;
    i++;
    return true;
  };
  for (;;) {
    ws(); // a value is due
    if (i >= n) return false;
    char c = s[i];
    if (c == '[' || c == '{') {
      i++;
      ws();
      if (i < n && s[i] == (c == '[' ? ']' : '}')) i++;
      else {
        st += c;
        if (c == '{' && !member()) return false;
        continue;
      }
    } else if (c == '"') { if (!str()) return false; }
    else if (c == 't') { if (s.compare(i, 4, "true")) return false; i += 4; }
    else if (c == 'f') { if (s.compare(i, 5, "false")) return false; i += 5; }
    else if (c == 'n') { if (s.compare(i, 4, "null")) return false; i += 4; }
    else { size_t k = r_num(s, i); if (!k) return false; i += k; }
    for (;;) { // a value has ended
      ws();
      if (st.empty()) return i == n;
      if (i >= n) return false;
      bool obj = st.back() == '{';
      if (s[i] == ',') { i++; if (obj && !member()) return false; break; }
      if (s[i] != (obj ? '}' : ']')) return false;
      i++;
      st.pop_back();
    }
  }
}
static inline void r_ser(const MNode *n, string &o) {
  switch (n->type) {
  case T_ARRAY:
  case T_OBJECT:
    o += n->type == T_ARRAY ? '[' : '{';
    for (size_t i = 0; i < n->kids.size(); i++) {
      if (i) o += ',';
      if (n->type == T_OBJECT) { o += '"'; o += n->kids[i]->key; o += "\":"; }
      r_ser(n->kids[i], o);
    }
    o += n->type == T_ARRAY ? ']' : '}';
    break;
  case T_STRING: o += '"'; o += n->text; o += '"'; break;
  default: o += n->text;
  }
}
static inline string r_ser(const MNode *n) { string o; if (n) r_ser(n, o); return o; }
static inline size_t r_count(const MNode *n) { size_t c = 1; for (MNode *k : n->kids) c += r_count(k); return c; }
static inline size_t r_depth(const MNode *n) { size_t d = 0; for (MNode *k : n->kids) { size_t x = r_depth(k); if (x > d) d = x; } return d + 1; }

// ---------------------------------------------------------------- generators
struct Gen {
  Rng &r;
  explicit Gen(Rng &g) : r(g) {}
  void hex4(string &o, unsigned u) {
    static const char *lo = "0123456789abcdef", *up = "0123456789ABCDEF";
    for (int k = 12; k >= 0; k -= 4) {
      const char *d = r.chance(1, 2) ? lo : up; // (not in one expression: GCC 13's UBSan miscompiles it)
      o += d[(u >> k) & 15];
    }
  }
  string piece() { // one legal JSON char (or a short run)
    string o;
    switch (r.below(14)) {
    case 0: o = "\\"; o += "\"\\/bfnrt"[r.below(8)]; break;
    case 1: case 2: {
      static const unsigned edge[] = {0x0001, 0x001F, 0x0020, 0x0022, 0x002F, 0x005C, 0x007F, 0x0080, 0x00FF, 0x07FF, 0x0800, 0x0FFF, 0x1000, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xE001, 0xF8FF, 0xFFFD, 0xFFFE, 0xFFFF};
      unsigned u = r.chance(1, 2) ? edge[r.below(sizeof edge / sizeof *edge)] : r.below(0x10000);
      if (u >= 0xD800 && u <= 0xDFFF) u -= 0x1000;
      if (u == 0 && !r.chance(1, 8)) u = 0x41;
      o = "\\u";
      hex4(o, u);
      break;
    }
    case 3: {
      static const unsigned hi[] = {0xD800, 0xDBFF, 0xD83D, 0xDA00}, lo[] = {0xDC00, 0xDFFF, 0xDE00, 0xDD23};
      o = "\\u";
      hex4(o, r.chance(1, 2) ? hi[r.below(4)] : 0xD800 + r.below(0x400));
      o += "\\u";
      hex4(o, r.chance(1, 2) ? lo[r.below(4)] : 0xDC00 + r.below(0x400));
      break;
    }
    case 4: o = (char)(0x80 + r.below(0x80)); break;
    case 5: r_utf8(o, r.range(0x80, 0x7FF)); break;
    case 6: r_utf8(o, r.range(0xE000, 0xFFFF)); break;
    case 7: r_utf8(o, r.range(0x10000, 0x10FFFF)); break;
    case 8: o = "/"; break;
    case 9: o = "[]{},:' "[r.below(8)]; break;
    default: {
      unsigned char c = (unsigned char)r.range(0x20, 0x7F);
      if (c == '"' || c == '\\') c = 'x';
      o = (char)c;
    }
    }
    return o;
  }
  string strBody(int maxPieces = 12) {
    string o;
    int n;
    switch (r.below(10)) {
    case 0: return o;
    case 1: n = 1; break;
    case 2: n = r.range(0, 4 * maxPieces); break;
    default: n = r.range(0, maxPieces);
    }
    for (int i = 0; i < n; i++) o += piece();
    if (r.chance(1, 60)) { // long run
      static const int sz[] = {60, 120, 127, 128, 129, 255, 500, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 9000};
      o += string((size_t)(sz[r.below(sizeof sz / sizeof *sz)] + r.range(-3, 3)), (char)r.range('a', 'z'));
    }
    return o;
  }
  string stem; // of a family of keys that differ in one place only
  string nearKey(string k) { // a different byte string, as close as possible
    string o = k;
    size_t n = k.size();
    switch (r.below(n > 1 ? 7 : n ? 4 : 1)) {
    case 0: o.insert((size_t)r.below((uint32_t)n + 1), 1, (char)r.range('a', 'z')); break;
    case 1: case 2: case 3: { size_t i = r.below((uint32_t)n); char x = r.chance(1, 2) ? (char)(k[i] ^ (1 << r.below(8))) : (char)r.range('a', 'z'); if (x) o[i] = x; break; }
    case 4: o.erase((size_t)r.below((uint32_t)n), 1); break;
    case 5: { size_t i = r.below((uint32_t)n - 1); std::swap(o[i], o[i + 1]); break; }
    default: { size_t i = r.below((uint32_t)n), j = r.below((uint32_t)n); std::swap(o[i], o[j]); }
    }
    return o;
  }
  string famKey() { // legal key of the current family
    if (stem.empty() || r.chance(1, 24)) {
      static const int sz[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257};
      size_t n = (size_t)(r.chance(1, 3) ? r.range(1, 40) : sz[r.below(sizeof sz / sizeof *sz)]);
      stem.clear();
      for (size_t i = 0; i < n; i++) stem += (char)r.range('a', r.chance(1, 2) ? 'c' : 'z');
    }
    string o = stem;
    switch (r.below(6)) {
    case 0: break;
    case 1: o += (char)r.range('A', 'Z'); break;
    case 2: o.erase((size_t)r.below((uint32_t)o.size()), 1); break;
    case 3: if (o.size() > 1) { size_t i = r.below((uint32_t)o.size() - 1); std::swap(o[i], o[i + 1]); break; } // fall through
    default: o[r.below((uint32_t)o.size())] = (char)r.range('A', 'Z');
    }
    return o;
  }
  string key() {
    if (r.chance(1, 10)) return famKey();
    static const char *k[] = {"", "a", "b", "aa", "ab", "abc", "k", "k1", "k10", "key", "\\u0061", "\\n", "\xc3\xa9", "a\\\"", "0", " "};
    if (r.chance(2, 3)) return k[r.below(sizeof k / sizeof *k)];
    return strBody(5);
  }
  string digits(int n, bool lead0 = true) {
    string o;
    for (int i = 0; i < n; i++) o += (char)((i == 0 && !lead0) ? r.range('1', '9') : r.range('0', '9'));
    return o;
  }
  string num() {
    static const char *fix[] = {"0", "-0", "1", "-1", "7", "10", "-0.0", "0.0", "0.1", "1e0", "1E+2", "1e-2", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e308", "1e309", "-1e400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "2.2250738585072011e-308", "2.2250738585072014e-308", "9007199254740993", "9007199254740992.5", "0.1e1", "123456.789e-3", "1e00", "1E-00", "5e-1"};
    if (r.chance(1, 4)) return fix[r.below(sizeof fix / sizeof *fix)];
    string o;
    if (r.chance(1, 3)) o += '-';
    if (r.chance(1, 5)) o += '0';
    else {
      int n = r.chance(1, 12) ? r.range(1, 400) : r.chance(1, 4) ? r.range(8, 22) : r.range(1, 7);
      o += digits(n, false);
    }
    if (r.chance(1, 3)) { o += '.'; o += digits(r.chance(1, 12) ? r.range(1, 300) : r.range(1, 18)); }
    if (r.chance(1, 4)) { o += r.chance(1, 2) ? 'e' : 'E'; if (r.chance(2, 3)) o += r.chance(1, 2) ? '+' : '-'; o += digits(r.chance(1, 10) ? r.range(3, 6) : r.range(1, 3)); }
    if (r.chance(1, 40)) { // around the 128 byte mark
      size_t want = (size_t)r.range(124, 132);
      string d = digits(200, false);
      o = (r.chance(1, 2) ? "-" : "") + d;
      o.resize(want);
    }
    return o;
  }
  string ws() {
    string o;
    if (r.chance(3, 4)) return o;
    int n = r.chance(1, 30) ? r.range(5, 60) : r.range(1, 4);
    for (int i = 0; i < n; i++) o += " \t\n\r"[r.below(4)];
    return o;
  }
  bool spaces = true;
  string w() { return spaces ? ws() : string(); }
  // a valid document with about `budget` nodes
  void value(string &o, int &budget, int depth) {
    budget--;
    int k = (int)r.below(10);
    if (depth <= 0 || budget <= 0) k = (int)r.below(6);
    if (k >= 6) {
      bool obj = r.chance(1, 2);
      int n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 1 : r.range(1, 6);
      if (r.chance(1, 40)) n = r.range(10, 60);
      o += obj ? '{' : '[';
      o += w();
      for (int i = 0; i < n && budget > 0; i++) {
        if (i) { o += ','; o += w(); }
        if (obj) { o += '"'; o += key(); o += '"'; o += w(); o += ':'; o += w(); }
        value(o, budget, depth - 1);
        o += w();
      }
      o += obj ? '}' : ']';
      return;
    }
    switch (k) {
    case 0: case 1: o += '"'; o += strBody(); o += '"'; break;
    case 2: case 3: o += num(); break;
    case 4: o += r.chance(1, 2) ? "true" : "false"; break;
    default: o += "null";
    }
  }
  string doc(int budget = 25, int depth = 6) {
    string o = w();
    if (r.chance(1, 4)) { int b = budget; value(o, b, depth); }
    else { // force a container
      bool obj = r.chance(1, 2);
      int n = r.range(0, 6), b = budget;
      o += obj ? '{' : '[';
      o += w();
      for (int i = 0; i < n; i++) {
        if (i) { o += ','; o += w(); }
        if (obj) { o += '"'; o += key(); o += '"'; o += w(); o += ':'; o += w(); }
        value(o, b, depth - 1);
        o += w();
      }
      o += obj ? '}' : ']';
    }
    o += w();
    return o;
  }
  char hostile() {
    static const char set[] = "[]{},:\"\\/0123456789+-.eEtrufalsn \t\n\r\x01\x08\x0b\x0c\x1f\x7f\x80\xff'uUxXdDcCbBgGaAzZ*;";
    if (r.chance(1, 6)) return (char)(1 + r.below(255));
    return set[r.below(sizeof set - 1)];
  }
  string mutate(string t) {
    int n = r.chance(2, 3) ? 1 : r.range(2, 4);
    for (int k = 0; k < n; k++) {
      size_t L = t.size();
      size_t p = L ? r.below((uint32_t)L) : 0;
      switch (r.below(11)) {
      case 0: if (L) t.erase(p, 1); break;
      case 1: t.insert(p, 1, hostile()); break;
      case 2: if (L) t[p] = hostile(); break;
      case 3: t.resize(p); break;
      case 4: if (L > 1) std::swap(t[p], t[r.below((uint32_t)L)]); break;
      case 5: t += hostile(); break;
      case 6: t.insert(0, 1, hostile()); break;
      case 7: if (L) { size_t q = r.below((uint32_t)L); size_t n2 = r.below(8); t.insert(p, t.substr(q, n2)); } break;
      case 8: if (L) t.erase(p, r.below(6)); break;
      case 9: {
        static const char *tok[] = {"\\uD800", "\\uDC00", "\\u12", "\\u", "\\", "tru", "nul", "fals", "-", "1.", "1e", "01", "+1", ".5", "0x1", ",,", "[]", "{}", "{\"a\"}", "\"a\":", "//", "/**/", "NaN", "Infinity", "\\uD800\\u0041", "\\ud800\\", "\\uDBFF\\uE000", "True", "\xef\xbb\xbf", "\v", "\f"};
        t.insert(p, tok[r.below(sizeof tok / sizeof *tok)]);
        break;
      }
      default: if (L) t[p] = (char)(t[p] ^ (1 << r.below(7)));
      }
    }
    for (char &c : t) if (c == 0) c = '\x1e';
    return t;
  }
  string bytes(int maxLen, bool nul) {
    int n = r.chance(1, 10) ? r.range(0, maxLen * 8) : r.range(0, maxLen);
    string o;
    for (int i = 0; i < n; i++) {
      int c;
      switch (r.below(6)) {
      case 0: c = (int)r.below(0x20); break;
      case 1: c = "\"\\/\b\f\n\r\t\x7f"[r.below(9)]; break;
      case 2: c = (int)(0x80 + r.below(0x80)); break;
      default: c = (int)r.range(0x20, 0x7e);
      }
      if (c == 0 && !nul) c = 1;
      o += (char)c;
    }
    return o;
  }
};
#endif
