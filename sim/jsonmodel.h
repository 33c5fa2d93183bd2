// Reference model of JSON: values, a text generator, an independent tokenizer/parser giving the expected record list.
#pragma once
#include "simrt.h"
#include <map>
#include <cmath>
#include <cstring>
using namespace sim;
enum MT { MNULL, MOBJ, MARR, MSTR, MBOOL, MINT, MREAL };
struct M { MT t = MNULL; bool b = false; int64_t i = 0; double d = 0; std::string s; std::vector<M> a; std::map<std::string, M> o;
  static M S(const std::string &s) { M m; m.t = MSTR; m.s = s; return m; } static M I(int64_t i) { M m; m.t = MINT; m.i = i; return m; } static M B(bool b) { M m; m.t = MBOOL; m.b = b; return m; } static M R(double d) { M m; m.t = MREAL; m.d = d; return m; } static M A() { M m; m.t = MARR; return m; } static M O() { M m; m.t = MOBJ; return m; } };
static bool operator==(const M &x, const M &y) { return x.t == y.t && (x.t != MBOOL || x.b == y.b) && (x.t != MINT || x.i == y.i) && (x.t != MREAL || x.d == y.d) && (x.t != MSTR || x.s == y.s) && (x.t != MARR || x.a == y.a) && (x.t != MOBJ || x.o == y.o); }
static std::string dump(const M &m) {   // for messages only
  switch (m.t) { case MNULL: return "null"; case MBOOL: return m.b ? "true" : "false"; case MINT: return strf("%lld", (long long)m.i); case MREAL: return strf("%gr", m.d); case MSTR: return "\"" + show(m.s, 40) + "\"";
  case MARR: { std::string r = "["; for (auto &e : m.a) r += (r.size() > 1 ? "," : "") + dump(e); return r + "]"; } default: { std::string r = "{"; for (auto &e : m.o) r += (r.size() > 1 ? "," : "") + show(e.first, 30) + ":" + dump(e.second); return r + "}"; } }
}
static size_t msize(const M &m) { size_t n = 1; for (auto &e : m.a) n += msize(e); for (auto &e : m.o) n += msize(e.second); return n; }
static int mdepth(const M &m) { int d = 0; for (auto &e : m.a) d = std::max(d, mdepth(e)); for (auto &e : m.o) d = std::max(d, mdepth(e.second)); return d + 1; }

// ---- generation
static std::string gen_str(int max) {
  static const char *P[] = {"a", "b", "name", " ", "\"", "\\", "/", "\n", "\t", "\b", "\f", "\r", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe4\xb8\x96", "\xff", "{", "]", ",", ":", "1", "u0041", "n", "\xd0\xb4\xd0\xb2", "0123456789abcdefghij", "\xf0\x9f\x98\x80", "\xdf\xbf\xe0\xa0\x80", "\xef\xbf\xbd\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xc2\x80"};
  std::string s; int n = (int)draw(max + 1); bool plain = draw(2) == 0; for (int i = 0; i < n; i++) s += P[plain ? draw(4) : draw(32)]; return s;
}
static bool fine_reals;                                                // reals with more digits than the writer keeps
static double gen_real() { if (fine_reals && draw(3) == 2) { double x = (double)(int64_t)(draw(1u << 31) * draw(1u << 20)) / (double)(1ull << draw(60)); return draw(2) ? -x : x; } int64_t k = (int64_t)draw(2000) - 1000; switch (draw(5)) { case 3: return k * 1e15 + 0.5; case 4: return k / 16.0 * 1024 * 1024; default: return k / 16.0; } }
static M gen_m(int depth, int &left) {
  left--;
  switch (draw(depth > 0 && left > 0 ? 10 : 6)) {
    case 0: return M(); case 1: return M::B(draw(2)); case 2: switch (draw(6)) { case 4: return M::I(INT64_MIN + (int64_t)draw(2)); case 5: return M::I(INT64_MAX - (int64_t)draw(2)); default: return M::I((int64_t)draw(3000) - 1000); }
    case 3: return M::R(gen_real()); case 4: case 5: return M::S(gen_str(6));
    case 6: case 7: { M m = M::A(); int n = (int)draw(5); for (int i = 0; i < n && left > 0; i++) m.a.push_back(gen_m(depth - 1, left)); return m; }
    default: { M m = M::O(); int n = (int)draw(5); for (int i = 0; i < n && left > 0; i++) { std::string k = draw(2) ? strf("k%d", (int)draw(4)) : gen_str(3); m.o[k] = gen_m(depth - 1, left); } return m; }
  }
}
static M gen_m(int depth = 4) { int left = 1 + (int)draw(24); M m = gen_m(depth, left); int deep = chance(1, 8) ? 1 + (int)draw(36) : 0; while (deep-- > 0) { M w; if (draw(2)) { w.t = MARR; w.a.push_back(m); } else { w.t = MOBJ; w.o["d"] = m; } m = w; } return m; }
// values of sizes that no fixed buffer expects
static std::string gen_long_str(int huge) { std::string s; size_t n = (size_t)1 << (huge && draw(8) == 7 ? huge : 6 + draw(7)); n += draw(5); n -= std::min<size_t>(n, 2); uint64_t how = draw(3); while (s.size() < n) { if (how == 0) s += 'x'; else if (how == 1) s += gen_str(20); else { s += std::string(1 + draw(60), 'a' + (char)draw(26)); s += gen_str(2); } } if (how < 2 && draw(2)) s.resize(n, 'y'); while (s.size() && (s.back() & 0x80)) s.pop_back(); if (draw(4) == 3 && s.size()) s[draw(s.size())] = '\0'; return s; }
static M gen_big(int huge = 0) {
  M m = gen_m(); if (!chance(1, 8)) return m; M x = draw(2) ? M::A() : M::O(); auto put = [&](const std::string &k, M v) { if (x.t == MARR) x.a.push_back(std::move(v)); else x.o[k] = std::move(v); }; put("m", m);
  int kind = (int)draw(4); if (kind == 0) put("s", M::S(gen_long_str(huge))); else if (kind == 1) put(gen_long_str(huge), M::I(1)); else { size_t n = 1 + draw((size_t)1 << (4 + draw(6))); M w = draw(2) ? M::A() : M::O(); bool flat = draw(2); for (size_t i = 0; i < n; i++) { int l = 3; M e = flat ? M::I((int64_t)i) : gen_m(1, l); if (w.t == MARR) w.a.push_back(e); else w.o[strf("k%zu", i)] = e; } put("w", w); }
  if (draw(3) == 2) { std::string s = gen_str(4); s.insert(draw(s.size() + 1), 1, '\0'); put("z", M::S(s)); } put("l", M()); return x; }
static std::string ws(int how) { if (how == 0) return ""; static const char *W[] = {"", " ", "\n", "\t", "\r\n", "   "}; return W[draw(how == 1 ? 2 : 6)]; }
// a character outside ASCII as an escape, in UTF-16 units; 0 when there is no valid sequence at p
static int emit_escape(const std::string &s, size_t p, std::string &out) {
  unsigned char c = s[p]; int n = c >= 0xf0 && c < 0xf5 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0; if (c < 0xc2 || c >= 0xf5 || p + n > s.size()) return 0; uint32_t wc = c & (0x7f >> n);
  for (int i = 1; i < n; i++) { unsigned char d = s[p + i]; if ((d & 0xc0) != 0x80) return 0; wc = wc << 6 | (d & 0x3f); }
  if (wc < (n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u) || (wc >= 0xd800 && wc < 0xe000) || wc > 0x10ffff) return 0; const char *f = draw(2) ? "\\u%04x" : "\\u%04X";
  if (wc >= 0x10000) { out += strf(f, 0xd800 + ((wc - 0x10000) >> 10)); out += strf(f, 0xdc00 + ((wc - 0x10000) & 0x3ff)); } else out += strf(f, wc);
  return n;
}
static void emit_str(const std::string &s, std::string &out, int how) {
  out += '"';
  for (size_t p = 0; p < s.size(); p++) { unsigned char c = s[p]; int k = how && c >= 0x80 && draw(3) == 2 ? emit_escape(s, p, out) : 0; if (k) { p += k - 1; continue; }
    static const char *E = "\"\\\b\f\n\r\t", *L = "\"\\bfnrt"; const char *e = c ? strchr(E, c) : nullptr;
    if (e && !(how && draw(6) == 5)) { out += '\\'; out += L[e - E]; } else if (c < 32 || e) out += strf(draw(2) ? "\\u%04x" : "\\u%04X", c);
    else if (how && c < 127 && draw(20) == 19) out += strf("\\u%04x", c); else out += (char)c;
  }
  out += '"';
}
static void emit(const M &m, std::string &out, int how) {
  switch (m.t) {
    case MNULL: out += "null"; break; case MBOOL: out += m.b ? "true" : "false"; break; case MINT: out += strf("%lld", (long long)m.i); break;
    case MREAL: { std::string r = strf("%.17g", m.d); if (r.find_first_of(".e") == std::string::npos) r += draw(2) ? ".0" : "e0"; out += r; break; }
    case MSTR: emit_str(m.s, out, how); break;
    case MARR: { out += "[" + ws(how); bool f = true; for (auto &e : m.a) { if (!f) out += "," + ws(how); f = false; emit(e, out, how); out += ws(how); } out += "]"; break; }
    default: { out += "{" + ws(how); bool f = true; for (auto &e : m.o) { if (!f) out += "," + ws(how); f = false;
        if (how && draw(10) == 9) { emit_str(e.first, out, how); out += ws(how) + ":" + ws(how); M x; int l = 2; emit(gen_m(1, l), out, how); out += ","; }   // duplicate member: the last one counts
        emit_str(e.first, out, how); out += ws(how) + ":" + ws(how); emit(e.second, out, how); out += ws(how); } out += "}"; }
  }
}
static const char *CORRUPT[] = {"\"", "\\", "{", "}", "[", "]", ",", ":", "0", "-", ".", "e", "t", "null", " ", "\n", "\xff", "1.", "+", "\\u12", "'", "/*"};
static std::string corrupt(std::string s) {
  int n = 1 + (int)draw(3);
  for (int i = 0; i < n; i++) { size_t p = draw(s.size() + 1); std::string x = draw(5) == 4 ? std::string(1, (char)draw(256)) : CORRUPT[draw(22)];
    switch (draw(4)) { case 0: s.insert(p, x); break; case 1: if (p < s.size()) s.erase(p, 1 + draw(3)); break; case 2: if (p < s.size()) s.replace(p, 1, x); break; default: { size_t q = draw(s.size() + 1); if (p > q) std::swap(p, q); s.insert(draw(s.size() + 1), s.substr(p, std::min<size_t>(q - p, 20))); } } }
  return s;
}

// ---- reference tokenizer and parser
enum { TEND = 0, TBAD = -1, TSTR = 1, TINT, TNUM, TTRUE, TFALSE, TNULL };
struct Rec { int type, val; size_t name, nsize, value, vsize; };   // type 1 begin, 2 end; val as in rexjson.h
struct RefParser {
  const std::string &s; size_t p = 0, tok = 0, len = 0; int id = TEND; size_t levels; std::vector<Rec> recs; bool deep = false; size_t overrun = 0;
  RefParser(const std::string &s, size_t levels) : s(s), levels(levels) {}
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  void number() {                                                   // longest prefix that is a number
    size_t q = p; auto at = [&](size_t k) { return k < s.size() ? s[k] : '\0'; }; size_t b = q; if (at(q) == '-') q++; if (!dig(at(q))) { id = TBAD; overrun = q; return; }
    if (at(q) == '0') q++; else while (dig(at(q))) q++;
    id = TINT; size_t e = q; overrun = q;
    if (at(q) == '.') { size_t k = q + 1; while (dig(at(k))) k++; overrun = k; if (k > q + 1) { q = e = k; id = TNUM; } }
    if (q == e && (at(q) == 'e' || at(q) == 'E')) { size_t k = q + 1; if (at(k) == '+' || at(k) == '-') k++; size_t f = k; while (dig(at(k))) k++; overrun = k; if (k > f) { e = k; id = TNUM; } }
    len = e - b;
  }
  void next() {
    while (p < s.size() && strchr("\t\r\n ", s[p]) && s[p]) p++;
    tok = p; len = 0; overrun = 0; if (p >= s.size()) { id = TEND; return; }
    char c = s[p];
    if (strchr(",:[]{}", c) && c) { id = c; len = 1; }
    else if (c == '"') {
      size_t q = p + 1; id = TBAD;
      while (q < s.size()) { unsigned char k = s[q]; if (k == '"') { id = TSTR; len = q + 1 - p; break; } if (k < 32) break; if (k != '\\') { q++; continue; } q++; if (q >= s.size()) break; if (s[q] == 'u') { int h = 0; q++; while (h < 4 && q < s.size() && isxdigit((unsigned char)s[q])) h++, q++; if (h < 4) break; } else if (s[q] && strchr("\"\\bfnrt/", s[q])) { if (s[q] == '/') { slash = true; } q++; } else break; }
    }
    else if (c == '-' || dig(c)) number();
    else { id = TBAD; static const struct { const char *w; int id; } K[] = {{"true", TTRUE}, {"false", TFALSE}, {"null", TNULL}}; for (auto &k : K) if (!s.compare(p, strlen(k.w), k.w)) { id = k.id; len = strlen(k.w); } }
    p += len;
  }
  bool slash = false;                                               // saw \/ (see solidus below)
  bool value(size_t name, size_t nsize) {
    if (!levels) { deep = true; return false; } levels--; size_t me = recs.size(), beg = tok, end; int vt; bool ok = true; recs.push_back({1, 0, name, nsize, 0, 0});
    if (id == '{' || id == '[') {
      bool obj = id == '{'; int close = obj ? '}' : ']'; vt = obj ? 7 : 6; next();
      if (id != close) for (;;) { size_t n = 0, ns = 0; if (obj) { if (id != TSTR) return false; n = tok; ns = len; next(); if (id != ':') return false; next(); } if (!value(n, ns)) return false; if (id != ',') break; next(); }
      if (id != close) return false; end = tok + len; next();
    } else { end = tok + len; static const int V[] = {0, 5, 3, 4, 1, 2, 0}; if (id < TSTR || id > TNULL) return false; vt = V[id]; next(); }
    (void)ok; recs[me].val = vt; recs[me].value = beg; recs[me].vsize = end - beg; Rec e = recs[me]; e.type = 2; recs.push_back(e); levels++; return true;
  }
  bool parse() { next(); return value(0, 0); }
};
