// Workload generator for regular expressions, shared by the rex and tool harnesses.
#pragma once
#include "simrt.h"
#include <map>
#include <set>
#include <string>
extern "C" {
#include "rlib/rutf.h"
}
#include <vector>
using namespace sim;
static const std::vector<std::string> CH = {"a", "b", "c", "d", "x", "0", "7", "\\n", "\\.", "\\\\", "\\(", "\\t", "\xc3\xa9", "\xe4\xb8\x96", "\xf0\x9f\x98\x80", "-", "_", "\\[", "~", "\xf4\x8f\xbf\xbd"};
static const std::vector<std::string> LIT = {"a", "b", "c", "d", "x", "0", "7", "\n", ".", "\\", "(", "\t", "\xc3\xa9", "\xe4\xb8\x96", "\xf0\x9f\x98\x80", "-", "_", "[", "~", "\xf4\x8f\xbf\xbd"};
// what an expression means, independent of the code under test: a tree of code point sets, sequences, alternatives and repetitions
struct ReNode { enum K { SET, CAT, ALT, REP } k = SET; std::vector<std::pair<uint32_t, uint32_t>> set; bool neg = false; std::vector<ReNode> kids; int lo = 1, hi = 1; };   // hi < 0: no upper limit
typedef std::set<size_t> Pos;
static const uint32_t UNDECODABLE = ~0u;
static Pos ends(const ReNode &n, const std::vector<uint32_t> &t, const Pos &from) {
  Pos r;
  switch (n.k) {
  case ReNode::SET: for (size_t p : from) if (p < t.size() && t[p] != UNDECODABLE) { bool in = false; for (auto &x : n.set) in |= t[p] >= x.first && t[p] <= x.second; if (in != n.neg) r.insert(p + 1); } return r;
  case ReNode::CAT: r = from; for (auto &k : n.kids) r = ends(k, t, r); return r;
  case ReNode::ALT: for (auto &k : n.kids) { Pos e = ends(k, t, from); r.insert(e.begin(), e.end()); } return r;
  default: { Pos cur = from; for (int i = 0; i < n.lo; i++) cur = ends(n.kids[0], t, cur); r = cur;
    for (int i = n.lo; n.hi < 0 || i < n.hi; i++) { cur = ends(n.kids[0], t, cur); size_t before = r.size(); r.insert(cur.begin(), cur.end()); if (r.size() == before && n.hi < 0) break; if (cur.empty()) break; } return r; }
  }
}
static std::string utf8(uint32_t c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
static uint32_t cp1(const std::string &s, size_t &p) { unsigned char c = s[p++]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; while (n-- && p < s.size()) v = v << 6 | (s[p++] & 63); return v; }
struct E { std::string e, w; ReNode n; };                          // an expression, one text it should accept, and its meaning
static E ch() { size_t i = draw(3) ? draw(4) : draw(CH.size()); E e{CH[i], LIT[i], {}}; size_t p = 0; uint32_t c = cp1(LIT[i], p); e.n.set = {{c, c}}; return e; }
static const std::vector<uint32_t> CPS = {'a', 'b', 'c', 'd', 'x', '0', '7', 'z', '_', '\n', '\t', '\\', ']', '[', '-', '^', '#', ' ', 0x7e, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x4e16, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff};
static bool cls_plain(uint32_t c) { unsigned char l = c & 0xff; return c != '\n' && c != '\\' && c != '#' && l && l != ']' && l != '[' && l != '-' && l != '^'; }
static std::string cls_char(uint32_t c) {                         // one way of writing c inside a class
  switch (draw(4)) { case 3: switch (draw(4)) { case 0: return strf("#x%x", c); case 1: return strf("#0x%X", c); case 2: return strf("#%u", c); default: return strf("#0%o", c); } default: break; }
  if (c == '\n') return "\\n"; if (c == '\t' && draw(2)) return "\\t"; if (!cls_plain(c)) return c < 0x80 ? std::string("\\") + (char)c : strf("#x%x", c); return utf8(c);
}
static E cls_random() {
  E e; e.e = "["; if ((e.n.neg = draw(3) == 2)) e.e += "^"; int k = 1 + (int)draw(3); bool lastnum = false;
  for (int i = 0; i < k; i++) {
    uint32_t lo = CPS[draw(3) ? draw(8) : draw(CPS.size())], hi = lo; if (draw(2)) { hi = CPS[draw(3) ? draw(8) : draw(CPS.size())]; if (hi < lo) std::swap(lo, hi); }
    std::string a = cls_char(lo); if (lastnum && isxdigit((unsigned char)a[0])) a = strf("#x%x", lo); e.e += a; if (hi != lo) e.e += "-" + (a = cls_char(hi)); lastnum = a[0] == '#' ; e.n.set.push_back({lo, hi});
  }
  e.e += "]"; auto has = [&](uint32_t c) { bool in = false; for (auto &x : e.n.set) in |= c >= x.first && c <= x.second; return in != e.n.neg; };
  for (int i = 0; i < 12; i++) { auto &x = e.n.set[draw(k)]; uint32_t c = draw(3) == 2 ? CPS[draw(CPS.size())] : draw(2) ? x.second + (e.n.neg ? 1 : 0) : x.first - (e.n.neg && x.first ? 1 : 0); if (c < 0x110000 && c && !(c >= 0xd800 && c < 0xe000) && has(c)) { e.w = utf8(c); break; } }
  return e;
}
static E cls() {
  struct C { const char *e, *w; std::vector<std::pair<uint32_t, uint32_t>> s; bool neg; };
  static const C T[] = {{"[ab]", "b", {{'a', 'b'}}, false}, {"[a-c]", "c", {{'a', 'c'}}, false}, {"[^a]", "b", {{'a', 'a'}}, true}, {"[^a-b]", "d", {{'a', 'b'}}, true}, {"[b-dx]", "x", {{'b', 'd'}, {'x', 'x'}}, false}, {"[0-7]", "7", {{'0', '7'}}, false}, {".", "\xf0\x9f\x98\x80", {{'\n', '\n'}}, true}};
  if (draw(3) == 2) return cls_random();
  auto &c = T[draw(7)]; E e{c.e, c.w, {}}; e.n.set = c.s; e.n.neg = c.neg; return e;
}
static bool g_cont = true;                                        // a backslash before a line end joins the lines
static bool g_blanks = true;                                      // blanks between factors mean nothing
static E gen_expr(int depth, bool incount) {
  E s; s.n.k = ReNode::ALT; int alts = draw(3) == 2 ? 2 + (int)draw(2) : 1; size_t take = draw(alts);
  for (int a = 0; a < alts; a++) {
    if (a) s.e += draw(8) || !g_blanks ? "|" : " |  ";
    ReNode cat; cat.k = ReNode::CAT; int k = 1 + (int)draw(depth ? 2 : 4);
    for (int i = 0; i < k; i++) {
      bool grp = depth < 3 && draw(4) == 3; uint64_t q = draw(10); bool cnt = q >= 7 && q <= 8 && (!incount || chance(1, 12)); size_t rep = 1;
      E f = grp ? gen_expr(depth + 1, incount || cnt) : draw(3) == 2 ? cls() : ch(); if (grp) f.e = "(" + f.e + ")";
      ReNode r; r.k = ReNode::REP; const char *sp = g_blanks && chance(1, 12) ? " " : "";
      if (q == 4) f.e += "*", rep = draw(4), r.lo = 0, r.hi = -1; else if (q == 5) f.e += "?", rep = draw(2), r.lo = 0; else if (q == 6) f.e += "+", rep = 1 + draw(3), r.hi = -1;
      else if (cnt) { int lo = (int)draw(4), hi = lo + (int)draw(3); switch (draw(3)) { case 0: if (draw(8) && !lo) lo = 1; f.e += strf("{%s%d%s}", sp, lo, sp); hi = r.lo = r.hi = lo; break; case 1: f.e += strf("{%d,%s}", lo, sp); r.lo = lo; r.hi = -1; break; default: if (!hi) hi = 1; f.e += strf("{%d%s,%s%d}", lo, sp, sp, hi); r.lo = lo; r.hi = hi; } rep = lo + draw(hi - lo + 1); }
      s.e += f.e; if (g_blanks && chance(1, 25)) s.e += " "; if (g_cont && chance(1, 30)) s.e += draw(2) ? "\\\n" : "\\\r\n"; r.kids.push_back(f.n); cat.kids.push_back(r);
      if ((size_t)a == take) while (rep--) s.w += f.w;
    }
    s.n.kids.push_back(cat);
  }
  return s;
}
static std::vector<std::string> g_words;                          // texts of the run's expressions
static std::map<std::string, ReNode> g_mean;                        // meaning of the run's expressions
static std::string expr() { for (int i = 0; i < 6; i++) { E s = gen_expr(0, false); if (s.e.size() <= 36) { if (s.w.size() && s.w.size() < 60) g_words.push_back(s.w); g_mean[s.e] = s.n; return s.e; } } ReNode a, b, r, c; a.set = {{'a', 'a'}}; b.set = {{'b', 'b'}}; r.k = ReNode::REP; r.hi = -1; r.kids = {a}; c.k = ReNode::CAT; c.kids = {r, b}; g_mean["a+b"] = c; return "a+b"; }
// the characters of t[from..to) and their offsets; a byte that starts no character stands alone and matches nothing
static void characters(const std::string &t, size_t from, size_t to, std::vector<uint32_t> &c, std::vector<size_t> &off) {
  c.clear(); off.clear(); size_t p = from; std::string x = t.substr(0, to);
  while (p < to) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, (const unsigned char *)x.data() + p, (const unsigned char *)x.data() + to); if (inc <= 0) { wc = UNDECODABLE; inc = 1; } else { size_t q = p; uint32_t own = cp1(x, q); if (q - p == (size_t)inc && utf8(own) == x.substr(p, inc)) wc = own; } off.push_back(p); c.push_back(wc); p += inc; }
  off.push_back(p);
}
// byte offsets behind t[from..] at which expression e has matched
static Pos described(const std::string &e, const std::string &t, size_t from) {
  std::vector<uint32_t> c; std::vector<size_t> off; characters(t, from, t.size(), c, off);
  Pos r; for (size_t k : ends(g_mean.at(e), c, Pos{0})) if (k) r.insert(off[k] - from); return r;
}
static std::string gen_text_noise(size_t max, int style) {
  std::string s; size_t n = draw(max + 1);
  while (s.size() < n) {
    switch (style) { case 0: s += "abcdx07"[draw(7)]; break; case 1: s += LIT[draw(LIT.size())]; break; case 2: s += draw(6) ? std::string(1, "ab"[draw(2)]) : LIT[draw(LIT.size())]; break;
    default: if (chance(1, 10)) s += (char)(0x80 + draw(0x80)); else if (chance(1, 12)) s += '\0'; else s += LIT[draw(LIT.size())]; }
  }
  return s;
}
static std::string gen_text(size_t max) {
  std::string s; size_t n = draw(max + 1); int style = (int)draw(4);
  if (g_words.size() && draw(3)) { s = gen_text_noise(4, style); for (int i = 0, k = 1 + (int)draw(max > 30 ? 5 : 2); i < k; i++) { std::string w = g_words[draw(g_words.size())]; if (draw(3) == 2) switch (draw(3)) { case 0: w.resize(draw(w.size() + 1)); break; case 1: w += w; break; default: w[draw(w.size())] = "abcx0"[draw(5)]; } s += w; if (draw(2)) s += gen_text_noise(3, style); } return s; }
  s = gen_text_noise(n, style);
  if (chance(1, 6) && s.size()) s.resize(draw(s.size()));       // cuts a multi-byte character
  return s;
}

