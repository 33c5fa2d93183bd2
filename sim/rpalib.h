// Workload generator and outcome recorder for the rpa engine, shared by the rpa harnesses.
#pragma once
#include "simrt.h"
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <cstring>
extern "C" {
#include "rpa/rpa.h"
#include "rpa/rparecord.h"
#include "rpa/rpaerror.h"
#include "rpa/rpastat.h"
#include "rpa/rpastatpriv.h"
#include "rpa/rpadbex.h"
#include "rlib/rarray.h"
#include "rlib/rmem.h"
}
namespace rl {
using namespace sim;

struct Gram { std::string name, text; std::vector<std::string> roots, seeds; std::string alpha; bool aborts = false, loops = false; };

inline const std::vector<Gram> &pool() {
  static std::vector<Gram> v = {
    {"calc", "S\t::= [#x20]+\ndigit\t::= [0-9]\ninteger\t::= <:digit:>+\nterm\t::= <:integer:> | '('<:S:>? <:expr:> <:S:>? ')'\n"
     "mulop\t::= <:mulex:> <:S:>? '*' <:S:>? <:term:>\ndevop\t::= <:mulex:> <:S:>? '/' <:S:>? <:term:>\nmulex\t::= <:mulop:> | <:devop:> | <:term:>\n"
     "addop\t::= <:expr:> <:S:>? '+' <:S:>? <:mulex:>\nsubop\t::= <:expr:> <:S:>? '-' <:S:>? <:mulex:>\nexpr\t::= <:subop:> | <:addop:> | <:mulex:>\nnumexpr\t::= <:expr:>\n",
     {"numexpr", "expr", "term", "integer"}, {"1", "1+2", "(1+2)*3", "12 / (3-4) * 5", "1-2-3-4", "((((7))))", "5*6*7+8*9", "1+2*3-4/5+(6)"}, "0123456789+-*/() ", false, true},
    {"calcsimple", "#!noemit term\n#!noemit mulex\nint     ::= [0-9]+\nterm\t::= <:int:> | '(' <:expr:> ')'\nmulop   ::= ('*' | '/')\naddop   ::= ('+' | '-')\n"
     "mulex\t::= <:mulex:> <:mulop:> <:term:>  | <:term:>\nexpr\t::= <:expr:>  <:addop:> <:mulex:> | <:mulex:>\nnumexpr\t::= <:expr:>\n",
     {"numexpr", "expr", "mulex"}, {"1", "1+2", "(1+2)*3", "12/(3-4)*5", "((((7))))", "5*6*7+8*9"}, "0123456789+-*/()", false, true},
    {"loopy", "#!emitall\nn\t::= [0-9]+ | '(' <:land:> ')'\nplus\t::= <:plus:> '+' <:n:> | <:n:>\nmul\t::= <:mul:> '*' <:plus:> | <:plus:>\ndiv\t::= <:div:> '/' <:mul:> | <:mul:>\n"
     "or\t::= <:or:> '|' <:div:> | <:div:>\nland\t::= <:land:> '&&' <:or:> | <:or:>\nall\t::= <:land:>\n",
     {"all", "land", "mul"}, {"1", "1+2*3", "(1|2)&&3", "1&&2&&3+4", "((2))/3"}, "0123456789+*/|&()", false, true},
    {"directloop", "#!emit term\n#!emitall\nlb\t::= '('\nrb\t::= ')'\nterm\t ::= [0-9]+ | '(' <:exp:> ')'\n"
     "exp\t ::= <:exp:> '+' <:term:> | <:exp:> '-' <:term:> | <:exp:> '*' <:term:> | <:exp:> '/' <:term:> | <:term:>\n",
     {"exp", "term"}, {"1", "1+2-3*4/5", "(1+2)-(3)", "((1))", "1-1-1-1-1"}, "0123456789+-*/()", false, true},
    {"word", "WORD_char_en\t\t::= [a-zA-Z]\nWORD_decimal\t\t::= [0-9]\nWORD_char\t\t::= <WORD_char_en> | <WORD_decimal>\nWORD_simple\t\t::= <WORD_char>+\n"
     "WORD_multiple_char\t::= \"://\" | \"/?\" | [\\-_.:@%&/=;]\nWORD_multiple\t\t::= <WORD_simple>(<WORD_multiple_char><WORD_simple>)(<WORD_multiple_char><WORD_simple>)*\n"
     "WORD_appostr_base\t::= <WORD_multiple> | <WORD_simple>\nWORD_appostr\t\t::= <WORD_appostr_base>['](([sdt] | 've')?)\n"
     "WORD\t\t\t::= <:WORD_multiple:> | <:WORD_simple:>\nWORDS ::= (<:WORD_appostr:> | <:WORD_multiple:> | <:WORD_simple:>) ([#x20] (<:WORD_appostr:> | <:WORD_multiple:> | <:WORD_simple:>))*\n",
     {"WORDS", "WORD", "WORD_multiple"}, {"hello", "a-b-c", "http://x.y/z=1", "don't stop", "we've been bob's", "a1.b2"}, "abz09-.:/' ", false, false},
    {"paren", "#!emitall\natom ::= [a-z]\nlist ::= '(' <:item:>* ')'\nitem ::= <:list:> | <:atom:>\ntop ::= <:item:>+\n",
     {"top", "list", "item"}, {"a", "()", "(a(b)c)", "((((a))))", "(((((((((((((x)))))))))))))", "a(b(c(d)))"}, "abz()", false, false},
    {"backtrack", "#!emitall\nA ::= 'a' <:A:> 'b' | 'a' <:A:> 'c' | 'a'\nL ::= 'x'\nB ::= <:L:>+ 'y' | <:L:>+ 'z' | <:L:>\nC ::= (<:A:> | <:B:>)+\n",
     {"C", "A", "B"}, {"a", "aab", "aaabb", "aaacc", "aaabc", "xxxxy", "xxxxz", "xxxx", "aabxxyxz"}, "abcxyz", false, false},
    {"json", "S ::= [#x20#x9#xA#xD]+\ndigits ::= [0-9]+\nnumber ::= '-'? <:digits:> ('.' <:digits:>)?\nschar ::= [a-z0-9] | [#x20]\nstring ::= [#x22] <:schar:>* [#x22]\n"
     "member ::= <S>? <:string:> <S>? ':' <:value:>\nobject ::= '{' (<:member:> (',' <:member:>)*)? <S>? '}'\narray ::= '[' (<:value:> (',' <:value:>)*)? <S>? ']'\n"
     "value ::= <S>? (<:object:> | <:array:> | <:string:> | <:number:> | 'true' | 'false' | 'null') <S>?\n#!noemit S\n#!emitid string 7\n#!emitid number 8\n",
     {"value", "object", "array"}, {"1", "[]", "{}", "[1,2,[3]]", "{\"a\":1}", "{\"a\":[1,{\"b\":null}],\"c\":\"dd\"}", " [ true , false ] ", "[[[[[[]]]]]]"}, "[]{},:\"abtrue019- .", false, false},
    {"rule-abort", "#!emitall\n#!abort num\n#!abort rp\nlp ::= '('\nrp ::= ')'\nnum ::= [0-9]+\npair ::= <:lp:> <:num:> ',' <:num:> <:rp:>\nlist ::= (<:pair:> ';')+\n",
     {"list", "pair", "num"}, {"(1,2);", "(1,2);(3,4);", "(1,x);", "(1,2;", "(1,2);(3,);", "((1,2);"}, "0123(),;x", true, false},
    {"ident", "kw ::= ('if' | 'while' | 'do') - ('if' | 'while' | 'do') [a-z]\nid ::= [a-z]+\ntok ::= <:kw:> | <:id:> | <:cmt:>\ncmt ::= '/*' (. - '*/')* '*/'\nprog ::= <:tok:> ([#x20] <:tok:>)*\n",
     {"prog", "tok", "cmt"}, {"if", "iffy", "while do x", "a /* b */ c", "/**/", "do /* while", "zz if"}, "ifwhledo/* ", false, false},
    {"utf", "low ::= [#x430-#x44f]\nup ::= [#x410-#x42f]\nasc ::= [a-z]\nem ::= [#x1F600-#x1F64F]\nw ::= <:up:>? <:low:>+ | <:asc:>+ | <:em:>\ntext ::= <:w:> ([#x20] <:w:>)*\n",
     {"text", "w", "low"}, {"\xd0\xbf\xd1\x80", "\xd0\x9f\xd1\x80 abc", "\xf0\x9f\x98\x80 x", "abc", "\xd0\xbf a \xd0\xbf"}, "\xd0\xbf\x80\x9f\xf0 ab", false, false},
    {"kv", "#!emitnone\n#!emit key\n#!emit val\n#!emitid key 11\n#!emitid val 12\neol ::= [#xA]\nkey ::= [a-z]+\nval ::= (. - (<eol> | ';'))*\nline ::= <:key:> '=' <:val:> (';' | <eol>)\ndoc ::= <:line:>+\n",
     {"doc", "line"}, {"a=1;", "key=value\n", "a=1;b=2;c=3;", "x=;", "a=b=c\nz=9;"}, "abz=;\n19 ", false, false},
    {"minmax", "d ::= [0-9]\ndate ::= <:d:><:d:>?'/'<:d:><:d:>?'/'<:d:><:d:><:d:><:d:>\ntime ::= <:d:><:d:>':'<:d:><:d:>(':'<:d:><:d:>)?\nstamp ::= <:date:> [#x20]+ <:time:> | <:date:> | <:time:>\nlog ::= (<:stamp:> [,]?)+\n",
     {"log", "stamp", "date"}, {"1/2/2003", "12:34", "11/12/2013 01:02:03", "1/1/1000,2/2/2000", "1/2/200"}, "0123/: ,", false, false},
    {"rrec", "#!emitall\ne ::= <:t:> '+' <:e:> | <:t:> '-' <:e:> | <:t:>\nt ::= <:f:> '*' <:t:> | <:f:>\nf ::= '(' <:e:> ')' | <:n:> | <:v:>\nn ::= [0-9]+\nv ::= [a-z] [a-z0-9]*\n",
     {"e", "t", "f"}, {"1", "a+b", "(a+1)*b2", "((x))", "a*b*c-d", "1+2+3+4+5+6", "(((((1)))))*2"}, "01ab+-*()", false, false},
    {"anbncn", "#!emitall\nAB ::= 'a' <:AB:>? 'b'\nBC ::= 'b' <:BC:>? 'c'\nX ::= 'x'* <:AB:> | 'x'+\nS ::= <:AB:> 'c'* | 'a'+ <:BC:>\ntop ::= (<:S:> | <:X:>)+\n",
     {"top", "S", "AB"}, {"ab", "aabb", "aabbcc", "abbcc", "xxab", "xx", "aaabbb", "aaabbbc"}, "abcx", false, false},
    {"hidden", "#!emitall\nr ::= 'a' | ('a' 'c'?)* <:r:> .\nlist ::= <:list:> ','? | <:r:>\nu ::= <:u:> | <:list:>\no ::= <:o:> 'x' | 'y'? <:o:>? 'y'\np ::= (<:p:>)+ 'z' | ('b' | 'd') <:p:>? | ^[a-y] 'z'\ntop ::= (<:o:> | <:p:> | <:u:>)+\n",
     {"top", "u", "o", "p"}, {"a", "ac", "aca,", "yyxx", "yy", "bz", "bdbzz", "+z", "aaa,,", "yybza,"}, "acxybdz,+", false, true},
    {"operators", "#!emitall\nnox ::= ^'x'\nnum ::= [#x30-#x39] [#48-#57]*\nws ::= [\\r\\n\\ta]+\nplain ::= abc+ d?\nanyd ::= (^[#x21-#x2f] - ';')+ ';'\npart ::= <:num:> | <:plain:> | <:ws:> | <:anyd:> | <:nox:>\ntop ::= (^<:num:> <:part:> | <:part:>)+\ndots ::= . . (. - 'z')* 'z'?\n",
     {"top", "dots", "part"}, {"12", "abccd", "\t\na\r", "qq;", "12abc;x", "zzz", "ab\tz", "x1", "abc12;\ta"}, "abcdxz019;\t!/", false, false},
    {"wide", "c1 ::= [#x20-#x7f]\nc2 ::= [#x80-#x7ff]\nc3 ::= [#x800-#xffff]\nc4 ::= [#x10000-#x10ffff]\nedge ::= [#x7f] [#x80] [#x7ff] [#x800]\nword ::= <:c4:> <:c3:>? | (<:c3:> | <:c2:>)+ | <:edge:> | <:c1:>\ntext ::= <:word:>+ | <:word:>* .\nquoted ::= '\xc2\xab' (. - '\xc2\xbb')* '\xc2\xbb' | '\xf0\x9f\x98\x80'+ \n#!emitall\n",
     {"text", "word", "quoted"}, {"a\xc2\x80", "\x7f\xc2\x80\xdf\xbf\xe0\xa0\x80", "\xf0\x90\x80\x80\xef\xbf\xbf", "\xf4\x8f\xbf\xbf z", "\xc2\xabq\xe2\x82\xac\xc2\xbb", "\xf0\x9f\x98\x80\xf0\x9f\x98\x80", "\xed\x9f\xbf\xee\x80\x80", "\xdf\xbf\xe0\xa0\x80"}, "az\xc2\x80\xf0\x9f\xe2\xbf\xed ", false, false},
    {"refloop", "#!emitall\n#!emitid mark 4000000000\nmark ::= '!'+\nval ::= <list>? <:mark:> | [a-z]\nlist ::= <:list:>? ',' <:val:> | <:val:>\nopt ::= (<:opt:>? '.' [0-9])? [a-z]\nalt ::= <:alt:> ('+' | '-') <:opt:> | <:opt:>\ntop ::= <:alt:> | <:list:>\n",
     {"list", "alt", "top"}, {"a,b,c", "a", "a,!!", "x+y-z", "x", "b.1c+d", ",a", "a,b!,c"}, "abxyz,!.+-019", false, true},
  };
  return v;
}

// ---- random grammars: rules ordered, references go forward, or backward only behind a consumed literal ----
struct RNode { int op; std::string lit; std::vector<RNode> k; int rule = -1; };   // op: 0 lit 1 class 2 ref 3 seq 4 alt 5 star 6 plus 7 opt 8 notexp
inline std::string rtext(const RNode &n, const std::vector<std::string> &nm) {
  switch (n.op) {
  case 0: return "'" + n.lit + "'";
  case 1: return "[" + n.lit + "]";
  case 2: return "<:" + nm[n.rule] + ":>";
  case 3: { std::string s; for (auto &c : n.k) { if (!s.empty()) s += " "; s += c.op == 4 ? "(" + rtext(c, nm) + ")" : rtext(c, nm); } return s; }
  case 4: { std::string s; for (auto &c : n.k) { if (!s.empty()) s += " | "; s += rtext(c, nm); } return s; }
  case 5: return "(" + rtext(n.k[0], nm) + ")*";
  case 6: return "(" + rtext(n.k[0], nm) + ")+";
  case 7: return "(" + rtext(n.k[0], nm) + ")?";
  case 8: return "^[" + n.lit + "]";
  case 9: return "(" + rtext(n.k[0], nm) + " - '" + n.lit + "')";
  case 10: return "<" + nm[n.rule] + ">";
  }
  return "''";
}
inline RNode rnonnull(int rule, int nrules, int depth, bool afterlit);
inline RNode rleaf() { static const char *L[] = {"a", "b", "c", "ab", "ba", "x"}; static const char *C[] = {"a-c", "ab", "x-z", "0-9"};
  RNode n; if (draw(12) == 11) { n.op = 8; n.lit = C[draw(4)]; return n; } if (draw(3) == 0) { n.op = 1; n.lit = C[draw(4)]; } else { n.op = 0; n.lit = L[draw(6)]; } return n; }
inline RNode rseq(int rule, int nrules, int depth, bool al) {
  RNode s; s.op = 3; int n = 1 + draw(3); bool first = depth == 0;
  if (first && draw(2)) { s.k.push_back(rleaf()); al = true; } else s.k.push_back(rnonnull(rule, nrules, depth + 1, al));
  al = true;
  for (int i = 0; i < n; i++) { RNode b = rnonnull(rule, nrules, depth + 1, al); uint64_t d = draw(6); if (d >= 3) { RNode q; q.op = d == 3 ? 5 : d == 4 ? 7 : 6; q.k.push_back(b); s.k.push_back(q); } else s.k.push_back(b); }
  return s;
}
inline RNode rnonnull(int rule, int nrules, int depth, bool al) {
  uint64_t d = draw(10);
  if (depth > 3 || d < 3) return rleaf();
  if (d < 6) { RNode r; r.op = draw(5) == 4 ? 10 : 2; if (al && draw(3) == 0) r.rule = (int)draw(nrules); else if (rule + 1 < nrules) r.rule = rule + 1 + (int)draw(nrules - rule - 1); else return rleaf(); return r; }
  if (d < 7 && draw(4) == 3) { RNode p; p.op = 9; p.k.push_back(rleaf()); p.lit = draw(2) ? "ab" : "b"; RNode w; w.op = 3; w.k.push_back(p); return w; }
  if (d < 7) { RNode p; p.op = 6; p.k.push_back(rnonnull(rule, nrules, depth + 1, al)); return p; }
  if (d < 9 || depth > 2) { RNode a; a.op = 4; int n = 2 + draw(2); for (int i = 0; i < n; i++) a.k.push_back(draw(2) ? rseq(rule, nrules, depth + 2, al) : rnonnull(rule, nrules, depth + 1, al)); RNode w; w.op = 3; w.k.push_back(a); return w; }
  return rseq(rule, nrules, depth + 1, al);
}
inline void rgen(const RNode &n, const std::vector<RNode> &rules, std::string &out, int depth) {
  if (out.size() > 160) return;
  switch (n.op) {
  case 0: out += n.lit; break;
  case 1: { char lo = n.lit[0], hi = n.lit.size() == 3 && n.lit[1] == '-' ? n.lit[2] : n.lit[0]; if (n.lit.size() == 2) hi = n.lit[1]; out += (char)(lo + draw(hi - lo + 1)); break; }
  case 8: out += "mn-+ "[draw(5)]; break;
  case 9: rgen(n.k[0], rules, out, depth); break;
  case 10: case 2: if (depth < 9) rgen(rules[n.rule], rules, out, depth + 1); else out += 'a'; break;
  case 3: for (auto &c : n.k) rgen(c, rules, out, depth); break;
  case 4: rgen(n.k[draw(n.k.size())], rules, out, depth); break;
  case 5: for (int i = draw(3); i > 0; i--) rgen(n.k[0], rules, out, depth); break;
  case 6: for (int i = 1 + draw(3); i > 0; i--) rgen(n.k[0], rules, out, depth); break;
  case 7: if (draw(2)) rgen(n.k[0], rules, out, depth); break;
  }
}
inline Gram random_grammar() {
  Gram g; g.name = "random"; int n = 2 + draw(5); std::vector<std::string> nm; std::vector<RNode> rules;
  for (int i = 0; i < n; i++) nm.push_back(strf("r%d", i));
  if (draw(2)) g.text += "#!emitall\n";
  for (int i = 0; i < n; i++) { RNode r; r.op = 4; int k = 1 + draw(3); for (int j = 0; j < k; j++) r.k.push_back(rseq(i, n, 0, false));
    if (draw(6) == 5) { count("probe.random_left_recursion"); int m = 1 + draw(2); for (int j = 0; j < m; j++) { RNode s; s.op = 3; if (draw(6) == 5) { RNode q; q.op = draw(2) ? 5 : 7; q.k.push_back(rleaf()); s.k.push_back(q); } RNode self; self.op = 2; self.rule = i && draw(4) == 3 ? i - 1 : i; if (draw(6) == 5) { RNode q; q.op = 5 + (int)draw(3); q.k.push_back(self); self = q; } s.k.push_back(self); if (draw(5)) s.k.push_back(rleaf()); else if (draw(3)) { RNode q; q.op = draw(2) ? 5 : 7; q.k.push_back(rleaf()); s.k.push_back(q); } if (draw(2)) s.k.push_back(rnonnull(i, n, 2, true)); r.k.insert(r.k.begin() + draw(r.k.size() + 1), s); } }
    rules.push_back(r); }
  for (int i = 0; i < n; i++) g.text += nm[i] + " ::= " + rtext(rules[i], nm) + "\n";
  if (n > 3 && draw(4) == 0) g.text += "#!noemit r2\n";
  if (draw(4) == 0) g.text += "#!emitid r1 42\n";
  g.roots = {"r0", "r1"}; g.alpha = "abcx09z";
  for (int i = 0; i < 4; i++) { std::string s; rgen(rules[0], rules, s, 0); g.seeds.push_back(s); }
  return g;
}
// a rule of the grammar gets a name of some hundred characters, in its definition and wherever it is used
inline Gram long_name(Gram g) {
  std::string from = g.roots[draw(g.roots.size())]; static const int L[] = {127, 128, 170, 180, 239, 240, 254, 255, 256, 257, 512}; size_t n = draw(2) ? L[draw(11)] : 90 + draw(draw(4) ? 200 : 3000);
  std::string to = from + "_"; while (to.size() < n) to += "abcdefghij_klmnop9"[to.size() % 18]; std::string r; const std::string &t = g.text; auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
  for (size_t i = 0; i < t.size();) {
    bool at = !t.compare(i, from.size(), from) && (i == 0 || !id(t[i - 1])); size_t e = i + from.size(); at = at && (e >= t.size() || !id(t[e]));
    if (at) { size_t d = e; while (d < t.size() && strchr(" \t", t[d])) d++; size_t ls = t.rfind('\n', i); ls = ls == std::string::npos ? 0 : ls + 1; bool first = t.find_first_not_of(" \t", ls) == i;
      at = (first && !t.compare(d, 3, "::=")) || (i && (t[i - 1] == '<' || (t[i - 1] == ':' && i > 1 && t[i - 2] == '<'))) || !t.compare(ls, 2, "#!"); }
    if (at) { r += to; i = e; } else r += t[i++];
  }
  for (auto &x : g.roots) if (x == from) x = to;
  g.text = r; count("probe.long_rule_name"); return g;
}
inline Gram choose_grammar() { Gram g = draw(3) == 2 ? random_grammar() : pool()[draw(pool().size())]; if (chance(1, 20)) return long_name(g); return g; }

// ---- inputs ----
inline std::string make_input(const Gram &g, size_t maxlen = 220) {
  std::string s = g.seeds[draw(g.seeds.size())];
  uint64_t kind = draw(8);
  if (kind >= 2) { int n = (int)draw(4); for (int i = 0; i < n; i++) { const std::string &o = g.seeds[draw(g.seeds.size())];
      size_t at = draw(s.size() + 1); switch (draw(4)) { case 0: s += o; break; case 1: s.insert(at, o); break; case 2: if (s.size()) s.erase(at, 1 + draw(3)); break; default: if (g.alpha.size()) s.insert(at, 1, g.alpha[draw(g.alpha.size())]); } } }
  if (kind == 6) { int n = 1 + (int)draw(12); std::string b = s; for (int i = 0; i < n && s.size() < maxlen; i++) s += b; }
  if (kind == 7) { for (int i = 0, n = 1 + (int)draw(4); i < n && s.size(); i++) s[draw(s.size())] = (char)draw(256); }
  if (s.size() > maxlen) s.resize(maxlen);
  return s;
}
// every byte a code unit, or the characters as UTF-16 with surrogate pairs, now and then cut inside a character
inline std::string to_utf16(const std::string &s) {
  std::string r; auto unit = [&](unsigned u) { r += (char)(u & 255); r += (char)(u >> 8); };
  if (draw(2)) { for (unsigned char c : s) unit(c); return r; }
  for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0; unsigned v = n == 3 ? c & 7 : n == 2 ? c & 15 : n == 1 ? c & 31 : c; i++;
    for (; n && i < s.size() && (s[i] & 0xc0) == 0x80; n--, i++) v = v << 6 | (s[i] & 63);
    if (v < 0x10000) unit(v); else { v -= 0x10000; unit(0xd800 | (v >> 10 & 0x3ff)); unit(0xdc00 | (v & 0x3ff)); count("probe.surrogate_pair"); } }
  if (r.size() && draw(6) == 5) { r.resize(r.size() - 1 - draw(r.size() < 4 ? r.size() : 3)); count("fault.utf16_cut"); }
  return r; }

enum { PARSE, MATCH, SCAN };
struct Op { int kind = PARSE; std::string rule; unsigned enc = 0; std::string data; size_t off = 0; int prefill = 0, misuse = 0; bool trace = false;   // misuse: 1-3 an entry that is no rule, 4-6 no valid range, 7 nothing left to look at
  std::string str() const { static const char *k[] = {"parse", "match", "scan"}; return strf("%s%s%s rule=%s enc=%#x off=%zu prefill=%d input[%zu]=\"%s\"", misuse ? strf("misuse %d: ", misuse).c_str() : "", trace ? "traced " : "", k[kind], rule.c_str(), enc, off, prefill, data.size(), show(data, 80).c_str()); } };
inline Op make_op(const Gram &g, size_t maxlen = 220) {
  Op o; o.kind = (int)draw(3); o.rule = g.roots[draw(3) ? 0 : draw(g.roots.size())]; o.data = make_input(g, maxlen);
  switch (draw(8)) { case 5: o.enc = RPA_ENCODING_BYTE; break; case 6: o.enc = RPA_ENCODING_UTF16LE; o.data = to_utf16(o.data); break; default: o.enc = RPA_ENCODING_UTF8; }
  if (draw(6) == 5) o.enc |= RPA_ENCODING_ICASE;
  if (draw(4) == 3 && o.data.size()) { o.off = draw(o.data.size()); if ((o.enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF16LE) o.off &= ~(size_t)1; }
  if (draw(5) == 4) o.prefill = 1 + (int)draw(3);
  return o;
}

// Units of one length, each a seed with one of its characters repeated, so that the same construct returns at far apart offsets.
struct Stretch { std::vector<std::pair<std::string, size_t>> units; std::vector<std::string> plain;
  std::string at(size_t len) const { std::string r; for (size_t i = 0; i < units.size(); i++) { std::string o = units[i].first; if (o.size() < len) o.insert(units[i].second, len - o.size(), o.size() > units[i].second ? o[units[i].second] : 'a'); r += o.substr(0, len); r += plain[i]; } return r; } };
inline Stretch draw_stretch(const Gram &g) { Stretch t; size_t n = 2 + draw(2);
  for (size_t i = 0; i < n; i++) { if (i && !draw(3)) { t.units.push_back(t.units.back()); t.plain.push_back(""); continue; }
    std::string s = g.seeds[draw(g.seeds.size())]; std::vector<size_t> ok; for (size_t k = 0; k < s.size(); k++) if (!(s[k] & 0x80)) ok.push_back(k);
    t.units.push_back({s, ok.empty() ? s.size() : ok[draw(ok.size())]}); t.plain.push_back(""); }
  if (draw(2)) t.plain.back() = g.seeds[draw(g.seeds.size())];
  return t; }

struct Rec { std::string rule; long off, siz; unsigned type, ruleid, ruleuid, usertype;
  bool operator==(const Rec &o) const { return rule == o.rule && off == o.off && siz == o.siz && type == o.type && ruleid == o.ruleid && ruleuid == o.ruleuid && usertype == o.usertype; } };
struct Outcome { long ret = 0, err = 0, errmask = 0, erroff = 0, erruid = 0, where = -1; std::string errname; bool has_recs = false; std::vector<Rec> recs;
  bool operator==(const Outcome &o) const { return ret == o.ret && err == o.err && errmask == o.errmask && erroff == o.erroff && erruid == o.erruid && errname == o.errname && where == o.where && has_recs == o.has_recs && recs == o.recs; }
  bool operator!=(const Outcome &o) const { return !(*this == o); }
  std::string str() const { std::string s = strf("ret=%ld err=%ld where=%ld", ret, err, where); if (err) s += strf(" erroff=%ld erruid=%ld errname=%s", erroff, erruid, errname.c_str()); if (has_recs) { s += strf(" records=%zu", recs.size()); } return s; }
  std::string dump() const { std::string s; for (auto &r : recs) s += strf("{%s %s %ld+%ld}", r.type == 1 ? "<" : ">", r.rule.c_str(), r.off, r.siz); return s; }
  uint64_t hash() const { std::string s = str(); for (auto &r : recs) s += strf("|%s %ld %ld %u %u %u %u", r.rule.c_str(), r.off, r.siz, r.type, r.ruleid, r.ruleuid, r.usertype); return hash_str(s); } };
inline std::string differ(const Outcome &want, const Outcome &got) {
  std::string s = "expected [" + want.str() + "] got [" + got.str() + "]";
  if (want.recs != got.recs) { size_t i = 0; while (i < want.recs.size() && i < got.recs.size() && want.recs[i] == got.recs[i]) i++;
    auto f = [&](const std::vector<Rec> &v) { return i < v.size() ? strf("%s type=%u %ld+%ld id=%u uid=%u ut=%u", v[i].rule.c_str(), v[i].type, v[i].off, v[i].siz, v[i].ruleid, v[i].ruleuid, v[i].usertype) : std::string("(none)"); };
    s += strf("; records differ at %zu: expected %s, got %s", i, f(want.recs).c_str(), f(got.recs).c_str()); }
  return s;
}

// Another operation over bytes of the same length: one thing about it changes.
inline Op vary(const Gram &g, Op o) {
  size_t unit = (o.enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF16LE ? 2 : 1;
  switch (draw(6)) {
    case 0: o.kind = (o.kind + 1 + (int)draw(2)) % 3; break;
    case 1: o.rule = g.roots[draw(g.roots.size())]; break;
    case 2: o.enc ^= RPA_ENCODING_ICASE; break;
    case 3: if (o.data.size()) o.off = draw(o.data.size()) / unit * unit; break;
    case 4: if (unit == 1) o.enc = (o.enc & ~RPA_ENCODING_MASK) | (draw(2) ? RPA_ENCODING_BYTE : RPA_ENCODING_UTF8); break;
    default: for (int i = 0, n = 1 + (int)draw(4); i < n && o.data.size(); i++) { size_t at = draw(o.data.size()) / unit * unit; o.data[at] = g.alpha.size() ? g.alpha[draw(g.alpha.size())] : o.data[draw(o.data.size()) / unit * unit]; }
  }
  if (o.kind != PARSE) o.prefill = 0; return o;
}
// In half of the runs a context sees all its inputs of one length at one address, as with a caller's fixed buffer.
struct Slots { bool on = false; std::map<std::pair<void *, size_t>, char *> m; };
inline Slots &slots() { static Slots s; return s; }
inline void slots_begin() { slots().m.clear(); slots().on = draw(2); }
inline void slots_end() { for (auto &e : slots().m) guard_free(e.second); slots().m.clear(); slots().on = false; }

inline std::string name_of(const char *p) { std::string s; for (int i = 0; p && i < 1 << 14 && p[i]; i++) s += p[i]; return s; }
// marker records placed in front of the array before the call
inline void put_marker(rarray_t *recs, int i, const char *base) { rparecord_t r; memset(&r, 0, sizeof r); r.rule = "marker"; r.input = base; r.inputoff = 0; r.inputsiz = 0; r.type = (i & 1) ? RPA_RECORD_END : RPA_RECORD_START; r.ruleuid = 900 + i; r.userdata = 77 + i; r_array_add(recs, &r); }

// Runs one operation.  began/ended are set right around the library call (for placing aborts).
struct Live { bool in_op = false; uint64_t start = 0, end = 0; int idx = -1; };
typedef std::function<void(rarray_t *recs, const Op &op, const Outcome &o)> RecHook;

inline Outcome run_op(rpastat_t *st, rpadbex_t *dbex, const Op &op, const RecHook &hook = nullptr, Live *lv = nullptr) {
  Outcome o; char *buf; if (slots().on) { char *&b = slots().m[{st, op.data.size()}]; if (!b) b = (char *)guard_copy(op.data.data(), op.data.size()); else if (op.data.size()) memcpy(b, op.data.data(), op.data.size()); buf = b; } else buf = (char *)guard_copy(op.data.data(), op.data.size()); const char *end = buf + op.data.size(), *in = buf + op.off, *start = buf;
  rparule_t rid = rpa_dbex_lookup_s(dbex, op.rule.c_str());
  switch (op.misuse) { case 1: rid = -1; break; case 2: rid = 1 << 20; break; case 3: rid = rpa_dbex_lookup_s(dbex, "no_such_rule"); break; case 4: start = end + 1; break; case 5: in = start - 1; break; case 6: in = end + 1; break; case 7: in = end; break; }
  rarray_t *recs = nullptr; const char *where = nullptr;
  if (op.kind == PARSE) { recs = rpa_records_create(); for (int i = 0; i < op.prefill; i++) put_marker(recs, i, buf); }
  st->debug = op.trace; if (op.trace) count("op.traced_execution");   // execution tracing, as rpagrep --exec-debug
  if (lv) { lv->start = task_steps(self()); lv->idx++; lv->in_op = true; yield_now(); }
  if (op.kind == PARSE) o.ret = rpa_stat_parse(st, rid, op.enc, in, start, end, recs);
  else if (op.kind == MATCH) o.ret = rpa_stat_match(st, rid, op.enc, in, start, end);
  else o.ret = rpa_stat_scan(st, rid, op.enc, in, start, end, &where);
  if (lv) { lv->in_op = false; lv->end = task_steps(self()); }
  if (op.kind == SCAN && o.ret > 0) o.where = where - buf;
  {
    o.err = rpa_stat_lasterror(st); rpa_errinfo_t ei; memset(&ei, 0, sizeof ei); rpa_stat_lasterrorinfo(st, &ei);
    o.errmask = ei.mask; if (ei.mask & RPA_ERRINFO_OFFSET) o.erroff = ei.offset; if (ei.mask & RPA_ERRINFO_RULEUID) o.erruid = ei.ruleuid;
    if (ei.mask & RPA_ERRINFO_NAME) o.errname = std::string(ei.name, strnlen(ei.name, sizeof ei.name));
  }
  if (recs && o.ret > 0) {
    o.has_recs = true;
    for (long i = 0; i < (long)r_array_length(recs); i++) { rparecord_t *r = (rparecord_t *)r_array_slot(recs, i);
      o.recs.push_back({name_of(r->rule), r->input ? (long)(r->input - buf) : -1, (long)r->inputsiz, r->type, r->ruleid, r->ruleuid, r->usertype}); }
  }
  if (hook) hook(recs, op, o);
  if (recs) rpa_records_destroy(recs);
  if (!slots().on) guard_free(buf);
  return o;
}

// prints a line per instruction: small operations only
inline bool draw_trace(const Op &o, uint64_t cost) { return cost < 60000 && o.data.size() < 400 && chance(1, 40); }
struct Cfg { int opt = 1, bitmap = 1; };
inline Cfg draw_cfg() { Cfg c; c.opt = draw(4) == 3 ? 0 : 1; c.bitmap = draw(4) == 3 ? 0 : 1; return c; }
inline rpadbex_t *build(const Gram &g, const Cfg &c, bool must = true) {
  rpadbex_t *d = rpa_dbex_create(); rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, c.opt); rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, c.bitmap);
  rpa_dbex_open(d);
  char *t = (char *)guard_copy(g.text.data(), g.text.size());
  long l = rpa_dbex_load(d, t, g.text.size()); guard_free(t);
  rpa_dbex_close(d);
  int r = l < 0 ? -1 : rpa_dbex_compile(d);
  if (r < 0) { if (must) { rpa_errinfo_t ei; memset(&ei, 0, sizeof ei); rpa_dbex_lasterrorinfo(d, &ei); fail("valid-grammar-rejected", "grammar %s: load=%ld compile=%d error=%ld line=%ld offset=%ld\n%s", g.name.c_str(), l, r, rpa_dbex_lasterror(d), ei.line, ei.offset, g.text.c_str()); } rpa_dbex_destroy(d); return nullptr; }
  if (must) for (auto &r : g.roots) if (rpa_dbex_lookup_s(d, r.c_str()) < 0) fail("rule-missing", "grammar %s was accepted, but there is no rule %s in the database", g.name.c_str(), r.c_str());
  return d;
}
inline bool &linear() { static bool b; return b; }   // inputs of this grammar take time in proportion to their length squared: running on is hanging
inline Outcome fresh(rpadbex_t *d, const Op &op, unsigned long stack, uint64_t *cost = nullptr) {
  note("reference run: %s", op.str().c_str()); if (linear() && op.data.size() <= 600) set_budget(1000000000ull); else set_soft_budget(25000000ull + op.data.size() * 1000ull); rpastat_t *st = rpa_stat_create(d, stack); uint64_t s0 = steps(); Outcome o = run_op(st, d, op); set_budget(400000000ull); if (cost) *cost = steps() - s0; rpa_stat_destroy(st); return o;
}
// the plan of which most is accepted at a small size, at the drawn size
inline Op stretch_op(rpadbex_t *db, const Gram &g, int maxbits) {
  Op o; o.rule = g.roots[draw(3) ? 0 : draw(g.roots.size())]; o.enc = draw(3) ? RPA_ENCODING_UTF8 : RPA_ENCODING_BYTE; Stretch best; double bm = -1;
  for (int i = 0; i < 10; i++) { Stretch t = draw_stretch(g); o.kind = MATCH; o.data = t.at(40); Outcome w = fresh(db, o, 4096); double m = w.ret > 0 ? (double)w.ret / o.data.size() : 0; if (m > bm) { bm = m; best = t; } }
  size_t unit = (size_t)1 << (draw(2) ? maxbits : 7 + draw(maxbits - 6)); if (draw(6) == 5) unit += 1 + draw(3);
  o.kind = (int)draw(2); o.data = best.at(unit); if (draw(6) == 5) o.data[draw(o.data.size())] = g.alpha.size() ? g.alpha[draw(g.alpha.size())] : 'a';
  return o; }
inline void announce(const Gram &g, const Cfg &c) { linear() = g.name == "hidden" || g.name == "calc" || g.name == "word" || g.name == "json" || g.name == "kv" || g.name == "minmax" || g.name == "directloop"; event("grammar %s opt=%d bitmap=%d", g.name.c_str(), c.opt, c.bitmap); if (g.name == "random") event("%s", show(g.text, 900).c_str()); }
}
