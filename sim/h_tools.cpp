// The command line tools under simulation: C12 (I/O delivery), C13 (directory walk), C14 (saved automata), C15 (rexcc)
#include "simfs.h"
#include "rpalib.h"
extern "C" {
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexnfasimulator.h"
#include "rlib/rutf.h"
}
#include "rexgen.h"
extern "C" { int rexgrep_main(int, const char **); int rpagrep_main(int, const char **); int rexcc_main(int, const char **); }
typedef std::vector<std::string> Args;
static const char *REAL = "rexgrep, rpagrep and rexcc from their main() down (argument handling, directory walk, file loading, scanning, output) with rex, rpa, rvm and rlib: the repository's sources, instrumented at every memory access; libc's stream layer";
static const char *STUB = "file system, descriptors, memory mappings, directory streams, stdio devices, clock, process exit, system memory allocator";
static Args operator+(const Args &a, const Args &b) { Args r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static Result tool(bool rpa, const Args &a, Sess *in = nullptr) { Args v = a; v.insert(v.begin(), rpa ? "rpagrep" : "rexgrep"); Result r = run_tool(rpa ? rpagrep_main : rexgrep_main, v, in); event("%s => exit %d, %zu bytes out", argstr(v).c_str(), r.code, r.out.size()); return r; }
static size_t odd_size(size_t n) { switch (draw(8)) { case 5: { static const size_t S[] = {255, 256, 254, 510, 511, 512, 513, 765, 1, 2, 1024, 1020}; return S[draw(12)]; } case 6: return chance(1, 6) ? 4095 + draw(3) : n; default: return n; } }
static std::string first_diff(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t f = i > 20 ? i - 20 : 0; return strf("at byte %zu: %zu bytes \"%s\" against %zu bytes \"%s\"", i, a.size(), show(a.substr(f), 50).c_str(), b.size(), show(b.substr(f), 50).c_str()); }

// a search: tool, pattern arguments and mode, and a way to make texts it finds something in
struct Search { bool rpa; Args pat, mode; rl::Gram g; bool prefix, lines; };
static std::string rex_expr() { for (int i = 0; i < 5; i++) { std::string e = expr(); if (e.size() && e[0] != '-' && e.find('\0') == std::string::npos) return e; } return "ab+c?"; }
static Search draw_search(bool rpa) {
  Search s; s.rpa = rpa; s.prefix = false; s.lines = false;
  if (rpa) {
    s.g = rl::choose_grammar();
    event("grammar: %s", s.g.text.c_str()); if (draw(2)) { file(W->cwd, "rules.rpa", s.g.text); s.pat = {"-f", "rules.rpa"}; } else s.pat = {"-e", s.g.text};
    static const char *M[] = {"", "-l", "-m", "-p", "-x", "-a", "-l"}; uint64_t m = draw(7); if (m) s.mode.push_back(M[m]); s.prefix = m != 3 && m != 4 && m != 5; s.lines = m == 1 || m == 6;
    switch (draw(12)) { case 8: s.mode.push_back("-i"); break; case 9: s.mode.push_back("-b"); break; case 10: s.mode.push_back("-16"); break; case 11: s.mode.push_back("--no-cache"); break; case 7: s.mode.push_back("--no-bitmap"); break; case 6: s.mode.push_back("--no-optimizations"); break; }
  } else {
    int n = 1 + (int)draw(2); for (int i = 0; i < n; i++) { s.pat.push_back("-e"); s.pat.push_back(rex_expr()); }
    if (chance(1, 5)) { std::string e = rex_expr(); file(W->cwd, "expr.txt", e); s.pat.push_back("-f"); s.pat.push_back("expr.txt"); }
    switch (draw(4)) { case 1: s.mode.push_back("-o"); break; case 2: s.mode.push_back("-N"); break; case 3: s.mode.push_back("-N"); s.mode.push_back("-o"); break; }
    if (chance(1, 8)) s.mode.push_back("-S");
  }
  return s;
}
static std::string draw_content(const Search &s, size_t max) {
  std::string c; size_t n = draw(max + 1); n = odd_size(n); bool fit = draw(3) == 2;
  while (c.size() < n) { std::string p = s.rpa ? rl::make_input(s.g, 120) : gen_text(40); if (p.empty()) p = "q"; c += p; switch (draw(4)) { case 0: break; case 3: c += " "; break; default: c += "\n"; } }
  if (fit || n > 2000) c.resize(n);
  bool u16 = std::find(s.mode.begin(), s.mode.end(), "-16") != s.mode.end(), bom = s.rpa && (u16 ? chance(1, 3) : chance(s.g.name == "utf" || s.g.name == "wide" || s.lines ? 4 : 2, 10));
  if (s.rpa && c.size() && chance(u16 || bom ? 7 : 1, 8)) for (int k = 1 + (int)draw(6); k; k--) { static const char *U[] = {"\xd0\x8a", "\xe0\xa8\x80", "\xe0\xa8\x8d", "\xf0\x9f\x98\x80", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x90\x8a\x8a", "\r\n"}; c.insert(draw(c.size() + 1), U[draw(8)] + std::string(draw(2) ? "\n" : "")); }
  if (s.rpa) { if (u16 || bom) c = (bom ? "\xff\xfe" : "") + rl::to_utf16(c); if (chance(1, 20) && c.size()) c.resize(c.size() - 1); }
  return c;
}
// what rexgrep has to print according to the meaning of the expressions; false if the model cannot tell
static bool rexgrep_describes(const Search &s, const std::string &c, bool whole_lines, std::string &out) {
  std::vector<const ReNode *> m; for (size_t i = 0; i < s.pat.size(); i += 2) { if (s.pat[i] != "-e" || s.pat[i + 1].find(' ') != std::string::npos || !g_mean.count(s.pat[i + 1])) return false; m.push_back(&g_mean.at(s.pat[i + 1])); }
  std::vector<uint32_t> t; std::vector<size_t> off;
  auto longest = [&](size_t i) { size_t l = 0; for (auto *n : m) { Pos e = ends(*n, t, Pos{i}); if (!e.empty() && *e.rbegin() > i) l = std::max(l, *e.rbegin() - i); } return l; };
  if (!whole_lines) { characters(c, 0, c.size(), t, off); for (size_t i = 0; i < t.size();) { size_t l = longest(i); if (l) { out += c.substr(off[i], off[i + l] - off[i]) + "\n"; i += l; } else i++; } return true; }
  for (size_t i = 0, e; i < c.size(); i = e) { e = c.find('\n', i); e = e == std::string::npos ? c.size() : e + 1; characters(c, i, e, t, off); for (size_t k = 0; k < t.size(); k++) if (longest(k)) { out += c.substr(i, e - i); break; } }
  return true;
}
// what rpagrep has to print: the matches the library finds with a fresh context and no cache, one after the other, as text.
// A printed character is ignored where the terminal must not get it (control characters, 127-255); `tail` is what the last line adds if it counts.
static const uint32_t ANY = 0xffffffff;
static bool as_text(const std::string &b, bool u16, std::vector<uint32_t> &t) {
  for (size_t i = 0; i < b.size();) { uint32_t w; unsigned char c = b[i]; auto at = [&](size_t k) { return (unsigned char)b[k]; };
    if (u16) { if (i + 2 > b.size()) return false; w = at(i) | at(i + 1) << 8; i += 2; if (w >= 0xd800 && w < 0xe000) { if (w >= 0xdc00 || i + 2 > b.size()) return false; uint32_t l = at(i) | at(i + 1) << 8; if (l < 0xdc00 || l >= 0xe000) return false; i += 2; w = 0x10000 + ((w - 0xd800) << 10) + (l - 0xdc00); } }
    else if (c < 0x80) { w = c; i++; }
    else { size_t n = c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 1; bool ok = n > 1 && i + n <= b.size(); w = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t k = 1; ok && k < n; k++) { ok = (at(i + k) & 0xc0) == 0x80; w = w << 6 | (at(i + k) & 63); }
      if (!ok) { w = ANY; i++; } else { if ((n == 3 && w < 0x800) || (n == 4 && (w < 0x10000 || w > 0x10ffff)) || (w >= 0xd800 && w < 0xe000)) return false; i += n; } }
    if ((w < 32 && w != 9 && w != 10 && w != 13) || (w >= 127 && w <= 255)) w = ANY;
    t.push_back(w);
  }
  return true;
}
static bool rpagrep_describes(const Search &s, const std::string &file, std::vector<uint32_t> &out, std::vector<uint32_t> &tail) {
  std::string m; bool icase = false, bytes = false, u16 = false; unsigned long opt = ~0ul, bmp = ~0ul; for (auto &a : s.mode) { if (a == "-i") icase = true; else if (a == "-b") bytes = true; else if (a == "-16") u16 = true; else if (a == "--no-bitmap") bmp = 0; else if (a == "--no-optimizations") opt = 0; else if (a != "--no-cache") m = a; }
  if (m != "" && m != "-l" && m != "-m") return false;
  std::string c = file; if (!bytes && c.compare(0, 2, "\xff\xfe") == 0) { u16 = true; c.erase(0, 2); } if (u16 && c.size() % 2) return false;
  unsigned enc = (bytes ? RPA_ENCODING_BYTE : u16 ? RPA_ENCODING_UTF16LE : RPA_ENCODING_UTF8) | (icase ? RPA_ENCODING_ICASE : 0);
  rpadbex_t *d = rpa_dbex_create(); if (!bmp) rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, 0); if (!opt) rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, 0);
  rpa_dbex_open(d); const char *g = s.g.text.data(); long left = (long)s.g.text.size(), r; while ((r = rpa_dbex_load(d, g, left)) > 0) { g += r; left -= r; } rpa_dbex_close(d); rparule_t rid = rpa_dbex_last(d);
  if (r < 0 || rpa_dbex_compile(d) < 0) { rpa_dbex_destroy(d); return false; }
  auto find = [&](const char *in, const char *start, const char *end, const char **where) { rpastat_t *st = rpa_stat_create(d, 0); rpa_stat_cachedisable(st, 1); long n = m == "-m" ? rpa_stat_match(st, rid, enc, in, start, end) : rpa_stat_scan(st, rid, enc, in, start, end, where); rpa_stat_destroy(st); return n; };
  const char *b = c.data(), *e = b + c.size(), *w = b; bool ok = true; long n; out.clear(); tail.clear();
  if (m == "-m") { if ((n = find(b, b, e, &w)) > 0) { ok = as_text(std::string(b, n), u16, out); out.push_back('\n'); } }
  else if (m == "") { for (const char *p = b; ok && p < e && (n = find(p, b, e, &w)) > 0; p = w + n) { ok = as_text(std::string(w, n), u16, out); out.push_back('\n'); } }
  else for (const char *p = b, *q; ok && p < e; p = q) { size_t u = u16 ? 2 : 1; for (q = p; q < e && !(*q == '\n' && (!u16 || !q[1])); q += u); bool whole = q < e; if (whole) q += u; if (find(p, p, q, &w) > 0) ok = as_text(std::string(p, q - p), u16, whole ? out : tail); }
  rpa_dbex_destroy(d); return ok;
}
static size_t same_text(const std::string &o, size_t pos, const std::vector<uint32_t> &t) { // end of the text in the output, or npos
  for (uint32_t w : t) { size_t p0 = pos; uint32_t x; if (pos >= o.size()) return std::string::npos; unsigned char c = o[pos++]; int n = c < 0xc0 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; x = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; while (n-- && pos < o.size()) x = x << 6 | (o[pos++] & 63); bool g = (x < 32 && x != 9 && x != 10 && x != 13) || (x >= 127 && x <= 255); if (w == ANY ? !g : x != w) return (void)p0, std::string::npos; }
  return pos;
}
static std::vector<int> draw_chunks(size_t n) {
  std::vector<int> c; uint64_t how = draw(6); if (how == 0) return c; bool intr = draw(2); size_t tot = 0; int guard = 0;
  while (tot < n + 2 && guard++ < 4000) { int k = how == 1 ? 1 : how == 2 ? 1 + (int)draw(7) : how == 3 ? 200 + (int)draw(120) : how == 4 ? 255 + (int)draw(3) - 1 : 1 + (int)draw(n + 1); if (intr && chance(1, 4)) c.push_back(0); c.push_back(k); tot += k; if (how == 1 && tot > 900) how = 5; }
  return c;
}
static std::function<bool(bool)> on_demand;

// ---------------------------------------------------------------------------------------------------- C12
static const char *FK[] = {"none", "open", "fstat", "mmap", "empty", "missing", "vanish", "directory"};
static void c12() {
  reset(); g_words.clear(); g_mean.clear(); g_blanks = draw(8) == 7; heap_big_fill = 0; set_soft_budget(150000000ull); set_quiet_points(true);
  Search s = draw_search(draw(2)); Args base = s.pat + s.mode; event("%s %s", s.rpa ? "rpagrep" : "rexgrep", argstr(base).c_str());
  std::string c = draw_content(s, 1400); file(W->cwd, "in", c); distinct(hash_str(c)); distinct(hash_str(argstr(base)));
  uint64_t s0 = steps(); std::string by_line; bool lines = false, loose = false; size_t nl = 0;
  bool whole_lines = s.rpa ? s.lines : std::find(s.mode.begin(), s.mode.end(), "-o") == s.mode.end();
  if (whole_lines && draw(2) && c.find("\xff\xfe") == std::string::npos && std::find(s.mode.begin(), s.mode.end(), "-16") == s.mode.end() && std::count(c.begin(), c.end(), '\n') < 30) { // line by line, each a file of its own
    lines = true; size_t p = 0; while (p < c.size() && lines) { size_t e = c.find('\n', p); loose = e == std::string::npos; e = loose ? c.size() : e + 1; Result q; if (!loose || !s.rpa) { file(W->cwd, "line", c.substr(p, e - p)); q = tool(s.rpa, base + Args{"line"}); } if (q.code == 2) lines = false; if (s.rpa && s.prefix && !q.out.empty()) { if (q.out.compare(0, 6, "line:\n")) fail("output", "rpagrep output does not start with the file name: %s", show(q.out, 40).c_str()); q.out.erase(0, 6); } by_line += q.out; p = e; nl++; }
    W->cwd->kids.erase("line"); if (lines) { count("op.line_by_line"); set_budget(20 * (steps() - s0) + 100000000ull); }
  }
  s0 = steps(); Result f = tool(s.rpa, base + Args{"in"}); const uint64_t cost = steps() - s0;
  set_budget(20 * cost + 50000000ull);   // the same bytes another way
  if (f.code == 2) { count("probe.pattern_rejected"); Sess in; in.in = c; Result q = tool(s.rpa, base, &in); if (q.code != 2 || q.out != f.out) fail("delivery-matters", "pattern refused with a file argument, not refused reading standard input"); return; }
  if (f.fds || f.maps) fail("leak", "%zu descriptors and %zu mappings left open", f.fds, f.maps);
  std::string want = f.out; bool hits = !f.out.empty();
  std::string told; if (!s.rpa && c.size() < 1100 && rexgrep_describes(s, c, whole_lines, told)) { count("op.compared_with_model"); if (told != want) fail("output", "the expressions describe other matches %s", first_diff(told, want).c_str()); }
  if (s.rpa && s.prefix && hits) { if (want.compare(0, 4, "in:\n")) fail("output", "rpagrep output does not start with the file name: %s", show(want, 40).c_str()); want.erase(0, 4); }
  std::vector<uint32_t> text, tail;
  if (s.rpa && c.size() < 1100 && cost < 20000000 && !c.empty()) {
    set_soft_budget(40 * cost + 400000000ull);
    if (rpagrep_describes(s, c, text, tail)) { count("op.compared_with_library"); size_t p = same_text(want, 0, text), p2 = p == std::string::npos ? p : same_text(want, p, tail); if (p != want.size() && p2 != want.size()) fail("output", "the matches of the grammar in these bytes, as text, are %zu characters (%zu more in an unfinished last line); rpagrep printed \"%s\"%s", text.size(), tail.size(), show(want, 120).c_str(), p == std::string::npos ? "" : " with them and something else"); }
    set_budget(20 * cost + 50000000ull);
  }
  if (lines && (s.rpa && loose ? want.compare(0, by_line.size(), by_line) : want != by_line)) fail("delivery-matters", "%zu lines in one file and each line in a file of its own: output differs %s", nl, first_diff(by_line, want).c_str());
  int rounds = 1 + (int)draw(3); bool pieces = false;
  if (c.empty()) count("probe.empty_file");
  for (int i = 0; i < rounds; i++) {
    Sess in; in.in = c; in.chunks = draw_chunks(c.size()); pieces |= in.chunks.size() > 1; size_t zero = std::count(in.chunks.begin(), in.chunks.end(), 0);
    Result q = tool(s.rpa, base, &in);
    if (c.empty()) { if (!s.rpa && !q.out.empty()) fail("delivery-matters", "matches printed for empty standard input"); continue; }
    if (q.out != want || q.code != f.code) fail("delivery-matters", "%zu bytes from standard input in %zu reads (%zu interrupted): exit %d against %d for the same file, output differs %s", c.size(), in.chunks.size(), zero, q.code, f.code, first_diff(want, q.out).c_str());
  }
  if (chance(1, 4) && !c.empty() && c[0] != '-' && c.find('\0') == std::string::npos && c.size() < 4000 && !walk(c.c_str(), true)) {
    count("op.string_search"); Result q = tool(s.rpa, base + Args{"-s", c}); if (q.out != want) fail("delivery-matters", "-s with the bytes of the file: output differs %s", first_diff(want, q.out).c_str());
  }
  if (chance(1, 5)) { // the stream fails for good
    count("fault.stdin_error"); Sess in; in.in = c; in.chunks = draw_chunks(c.size()); in.chunks.resize(draw(in.chunks.size() + 1)); in.chunks.push_back(-1); Result q = tool(s.rpa, base, &in); (void)q;
  }
  // several files, some of which cannot be delivered
  set_soft_budget(150000000ull); s0 = steps();
  int nf = 2 + (int)draw(4); std::string concat; Args names; bool any0 = false; std::map<Node *, std::pair<int, int>> plan; std::vector<int> kinds; Args H; if (!s.rpa && draw(2)) H = {"-H"};
  int faults = 0;
  for (int i = 0; i < nf; i++) {
    std::string nm = strf("f%d%s", i, draw(3) ? "" : ".txt"); int k = draw(2) ? 0 : (int)draw(8); std::string d = i == 1 && draw(2) ? c : draw_content(s, 300); names.push_back(nm); kinds.push_back(k); if (k) faults++;
    if (k == 5) continue; if (k == 7) { W->mk(W->cwd, nm, DIRT); continue; }
    Node *n = file(W->cwd, nm, k == 4 ? "" : d); static const int E[] = {EACCES, EMFILE, ENFILE, EIO, ENOMEM, EINTR, ENODEV};
    if (k >= 1 && k <= 3) plan[n] = {k, E[draw(7)]}; if (k == 6) plan[n] = {6, ENOENT};
    if (k == 0) { Result q = tool(s.rpa, base + H + Args{nm}); concat += q.out; any0 |= q.code == 0; }
  }
  W->fault = [&](const char *call, Node *n, const std::string &) { auto it = plan.find(n); if (!n || it == plan.end()) return 0; int k = it->second.first; bool hit = (k == 1 && !strcmp(call, "open")) || (k == 2 && !strcmp(call, "fstat")) || (k == 3 && !strcmp(call, "mmap")) || (k == 6 && (!strcmp(call, "open"))); if (hit) { switch (k) { case 1: count("fault.open_error"); break; case 2: count("fault.fstat_error"); break; case 3: count("fault.mmap_error"); break; default: count("fault.file_vanished"); } } return hit ? it->second.second : 0; };
  set_budget(4 * (steps() - s0) + 20 * cost + 50000000ull);
  Result m = tool(s.rpa, base + H + names); W->fault = nullptr;
  std::string kd; for (size_t i = 0; i < kinds.size(); i++) kd += strf(" %s:%s", names[i].c_str(), FK[kinds[i]]);
  if (m.out != concat) fail("fault-spreads", "files%s: output differs from the outputs of the readable files %s", kd.c_str(), first_diff(concat, m.out).c_str());
  if (s.rpa && (m.code == 0) != any0) fail("fault-spreads", "files%s: exit %d, the readable files alone %s", kd.c_str(), m.code, any0 ? "match" : "do not match");
  if (m.fds || m.maps || m.dirs) fail("leak", "files%s: %zu descriptors, %zu mappings, %zu directories left open", kd.c_str(), m.fds, m.maps, m.dirs);
  if (s.rpa && chance(1, 4)) { // listings of the grammar, and a traced or a silent search
    set_soft_budget(400000000ull); static const char *D[] = {"--dump-info", "--dump-alias", "--dump-records", "-L", "--debug-compile", "-d", "--dump-code"}; int k = (int)draw(7); Args a = s.pat + Args{D[k]}; if (k >= 5) a.push_back(s.g.roots[draw(s.g.roots.size())]); Result q = tool(true, a); count("op.grammar_listing");
    if (q.fds || q.maps || q.dirs) fail("leak", "%s: %zu descriptors and %zu mappings left open", D[k], q.fds, q.maps); if (!W->write_ops && q.out.empty() && k != 1 && k != 3 && k != 6) fail("output", "%s printed nothing", D[k]);
    if (cost < 300000) { set_budget(40 * cost + 400000000ull); Result x = tool(true, base + Args{"--exec-debug", "in"}); count("op.traced_search"); if (x.code != f.code) fail("trace-changes-result", "exit %d with --exec-debug, %d without", x.code, f.code); if (x.fds || x.maps) fail("leak", "--exec-debug: %zu descriptors and %zu mappings left open", x.fds, x.maps); }
  }
  if (hits) count("probe.matches"); if (faults && !concat.empty()) count("probe.faulted_with_matches");
  if (hits && (pieces || faults)) nontrivial(); distinct(hash_str(kd));
}
static Reg r12({"C12", c12, "one run = one search (rexgrep or rpagrep, patterns, mode) over one text delivered as a file and as standard input in 1-3 fragmentations with interruptions, then over 2-5 files of which some cannot be opened, inspected or mapped", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C13
static std::string entry_name(int i) {
  static const char *N[] = {".h", "..x", "...", ".a.", "a b", "-e", "-", "\xc3\xa9", "~", "x;y", "#", "%s", "*", "\\", "a\nb", ".git", "x..", ".-"};
  switch (draw(5)) { case 3: return strf("%s%d", N[draw(18)], i); case 4: return chance(1, 8) ? std::string(200 + draw(54), 'n') + strf("%d", i % 10) : strf("file%d.txt", i); default: return strf("%c%d", (char)('a' + draw(3)), i); }
}
struct Tree { std::vector<Node *> files; std::vector<std::string> paths; int dirs = 0, other = 0, maxdepth = 0; };
static void grow(Tree &t, Node *d, const std::string &path, int depth, int &left) {
  t.maxdepth = std::max(t.maxdepth, depth); int n = (int)draw(depth > 5 ? 3 : depth == 0 ? 10 : 7); if (chance(1, 25)) n += (int)draw(40);
  for (int i = 0; i < n && left > 0; i++) {
    std::string nm = entry_name(i); if (d->kids.count(nm)) continue; left--;
    uint64_t k = draw(10);
    if (k < 5) { int id = (int)t.files.size(); Node *f = file(d, nm, draw(3) ? strf("F%d;", id) : strf("noise\n xx F%d; yy\nlast", id)); f->tag = id; t.files.push_back(f); t.paths.push_back(path + nm); }
    else if (k < 8) { Node *s = W->mk(d, nm, DIRT); t.dirs++; s->tag = -2; grow(t, s, path + nm + "/", depth + 1, left); }
    else { t.other++; if (k == 8) { Node *l = W->mk(d, nm, LNK); static const char *L[] = {"..", ".", "/", "/home", "nowhere", "../..", "a0", "b0"}; l->link = L[draw(8)]; } else if (draw(2)) W->mk(d, nm, FIFO); else file(d, nm, ""); }
  }
}
static void c13() {
  reset(); heap_big_fill = 0; set_quiet_points(true); set_budget(900000000ull, "livelock");
  bool rpa = draw(2); Tree t; int left = 60 + (int)draw(3) * 60; std::vector<std::string> starts;
  int ns = chance(1, 4) ? 2 : 1;
  for (int i = 0; i < ns; i++) {
    Node *top = W->mk(W->cwd, strf("t%d", i), DIRT); top->tag = -2; t.dirs++; std::string st;
    switch (draw(8)) { case 1: st = strf("t%d/", i); break; case 2: st = strf("./t%d", i); break; case 3: st = strf("/home/t%d", i); break; case 4: st = strf("../home/t%d", i); break; case 5: st = strf("t%d/.", i); break; case 6: st = strf("/home//t%d//", i); break; default: st = strf("t%d", i); }
    starts.push_back(st); std::string pre = st.back() == '/' ? st : st + "/";
    uint64_t shape = draw(12);
    if (shape == 11) { // a deep chain near the path limit
      Node *d = top; size_t len = pre.size(); bool thin = chance(1, 20); std::string p = pre; count("probe.deep_chain");
      for (int k = 0; k < 3000; k++) { size_t nl = thin ? 1 : chance(1, 6) ? 1 + draw(200) : 150 + draw(100); if (len + nl + 1 > 4140) { nl = 1 + draw(60); } d = W->mk(d, std::string(nl, (char)('d' + draw(2))), DIRT); d->tag = -2; t.dirs++; p += d->name + "/"; len = p.size();
        if (!thin || len > 4000 || chance(1, 100)) { int nn = 1 + (int)draw(2); for (int j = 0; j < nn; j++) { std::string nm = j || draw(2) ? strf("f%d", j) : std::string(1 + draw(40), 'z'); if (d->kids.count(nm)) continue; int id = (int)t.files.size(); Node *f = file(d, nm, strf("F%d;", id)); f->tag = id; t.files.push_back(f); t.paths.push_back(p + nm); } }
        if (len > 4150) break; }
      t.maxdepth = std::max(t.maxdepth, 16);
    } else grow(t, top, pre, 0, left);
  }
  uint64_t fp = draw(4); uint32_t den = fp == 0 ? 0 : fp == 1 ? 60 : fp == 2 ? 15 : 5; uint64_t kinds = 1 + draw(63); int nfaults = 0;
  W->fault = [&](const char *call, Node *n, const std::string &) {
    if (!den || !n || n->tag == -1) return 0; static const int EO[] = {EACCES, EMFILE, ENFILE, ENOMEM, ENOENT, EIO, ELOOP};
    if (!strcmp(call, "opendir") && (kinds & 1) && chance(1, den)) { count("fault.opendir"); nfaults++; taint(n); return EO[draw(7)]; }
    if (!strcmp(call, "lstat") && (kinds & 2) && chance(1, den * 3)) { count("fault.lstat"); nfaults++; taint(n); return EO[draw(7)]; }
    if (!strcmp(call, "stat") && (kinds & 2) && chance(1, den * 3)) { count("fault.lstat"); nfaults++; taint(n); return EO[draw(7)]; }
    if (!strcmp(call, "readdir") && (kinds & 4) && n->name != "" && chance(1, den * 4)) { count("fault.entry_vanished"); nfaults++; taint(n); n->gone = true; return ENOENT; }
    if ((!strcmp(call, "open") || !strcmp(call, "fopen")) && (kinds & 8) && chance(1, den)) { count("fault.open_error"); nfaults++; n->tainted = true; return EO[draw(7)]; }
    if (!strcmp(call, "fstat") && (kinds & 8) && chance(1, den * 2)) { count("fault.fstat_error"); nfaults++; n->tainted = true; return EIO; }
    if (!strcmp(call, "mmap") && (kinds & 16) && chance(1, den)) { count("fault.mmap_error"); nfaults++; n->tainted = true; return ENOMEM; }
    return 0; };
  W->on_opendir = [&](Node *, Dir *d) { if (den && (kinds & 32) && chance(1, den * 2)) d->cut = draw(d->names.size() + 1), nfaults++; };
  event("%s over %zu start paths: %zu files, %d directories, %d others, depth %d, fault rate 1/%u", rpa ? "rpagrep" : "rexgrep", starts.size(), t.files.size(), t.dirs, t.other, t.maxdepth, den);
  Args a; if (rpa) { a = {"-e", "F ::= 'F' [0-9]+ ';'"}; if (draw(3) == 2) a.push_back("-b"); } else { a = {"-e", "F[0-9]+;", "-o", "-H"}; if (draw(3) == 2) a.push_back("-N"); }
  Result r = tool(rpa, a + starts);
  W->fault = nullptr; W->on_opendir = nullptr;
  if (r.code == 2 || r.exited) fail("walk-aborted", "exit %d", r.code);
  if (r.dirs || r.fds || r.maps) fail("leak", "left open after the walk: %zu directories, %zu descriptors, %zu mappings", r.dirs, r.fds, r.maps);
  std::vector<int> seen(t.files.size(), 0);
  for (size_t i = 0; i + 2 < r.out.size(); i++) if (r.out[i] == 'F' && isdigit((unsigned char)r.out[i + 1])) { size_t j = i + 1; size_t v = 0; while (j < r.out.size() && isdigit((unsigned char)r.out[j]) && v < 1000000) v = v * 10 + (r.out[j++] - '0'); if (j < r.out.size() && r.out[j] == ';') { if (v >= seen.size()) fail("walk", "output names file %zu which does not exist", v); seen[v]++; } }
  int limit = 0, hidden = 0;
  for (size_t i = 0; i < seen.size(); i++) {
    bool reach = t.paths[i].size() < 4096; if (!reach) limit++; if (t.files[i]->tainted) hidden++;
    if (seen[i] > 1) fail("visited-twice", "file %s examined %d times", show(t.paths[i], 200).c_str(), seen[i]);
    if (!seen[i] && reach && !t.files[i]->tainted) fail("not-visited", "file %s (path of %zu bytes) was not examined; faults in this run: %d", show(t.paths[i], 200).c_str(), t.paths[i].size(), nfaults);
    if (seen[i] && !rpa && r.out.find(t.paths[i] + strf(":F%zu;\n", i)) == std::string::npos) fail("wrong-name", "file %s reported under another name", show(t.paths[i], 200).c_str());
  }
  if (limit) count("probe.path_too_long"); if (hidden) count("probe.hidden_by_fault"); if (t.maxdepth >= 4) count("probe.depth4");
  if (!t.files.empty() && (t.dirs > ns || nfaults)) nontrivial(); distinct(hash_str(r.out)); distinct(nfaults);
}
static Reg r13({"C13", c13, "one run = one recursive search by rexgrep or rpagrep over a generated tree (odd names, symbolic links, fifos, long and deep paths) with shuffled directory order and failing or vanishing entries", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C14
static void c14() {
  reset(); g_words.clear(); g_mean.clear(); g_blanks = draw(8) == 7; heap_big_fill = draw(4) == 3 ? 0xA5 : 0; set_soft_budget(250000000ull); set_quiet_points(true);
  Search s = draw_search(false); s.mode.clear(); Args mode; if (draw(2)) mode = {"-o"}; Args sub; if (draw(4) == 3) sub = {"-S"};
  int nf = 1 + (int)draw(3); Args names; for (int i = 0; i < nf; i++) { names.push_back(strf("c%d", i)); file(W->cwd, names.back(), draw_content(s, 260)); } if (draw(3) == 2) names.insert(names.begin(), "-H");
  event("patterns %s", argstr(s.pat).c_str());
  Result fresh = tool(false, s.pat + mode + names); if (fresh.code == 2) { count("probe.pattern_rejected"); return; }
  Result nfa = tool(false, s.pat + mode + Args{"-N"} + names);
  if (!(nfa == fresh)) fail("automaton-differs", "compiled automaton and direct interpretation of the patterns differ: exit %d/%d, %s", nfa.code, fresh.code, first_diff(nfa.out, fresh.out).c_str());
  // an undisturbed save and its use
  Args save = s.pat + sub + Args{"-c", "-b", "auto.bin"}; if (draw(2)) std::rotate(save.begin(), save.end() - 3, save.end());
  // what the save finds under its name: nothing, an automaton of other patterns, something longer or shorter
  auto occupy = [&](const std::string &image) { std::string was; switch (draw(6)) {
    case 0: { set_budget(800000000ull); Result o = tool(false, Args{"-e", draw(2) ? "[a-z]{2,12}q(0|1|2){4}" : "z", "-c", "-b", "auto.bin"}); Node *n = walk("auto.bin", true); if (o.code != 2 && n) was = n->data; count("op.save_over_automaton"); break; }
    case 1: was = std::string(image.size() + 1 + draw(70000), (char)draw(256)); file(W->cwd, "auto.bin", was); count("op.save_over_longer_file"); break;
    case 2: was = std::string(1 + draw(600), 'x'); file(W->cwd, "auto.bin", was); break;
    case 3: was = image + std::string(1 + draw(300), '\0'); file(W->cwd, "auto.bin", was); break;
    case 4: W->cwd->kids.erase("auto.bin"); break; } return was; };
  occupy(std::string(draw(2) ? 270000 : 0, 'y')); set_soft_budget(250000000ull);
  Result sv = tool(false, save); if (sv.code == 2) fail("save-failed", "saving without any fault reports failure: %s", show(sv.err).c_str());
  Node *bin = walk("auto.bin", true); if (!bin) fail("save-failed", "saving without any fault left no file");
  const std::string image = bin->data; size_t total = image.size();
  set_budget(800000000ull);   // none of the following costs more than what has been done already
  Result ld = tool(false, Args{"-b", "auto.bin"} + mode + names);
  if (!(ld == fresh)) fail("automaton-differs", "search with the saved automaton differs from the original patterns: exit %d/%d, %s", ld.code, fresh.code, first_diff(fresh.out, ld.out).c_str());
  if (!fresh.out.empty()) count("probe.matches");
  bool faulted_any = false; int rounds = 2 + (int)draw(4);
  auto rejects = [&](const char *what, const std::string &img, bool must) {
    file(W->cwd, "torn.bin", img); Result r = tool(false, Args{"-b", "torn.bin"} + mode + names);
    if (must && (r.code != 2 || !r.out.empty())) fail("damaged-accepted", "%s of %zu bytes (complete: %zu) is accepted: exit %d, %zu bytes of output", what, img.size(), total, r.code, r.out.size());
    W->cwd->kids.erase("torn.bin"); };
  for (int k = 0; k < rounds; k++) switch (set_budget(1500000000ull), draw(6)) {
  case 0: case 1: { // the save meets a fault
    switch (draw(5)) { case 0: W->disk_left = draw(total + 2); break; case 1: W->disk_left = draw(2000); break; case 2: W->write_ops = 0; W->fail_write = (long)draw(20); W->werr = draw(2) ? EIO : ENOSPC; break; case 3: W->fail_close = true; W->werr = EDQUOT; break; default: W->fault = [](const char *c, Node *, const std::string &p) { if (strcmp(c, "fopen") && strcmp(c, "open")) return 0; if (p != "auto.bin") return 0; count("fault.open_error"); return EACCES; }; }
    uint64_t dl = W->disk_left; auto fl = W->fault; long fw = W->fail_write; bool fc = W->fail_close; W->disk_left = ~0ull; W->fault = nullptr; W->fail_write = -1; W->fail_close = false; occupy(image); Node *b0 = walk("auto.bin", true); const std::string before = b0 ? b0->data : ""; W->disk_left = dl; W->fault = fl; W->fail_write = fw; W->fail_close = fc; W->write_ops = 0;
    W->failed_writes = 0; Result r = tool(false, save); bool fired = W->fired; W->disk_left = ~0ull; W->fail_write = -1; W->fail_close = false; W->fault = nullptr; W->write_ops = 0;
    if (fired && r.code != 2) fail("fault-not-reported", "a write of the automaton file failed and the save reports success (exit %d)", r.code);
    if (!fired && r.code == 2) fail("save-failed", "the save reports failure though nothing failed: %s", show(r.err).c_str());
    faulted_any |= fired; Node *b2 = walk("auto.bin", true); if (fired && b2 && b2->data != before) {   // a save whose last step failed may still have left everything
      if (b2->data.size() < total) rejects("what a failed save left", b2->data, true);
      else { Result l2 = tool(false, Args{"-b", "auto.bin"} + mode + names); if (!(l2 == fresh) && (l2.code != 2 || !l2.out.empty())) fail("damaged-accepted", "what a failed save left (%zu bytes, complete: %zu) is accepted and gives exit %d, %s", b2->data.size(), total, l2.code, first_diff(fresh.out, l2.out).c_str()); } }
    if (!fired) { Result l2 = tool(false, Args{"-b", "auto.bin"} + mode + names); if (!(l2 == fresh)) fail("automaton-differs", "an automaton saved over %zu bytes of something else: the search with it differs from the original patterns: exit %d/%d, %s", before.size(), l2.code, fresh.code, first_diff(fresh.out, l2.out).c_str()); }
    file(W->cwd, "auto.bin", image); break; }
  case 2: case 3: { size_t cut; size_t H = 600; switch (draw(4)) { case 0: cut = draw(total); break; case 1: cut = draw(std::min(total, H + 1)); break; case 2: cut = total - 1 - draw(std::min(total - 1, (size_t)300)); break; default: { cut = total > 262144 ? total - 262144 + draw(64) : draw(total); if (draw(2)) cut -= std::min(cut, (size_t)draw(400)); } } if (cut >= total) cut = total - 1; count("fault.truncated"); faulted_any = true; rejects("an automaton file cut short", image.substr(0, cut), true); break; }
  case 4: { // size fields of the header (the struct starts with nstates; ntrans, naccsubstates, nsubstates and hsize follow)
    static const size_t OFF[] = {0, 16, 32, 48, 64, 68, 72}; size_t off = OFF[draw(7)]; std::string im = image; uint32_t old; memcpy(&old, &im[off], 4); uint32_t v; switch (draw(6)) { case 0: v = 0; break; case 1: v = old + 1; break; case 2: v = old - 1; break; case 3: v = 0xffffffffu - (uint32_t)draw(3); break; case 4: v = 1u << draw(32); break; default: v = (uint32_t)draw(1ull << 32); } if (v == old) break; memcpy(&im[off], &v, 4); count("fault.size_field"); faulted_any = true; rejects("an automaton file with a damaged size field", im, true); break; }
  default: { // lost blocks: the device kept the length and lost the contents
    std::string im = image; size_t b = draw(3) == 0 ? 0 : draw(total / 512 + 1) * 512, e = std::min(total, b + 512 * (1 + draw(8))); bool garbage = draw(3) == 2; for (size_t i = b; i < e; i++) im[i] = garbage ? (char)draw(256) : 0; count("fault.lost_blocks"); faulted_any = true; rejects("an automaton file with lost blocks", im, b == 0 && !garbage); break; }
  }
  if (chance(1, 3)) { // faults while loading
    int mode_ = (int)draw(3); W->read_fault = [&](Node *, size_t want) -> long { if (mode_ == 0) { count("fault.short_read"); return want > 1 ? (long)(1 + draw(want)) : 1; } if (chance(1, 8)) { count("fault.read_error"); return mode_ == 1 ? -EIO : -EINTR; } return (long)want; };
    Result r = tool(false, Args{"-b", "auto.bin"} + mode + names); bool fired = W->fired; W->read_fault = nullptr;
    if (!fired && !(r == fresh)) fail("automaton-differs", "short reads while loading change the result: exit %d/%d", r.code, fresh.code);
    if (fired && r.code != 2 && !(r == fresh)) fail("damaged-accepted", "a read failed while loading; the search went on with something else: exit %d, %s", r.code, first_diff(fresh.out, r.out).c_str());
    faulted_any = true;
  }
  Result again = tool(false, Args{"-b", "auto.bin"} + mode + names); if (!(again == fresh)) fail("automaton-differs", "the intact automaton file no longer gives the original result");
  if (faulted_any) nontrivial(); distinct(hash_str(argstr(s.pat))); distinct(hash_str(fresh.out));
}
static Reg r14({"C14", c14, "one run = one pattern set compiled, saved and reloaded, compared with the patterns themselves, then 2-5 disturbed saves, truncated, damaged or badly read automaton files", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C15
struct Toks { std::string text, prolog, epilog; size_t body_end = 0; std::vector<std::string> ids, ex; bool valid = true; };
static std::string filler(size_t n) { std::string s; for (size_t i = 0, k = draw(n + 1); i < k; i++) { static const char *L[] = {"#define X 1\n", "/* c */\n", "int a;", "\n", "%", "%% ", "\r\n", "static int f(void) { return 0; }\n", "\"%d\"", "\xc3\xa9", "//"}; s += L[draw(11)]; } size_t p; while ((p = s.find("%%\n")) != std::string::npos || (p = s.find("%%\r\n")) != std::string::npos) s.erase(p, 1); return s; }
static Toks draw_tokens(bool maybe_bad) {
  Toks t; const char *nl = draw(6) == 5 ? "\r\n" : "\n"; t.prolog = filler(draw(2) ? 3 : draw(8) ? 12 : 900); if (t.prolog.size() && t.prolog.back() != '\n') t.prolog += "\n"; while (t.prolog.size() > 2 && t.prolog.substr(t.prolog.size() - 3) == "%%\n") t.prolog.erase(t.prolog.size() - 3);
  t.text = t.prolog + "%%" + nl; int n = 1 + (int)draw(draw(4) == 3 ? 8 : 3); if (draw(16) == 15) n = 9 + (int)draw(40); int bad = maybe_bad && draw(3) == 2 ? (int)draw(n) : -1;
  rexdb_t *db = rex_db_create(REXDB_TYPE_NFA); long st = -1;
  for (int i = 0; i < n; i++) {
    std::string id = draw(5) ? strf("TOKEN_%d", i) : strf("(T+%d)", i); if (chance(1, 6)) { size_t len = id.size() + draw(draw(3) ? 40 : 400); while (id.size() < len) id += "ABCDEFGHIJ_0123456789x"[id.size() % 22]; if (draw(3) == 2) id = "(" + id + "+" + strf("%d", i) + ")"; } std::string e = rex_expr(); if (e.back() == '\\') e += "x";   // a backslash before the line end continues the line
    if (i == bad) { static const char *B[] = {"(", "a(b", "[a-", "[a", "a{", "a{2", "ab)", "a**(", "*", "|a", "a|", "(a|)", "a{x}", "[b-a"}; e = B[draw(14)]; }
    if (chance(1, 10) && e.size() > 1 && i != bad) e += "\\" + std::string(nl) + " ";                  // continued line
    std::string sp = draw(2) ? "  " : draw(2) ? " " : "\t\t ";
    t.text += id + sp + e + nl; if (chance(1, 6)) t.text += nl;
    std::string rx = sp + e + nl; char *p = (char *)guard_copy(rx.data(), rx.size()); long r = t.valid ? rex_db_addexpression(db, st, p, rx.size(), i) : -1; guard_free(p); if (r < 0) t.valid = false; else st = r;
    t.ids.push_back(id); t.ex.push_back(rx);
  }
  rex_db_destroy(db);
  t.text += std::string("%%") + nl; t.body_end = t.text.size(); t.epilog = draw(3) ? filler(draw(8) ? 6 : 900) : ""; t.text += t.epilog; return t;
}
static bool section(const std::string &o, const char *head, size_t &pos, std::vector<std::vector<std::string>> &rows) { // rows of one generated array
  size_t p = o.find(head, pos); if (p == std::string::npos) return false; size_t i = o.find('\n', p); if (i == std::string::npos) return false; i++;
  for (;;) { size_t e = o.find('\n', i); if (e == std::string::npos) return false; std::string l = o.substr(i, e - i); i = e + 1; if (l == "};") { pos = i; return true; }
    size_t a = l.find('{'), b = l.rfind('}'); if (a == std::string::npos || b == std::string::npos) return false; std::vector<std::string> r; std::string cur; for (size_t k = a + 1; k < b; k++) { if (l[k] == ',') { r.push_back(cur); cur.clear(); } else if (l[k] != ' ') cur += l[k]; } r.push_back(cur); rows.push_back(r); }
}
static void check_output(const Toks &t, const std::string &o, bool sub) {
  size_t pos = 0; if (t.prolog.size() && (pos = o.find(t.prolog)) == std::string::npos) fail("incomplete-output", "the prolog of the token file is not in the output"); pos += t.prolog.size();
  std::vector<std::vector<std::string>> acc, ss, tr, st; if (!section(o, "static rexdfss_t accsubstates[] = {", pos, acc) || !section(o, "static rexdfss_t substates[] = {", pos, ss) || !section(o, "static rexdft_t transitions[] = {", pos, tr) || !section(o, "static rexdfs_t states[] = {", pos, st)) fail("incomplete-output", "a table is missing in the generated output");
  size_t d = o.find("static rexdfa_t ccdfa = {\n", pos); if (d == std::string::npos) fail("incomplete-output", "the automaton object is missing"); d += strlen("static rexdfa_t ccdfa = {\n");
  std::vector<std::string> ln; for (;;) { size_t e = o.find('\n', d); if (e == std::string::npos) fail("incomplete-output", "the automaton object is cut short"); std::string l = o.substr(d, e - d); d = e + 1; if (l == "};") break; ln.push_back(l); }
  if (ln.size() < 8) fail("incomplete-output", "the automaton object is cut short");
  auto num = [&](const std::string &s) { size_t i = 0; while (i < s.size() && !isdigit((unsigned char)s[i])) i++; return (size_t)strtoull(s.c_str() + i, nullptr, 10); };
  size_t ns = num(ln[0]), nt = num(ln[2]), na = num(ln[4]), nss = num(ln[6]);
  if (ns + 1 != st.size() || nt + 1 != tr.size() || na + 1 != acc.size() || nss + 1 != ss.size()) fail("incomplete-output", "counts %zu/%zu/%zu/%zu do not fit tables of %zu/%zu/%zu/%zu rows", ns, nt, na, nss, st.size(), tr.size(), acc.size(), ss.size());
  if (t.epilog.size() && (o.size() < t.epilog.size() || o.compare(o.size() - t.epilog.size(), t.epilog.size(), t.epilog) || o.size() - t.epilog.size() < d)) fail("incomplete-output", "the epilog of the token file is not at the end of the output");
  if (sub != (nss > 0) && sub) fail("incomplete-output", "no sub-states in the output although requested");
  // the tables recognise what the expressions recognise
  rexdb_t *db = rex_db_create(REXDB_TYPE_NFA); long start = -1; for (size_t i = 0; i < t.ex.size(); i++) start = rex_db_addexpression(db, start, t.ex[i].data(), t.ex[i].size(), i);
  rex_nfasimulator_t *si = rex_nfasimulator_create();
  for (int k = 0, n = 4 + (int)draw(8); k < n; k++) {
    std::string x = gen_text(20); size_t p = 0, state = 1; rex_nfasimulator_start(si, db, start); size_t done = 0; bool alive = true;
    while (p < x.size() && alive) {
      ruint32 wc; int inc = r_utf8_mbtowc(&wc, (const unsigned char *)x.data() + p, (const unsigned char *)x.data() + x.size()); if (inc <= 0) break; p += inc;
      size_t off = num(st[state][1]), cnt = num(st[state][2]), next = (size_t)-1; if (off + cnt > nt) fail("wrong-output", "state %zu points past the transition table", state);
      for (size_t j = off; j < off + cnt; j++) if (wc >= num(tr[j][0]) && wc <= num(tr[j][1])) next = num(tr[j][2]);
      if (next == (size_t)-1) fail("wrong-output", "state %zu has no transition for %#x", state, wc); if (next >= ns) fail("wrong-output", "transition to state %zu of %zu", next, ns);
      state = next; alive = rex_nfasimulator_next(si, db, wc, inc) != 0;
      std::set<std::string> want, got; for (size_t i = done; i < r_array_length(si->accepts); i++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(si->accepts, i); if (a->inputsize == p) want.insert("(rexuserdata_t)(" + t.ids[a->state->userdata] + ")"); } done = r_array_length(si->accepts);
      size_t ao = num(st[state][3]), ac = num(st[state][4]); if (ao + ac > na) fail("wrong-output", "state %zu points past the accept table", state); for (size_t j = ao; j < ao + ac; j++) got.insert(acc[j][2]);
      if (want != got) fail("wrong-output", "after \"%s\" the generated automaton reports %zu tokens, the expressions %zu", show(x.substr(0, p)).c_str(), got.size(), want.size());
      if (want.size()) { count("probe.accept"); if ((num(st[state][0]) == REX_STATETYPE_ACCEPT) != true) fail("wrong-output", "accepting state %zu is not marked", state); }
      if (state == 0) { if (alive && r_array_length(si->accepts) > done) fail("wrong-output", "dead state too early"); break; }
    }
  }
  rex_nfasimulator_destroy(si); rex_db_destroy(db);
}
static Result cc(const Args &a, Sess *in = nullptr) { Args v = a; v.insert(v.begin(), "rexcc"); Result r = run_tool(rexcc_main, v, in); event("%s => exit %d, %zu bytes out", argstr(v).c_str(), r.code, r.out.size()); return r; }
static void c15() {
  reset(); g_words.clear(); g_mean.clear(); g_blanks = draw(8) == 7; g_cont = false; heap_big_fill = 0; set_soft_budget(200000000ull); set_quiet_points(true);
  Toks t = draw_tokens(true); file(W->cwd, "t.rexcc", t.text); bool tofile = draw(3) != 2; bool sub = draw(3) == 2; Args a; 
  if (sub) a.push_back("-s"); Args io = tofile ? Args{"-o", "out.h"} : Args{}; if (draw(2)) a = a + io + Args{"t.rexcc"}; else a = a + Args{"t.rexcc"} + io;
  event("%zu tokens, %zu bytes, %s", t.ids.size(), t.text.size(), t.valid ? "valid" : "with an invalid expression"); for (auto &e : t.ex) event("  expression %s", show(e).c_str());
  auto output = [&](const Result &r) { if (!tofile) return r.out; Node *n = walk("out.h", true); return n ? n->data : std::string(); };
  if (draw(3) == 2) file(W->cwd, "out.h", std::string(draw(60000), '#') + "\nold\n");
  Result c = cc(a);
  if (!t.valid) { count("fault.invalid_expression"); if (c.code == 0) fail("silent-failure", "a token file with a rejected expression yields exit 0"); nontrivial(); distinct(hash_str(t.text)); return; }
  if (c.code != 0) fail("refused", "a valid token file is refused: exit %d, %s", c.code, show(c.err + c.out, 200).c_str());
  const std::string full = output(c); check_output(t, full, sub); count("probe.complete_output");
  if (c.fds || c.maps) fail("leak", "%zu descriptors and %zu mappings left open", c.fds, c.maps);
  set_soft_budget(200000000ull); Args da = {}; std::string dfull; if (chance(1, 4)) { static const char *D[] = {"-D", "-N", "-d"}; da = {D[draw(3)], "t.rexcc"}; Result r = cc(da); if (r.code) fail("refused", "%s on a valid token file: exit %d", da[0].c_str(), r.code); dfull = r.out; }
  int rounds = 3 + (int)draw(5);
  for (int k = 0; k < rounds; k++) {
    std::string what; std::string input = t.text; bool mustfail = false; Args run = a; bool dump = false; Sess in; in.out_faults = true; W->write_ops = 0; W->failed_writes = 0;
    switch (draw(10)) {
    case 0: case 1: W->disk_left = draw(full.size() + (draw(4) ? 0 : 40)); what = "disk full"; break;
    case 2: W->fail_write = (long)draw(1 + full.size() / 2000 + 2); W->werr = draw(2) ? EIO : ENOSPC; what = "failing write"; break;
    case 3: if (!tofile) continue; W->fail_close = true; what = "failing close"; break;
    case 4: case 5: { size_t cut = draw(3) ? draw(t.body_end) : t.body_end - 1 - draw(std::min(t.body_end - 1, (size_t)12)); input = t.text.substr(0, cut); what = strf("input cut to %zu of %zu bytes", cut, t.body_end); mustfail = true; count(cut ? "fault.truncated_input" : "fault.empty_input"); break; }
    case 6: { static const char *C[] = {"open", "fstat", "mmap", "fopen"}; static const int E[] = {EACCES, EMFILE, EIO, ENOMEM}; int i = (int)draw(tofile ? 4 : 3); int e = E[draw(4)]; const char *call = C[i]; W->fault = [=](const char *c, Node *n, const std::string &p) { bool hit = !strcmp(c, call) && (i == 3 ? p == "out.h" : n && n->name == "t.rexcc"); if (hit) count(i == 3 ? "fault.output_open_error" : i == 0 ? "fault.open_error" : i == 1 ? "fault.fstat_error" : "fault.mmap_error"); return hit ? e : 0; }; mustfail = true; what = std::string(call) + " fails"; break; }
    case 7: if (draw(2)) { run = {"missing.rexcc"}; if (tofile) run = run + io; } else if (tofile) { run = {"t.rexcc", "-o", "nowhere/out.h"}; } else run = {"/home"}; mustfail = true; what = "missing path"; count("fault.missing_path"); break;
    case 8: { what = "damaged input"; count("fault.damaged_input"); for (int i = 0, n = 1 + (int)draw(4); i < n; i++) { size_t p = draw(input.size()); switch (draw(3)) { case 0: input[p] = (char)draw(256); break; case 1: input.erase(p, 1 + draw(3)); break; default: input.insert(p, 1, "%\n()[]{}\\'\" \t\r|*"[draw(16)]); } if (input.empty()) input = "x"; } int braces = 0; for (size_t i = 0; i + 1 < input.size(); i++) braces += input[i] == '{'; if (braces > 40) continue; break; }
    default: if (da.empty()) continue; run = da; dump = true; what = "disk full while dumping"; W->disk_left = draw(dfull.size() + 20); break;
    }
    file(W->cwd, "t.rexcc", input); if (draw(2)) W->cwd->kids.erase("out.h"); else if (draw(2)) file(W->cwd, "out.h", full + filler(40) + std::string(draw(9000), '\n'));
    if (input == t.text) set_budget(1000000000ull); else set_soft_budget(200000000ull);
    Result r = cc(run, &in); bool fired = W->failed_writes > 0; W->disk_left = ~0ull; W->fail_write = -1; W->fail_close = false; W->fault = nullptr;
    std::string o = dump ? r.out : output(r); bool same = o == (dump ? dfull : full);
    if (mustfail && r.code == 0) fail("silent-failure", "%s: exit 0", what.c_str());
    if (r.code == 0 && input == t.text && !same) fail("silent-failure", "%s: exit 0 with %zu of %zu bytes of output", what.c_str(), o.size(), dump ? dfull.size() : full.size());
    if (r.code == 0 && fired) fail("silent-failure", "%s: a write of the output failed, exit 0", what.c_str());
    if (r.code != 0 && !mustfail && !fired && input == t.text) fail("refused", "%s (which met no fault): exit %d, %s", what.c_str(), r.code, show(r.err).c_str());
    if (r.code == 0 && input != t.text && o.find("static rexdfa_t ccdfa = {\n") == std::string::npos) fail("silent-failure", "%s: exit 0 without an automaton in the output", what.c_str());
    distinct(hash_str(what));
  }
  nontrivial(); distinct(hash_str(t.text));
}
static Reg r15({"C15", c15, "one run = one token file compiled undisturbed and checked against its expressions, then 3-7 compilations with a full disk, failing writes or close, unreadable, truncated or damaged input", REAL, STUB});
