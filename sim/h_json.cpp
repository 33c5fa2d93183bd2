// rexjson and rexjsonrpc: C16 (stream reading), C17 (record parser), C18 (RPC server), C19 (failing allocations and hooks)
#include "simrt.h"
#include "jsonmodel.h"
#include "rexjson/rexjson.h"
#include "rexjson/rexjson++.h"
#include "rexjsonrpc/property.h"
#include "rexjsonrpc/rpcserver.h"
namespace rj = rexjson;
static const char *REAL = "rexjson.c, rexjson++.cpp, property.cpp/.h and rpcserver.h with the automaton rexcc generates from rexjsondfa.rexcc: the repository's sources, instrumented at every memory access";
struct OutSut { int d; OutSut() : d(sut_depth) { sut_depth = 0; } ~OutSut() { sut_depth = d; } };
enum Out { OK, ERR, OOM, ODD };
static std::string last_what;
template <class F> static Out sut(F f) {                             // run library code; how did it end?
  Out r = OK; last_what.clear();
  { InSut in; try { f(); } catch (std::bad_alloc &) { r = OOM; } catch (std::exception &e) { r = ERR; OutSut o; last_what = e.what(); } catch (...) { r = ODD; } }
  return r;
}
static const char *ON[] = {"succeeded", "threw an error", "threw bad_alloc", "threw something odd"};
static bool same(const rj::value &v, const M &m) {                   // exact, allocation free
  switch (m.t) {
    case MNULL: return v.get_type() == rj::null_type; case MBOOL: return v.get_type() == rj::bool_type && v.get_bool() == m.b; case MINT: return v.get_type() == rj::int_type && v.get_int64() == m.i; case MREAL: return v.get_type() == rj::real_type && v.get_real() == m.d; case MSTR: return v.get_type() == rj::str_type && v.get_str() == m.s;
    case MARR: { if (v.get_type() != rj::array_type) return false; const rj::array &a = v.get_array(); if (a.size() != m.a.size()) return false; for (size_t i = 0; i < m.a.size(); i++) if (!same(a[i], m.a[i])) return false; return true; }
    default: { if (v.get_type() != rj::obj_type) return false; const rj::object &o = v.get_obj(); if (o.size() != m.o.size()) return false; auto it = o.begin(); for (auto &e : m.o) { if (it->first != e.first || !same(it->second, e.second)) return false; ++it; } return true; }
  }
}
static M model_of(const rj::value &v) {
  M m; switch (v.get_type()) { case rj::null_type: break; case rj::bool_type: m = M::B(v.get_bool()); break; case rj::int_type: m = M::I(v.get_int64()); break; case rj::real_type: m = M::R(v.get_real()); break; case rj::str_type: m = M::S(v.get_str()); break;
    case rj::array_type: m = M::A(); for (auto &e : v.get_array()) m.a.push_back(model_of(e)); break; case rj::obj_type: m = M::O(); for (auto &e : v.get_obj()) m.o[e.first] = model_of(e.second); break; default: fail("memory", "value with type tag %d", (int)v.get_type()); } return m;
}
// build through the public interface; inside the library's heap
static void build(rj::value &v, const M &m) {
  switch (m.t) { case MNULL: v = rj::value::null; break; case MBOOL: v = m.b; break; case MINT: v = m.i; break; case MREAL: v = m.d; break;
    case MSTR: if (m.s.find('\0') == std::string::npos) v = m.s.c_str(); else { std::string e; for (char c : m.s) { if (c == '\\') e += c; e += c; } v = e; } break;   // text has its escapes resolved
    case MARR: v = rj::array(); for (auto &e : m.a) build(v.push_back(), e); break; default: v = rj::object(); for (auto &e : m.o) build(v[e.first], e.second); }
}

static int text_depth(const std::string &t) { RefParser f(t, 1000); f.parse(); int depth = 0, d = 0; for (auto &r : f.recs) { d += r.type == 1 ? 1 : -1; depth = std::max(depth, d); } return depth; }
// ---------------------------------------------------------------------------------------------------- C16
struct Buf : std::streambuf {                                        // delivers data in the sizes of the plan, then ends or fails
  std::string data; std::vector<int> chunks; size_t pos = 0, ci = 0, limit; int mode, endk; char *cur = nullptr; char one[1];
  Buf(const std::string &d, size_t limit, int mode, int endk) : data(d), limit(limit), mode(mode), endk(endk) {}
  ~Buf() { drop(); }
  void drop() { if (cur) { OutSut o; guard_free(cur); cur = nullptr; } }
  int ended() { if (endk == 1) throw std::runtime_error("device error"); if (endk == 2) throw 5; return traits_type::eof(); }
  size_t step() { size_t n = ci < chunks.size() ? chunks[ci++] : data.size(); return std::min(n ? n : 1, limit - pos); }
  int underflow() override {
    OutSut o;
    if (mode == 2) return pos < limit ? (unsigned char)data[pos] : ended();          // unbuffered, no put-back
    if (gptr() && gptr() < egptr()) return (unsigned char)*gptr();
    if (pos >= limit) return ended();
    char last = cur && egptr() > eback() ? egptr()[-1] : 0; bool pb = mode == 1 && cur; size_t n = step();
    std::string b = (pb ? std::string(1, last) : "") + data.substr(pos, n); if (cur) memset(eback(), 'Z', egptr() - eback()); drop(); cur = (char *)guard_copy(b.data(), b.size()); setg(cur, cur + (pb ? 1 : 0), cur + b.size()); pos += n; if (chunks.size()) count("fault.short_delivery");
    return (unsigned char)*gptr();
  }
  int uflow() override { if (mode != 2) return std::streambuf::uflow(); OutSut o; if (pos >= limit) return ended(); return (unsigned char)data[pos++]; }
  std::streamsize showmanyc() override { return 0; }
};
static std::vector<int> chunk_plan(size_t n) { std::vector<int> c; uint64_t how = draw(5); if (how == 0) return c; size_t t = 0; while (t < n && c.size() < 3000) { int k = how == 1 ? 1 : how == 2 ? 1 + (int)draw(3) : how == 3 ? 1 + (int)draw(16) : 1 + (int)draw(n + 1); c.push_back(k); t += k; } return c; }
struct ReadR { Out out; M m; bool kept; };
static ReadR read_stream(const std::string &text, size_t limit, int endk, const M *old, size_t levels = 64, int exc = 0, int stdmode = -1) {
  ReadR r; r.kept = false; int mode = stdmode >= 0 ? stdmode : (int)draw(3); std::vector<int> ch = chunk_plan(text.size());
  rj::value *v; { InSut i; v = new rj::value; if (old) build(*v, *old); }
  { Buf b(text, limit, mode, endk); b.chunks = ch;
    r.out = sut([&] { std::istream is(&b); if (exc) is.exceptions(std::ios::badbit); rj::input in(is); in.read_steam(*v, levels); }); }
  r.m = model_of(*v); { InSut i; delete v; } return r;
}
static void check_kept(const ReadR &r, const M *old, const char *what, const std::string &text) { if (!(r.m.t == MNULL || (old && r.m == *old))) fail("partial-value", "%s: error reported, but the value is now %s (document %s)", what, dump(r.m).c_str(), show(text, 200).c_str()); }
static M drop_nulls(const M &m) { M r = m; r.a.clear(); r.o.clear(); for (auto &e : m.a) r.a.push_back(drop_nulls(e)); for (auto &e : m.o) if (e.second.t != MNULL) r.o[e.first] = drop_nulls(e.second); return r; }
struct Sink : std::streambuf { std::string got; size_t cap; Sink(size_t c) : cap(c) {} int overflow(int c) override { OutSut o; if (c == EOF || got.size() >= cap) return EOF; got += (char)c; return c; } std::streamsize xsputn(const char *s, std::streamsize n) override { OutSut o; size_t k = std::min<size_t>(n, cap - got.size()); got.append(s, k); return k; } };
static void c16() {
  set_budget(400000000ull); size_t live0 = heap_unrooted(); M m = gen_big(); int style = (int)draw(3); std::string pre = style ? ws(2) : "", body, text; emit(m, body, style); std::string post = style ? ws(2) : ""; if (draw(8) == 7) post += body;   // something after the value
  text = pre + body + post; size_t ve = pre.size() + body.size(); int depth = text_depth(body); bool scalar_num = m.t == MINT || m.t == MREAL; event("document %s", show(text, 300).c_str()); distinct(hash_str(text));
  M oldm; const M *old = nullptr; if (draw(2)) { int l = 4; oldm = gen_m(2, l); old = &oldm; }
  bool clean = post.empty() || post.find_first_not_of(" \t\r\n") == std::string::npos || !scalar_num;   // a number runs into what follows it
  if (!clean) { text = pre + body; post.clear(); }
  // complete documents, whatever the delivery
  int n = 1 + (int)draw(3); for (int i = 0; i < n; i++) { ReadR r = read_stream(text, text.size(), 0, old, 64, (int)draw(2)); if (r.out != OK) fail("delivery-matters", "a complete document was rejected (%s): %s", last_what.c_str(), show(text, 200).c_str()); if (!(r.m == m)) fail("wrong-value", "read %s from %s, expected %s", dump(r.m).c_str(), show(text, 200).c_str(), dump(m).c_str()); count("op.read_whole"); }
  { rj::value *v; { InSut i; v = new rj::value; } Out o = sut([&] { if (draw(2)) v->read(text, 64); else { char *g = (char *)guard_copy(text.data(), text.size()); v->read(g, text.size(), 64); OutSut oo; guard_free(g); } }); if (o != OK || !same(*v, m)) fail("wrong-value", "reading from memory %s (%s): %s", ON[o], last_what.c_str(), show(text, 200).c_str()); InSut i; delete v; }
  // level limit
  if (depth > 1 && chance(1, 4)) { size_t lv = draw(2) ? depth : draw(depth); ReadR r = read_stream(text, text.size(), 0, old, lv); count("fault.level_limit"); if ((lv >= (size_t)depth) != (r.out == OK)) fail("level-limit", "depth %d, limit %zu: %s", depth, lv, ON[r.out]); if (r.out != OK) check_kept(r, old, "level limit", text); else if (!(r.m == m)) fail("wrong-value", "at the level limit read %s, expected %s", dump(r.m).c_str(), dump(m).c_str()); }
  // ends or fails early
  int cuts = text.size() < 40 && draw(3) == 2 ? (int)text.size() + 1 : 4 + (int)draw(8); bool all = cuts == (int)text.size() + 1;
  for (int i = 0; i < cuts; i++) {
    size_t k = all ? i : draw(3) == 2 && ve ? ve - std::min<size_t>(ve, draw(4)) : draw(text.size() + 1); int endk = (int)draw(3); count(endk ? "fault.stream_error" : "fault.stream_end"); ReadR r = read_stream(text, k, endk, old, 64, (int)draw(2));
    const char *w = endk ? "stream failed" : "stream ended"; bool in = k < ve, ok = r.out == OK;
    if (!ok) { check_kept(r, old, w, text); if (k >= ve && !endk) fail("delivery-matters", "document complete at byte %zu, stream ended at %zu, rejected (%s): %s", ve, k, last_what.c_str(), show(text, 200).c_str()); }
    else if (!in) { if (!(r.m == m)) fail("wrong-value", "%s at %zu after the value: read %s, expected %s", w, k, dump(r.m).c_str(), dump(m).c_str()); }
    else if (endk) fail("partial-value", "%s at byte %zu inside the value (ends at %zu): accepted as %s: %s", w, k, ve, dump(r.m).c_str(), show(text, 200).c_str());
    else if (!scalar_num) fail("partial-value", "%s at byte %zu inside the value (ends at %zu): accepted as %s: %s", w, k, ve, dump(r.m).c_str(), show(text, 200).c_str());
    else { std::string p = text.substr(0, k); RefParser q(p, 1); bool pok = q.parse(); if (!pok || q.recs[0].value + q.recs[0].vsize != p.size()) fail("partial-value", "number cut to \"%s\", which is no number: accepted as %s", show(p).c_str(), dump(r.m).c_str()); }
    if (in) nontrivial();
  }
  // corrupted documents: never both delivered differently; malformed ones are errors
  if (chance(1, 3)) {
    std::string bad = corrupt(body); count("fault.corrupt_document"); ReadR a = read_stream(bad, bad.size(), 0, old), b = read_stream(bad, bad.size(), 0, nullptr); if ((a.out == OK) != (b.out == OK) || (a.out == OK && !(a.m == b.m))) fail("delivery-matters", "the same bytes were %s and %s: %s", ON[a.out], ON[b.out], show(bad, 200).c_str());
    RefParser q(bad, 64); bool ok = q.parse(); if (!q.slash) { if (!ok && a.out == OK) fail("partial-value", "malformed document accepted as %s: %s", dump(a.m).c_str(), show(bad, 200).c_str()); }
    if (a.out != OK) check_kept(a, old, "malformed", bad);
    rj::value *v; { InSut i; v = new rj::value; if (old) build(*v, *old); } bool t = false; Out o = sut([&] { t = rj::read_no_throw(*v, bad, 64); }); M vm = model_of(*v); { InSut i; delete v; } if (o != OK) fail("error-escapes", "read_no_throw %s", ON[o]); if (t != (a.out == OK)) fail("delivery-matters", "read_no_throw says %d, the stream reader %s: %s", t, ON[a.out], show(bad, 200).c_str()); if (!t && !(vm.t == MNULL || (old && vm == *old))) fail("partial-value", "read_no_throw failed and left %s", dump(vm).c_str());
  }
  // written and read back
  M w = draw(2) ? m : gen_big(); rj::value *v; { InSut i; v = new rj::value; build(*v, w); } if (!same(*v, w)) fail("wrong-value", "value built through the interface is %s, expected %s", dump(model_of(*v)).c_str(), dump(w).c_str());
  bool pretty = draw(2), nulls = draw(4) != 3; size_t tab = draw(6), prec = 4 + draw(6); std::string *os; { InSut i; os = new std::string; } Out o = sut([&] { *os = v->write(pretty, nulls, tab, prec); }); std::string out = *os; { InSut i; delete os; } if (o != OK) fail("write-failed", "writing %s", ON[o]);
  M want = nulls ? w : drop_nulls(w); ReadR r = read_stream(out, out.size(), 0, nullptr); count("op.round_trip"); if (r.out != OK) fail("round-trip", "%s was written as %s, which is rejected (%s)", dump(w).c_str(), show(out, 200).c_str(), last_what.c_str()); if (!(r.m == want)) fail("round-trip", "%s was written as %s and read back as %s", dump(want).c_str(), show(out, 200).c_str(), dump(r.m).c_str());
  if (chance(1, 3)) { size_t cap = draw(out.size() + 2); Sink s(cap); bool good = false; sut([&] { std::ostream st(&s); rj::output(pretty, nulls, tab, prec).write(*v, st); good = (bool)st; }); count("fault.sink_full"); if (cap < out.size() && good) fail("write-failed", "sink took %zu of %zu bytes and the stream still says good", cap, out.size()); if (s.got != out.substr(0, std::min(cap, out.size()))) fail("write-failed", "bytes written to a stream differ from the string: %s against %s", show(s.got, 100).c_str(), show(out, 100).c_str()); }
  if (chance(1, 10)) { static const double D[] = {INFINITY, -INFINITY, NAN}; double d = D[draw(3)]; std::string t; { InSut i; rj::value x = rj::array(); x.push_back(d); x.push_back(3); std::string s = x.write(); OutSut oo; t.assign(s.data(), s.size()); } ReadR q = read_stream(t, t.size(), 0, nullptr); if (q.out != OK || q.m.a.size() != 2) fail("round-trip", "an array with %g was written as %s, which is rejected", d, t.c_str()); }
  { InSut i; delete v; } if (heap_unrooted() != live0) fail("leak", "%lld blocks left", (long long)(heap_unrooted() - live0)); finish();
}
static Reg r16({"C16", c16, "one run = one document read from a simulated stream in up to 3 fragmentations and with up to ~40 early ends and failures, a corrupted copy, and one value written and read back", REAL, "stream devices (std::streambuf delivering seeded sizes, end and failure), system memory allocator"});

// ---------------------------------------------------------------------------------------------------- C17
static void dump_all(rexjson_record_t *r, size_t n, const char *b) { FILE *f = fopen("/dev/null", "w"); { InSut i; rexjson_dump_records(f, r, n, b); rexjson_dump_tree(f, r, n, 0, b, 0); } fclose(f); }
static size_t visit(rexjson_record_t *r, size_t n, ssize_t at, const std::vector<Rec> &want, size_t &k) {   // walk with the navigation functions; k: index in want
  size_t seen = 1; if ((size_t)at != k) fail("records", "navigation reaches record %zd, expected %zu", at, k); k++;
  ssize_t c = rexjson_recordtree_firstchild(r, n, at); while (c >= 0) { if ((size_t)c >= n) fail("records", "navigation leaves the array"); seen += visit(r, n, c, want, k); c = rexjson_recordtree_next(r, n, c); }
  if (want[k].type != 2) fail("records", "navigation misses record %zu", k); k++; return seen;
}
static void c17() {
  set_budget(600000000ull); M m = gen_big(16); std::string doc; emit(m, doc, (int)draw(3)); if (draw(2)) doc = ws(2) + doc + ws(2); rexjson_t *ctx = (rexjson_t *)guard_copy(std::string(sizeof(rexjson_t), (char)0xEE).data(), sizeof(rexjson_t)); uint64_t sig = 0; bool any_fault = false;
  int ops = 3 + (int)draw(8); bool shared = draw(2); size_t sh_n = 1 + draw(80); rexjson_record_t *sh = nullptr; if (shared) { std::string g(sh_n * sizeof(rexjson_record_t), '\x01'); sh = (rexjson_record_t *)guard_copy(g.data(), g.size()); }
  for (int i = 0; i < ops; i++) {
    std::string t = doc; int kind = (int)draw(5); if (kind == 1) { t.resize(draw(t.size() + 1)); count("fault.truncated"); } else if (kind == 2) { t = corrupt(t); count("fault.corrupt"); } else if (kind == 3) { t += CORRUPT[draw(22)]; if (draw(2)) t += std::string(1, '\0'); }
    RefParser full(t, 1000); bool valid = full.parse(); int depth = text_depth(t); size_t need = full.recs.size(); if (full.slash) continue;
    size_t levels = draw(3) == 2 ? draw(depth + 2) : 60; size_t n = shared ? sh_n : draw(3) == 2 ? draw(need + 3) : draw(3) ? need + draw(4) : need > 2 ? need - 1 - draw(2) : draw(4);
    RefParser ref(t, levels); bool ok = ref.parse() && ref.recs.size() <= n;
    rexjson_record_t *recs; if (shared) recs = sh; else { std::string g(n * sizeof(rexjson_record_t), draw(2) ? '\x01' : '\0'); recs = (rexjson_record_t *)guard_copy(g.data(), g.size()); }
    char *buf = (char *)guard_copy(t.data(), t.size()); ssize_t r; { InSut in; r = rexjson_parse_buffer(ctx, recs, n, buf, t.size(), levels); }
    event("parse %s, %zu records, %zu levels -> %zd error %d", show(t, 150).c_str(), n, levels, r, rexjson_get_error(ctx)); sig = hash_bytes(&r, sizeof r, sig ^ hash_str(t) ^ n);
    std::string in = strf("document %s with room for %zu records, %zu levels", show(t, 200).c_str(), n, levels);
    if (r < 0) {
      if (ok) fail("rejected", "%s: error %d at %zu, expected success with %zu records", in.c_str(), rexjson_get_error(ctx), rexjson_get_error_offset(ctx), ref.recs.size());
      if (!rexjson_get_error(ctx)) fail("no-error-code", "%s: negative result without an error code", in.c_str()); if (rexjson_get_error_offset(ctx) > t.size()) fail("error-offset", "%s: error offset %zu", in.c_str(), rexjson_get_error_offset(ctx));
      if (valid && levels >= (size_t)depth && rexjson_get_error(ctx) != REXJSON_E_NOMEM) fail("wrong-error", "%s: error %d, expected out of records", in.c_str(), rexjson_get_error(ctx));
      if (valid && n >= need && rexjson_get_error(ctx) != REXJSON_E_MAXRECURSIONS) fail("wrong-error", "%s: error %d, expected too many levels", in.c_str(), rexjson_get_error(ctx));
      if (!valid && levels >= 60 && n >= 2 * full.recs.size() + 2 && rexjson_get_error(ctx) != REXJSON_E_UNEXPECTEDCHAR) fail("wrong-error", "%s: error %d, expected unexpected character", in.c_str(), rexjson_get_error(ctx));
      any_fault = true; if (valid && n < need) count("fault.no_records"); if (valid && levels < (size_t)depth) count("fault.level_limit");
    } else {
      if (!ok) fail("accepted", "%s: result %zd, expected an error", in.c_str(), r);
      if (rexjson_get_error(ctx)) fail("wrong-error", "%s: success with error code %d", in.c_str(), rexjson_get_error(ctx));
      for (size_t k = 0; k < ref.recs.size(); k++) { const Rec &w = ref.recs[k]; const rexjson_record_t &g = recs[k];
        if ((int)g.rectype != w.type || (int)g.valtype != w.val || g.value != w.value || g.valuesize != w.vsize || (w.nsize && g.name != w.name) || g.namesize != w.nsize) fail("records", "%s: record %zu is type %d value type %d text %zu+%zu name %zu+%zu, expected type %d value type %d text %zu+%zu name %zu+%zu", in.c_str(), k, g.rectype, g.valtype, g.value, g.valuesize, g.name, g.namesize, w.type, w.val, w.value, w.vsize, w.name, w.nsize); }
      if ((size_t)r > t.size() || r == 0 || (size_t)r < ref.recs[0].vsize) fail("records", "%s: %zd bytes reported parsed, the value has %zu", in.c_str(), r, ref.recs[0].vsize);
      if (need < n && recs[need].rectype != REXJSON_RECORD_NONE) fail("records", "%s: the list of %zu records is not terminated", in.c_str(), need);
      { InSut is; size_t k = 0; visit(recs, n, 0, ref.recs, k); if (rexjson_recordtree_next(recs, n, 0) >= 0) { OutSut o; fail("records", "%s: the root has a sibling", in.c_str()); } } 
      if (chance(1, 5)) { count("op.dump"); dump_all(recs, n, buf); } if (any_fault) nontrivial(); count("op.parse_ok");
    }
    guard_free(buf); if (!shared) guard_free(recs);
  }
  if (shared) guard_free(sh); guard_free(ctx); distinct(sig);
}
static Reg r17({"C17", c17, "one run = one parser object used for 3-10 parses of complete, truncated and corrupted texts with record arrays of drawn sizes, records compared with a reference parser", REAL, "system memory allocator (exact-size buffers)"});

// ---------------------------------------------------------------------------------------------------- C18
static uint64_t alloc_n, alloc_at; static bool alloc_rest, alloc_hit;
static void arm(bool on) {                                           // one failing allocation, or all from some point on
  alloc_n = 0; alloc_hit = false; if (!on) { alloc_fail_plan(nullptr); return; }
  alloc_at = draw(4) == 3 ? draw(60) : draw(12); alloc_rest = draw(4) == 3;
  alloc_fail_plan([](size_t) { uint64_t k = alloc_n++; bool f = alloc_rest ? k >= alloc_at : k == alloc_at; if (f) { alloc_hit = true; } return f; });
}
static void disarm() { alloc_fail_plan(nullptr); if (alloc_hit) count("fault.allocation"); }
enum Act { RET, T_RUNTIME, T_LOGIC, T_BADALLOC, T_OBJECT, T_EMPTYOBJ, T_VALUE, T_INT, T_CSTR, T_CUSTOM, T_ARRAY, T_EXCEPTION, REENTER, REENTER_BAD, REREG, ADDNEW, CLEARPARAMS, T_AFTER_CLEAR, REENTER_SELF, NACT };
static const char *ACT[] = {"returns", "throws runtime_error", "throws logic_error", "throws bad_alloc", "throws a JSON object", "throws an empty JSON object", "throws a JSON value", "throws an int", "throws a string", "throws a class", "throws a JSON array", "throws std::exception", "calls the server", "calls the server with nonsense", "registers itself again", "registers a method", "clears its parameters", "clears its parameters and throws", "calls itself through the server"};
enum { SUM, CAT, NEG, NOT, SET, BIG, NOP, RAW, MEM, OBJ, NH };
static const char *HN[] = {"sum", "cat", "neg", "not", "set", "big", "nop", "raw", "mem", "obj"};
static int calls[NH], queried[NH]; static Act act; static int act_depth; static char act_text[64];
struct Srv; static Srv *srv; static void perform(int h, rj::array *params);
static int f_sum(int a, int b) { calls[SUM]++; perform(SUM, nullptr); return (int)((unsigned)a + (unsigned)b); }
static std::string f_cat(std::string a, std::string b) { calls[CAT]++; perform(CAT, nullptr); std::string r = a + b; for (auto &c : r) if (c == '\\') c = '/'; return r; }
static double f_neg(double a) { calls[NEG]++; perform(NEG, nullptr); return -a; }
static bool f_not(bool a) { calls[NOT]++; perform(NOT, nullptr); return !a; }
static void f_set(int) { calls[SET]++; perform(SET, nullptr); }
static int64_t f_big(int64_t a) { calls[BIG]++; perform(BIG, nullptr); return ~a; }
static int f_nop() { calls[NOP]++; perform(NOP, nullptr); return 7; }
static rj::value raw_body(int h, rj::array &p, rj::rpc_exec_mode mode) { if (mode != rj::execute) { queried[h]++; rj::value v = rj::array(); v.push_back((int)mode); return v; } calls[h]++; rj::value v = rj::array(p); perform(h, &p); if (act != CLEARPARAMS) v = rj::array(p); return v; }
static rj::value f_raw(rj::array &p, rj::rpc_exec_mode mode) { return raw_body(RAW, p, mode); }
struct Other { int x = 5; rj::value obj(rj::array &p, rj::rpc_exec_mode mode) { return raw_body(OBJ, p, mode); } int nop() { if (x != 5) return 0; return f_nop(); } int64_t big(int64_t a) const { return x == 5 ? f_big(a) : 0; } };
struct Srv : rj::rpc_server<Srv> {
  Other other;
  rj::value mem(rj::array &p, rj::rpc_exec_mode mode) { return raw_body(MEM, p, mode); }
  void reg(int h) {
    switch (h) { case SUM: add(HN[h], rj::make_rpc_wrapper(f_sum, "sum of two")); break; case CAT: add(HN[h], rj::make_rpc_wrapper(f_cat, "cat help")); break; case NEG: add(HN[h], rj::make_rpc_wrapper(f_neg, "neg help")); break; case NOT: add(HN[h], rj::make_rpc_wrapper(f_not, "not help")); break; case SET: add(HN[h], rj::make_rpc_wrapper(f_set, "set help")); break;
      case BIG: add(HN[h], rj::make_rpc_wrapper_const(&other, &Other::big, "big help")); break; case NOP: add(HN[h], rj::make_rpc_wrapper(&other, &Other::nop, "nop help")); break; case RAW: add(HN[h], rpc_method_type(f_raw)); break; case MEM: add(HN[h], &Srv::mem); break; case OBJ: add(HN[h], &other, &Other::obj); break; }
  }
  Srv() { for (int h = 0; h < NH; h++) reg(h); }
};
struct Custom { int x; };
static void perform(int h, rj::array *params) {
  if (act_depth++) { act_depth--; return; }
  struct D { ~D() { act_depth--; } } d; Act a = act; if (a != RET) count("fault.handler_misbehaves");
  switch (a) {
    case T_RUNTIME: throw std::runtime_error(act_text); case T_LOGIC: throw std::logic_error(act_text); case T_BADALLOC: throw std::bad_alloc(); case T_OBJECT: { rj::object o; o["code"] = -5; o["message"] = (const char *)act_text; throw o; } case T_EMPTYOBJ: throw rj::object(); case T_VALUE: throw rj::value(3); case T_INT: throw 42; case T_CSTR: throw (const char *)"text"; case T_CUSTOM: throw Custom{1}; case T_ARRAY: throw rj::array(); case T_EXCEPTION: throw std::exception();
    case REENTER: { rj::value r = srv->call(std::string("{\"method\":\"nop\",\"id\":\"inner\",\"params\":[\"in\",4]}")); if (r["id"].get_str() != "inner") fail("reply", "nested call: wrong id"); if (h != NOP) calls[NOP]--; else calls[h]--; break; }
    case REENTER_BAD: { rj::value r = srv->call(std::string("{\"method\":[")); if (r["error"].is_null()) fail("reply", "nested malformed call: no error"); break; }
    case REENTER_SELF: { rj::array p; rj::value r = srv->call(HN[h], rj::value(9), params ? *params : p); if (r["id"].get_int() != 9) fail("reply", "nested call: wrong id"); if (h == RAW || h == MEM || h == OBJ || h == NOP) calls[h]--; break; }
    case REREG: srv->reg(h); break; case ADDNEW: srv->add(act_text[0] ? act_text : "fresh", Srv::rpc_method_type(f_raw)); srv->reg(RAW); break;
    case CLEARPARAMS: if (params) params->clear(); break; case T_AFTER_CLEAR: if (params) { params->clear(); params->resize(100); } throw std::range_error(act_text); default: break;
  }
}
static bool throws(Act a) { return (a >= T_RUNTIME && a <= T_EXCEPTION) || a == T_AFTER_CLEAR; }
struct Expect { std::string starts; M id; bool known_id = true, error = false, exact = false; M result, err; int h = -1; };
static const M *mem(const M &o, const char *k) { auto it = o.o.find(k); return it == o.o.end() ? nullptr : &it->second; }
static M spec_of(int h, bool names) { static const char *T[] = {"null", "object", "array", "string", "boolean", "integer", "real"}; std::vector<int> t; switch (h) { case SUM: t = {5, 5}; break; case CAT: t = {3, 3}; break; case NEG: t = {6}; break; case NOT: t = {4}; break; case SET: case BIG: t = {5}; break; default: break; } M a = M::A(); for (int x : t) a.a.push_back(names ? M::S(T[x]) : M::I(x)); return a; }
static Expect predict(const M &req, int mode) {
  Expect e; e.error = true; if (req.t != MOBJ) return e; if (auto *i = mem(req, "id")) e.id = *i;
  const M *p = mem(req, "params"), *m = mem(req, "method"); static const M none = M::A(); if (p && p->t != MARR) return e; if (!p) p = &none; if (!m || m->t != MSTR) return e;
  auto at = [&](size_t k) { return k < p->a.size() ? &p->a[k] : nullptr; };
  auto answer = [&](int h, int md) { e.error = false; e.exact = true; if (h >= RAW) { e.result = M::A(); e.result.a.push_back(M::I(md)); } else if (md == rj::spec || md == rj::helpspec) e.result = spec_of(h, md == rj::helpspec); else e.result = M::S(h == SUM ? "sum of two" : std::string(HN[h]) + " help"); };
  for (int q = 0; q < 3; q++) { static const char *Q[] = {"help", "spec", "helpspec"}; static const int QM[] = {rj::help, rj::spec, rj::helpspec};
    if (m->s == Q[q]) { auto qspec = [&](int of, int md) { e.error = false; e.exact = md != rj::help; if (md == rj::help) e.starts = std::string(Q[of]) + " "; M t = md == rj::spec ? M::I(3) : M::S("string"), a = M::A(); if (of == 0) { M both = M::A(); both.a = {t, md == rj::spec ? M::I(0) : M::S("null")}; t = both; } a.a = {t}; e.result = a; }; if (mode != rj::execute) { qspec(q, mode); return e; } const M *a = at(0); if (q == 0 && (!a || a->t == MNULL)) { e.error = false; return e; } if (!a || a->t != MSTR) return e; for (int h = 0; h < NH; h++) if (a->s == HN[h]) answer(h, QM[q]); for (int k = 0; k < 3; k++) if (a->s == Q[k]) qspec(k, QM[q]); return e; } }
  for (int h = 0; h < NH; h++) if (m->s == HN[h]) {
    if (mode != rj::execute) { answer(h, mode); return e; }
    const M *a = at(0), *b = at(1);
    switch (h) { case SUM: if (!a || !b || a->t != MINT || b->t != MINT) return e; e.result = M::I((int)((unsigned)a->i + (unsigned)b->i)); break; case CAT: { if (!a || !b || a->t != MSTR || b->t != MSTR) return e; std::string r = a->s + b->s; for (auto &c : r) if (c == '\\') c = '/'; e.result = M::S(r); break; } case NEG: if (!a || (a->t != MINT && a->t != MREAL)) return e; e.result = M::R(-(a->t == MINT ? (double)a->i : a->d)); break; case NOT: if (!a || a->t != MBOOL) return e; e.result = M::B(!a->b); break; case SET: if (!a || a->t != MINT) return e; e.result = M::S(""); break; case BIG: if (!a || a->t != MINT) return e; e.result = M::I(~a->i); break; case NOP: e.result = M::I(7); break; default: e.result = *p; }
    e.h = h; e.error = throws(act); e.exact = true; if (act == T_OBJECT) { e.err = M::O(); e.err.o["code"] = M::I(-5); e.err.o["message"] = M::S(act_text); } return e; }
  return e;
}
static void check_reply(const M &r, const Expect &e, const std::string &what, bool lax) {
  if (r.t != MOBJ || r.o.size() != 3 || !r.o.count("id") || !r.o.count("result") || !r.o.count("error")) fail("reply", "%s: reply %s", what.c_str(), dump(r).c_str());
  const M &res = *mem(r, "result"), &er = *mem(r, "error"), &id = *mem(r, "id"); bool failed = er.t != MNULL;
  if (failed && er.t != MOBJ) fail("reply", "%s: error is %s", what.c_str(), dump(er).c_str()); if (failed && res.t != MNULL) fail("reply", "%s: both result %s and error %s", what.c_str(), dump(res).c_str(), dump(er).c_str());
  if (e.known_id && !lax && !(id == e.id)) fail("reply-id", "%s: id %s, expected %s", what.c_str(), dump(id).c_str(), dump(e.id).c_str());
  if (lax && failed) return; if (failed != e.error) fail("reply", "%s: %s, expected %s", what.c_str(), failed ? ("error " + dump(er)).c_str() : ("result " + dump(res)).c_str(), e.error ? "an error" : ("result " + dump(e.result)).c_str());
  if (!failed && e.starts.size() && (res.t != MSTR || res.s.compare(0, e.starts.size(), e.starts))) fail("reply", "%s: result %s, expected the help text of %s", what.c_str(), dump(res).c_str(), e.starts.c_str());
  if (!failed && e.exact && !(res == e.result)) fail("reply", "%s: result %s, expected %s", what.c_str(), dump(res).c_str(), dump(e.result).c_str()); if (failed && e.err.t == MOBJ && e.h >= 0 && !(er == e.err)) fail("reply", "%s: error %s, expected the thrown %s", what.c_str(), dump(er).c_str(), dump(e.err).c_str());
}
static M gen_request() {
  M r = M::O(); int h = (int)draw(NH); int l = 6;
  if (draw(10) != 9) r.o["id"] = draw(3) ? M::I((int64_t)draw(1000)) : gen_m(2, l);
  uint64_t mk = draw(12); if (mk == 11) { l = 3; r.o["method"] = gen_m(1, l); } else if (mk == 10) { } else if (mk == 9) r.o["method"] = M::S(draw(2) ? "unknown" : ""); else if (mk == 8) { static const char *Q[] = {"help", "spec", "helpspec"}; r.o["method"] = M::S(Q[draw(3)]); M p = M::A(); switch (draw(6)) { case 0: break; case 1: if (draw(2)) p.a.push_back(M()); else { l = 3; p.a.push_back(gen_m(1, l)); } break; case 2: p.a.push_back(M::S(draw(2) ? Q[draw(3)] : "unknown")); break; default: p.a.push_back(M::S(HN[h])); } if (draw(6) == 5) p.a.push_back(M::I(1)); r.o["params"] = p; return r; } else r.o["method"] = M::S(HN[h]);
  uint64_t pk = draw(10); if (pk == 9) { l = 5; r.o["params"] = draw(3) == 2 ? M() : gen_m(2, l); return r; } if (pk == 8) return r;
  M p = M::A(); if (pk == 7) { int n = (int)draw(4); l = 8; while (n-- > 0) p.a.push_back(gen_m(1, l)); }
  else switch (h) { case SUM: p.a = {M::I((int64_t)draw(100) - 50), M::I((int64_t)draw(100))}; break; case CAT: p.a = {M::S(gen_str(4)), M::S(gen_str(4))}; break; case NEG: p.a = {draw(2) ? M::R(gen_real()) : M::I((int64_t)draw(50))}; break; case NOT: p.a = {M::B(draw(2))}; break; case SET: p.a = {M::I(3)}; break; case BIG: p.a = {M::I((int64_t)(draw(1u << 31) * draw(1u << 31)))}; break; case NOP: break; default: { int n = (int)draw(4); l = 8; while (n-- > 0) p.a.push_back(gen_m(2, l)); } }
  if (draw(8) == 7 && p.a.size()) p.a.pop_back(); if (draw(8) == 7) p.a.push_back(M::S("extra")); r.o["params"] = p; if (draw(8) == 7) { l = 3; r.o["jsonrpc"] = draw(2) ? M::S("2.0") : gen_m(1, l); } return r;
}
static void c18() {
  fine_reals = true;   set_budget(400000000ull); size_t live0 = heap_unrooted(); act_depth = 0; memset(act_text, 0, sizeof act_text); { InSut i; srv = new Srv; } uint64_t sig = 0; int good = 0, bad = 0, n = 4 + (int)draw(16);
  for (int i = 0; i < n; i++) {
    M req = gen_request(); int how = (int)draw(4); if (draw(14) == 13) { int l = 5; req = gen_m(2, l); } act = draw(2) ? RET : (Act)draw(NACT); std::string at = gen_str(5); at = at.substr(0, 60); if (at.find('\0') != std::string::npos) at.clear(); for (int h = 0; h < NH; h++) if (at == HN[h]) at = "x"; if (at == "help" || at == "spec") at = "x"; if (act == ADDNEW) at = "fresh"; strcpy(act_text, at.c_str());
    int mode = draw(12) == 11 ? 1 + (int)draw(3) : 0; std::string text, what; bool parsed = true; if (mdepth(req) > 6) continue;
    if (how == 3 && (req.t != MOBJ || !mem(req, "method") || mem(req, "method")->t != MSTR || !mem(req, "params") || mem(req, "params")->t != MARR)) how = 0;
    if (how == 3 && !mem(req, "id")) req.o["id"] = M();
    if (how == 3) { M q = M::O(); q.o["id"] = *mem(req, "id"); q.o["method"] = *mem(req, "method"); q.o["params"] = *mem(req, "params"); req = q; if (mem(req, "method")->s.find('\\') != std::string::npos) continue; }
    bool damaged = false; Expect e = predict(req, mode);
    if (how < 2) { emit(req, text, (int)draw(3)); uint64_t d = draw(8);
      if (d == 7) { size_t k = draw(text.size()); text.resize(k); count("fault.truncated_request"); damaged = true; } else if (d == 6) { text = corrupt(text); count("fault.corrupt_request"); damaged = true; }
      if (text_depth(text) > 30) continue;
      if (damaged) { RefParser q(text, 32); parsed = q.parse() && !q.slash; if (q.slash) continue; if (!parsed) { e = Expect(); e.error = true; } else { e = Expect(); e.known_id = false; } } }
    bool oom = chance(1, 8); memset(calls, 0, sizeof calls); memset(queried, 0, sizeof queried); int before = act_depth;
    what = strf("request %s (handler %s%s)", how < 2 ? show(text, 160).c_str() : dump(req).substr(0, 200).c_str(), ACT[act], oom ? ", an allocation fails" : "");
    rj::value *reply, *rq = nullptr; std::string *tx = nullptr; { InSut is; reply = new rj::value; if (how == 2 || how == 3) { rq = new rj::value; build(*rq, req); } else tx = new std::string(text.data(), text.size()); }
    std::string *nm = nullptr; if (how == 3) { InSut is; nm = new std::string((*rq)["method"].get_str().c_str()); }
    arm(oom); Out o = sut([&] { rj::value r = how == 3 ? srv->call(*nm, (*rq)["id"], (*rq)["params"].get_array(), (rj::rpc_exec_mode)mode) : how == 2 ? srv->call(*rq, (rj::rpc_exec_mode)mode) : srv->call(*tx, (rj::rpc_exec_mode)mode); reply->move(r); }); disarm(); bool hit = alloc_hit;
    if (rq && !(model_of(*rq) == req)) fail("reply", "%s: the call changed the caller's request to %s", what.c_str(), dump(model_of(*rq)).c_str());
    if (o == OOM && hit) { event("%s: out of memory", what.c_str()); } else if (o != OK) fail("reply", "%s: no reply, the call %s %s", what.c_str(), ON[o], last_what.c_str());
    int total = 0; for (int h = 0; h < NH; h++) total += calls[h]; act_depth = before;
    if (o == OK) {
      M r = model_of(*reply); event("%s -> %s", what.c_str(), dump(r).c_str()); sig = sig * 31 + hash_str(dump(r)) + o;
      if (damaged && parsed) { check_reply(r, [&] { Expect x = e; x.error = mem(r, "error") && mem(r, "error")->t != MNULL; return x; }(), what, false); if (total > 1 && !(hit && (act == REENTER || act == REENTER_SELF))) fail("invocations", "%s: %d handler invocations", what.c_str(), total); }
      else { check_reply(r, e, what, hit); for (int h = 0; h < NH; h++) { int want = h == e.h ? 1 : 0; if (calls[h] != want && !(hit && calls[h] <= want) && !(hit && (act == REENTER || act == REENTER_SELF))) fail("invocations", "%s: %s invoked %d times, expected %d", what.c_str(), HN[h], calls[h], want); } }
      std::string out; { InSut is; std::string s = reply->write(); OutSut oo; out.assign(s.data(), s.size()); } RefParser wf(out, 1000); if (!wf.parse() || wf.recs[0].vsize != out.size()) fail("reply", "%s: the reply is written as %s, which is not JSON", what.c_str(), show(out, 200).c_str());
      if (mem(r, "error")->t != MNULL) bad++; else if (e.h >= 0) good++;
    }
    { InSut is; delete reply; delete rq; delete tx; delete nm; }
    if (bad && draw(3) == 2) { act = RET; memset(calls, 0, sizeof calls); int v = (int)draw(1000); M r; { InSut is; rj::value x = srv->call(std::string("{\"id\":\"probe\",\"method\":\"sum\",\"params\":[1,") + std::to_string(v) + "]}"); OutSut oo; r = model_of(x); } Expect p; p.id = M::S("probe"); p.exact = true; p.result = M::I(v + 1); check_reply(r, p, "valid request after failures", false); if (calls[SUM] != 1) fail("invocations", "valid request after failures: %d invocations", calls[SUM]); good++; }
  }
  { InSut i; delete srv; } if (heap_unrooted() != live0) fail("leak", "%lld blocks left after the server was destroyed", (long long)(heap_unrooted() - live0)); if (good && bad) nontrivial(); distinct(sig); finish();
}
static Reg r18({"C18", c18, "one run = one server answering 4-19 requests (well-formed, malformed, truncated, unknown) through the three call interfaces, with handlers that throw, re-enter, re-register or run out of memory", REAL, "request handlers (scripted), system memory allocator"});

// ---------------------------------------------------------------------------------------------------- C19
static bool contains(const rj::value *v, const rj::value *x) { if (v == x) return true; if (v->get_type() == rj::array_type) { for (auto &e : v->get_array()) if (contains(&e, x)) return true; } else if (v->get_type() == rj::obj_type) { for (auto &e : v->get_obj()) if (contains(&e.second, x)) return true; } return false; }
struct Loc { rj::value *v; M *m; };
static Loc descend(rj::value *v, M *m) { while (draw(2)) { if (m->t == MARR && m->a.size()) { size_t i = draw(m->a.size()); InSut s; v = &v->get_array().base::operator[](i); m = &m->a[i]; } else if (m->t == MOBJ && m->o.size()) { auto it = m->o.begin(); std::advance(it, draw(m->o.size())); v = &v->get_obj().find(it->first)->second; m = &it->second; } else break; } return {v, m}; }
static bool has_real(const M &m) { if (m.t == MREAL) return true; for (auto &e : m.a) if (has_real(e)) return true; for (auto &e : m.o) if (has_real(e.second)) return true; return false; }
static std::string plain_str(const M &m) { std::string r; bool f = true; switch (m.t) { case MNULL: return "null"; case MBOOL: return m.b ? "true" : "false"; case MINT: return strf("%lld", (long long)m.i); case MSTR: return m.s; case MARR: for (auto &e : m.a) { if (!f) r += ","; f = false; r += plain_str(e); } return r; default: for (auto &e : m.o) { if (!f) r += ","; f = false; r += e.first + ":" + plain_str(e.second); } return r; } }
static const int NV = 4;
static void values19(uint64_t &sig, int &hits) {
  rj::value *v[NV]; M m[NV]; { InSut s; for (int i = 0; i < NV; i++) v[i] = new rj::value; } int ops = 6 + (int)draw(25);
  for (int i = 0; i < NV; i++) { int l = 10; m[i] = gen_m(3, l); InSut s; build(*v[i], m[i]); }
  for (int k = 0; k < ops; k++) {
    int a = (int)draw(NV), b = (int)draw(NV), op = (int)draw(19); Loc A = descend(v[a], &m[a]), B = descend(v[b], &m[b]); M nw, before = *A.m, bval = *B.m; bool expect_err = false; std::function<void()> run; std::string what; int l = 8;
    std::string str = gen_str(6), plain; for (char c : str) if (c && c != '\\') plain += c; M gen = gen_m(2, l); rj::value *g; { InSut s; g = new rj::value; build(*g, gen); } std::string *gs; { InSut s; gs = new std::string(plain.data(), plain.size()); } std::string got, wantout; std::string *outp; { InSut s; outp = new std::string; } bool wants_out = false; rj::value *made = nullptr; bool b_changes = false; M b_new;
    switch (op) {
      case 0: { what = "assign scalar"; int q = (int)draw(4); nw = q == 0 ? M::B(draw(2)) : q == 1 ? M::I((int64_t)draw(99)) : q == 2 ? M::R(gen_real()) : M(); bool useset = draw(2); run = [=] { switch (nw.t) { case MBOOL: useset ? A.v->set_bool(nw.b) : (void)(*A.v = nw.b); break; case MINT: useset ? A.v->set_int(nw.i) : (void)(*A.v = nw.i); break; case MREAL: useset ? A.v->set_real(nw.d) : (void)(*A.v = nw.d); break; default: *A.v = rj::value::null; } }; break; }
      case 1: what = "assign C string"; nw = M::S(plain); run = [=] { if (draw(2)) *A.v = gs->c_str(); else A.v->set_str(gs->c_str()); }; break;
      case 2: what = "assign string"; nw = M::S(plain); run = [=] { if (draw(2)) *A.v = *gs; else A.v->set_str(*gs); }; break;
      case 3: what = "copy assign"; nw = bval; run = [=] { *A.v = *B.v; }; break;
      case 4: what = "assign a part of the value to it"; { Loc C = descend(A.v, A.m); nw = *C.m; rj::value *c = C.v; run = [=] { *A.v = *c; }; } break;
      case 5: what = "assign the value to a part of it"; { Loc C = descend(A.v, A.m); M top = *A.m; if (C.v == A.v) { nw = top; } else { M *cm = C.m; M old = *cm; *cm = top; nw = *A.m; *cm = old; } rj::value *c = C.v, *av = A.v; run = [=] { *c = *av; }; } break;
      case 6: what = "copy construct"; nw = before; run = [&, A] { made = new rj::value(*A.v); }; break;
      case 7: what = "push_back"; if (before.t == MARR) { bool self = draw(2) && before.a.size(); nw = before; if (self) { size_t i = draw(before.a.size()); nw.a.push_back(before.a[i]); run = [=] { A.v->push_back(A.v->get_array().base::operator[](i)); }; } else { nw.a.push_back(bval); run = [=] { A.v->push_back(*B.v); }; } } else { nw = before; expect_err = true; run = [=] { A.v->push_back(*B.v); }; } break;
      case 8: what = "member access"; nw = before; if (before.t == MOBJ) { if (!nw.o.count(plain)) nw.o[plain] = M(); } else expect_err = true; run = [=] { (*A.v)[*gs]; }; break;
      case 9: what = "member assignment"; nw = before; if (before.t == MOBJ) nw.o[plain] = gen; else expect_err = true; run = [=] { (*A.v)[*gs] = *g; }; break;
      case 10: what = "index access"; nw = before; { size_t i = draw(5); expect_err = before.t != MARR || i >= before.a.size(); run = [=] { (*A.v)[i]; }; } break;
      case 11: { what = "move"; nw = bval; if (contains(B.v, A.v) && A.v != B.v) { nw = before; run = [] {}; break; } if (A.v == B.v) { nw = before; run = [=] { A.v->move(*A.v); }; } else if (contains(A.v, B.v)) { run = [=] { A.v->move(*B.v); }; } else { b_changes = true; b_new = M(); run = [=] { A.v->move(*B.v); }; } break; }
      case 12: { what = "read text"; std::string t; emit(gen, t, (int)draw(2)); bool bad = draw(3) == 2; if (bad) { t.resize(draw(t.size())); RefParser q(t, 64); if (q.parse()) bad = false; } RefParser q(t, 64); bool ok = q.parse(); if (ok && !(q.recs[0].vsize == t.size())) ok = false; nw = ok ? gen : before; expect_err = !ok; if (ok && bad) { nw = before; run = [] {}; break; } if (!ok) { RefParser p2(t, 64); if (p2.parse()) { run = [] {}; nw = before; expect_err = false; break; } } if (ok && t.size() && gen.t != MARR && gen.t != MOBJ) { std::string full; emit(gen, full, 0); if (full.size() > t.size()) { run = [] {}; nw = before; break; } } std::string *tx; { InSut s; tx = new std::string(t.data(), t.size()); } run = [=] { struct D { std::string *t; ~D() { delete t; } } d{tx}; A.v->read(*tx, 64); }; break; }
      case 13: what = "write"; nw = before; wants_out = true; { bool pretty = draw(2); { InSut s; std::string w = A.v->write(pretty); OutSut o; wantout.assign(w.data(), w.size()); } run = [=] { *outp = A.v->write(pretty); }; } break;
      case 14: what = "to_string"; nw = before; wants_out = true; if (!has_real(before)) { wantout = plain_str(before); run = [=] { *outp = A.v->to_string(); }; } else { InSut s; std::string w = A.v->to_string(); OutSut o; wantout.assign(w.data(), w.size()); } run = [=] { *outp = A.v->to_string(); }; break;
      case 15: what = "assign object or array"; nw = bval; if (bval.t == MOBJ) run = [=] { *A.v = B.v->get_obj(); }; else if (bval.t == MARR) run = [=] { A.v->set_array(B.v->get_array()); }; else { nw = before; expect_err = true; run = [=] { *A.v = B.v->get_array(); }; } break;
      case 16: { what = "typed get"; nw = before; int q = (int)draw(14); static const MT T[] = {MSTR, MINT, MBOOL, MREAL, MINT, MOBJ, MARR, MOBJ, MARR, MSTR, MBOOL, MREAL, MINT, MNULL}; expect_err = before.t != T[q] && !((q == 3 || q == 11) && before.t == MINT) && q != 13; const rj::value *cv = A.v; std::string want; if (!expect_err) { double d = before.t == MINT ? (double)before.i : before.d; switch (q) { case 0: case 9: want = before.s; break; case 1: want = strf("%lld", (long long)before.i); break; case 4: case 12: want = strf("%d", (int)before.i); break; case 2: case 10: want = before.b ? "1" : "0"; break; case 3: case 11: want = strf("%.17g", d); break; case 5: case 7: want = strf("%zu", before.o.size()); break; case 6: case 8: want = strf("%zu", before.a.size()); break; default: static const char *TN[] = {"null", "object", "array", "string", "boolean", "integer", "real"}; want = std::string(TN[before.t]) + (before.t == MNULL ? "1" : "0"); } } wantout = want; wants_out = true;
        run = [=] { auto out = [&](const std::string &x) { OutSut o; *outp = std::string(x.data(), x.size()); }; switch (q) { case 0: *outp = A.v->get_value<std::string>(); break; case 1: { auto x = A.v->get_value<int64_t>(); out(strf("%lld", (long long)x)); break; } case 2: { bool x = A.v->get_value<bool>(); out(x ? "1" : "0"); break; } case 3: { double x = A.v->get_value<double>(); out(strf("%.17g", x)); break; } case 4: { int x = A.v->get_value<int>(); out(strf("%d", x)); break; } case 5: { size_t n = A.v->get_obj().size(); out(strf("%zu", n)); break; } case 6: { size_t n = A.v->get_array().size(); out(strf("%zu", n)); break; } case 7: { size_t n = cv->get_obj().size(); out(strf("%zu", n)); break; } case 8: { size_t n = cv->get_array().size(); out(strf("%zu", n)); break; } case 9: *outp = cv->get_str(); break; case 10: { bool x = (bool)*A.v; out(x ? "1" : "0"); break; } case 11: { double x = (double)*A.v; out(strf("%.17g", x)); break; } case 12: { int x = (int)*A.v; out(strf("%d", x)); break; } default: *outp = cv->get_typename() + (cv->is_null() ? "1" : "0"); } }; break; }
      case 17: { what = "construct from string, object, array"; nw = before; run = [&, A, B] { rj::value x(*gs), y(gs->c_str()), z = B.v->get_type() == rj::obj_type ? rj::value(B.v->get_obj()) : B.v->get_type() == rj::array_type ? rj::value(B.v->get_array()) : rj::value(1.5); made = new rj::value(B.v->get_type() == rj::obj_type || B.v->get_type() == rj::array_type ? z : *A.v); }; break; }
      default: { what = "read_no_throw"; std::string t; emit(gen, t, 0); nw = gen; std::string *tx; { InSut s; tx = new std::string(t.data(), t.size()); } run = [=] { struct D { std::string *t; ~D() { delete t; } } d{tx}; if (!rj::read_no_throw(*A.v, *tx, 64)) throw std::runtime_error("refused"); }; break; }
    }
       M roots[NV]; for (int i = 0; i < NV; i++) roots[i] = m[i];
    bool oom = draw(3) != 0; arm(oom); Out o = sut(run); disarm(); bool hit = alloc_hit; if (hit) hits++;
    what += strf(" (target %s, source %s%s%s)", dump(before).substr(0, 100).c_str(), dump(bval).substr(0, 100).c_str(), op == 9 || op == 12 || op == 18 ? (", value " + dump(gen).substr(0, 100)).c_str() : "", hit ? strf(", allocation %llu%s fails", (unsigned long long)alloc_at, alloc_rest ? " and later" : "").c_str() : "");
    event("%s: %s", what.c_str(), ON[o]); sig = sig * 131 + hash_str(what) + o;
    if (!hit && (o == OK) == expect_err) fail("result", "%s %s %s, expected %s", what.c_str(), ON[o], last_what.c_str(), expect_err ? "an error" : "success"); if (o == ODD) fail("result", "%s %s", what.c_str(), ON[o]);
    if (hit && o == OK && expect_err) fail("result", "%s succeeded, expected an error", what.c_str());
    // the target holds the old or the new content, everything else is as it was
    M alt = nw; if (op == 9 && before.t == MOBJ) { alt = before; if (!alt.o.count(plain)) alt.o[plain] = M(); }
    auto apply = [&](const M &x) { *A.m = x; };
    bool okv = false; std::string seen;
    if (o == OK) { if (b_changes) { *B.m = b_new; } apply(nw); okv = true; for (int i = 0; i < NV; i++) okv &= same(*v[i], m[i]); }
    else { apply(before); okv = true; for (int i = 0; i < NV; i++) okv &= same(*v[i], m[i]); if (!okv) { apply(nw); okv = true; for (int i = 0; i < NV; i++) okv &= same(*v[i], m[i]); } if (!okv && op == 9) { apply(alt); okv = true; for (int i = 0; i < NV; i++) okv &= same(*v[i], m[i]); } }
    if (!okv) { for (int i = 0; i < NV; i++) { M x = model_of(*v[i]); if (!(x == m[i])) seen += strf(" value %d is %s", i, dump(x).substr(0, 150).c_str()); } fail("content", "%s %s: expected old or new content;%s (target in value %d)", what.c_str(), ON[o], seen.c_str(), a); }
    if (wants_out && o == OK) { std::string gotw(outp->data(), outp->size()); if (gotw != wantout) fail("content", "%s succeeded with \"%s\", expected \"%s\"", what.c_str(), show(gotw, 100).c_str(), show(wantout, 100).c_str()); }
    if (made) { M x = model_of(*made); M want = op == 17 && (bval.t == MOBJ || bval.t == MARR) ? bval : before; if (!(x == want)) fail("content", "%s gave %s", what.c_str(), dump(x).c_str()); }
    { InSut s; delete g; delete gs; delete outp; delete made; }
  }
  InSut s; for (int i = 0; i < NV; i++) delete v[i];
}
// ---- property trees
enum Kind : int { K1, K2, K3 = 7 };
struct Dev { int i = 1; double d = 2.5; std::string s = "text which is longer than fifteen"; bool b = true; Kind e = K2; int64_t r[4] = {1, 2, 3, 4}; std::string rs[3] = {"one string longer than fifteen chars", "two", "three, also longer than fifteen"}; double rd[2] = {0.5, 1.5}; short h = 3; };
enum { LI, LD, LS, LB, LE, LR, LRS, LRD, LH, NL };
static M leaf_value(const Dev &d, int k) { M a = M::A(); switch (k) { case LI: return M::I(d.i); case LD: return M::R(d.d); case LS: return M::S(std::string(d.s.data(), d.s.size())); case LB: return M::B(d.b); case LE: return M::I(d.e); case LH: return M::I(d.h); case LR: for (auto x : d.r) a.a.push_back(M::I(x)); return a; case LRD: for (auto x : d.rd) a.a.push_back(M::R(x)); return a; default: for (auto &x : d.rs) a.a.push_back(M::S(std::string(x.data(), x.size()))); return a; } }
static bool leaf_scalar(int k, const M &v, M &out) {                  // what setting v gives; false: refused
  switch (k) { case LI: case LH: case LR: if (v.t == MINT) out = M::I(k == LI ? (int)v.i : k == LH ? (short)v.i : v.i); else if (v.t == MREAL) out = M::I((int64_t)v.d); else if (v.t == MBOOL) out = M::I(v.b); else return false; return true; case LD: case LRD: if (v.t == MREAL) out = v; else if (v.t == MINT) out = M::R((double)v.i); else return false; return true; case LS: case LRS: if (v.t != MSTR) return false; out = v; return true; case LB: if (v.t != MBOOL) return false; out = v; return true; default: if (v.t != MINT) return false; out = M::I((int)v.i); return true; }
}
struct P { int kind = 0, leaf = 0, access = 3; std::map<std::string, P> o; std::vector<P> a; };   // kind 0 null, 1 leaf, 2 map, 3 array
static Dev *dev; static int check_calls, modified_calls; static bool check_throws, modified_throws; static int throw_kind;
static void hook_throw() { count("fault.hook_throws"); switch (throw_kind) { case 0: throw std::runtime_error("refused by hook"); case 1: throw std::bad_alloc(); default: throw 7; } }
static void check_hook(const rj::value &) { check_calls++; if (check_throws) hook_throw(); }
static void modified_hook(void *c) { modified_calls++; if (c != dev) { OutSut o; fail("hook", "modified hook called with the wrong context"); } if (modified_throws) hook_throw(); }
static rj::property make_leaf(int k, rj::property_access ac) {
  std::function<void(const rj::value &)> c = check_hook; std::function<void(void *)> m = modified_hook; void *x = dev;
  switch (k) { case LI: return rj::property(&dev->i, ac, c, m, x); case LD: return rj::property(&dev->d, ac, c, m, x); case LS: return rj::property(&dev->s, ac, c, m, x); case LB: return rj::property(&dev->b, ac, c, m, x); case LE: return rj::property(&dev->e, ac, c, m, x); case LH: return rj::property(&dev->h, ac, c, m, x); case LR: return rj::property(dev->r, (size_t)4, ac, c, m, x); case LRD: return rj::property(dev->rd, (size_t)2, ac, c, m, x); default: return rj::property(dev->rs, (size_t)3, ac, c, m, x); }
}
static rj::property make_prop(const P &p) {
  typedef std::pair<const std::string, rj::property> E; if (p.kind == 0) return rj::property(); if (p.kind == 1) return make_leaf(p.leaf, (rj::property_access)p.access);
  if (p.kind == 3) { if (p.a.size() == 0) return rj::property_array(); if (p.a.size() == 1) return rj::property_array{make_prop(p.a[0])}; rj::property r = rj::property_array{make_prop(p.a[0]), make_prop(p.a[1])}; for (size_t i = 2; i < p.a.size(); i++) r.push_back(make_prop(p.a[i])); return r; }
  std::vector<const std::pair<const std::string, P> *> e; for (auto &x : p.o) e.push_back(&x); auto en = [&](int i) { return E(e[i]->first, make_prop(e[i]->second)); };
  switch (e.size()) { case 0: return rj::property_map(); case 1: return rj::property_map{en(0)}; case 2: return rj::property_map{en(0), en(1)}; default: return rj::property_map{en(0), en(1), en(2)}; }
}
static P gen_p(int depth) { P p; switch (draw(depth ? 6 : 3)) { case 3: case 4: { p.kind = 2; int n = 1 + (int)draw(3); static const char *N[] = {"a", "bb", "long_name_of_a_property", "x1"}; for (int i = 0; i < n; i++) p.o[N[draw(4)]] = gen_p(depth - 1); break; } case 5: { p.kind = 3; int n = (int)draw(4); for (int i = 0; i < n; i++) p.a.push_back(gen_p(depth - 1)); break; } default: p.kind = 1; p.leaf = (int)draw(NL); p.access = draw(5) == 4 ? 1 + (int)draw(2) : 3; } return p; }
static void paths(const P &p, const std::string &path, std::vector<std::pair<std::string, const P *>> &out) { if (p.kind == 1) out.push_back({path, &p}); for (auto &e : p.o) paths(e.second, path + "." + e.first, out); for (size_t i = 0; i < p.a.size(); i++) paths(p.a[i], path + strf("[%zu]", i), out); }
static bool has_null(const P &p) { if (!p.kind) return true; for (auto &e : p.o) if (has_null(e.second)) return true; for (auto &e : p.a) if (has_null(e)) return true; return false; }
static std::string pshow(const P &p) { static const char *L[] = {"int", "double", "string", "bool", "enum", "ints", "strings", "doubles", "short"}; switch (p.kind) { case 0: return "null"; case 1: return strf("%s%s", L[p.leaf], p.access == 1 ? "(ro)" : p.access == 2 ? "(wo)" : ""); case 2: { std::string r = "{"; for (auto &e : p.o) r += e.first + ":" + pshow(e.second) + " "; return r + "}"; } default: { std::string r = "["; for (auto &e : p.a) r += pshow(e) + " "; return r + "]"; } } }
static bool same_p(rj::property &q, const P &p) {                     // structure and readable values, fault free
  if (has_null(p)) { if (p.kind == 0) { bool threw = false; try { q.get_prop(); } catch (std::exception &) { threw = true; } return threw; } if (p.kind == 2) { for (auto &e : p.o) { if (!same_p(q[e.first], e.second)) return false; } return true; } for (size_t i = 0; i < p.a.size(); i++) if (!same_p(q[i], p.a[i])) return false; return true; }
  std::vector<std::pair<std::string, const P *>> want; paths(p, "", want); size_t k = 0; bool ok = true; InSut s;
  try { q.enumerate_children("", [&](const std::string &path, rj::property &x) { OutSut o; if (k >= want.size() || path != want[k].first) { ok = false; k++; return; } const P &l = *want[k++].second; InSut i; if ((int)x.access() != l.access) { ok = false; return; } if (l.access & 1) { rj::value v = x.get_prop(); OutSut oo; if (!same(v, leaf_value(*dev, l.leaf))) ok = false; } }); } catch (std::exception &) { return false; }
  return ok && k == want.size();
}
struct PLoc { rj::property *q; P *p; };
static PLoc pdescend(rj::property *q, P *p) { while (draw(2)) { InSut s; if (p->kind == 2 && p->o.size()) { auto it = p->o.begin(); std::advance(it, draw(p->o.size())); std::string n(it->first); q = &(*q)[n]; p = &it->second; } else if (p->kind == 3 && p->a.size()) { size_t i = draw(p->a.size()); q = &(*q)[i]; p = &p->a[i]; } else break; } return {q, p}; }
static const int NP = 3;
static void props19(uint64_t &sig, int &hits) {
  { InSut s; dev = new Dev; } check_throws = modified_throws = false; rj::property *q[NP]; P p[NP]; int throws_seen = 0;
  for (int i = 0; i < NP; i++) { p[i] = draw(8) == 7 ? P() : gen_p(3); InSut s; q[i] = new rj::property(make_prop(p[i])); } int ops = 6 + (int)draw(25);
  for (int k = 0; k < ops; k++) {
    int a = (int)draw(NP), b = (int)draw(NP), op = (int)draw(10); PLoc A = pdescend(q[a], &p[a]), B = pdescend(q[b], &p[b]); P before = *A.p, nw = before, src = *B.p; bool expect_err = false, is_set = false; std::function<void()> run; std::string what; M val, newleaf; int l = 5; rj::value *g = nullptr, *res; { InSut s; res = new rj::value; } rj::property *made = nullptr; bool read_res = false; M want_res; std::string *path; { InSut s; path = new std::string; } int enum_seen = 0, enum_throw = -1;
    Dev dbefore = *dev; bool has_leaf = false; int leaf_k = 0;
    switch (op) {
      case 0: what = "copy assign " + pshow(src); nw = src; run = [=] { *A.q = *B.q; }; break;
      case 1: { what = "assign a part of the tree to it"; PLoc C = pdescend(A.q, A.p); nw = *C.p; rj::property *c = C.q; run = [=] { *A.q = *c; }; break; }
      case 2: what = "copy construct"; run = [&, A] { made = new rj::property(*A.q); }; break;
      case 3: what = "push_back " + pshow(src); if (before.kind == 3) { nw.a.push_back(src); } else expect_err = true; run = [=] { A.q->push_back(*B.q); }; break;
      case 4: case 5: case 6: {
        std::vector<std::pair<std::string, const P *>> ls; paths(p[a], "", ls); is_set = true; bool wrong = draw(6) == 5 || ls.empty(); const P *lf = nullptr; std::string pt = wrong ? std::vector<std::string>{".nope", "[9]", "", ".", "[", "[]", "a..b", ".a[", "[0", "]"}[draw(10)] : ""; if (wrong && ls.size() && draw(3)) { pt = ls[draw(ls.size())].first; if (pt.size() && draw(3) == 2) pt.resize(draw(pt.size())); else pt += std::vector<std::string>{"x", ".", "]", "[0]", ".a", "["}[draw(6)]; } if (!wrong) { auto &e = ls[draw(ls.size())]; pt = e.first; lf = e.second; }
        if (wrong) { bool exists = false; for (auto &e : ls) exists |= e.first == pt; if (exists) { is_set = false; run = [] {}; break; } }
        if (lf) { int w = lf->leaf; auto scal = [&]() -> M { if (draw(5) == 4) return gen_m(0, l); switch (w) { case LI: case LH: case LR: return draw(3) ? M::I((int64_t)draw(1000)) : draw(2) ? M::R((double)draw(100)) : M::B(draw(2)); case LD: case LRD: return draw(2) ? M::R(gen_real()) : M::I((int64_t)draw(100)); case LS: case LRS: return M::S(gen_str(5) + (draw(2) ? " with quite some more text" : "")); case LB: return M::B(draw(2)); default: return M::I((int64_t)draw(3)); } };
          bool range = w == LR || w == LRS || w == LRD; if (!range || draw(8) == 7) val = scal(); else { val = M::A(); int n = (int)draw((w == LR ? 4 : w == LRS ? 3 : 2) + 2); while (n-- > 0) val.a.push_back(scal()); }
          if (val.t == MREAL && (w == LI || w == LH || w == LR || w == LE) && fabs(val.d) > 30000) val.d = 5; if (val.t == MINT && llabs(val.i) > 1000000) val.i = 4; for (auto &e : val.a) { if (e.t == MREAL && fabs(e.d) > 30000 && w != LRD) e.d = 5; }
          auto plain_text = [](M &x) { for (auto &c : x.s) if (c == '\\') c = '/'; };   // a value made from text has the escapes in it resolved
          plain_text(val); for (auto &e : val.a) plain_text(e);
          M old = leaf_value(*dev, w); if (!(lf->access & 2)) expect_err = true; else if (!range) { if (!leaf_scalar(w, val, newleaf)) expect_err = true; } else { newleaf = old; if (val.t != MARR || val.a.size() > old.a.size()) expect_err = true; else for (size_t i = 0; i < val.a.size(); i++) { M x; if (!leaf_scalar(w, val.a[i], x)) { expect_err = true; break; } newleaf.a[i] = x; } }
        } else { expect_err = true; val = M::I(1); }
        if (!lf && expect_err && pt == "" && p[a].kind == 1) { expect_err = false; is_set = false; run = [] {}; break; }
        check_throws = draw(6) == 5; modified_throws = draw(6) == 5; throw_kind = (int)draw(3); check_calls = modified_calls = 0; what = strf("set %s%s to %s%s%s", pshow(p[a]).c_str(), pt.c_str(), dump(val).c_str(), check_throws ? ", check hook throws" : "", modified_throws ? ", modified hook throws" : "");
        if (lf && (check_throws || modified_throws) && (lf->access & 2)) expect_err = true; { InSut s; g = new rj::value; build(*g, val); path->assign(pt.c_str()); } int root = a; run = [=, &q] { q[root]->navigate(*path).set_prop(*g); }; A = {q[a], &p[a]}; before = nw = p[a]; has_leaf = lf != nullptr; leaf_k = lf ? lf->leaf : 0; break; }
      case 7: { what = "to_json"; std::vector<std::pair<std::string, const P *>> ls; bool cyc = has_null(before); paths(before, "", ls); expect_err = cyc; want_res = M::O(); for (auto &e : ls) { if (!(e.second->access & 1)) expect_err = true; want_res.o[e.first] = leaf_value(*dev, e.second->leaf); } read_res = !expect_err; run = [=] { rj::value r = A.q->to_json(); res->move(r); }; break; }
      case 8: { what = "enumerate"; std::vector<std::pair<std::string, const P *>> ls; paths(before, "", ls); expect_err = has_null(before); if (draw(2) && ls.size()) { enum_throw = (int)draw(ls.size()); throw_kind = (int)draw(3); expect_err = true; } run = [&, A] { A.q->enumerate_children("", [&](const std::string &, rj::property &) { if (enum_seen++ == enum_throw) hook_throw(); }); }; break; }
      default: { what = "get " + pshow(before); expect_err = before.kind != 1 || !(before.access & 1); if (!expect_err) { want_res = leaf_value(*dev, before.leaf); read_res = true; } run = [=] { rj::value r = A.q->get_prop(); res->move(r); }; break; }
    }
    bool oom = draw(3) != 0; arm(oom); Out o = sut(run); disarm(); bool hit = alloc_hit; bool refused = check_throws; bool hook = check_throws || modified_throws || (enum_throw >= 0 && enum_seen > enum_throw); if (hit) hits++; if (hook) throws_seen++; check_throws = modified_throws = false;
    what += strf(" (tree %s%s)", pshow(before).c_str(), hit ? strf(", allocation %llu%s fails", (unsigned long long)alloc_at, alloc_rest ? " and later" : "").c_str() : ""); event("%s: %s", what.c_str(), ON[o]); sig = sig * 131 + hash_str(what) + o;
    if (!hit && (o == OK) == expect_err) fail("result", "%s %s %s, expected %s", what.c_str(), ON[o], last_what.c_str(), expect_err ? "an error" : "success"); if (o == ODD && !hook) fail("result", "%s %s", what.c_str(), ON[o]); if (o == OK && expect_err) fail("result", "%s succeeded, expected an error", what.c_str());
    if (is_set && has_leaf) { int w = leaf_k; M got = leaf_value(*dev, w), old = leaf_value(dbefore, w); bool okl = o == OK ? got == newleaf : got == old || (got == newleaf && !refused); if (!okl) fail("content", "%s %s: leaf is %s, was %s, expected the old or the new content", what.c_str(), ON[o], dump(got).c_str(), dump(old).c_str()); if (o == OK && (check_calls != 1 || modified_calls != 1)) fail("hook", "%s: check hook called %d times, modified hook %d times", what.c_str(), check_calls, modified_calls); if (!(got == old) && check_calls != 1) fail("hook", "%s: changed without the check hook", what.c_str());
      for (int z = 0; z < NL; z++) if (z != w && !(leaf_value(*dev, z) == leaf_value(dbefore, z))) fail("content", "%s changed another property", what.c_str()); }
    else for (int z = 0; z < NL; z++) if (!(leaf_value(*dev, z) == leaf_value(dbefore, z))) fail("content", "%s changed a property", what.c_str());
    bool okp; if (o == OK) { *A.p = nw; okp = true; for (int i = 0; i < NP; i++) okp &= same_p(*q[i], p[i]); } else { okp = true; for (int i = 0; i < NP; i++) okp &= same_p(*q[i], p[i]); if (!okp) { *A.p = nw; okp = true; for (int i = 0; i < NP; i++) okp &= same_p(*q[i], p[i]); } }
    if (!okp) fail("content", "%s %s: a tree has neither its old nor its new content", what.c_str(), ON[o]); if (read_res && o == OK && !same(*res, want_res)) fail("content", "%s gave %s, expected %s", what.c_str(), dump(model_of(*res)).c_str(), dump(want_res).c_str());
    if (made) { if (o != OK || !same_p(*made, before)) fail("content", "%s: the copy differs", what.c_str()); }
    { InSut s; delete g; delete res; delete made; delete path; }
    for (int i = 0; i < NP; i++) { std::vector<std::pair<std::string, const P *>> ls; paths(p[i], "", ls); if (ls.size() > 60) { p[i] = P(); InSut s; *q[i] = rj::property(); } }
  }
  if (throws_seen) hits++; InSut s; for (int i = 0; i < NP; i++) delete q[i]; delete dev;
}
static void c19() {
  set_budget(400000000ull); size_t live0 = heap_unrooted(); uint64_t sig = 0; int hits = 0; if (draw(2)) values19(sig, hits); else props19(sig, hits);
  if (heap_unrooted() != live0) { std::vector<std::pair<void *, size_t>> l; heap_list_live(l); fail("leak", "%lld blocks left after everything was destroyed (the first has %zu bytes)", (long long)(heap_unrooted() - live0), l.empty() ? 0 : l[0].second); } if (hits) nontrivial(); distinct(sig); finish();
}
static Reg r19({"C19", c19, "one run = a history of 6-30 operations on JSON values or property trees, most of them with a seeded allocation failing (once, or from some point on) or a hook throwing, checked against a value model", REAL, "system memory allocator, property hooks (scripted)"});
