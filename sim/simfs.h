// Simulated process environment for the command line tools: file system, descriptors, mappings, directories, stdio
// devices, clock and exit.  The tools' own main() runs inside the simulation; the calls below replace libc's.
#pragma once
#include "simrt.h"
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csetjmp>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>

namespace fs {
using namespace sim;
enum Type { REG, DIRT, LNK, FIFO };
struct Node {
  Type type = REG; std::string name, data, link; Node *up = nullptr; std::map<std::string, Node *> kids; bool gone = false; int tag = -1;
  bool tainted = false;                                   // a fault may legitimately have hidden it from the tool
};
struct Dir { Node *n; std::vector<std::string> names; size_t pos = 0; struct dirent *ent = nullptr; size_t cut = (size_t)-1; };
struct Fd { Node *n; size_t pos; };
struct Map { size_t len; };
struct Sess {                                             // one run of a tool
  std::string in; size_t inpos = 0; std::vector<int> chunks; size_t ci = 0; // chunk sizes; 0: EINTR, -1: EIO
  std::string out, err; bool out_faults = false; Node outn;
};
struct World {
  std::vector<std::unique_ptr<Node>> all; Node *root, *cwd;
  std::map<int, Fd> fds; std::set<Dir *> dirs; std::map<void *, Map> maps; std::set<FILE *> files; std::map<FILE *, Node *> fnode; std::map<FILE *, int> ffd; int nextfd = 3;
  std::function<int(const char *call, Node *n, const std::string &path)> fault;   // errno to return, 0: none
  std::function<void(Node *n, Dir *d)> on_opendir;        // may set d->cut
  std::function<long(Node *n, size_t want)> read_fault;   // bytes to deliver now (short), -errno
  uint64_t disk_left = ~0ull; long fail_write = -1; bool fail_close = false; int werr = EIO;  // device faults for written files
  uint64_t write_ops = 0, failed_writes = 0, calls = 0; bool fired = false;
  Sess *s = nullptr; int exit_code = 0; jmp_buf exit_jb; bool exiting = false; long clk = 0;
  Node *mk(Node *up, const std::string &name, Type t) { all.emplace_back(new Node); Node *n = all.back().get(); n->type = t; n->name = name; n->up = up; if (up) up->kids[name] = n; return n; }
};
inline World *W = nullptr;
inline void reset() { delete W; W = new World; W->root = W->mk(nullptr, "", DIRT); W->cwd = W->mk(W->root, "home", DIRT); }
inline Node *file(Node *d, const std::string &name, const std::string &data) { Node *n = W->mk(d, name, REG); n->data = data; return n; }
inline void taint(Node *n) { n->tainted = true; for (auto &k : n->kids) taint(k.second); }

// path resolution; returns nullptr with errno set
inline Node *walk(const char *path, bool follow, int depth = 0, Node *from = nullptr) {
  size_t len = strlen(path);
  if (!len) { errno = ENOENT; return nullptr; }
  if (len >= 4096) { errno = ENAMETOOLONG; return nullptr; }
  if (depth > 20) { errno = ELOOP; return nullptr; }
  Node *n = path[0] == '/' ? W->root : from ? from : W->cwd; size_t i = 0;
  std::string c;
  while (i < len) {
    while (i < len && path[i] == '/') i++;
    if (i >= len) break;
    size_t e = i; while (e < len && path[e] != '/') e++;
    c.assign(path + i, e - i); bool last = e >= len; bool trail = e < len; i = e;
    if (c.size() > 255) { errno = ENAMETOOLONG; return nullptr; }
    if (n->type != DIRT) { errno = ENOTDIR; return nullptr; }
    if (c == ".") continue;
    if (c == "..") { if (n->up) n = n->up; continue; }
    auto it = n->kids.find(c);
    if (it == n->kids.end() || it->second->gone) { errno = ENOENT; return nullptr; }
    Node *k = it->second;
    if (k->type == LNK && (!last || trail || follow)) { k = walk(k->link.c_str(), true, depth + 1, n); if (!k) return nullptr; }
    n = k;
  }
  if (len && path[len - 1] == '/' && n->type != DIRT) { errno = ENOTDIR; return nullptr; }
  return n;
}
inline bool faulted(const char *call, Node *n, const char *path) {
  W->calls++;
  if (!W->fault) return false;
  int e = W->fault(call, n, path ? path : "");
  if (!e) return false;
  W->fired = true; event("%s(%s) fails: %s", call, show(path ? path : n ? n->name : "", 60).c_str(), strerror(e)); errno = e; return true;
}
inline std::string cpath(const char *p) { std::string s; for (;; p++) { sim_access(p, 1, 0); if (!*p) break; s += *p; } return s; }
inline void fill_stat(Node *n, struct stat *st) {
  sim_access(st, sizeof *st, 1); memset(st, 0, sizeof *st); st->st_ino = 1 + (ino_t)(n->tag + 1000); st->st_nlink = n->type == DIRT ? 2 : 1; st->st_size = n->type == REG ? (off_t)n->data.size() : n->type == DIRT ? 4096 : n->type == LNK ? (off_t)n->link.size() : 0; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
  st->st_mode = 0644 | (n->type == REG ? S_IFREG : n->type == DIRT ? S_IFDIR : n->type == LNK ? S_IFLNK : S_IFIFO);
}
// ---- stdio devices -----------------------------------------------------------------------------------------
struct Ck { Node *n; size_t pos; bool w, append; };
inline ssize_t ck_read(void *c, char *b, size_t n) {
  Ck *k = (Ck *)c; size_t have = k->pos < k->n->data.size() ? k->n->data.size() - k->pos : 0; size_t m = std::min(n, have);
  if (k->n->type != REG) { errno = EISDIR; return -1; }
  if (W->read_fault) { long r = W->read_fault(k->n, m); if (r < 0) { W->fired = true; errno = (int)-r; return -1; } if (m) m = std::min(m, (size_t)std::max(1l, r)); }
  memcpy(b, k->n->data.data() + k->pos, m); k->pos += m; return m;
}
inline ssize_t ck_write(void *c, const char *b, size_t n) {
  Ck *k = (Ck *)c; size_t done = 0; if (!k->w) { errno = EBADF; return 0; }
  while (done < n) {                                      // the device may take less than asked; libc's stream layer continues
    long op = (long)W->write_ops++; size_t m = n - done;
    if (op == W->fail_write) { W->failed_writes++; W->fired = true; event("write #%ld of %s fails", op, show(k->n->name).c_str()); count("fault.write_error"); errno = W->werr; return (ssize_t)done; }
    if (m > 1 && chance(1, 6)) { m = 1 + draw(m - 1); count("fault.short_write"); }
    if (m > W->disk_left) m = (size_t)W->disk_left;
    if (!m) { W->failed_writes++; W->fired = true; event("disk full writing %s", show(k->n->name).c_str()); count("fault.disk_full"); errno = ENOSPC; return (ssize_t)done; }
    if (W->disk_left != ~0ull) W->disk_left -= m;
    if (k->append) k->pos = k->n->data.size();
    if (k->n->data.size() < k->pos) k->n->data.resize(k->pos);
    k->n->data.replace(k->pos, m, b + done, m); k->pos += m; done += m;
  }
  return (ssize_t)done;
}
inline int ck_seek(void *c, off64_t *o, int wh) { Ck *k = (Ck *)c; long long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)k->pos : (long long)k->n->data.size(); if (b + *o < 0) { errno = EINVAL; return -1; } k->pos = (size_t)(b + *o); *o = (off64_t)k->pos; return 0; }
inline int ck_close(void *c) { Ck *k = (Ck *)c; bool w = k->w; Node *n = k->n; delete k; if (w && W->fail_close) { W->failed_writes++; W->fired = true; event("close of %s fails", show(n->name).c_str()); count("fault.close_error"); errno = W->werr; return -1; } return 0; }
inline ssize_t in_read(void *, char *b, size_t n) {
  Sess *s = W->s; size_t have = s->in.size() - s->inpos; int c = s->ci < s->chunks.size() ? s->chunks[s->ci++] : 1 << 20;
  if (c == 0) { count("fault.eintr"); errno = EINTR; return -1; }
  if (c < 0) { W->fired = true; errno = EIO; return -1; }
  size_t m = std::min(std::min(n, have), (size_t)c); if (m < n && m < have) count("fault.short_read"); memcpy(b, s->in.data() + s->inpos, m); s->inpos += m; return (ssize_t)m;
}
inline ssize_t out_write(void *, const char *b, size_t n) { Sess *s = W->s; if (!s->out_faults) { s->out.append(b, n); return (ssize_t)n; } s->outn.name = "stdout"; s->outn.data = s->out; Ck k{&s->outn, s->out.size(), true, true}; ssize_t r = ck_write(&k, b, n); s->out = s->outn.data; return r; }
inline ssize_t err_write(void *, const char *b, size_t n) { W->s->err.append(b, n); return (ssize_t)n; }
struct Result { int code = 0; bool exited = false; std::string out, err; size_t fds = 0, dirs = 0, maps = 0; bool operator==(const Result &o) const { return code == o.code && out == o.out; } };
}
extern "C" { inline FILE *sim_stdout, *sim_stderr, *sim_stdin; }
extern "C" {
using namespace fs;
int sim_open(const char *p, int fl, ...) {
  std::string s = cpath(p); Node *n = walk(s.c_str(), true); if (faulted("open", n, s.c_str())) return -1; if (!n) { errno = errno ? errno : ENOENT; return -1; }
  if ((fl & O_ACCMODE) != O_RDONLY && n->type == DIRT) { errno = EISDIR; return -1; }
  int fd = W->nextfd++; W->fds[fd] = {n, 0}; return fd;
}
int sim_close(int fd) { if (!W->fds.erase(fd)) fail("descriptor", "close(%d): not an open descriptor", fd); faulted("close", nullptr, nullptr); return 0; }
int sim_fstat(int fd, struct stat *st) { auto it = W->fds.find(fd); if (it == W->fds.end()) fail("descriptor", "fstat(%d): not an open descriptor", fd); if (faulted("fstat", it->second.n, nullptr)) return -1; fill_stat(it->second.n, st); return 0; }
static int do_stat(const char *p, struct stat *st, bool follow) { std::string s = cpath(p); Node *n = walk(s.c_str(), follow); int e = errno; if (faulted(follow ? "stat" : "lstat", n, s.c_str())) return -1; if (!n) { errno = e; return -1; } fill_stat(n, st); return 0; }
int sim_stat(const char *p, struct stat *st) { return do_stat(p, st, true); }
int sim_lstat(const char *p, struct stat *st) { return do_stat(p, st, false); }
int sim_access_(const char *p, int) { std::string s = cpath(p); Node *n = walk(s.c_str(), true); if (faulted("access", n, s.c_str())) return -1; return n ? 0 : -1; }
ssize_t sim_read(int fd, void *b, size_t n) { if (fd == 0 && W->s) { if (n) sim_access(b, n, 1); return fs::in_read(nullptr, (char *)b, n); } auto it = W->fds.find(fd); if (it == W->fds.end()) fail("descriptor", "read(%d): not an open descriptor", fd); if (faulted("read", it->second.n, nullptr)) return -1; Node *d = it->second.n; if (d->type != REG) { errno = EISDIR; return -1; } size_t h = it->second.pos < d->data.size() ? d->data.size() - it->second.pos : 0, m = std::min(n, h); if (m > 1 && chance(1, 4)) m = 1 + draw(m); if (m > h) m = h; sim_access(b, m, 1); memcpy(b, d->data.data() + it->second.pos, m); it->second.pos += m; return (ssize_t)m; }
ssize_t sim_write(int fd, const void *b, size_t n) { if (n) ::sim_access((void *)b, n, 0); if (fd == 1) return fs::out_write(nullptr, (const char *)b, n); if (fd == 2) return fs::err_write(nullptr, (const char *)b, n); for (auto &x : W->ffd) if (x.second == fd) { fflush(x.first); Node *nd = W->fnode[x.first]; fs::Ck k{nd, W->fds[fd].pos, true, false}; ssize_t r = fs::ck_write(&k, (const char *)b, n); W->fds[fd].pos = k.pos; return r > 0 || !n ? r : -1; } errno = EBADF; return -1; }
int sim_fileno(FILE *f) { if (f == sim_stdin) return 0; if (f == sim_stdout) return 1; if (f == sim_stderr) return 2; auto it = W->fnode.find(f); if (it == W->fnode.end()) { errno = EBADF; return -1; } auto r = W->ffd.emplace(f, W->nextfd); if (r.second) { W->fds[W->nextfd++] = {it->second, 0}; long p = ftell(f); if (p > 0) W->fds[r.first->second].pos = (size_t)p; } return r.first->second; }
int sim_fsync(int) { return 0; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
off_t sim_lseek(int fd, off_t o, int wh) { auto it = W->fds.find(fd); if (it == W->fds.end()) fail("descriptor", "lseek(%d): not an open descriptor", fd); long long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)it->second.pos : (long long)it->second.n->data.size(); it->second.pos = (size_t)(b + o); return b + o; }
void *sim_mmap(void *, size_t len, int, int, int fd, off_t off) {
  if (fd == -1) { void *p = guard_copy(std::string(len, 0).data(), len); W->maps[p] = {len}; return p; }
  auto it = W->fds.find(fd); if (it == W->fds.end()) fail("descriptor", "mmap(%d): not an open descriptor", fd);
  Node *n = it->second.n; if (faulted("mmap", n, nullptr)) return MAP_FAILED;
  if (len == 0) { errno = EINVAL; return MAP_FAILED; } if (n->type != REG) { errno = ENODEV; return MAP_FAILED; }
  if ((size_t)off + len > n->data.size()) fail("memory", "maps %zu bytes at %ld of a file of %zu bytes", len, (long)off, n->data.size());
  void *p = guard_copy(n->data.data() + off, len); W->maps[p] = {len}; return p;
}
int sim_munmap(void *p, size_t len) { auto it = W->maps.find(p); if (it == W->maps.end()) fail("memory", "munmap of %p, which is not a mapping", p); if (it->second.len != len) fail("memory", "munmap of %zu bytes of a mapping of %zu bytes", len, it->second.len); W->maps.erase(it); guard_free(p); return 0; }
DIR *sim_opendir(const char *p) {
  std::string s = cpath(p); Node *n = walk(s.c_str(), true); int e = errno; if (faulted("opendir", n, s.c_str())) return nullptr; if (!n) { errno = e; return nullptr; } if (n->type != DIRT) { errno = ENOTDIR; return nullptr; }
  Dir *d = new Dir; d->n = n; d->names = {".", ".."}; for (auto &k : n->kids) if (!k.second->gone) d->names.push_back(k.first);
  if (draw(4)) for (size_t i = d->names.size(); i > 1; i--) std::swap(d->names[i - 1], d->names[draw(i)]);
  W->dirs.insert(d); if (W->on_opendir) W->on_opendir(n, d); return (DIR *)d;
}
static Dir *thedir(DIR *p, const char *what) { if (!W->dirs.count((Dir *)p)) fail("descriptor", "%s on a directory stream that is not open", what); return (Dir *)p; }
struct dirent *sim_readdir(DIR *p) {
  Dir *d = thedir(p, "readdir"); if (d->ent) { guard_free(d->ent); d->ent = nullptr; }
  while (d->pos < d->names.size()) {
    if (d->pos >= d->cut) { count("fault.readdir_error"); event("readdir(%s) fails after %zu entries", show(d->n->name).c_str(), d->cut); for (auto &k : d->n->kids) taint(k.second); W->fired = true; errno = EIO; return nullptr; }
    const std::string &nm = d->names[d->pos++]; Node *k = nm == "." || nm == ".." ? d->n : d->n->kids[nm];
    if (faulted("readdir", k, nm.c_str())) continue;      // the entry vanished between listing and reading
    struct dirent e; memset(&e, 0, sizeof e); memset(e.d_name, 0x7e, sizeof e.d_name); strcpy(e.d_name, nm.c_str()); e.d_ino = 1 + (k ? k->tag : 0); e.d_reclen = sizeof e;
    e.d_type = chance(1, 4) || !k ? DT_UNKNOWN : nm[0] == '.' && (nm == "." || nm == "..") ? DT_DIR : k->type == REG ? DT_REG : k->type == DIRT ? DT_DIR : k->type == LNK ? DT_LNK : DT_FIFO;
    d->ent = (struct dirent *)guard_copy(&e, sizeof e); return d->ent;
  }
  return nullptr;
}
void sim_rewinddir(DIR *p) { thedir(p, "rewinddir")->pos = 0; }
int sim_closedir(DIR *p) { Dir *d = thedir(p, "closedir"); W->dirs.erase(d); guard_free(d->ent); delete d; return 0; }
FILE *sim_fopen(const char *p, const char *m) {
  std::string s = cpath(p), mode = cpath(m); Node *n = walk(s.c_str(), true); int e = errno; if (faulted("fopen", n, s.c_str())) return nullptr;
  bool w = mode[0] != 'r' || mode.find('+') != std::string::npos;
  if (!n) { if (mode[0] == 'r') { errno = e; return nullptr; } size_t sl = s.rfind('/'); Node *d = sl == std::string::npos ? W->cwd : walk(s.substr(0, sl + 1).c_str(), true); if (!d || d->type != DIRT) { errno = ENOENT; return nullptr; } n = W->mk(d, sl == std::string::npos ? s : s.substr(sl + 1), REG); }
  else if (n->type == DIRT && w) { errno = EISDIR; return nullptr; } else if (mode[0] == 'w') n->data.clear();
  Ck *k = new Ck{n, 0, w, mode[0] == 'a'}; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(k, mode.c_str(), io); W->files.insert(f); W->fnode[f] = n; return f;
}
int sim_fclose(FILE *f) { if (f == sim_stdout || f == sim_stderr || f == sim_stdin) { fflush(f); return 0; } if (!W->files.erase(f)) fail("descriptor", "fclose of a stream that is not open"); W->fnode.erase(f); if (W->ffd.count(f)) { W->fds.erase(W->ffd[f]); W->ffd.erase(f); } return fclose(f); }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (s * n) ::sim_access(p, s * n, 0); return fwrite(p, s, n, f); }
size_t sim_fread(void *p, size_t s, size_t n, FILE *f) { if (s * n) ::sim_access(p, s * n, 1); return fread(p, s, n, f); }
int sim_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(sim_stdout, f, a); va_end(a); return r; }
int sim_puts(const char *s) { fputs(s, sim_stdout); fputc('\n', sim_stdout); return 1; }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
clock_t sim_clock() { W->clk += (long)draw(3) * 1000; if (chance(1, 30)) { W->clk -= 500000; count("fault.clock_jump"); } return (clock_t)W->clk; }
time_t sim_time(time_t *t) { time_t v = 1700000000 + W->clk / 1000000; if (t) *t = v; return v; }
int sim_unlink(const char *p) { std::string s = cpath(p); Node *n = walk(s.c_str(), false); if (faulted("unlink", n, s.c_str())) return -1; if (!n) return -1; n->up->kids.erase(n->name); return 0; }
int sim_rename(const char *a, const char *b) { std::string s = cpath(a), t = cpath(b); Node *n = walk(s.c_str(), false); if (faulted("rename", n, s.c_str())) return -1; if (!n) return -1; size_t sl = t.rfind('/'); Node *d = sl == std::string::npos ? W->cwd : walk(t.substr(0, sl + 1).c_str(), true); if (!d) return -1; n->up->kids.erase(n->name); n->name = sl == std::string::npos ? t : t.substr(sl + 1); n->up = d; d->kids[n->name] = n; return 0; }
void sim_exit(int c) { if (!W || !W->s) fail("crash", "exit(%d) outside a tool run", c); W->exit_code = c; W->exiting = true; longjmp(W->exit_jb, 1); }
}
#define FS_ALIAS(n, o) asm(".globl sim_" #n "\n.set sim_" #n ", sim_" #o)
FS_ALIAS(open64, open); FS_ALIAS(fstat64, fstat); FS_ALIAS(stat64, stat); FS_ALIAS(lstat64, lstat); FS_ALIAS(lseek64, lseek); FS_ALIAS(mmap64, mmap); FS_ALIAS(readdir64, readdir); FS_ALIAS(fopen64, fopen); FS_ALIAS(remove, unlink); FS_ALIAS(_exit, exit); FS_ALIAS(posix_madvise, madvise); FS_ALIAS(fdatasync, fsync); FS_ALIAS(fileno_unlocked, fileno); FS_ALIAS(posix_fadvise64, posix_fadvise);
namespace fs {
// run one tool: main(argc, argv) with the given standard input, to completion
inline Result run_tool(int (*mainfn)(int, const char **), const std::vector<std::string> &args, Sess *in = nullptr) {
  Result r; Sess s0; Sess *s = in ? in : &s0; W->s = s; W->exiting = false; W->fired = false;
  cookie_io_functions_t oi = {nullptr, out_write, nullptr, nullptr}, ei = {nullptr, err_write, nullptr, nullptr}, ii = {in_read, nullptr, nullptr, nullptr};
  FILE *so = fopencookie(s, "w", oi), *se = fopencookie(s, "w", ei), *si = fopencookie(s, "r", ii); setvbuf(se, nullptr, _IONBF, 0);
  sim_stdout = so; sim_stderr = se; sim_stdin = si;
  const char **argv = (const char **)guard_copy(std::string((args.size() + 1) * sizeof(char *), 0).data(), (args.size() + 1) * sizeof(char *));
  for (size_t i = 0; i < args.size(); i++) argv[i] = (const char *)guard_copy(args[i].c_str(), args[i].size() + 1);
  if (setjmp(W->exit_jb) == 0) r.code = mainfn((int)args.size(), argv); else { r.code = W->exit_code; r.exited = true; }
  r.fds = W->fds.size(); r.dirs = W->dirs.size(); r.maps = W->maps.size();
  for (FILE *f : std::set<FILE *>(W->files)) fclose(f);   // as at process exit
  W->files.clear(); W->fnode.clear(); W->ffd.clear(); W->fds.clear(); for (Dir *d : W->dirs) { guard_free(d->ent); delete d; } W->dirs.clear(); for (auto &m : W->maps) guard_free(m.first); W->maps.clear();
  fclose(so); fclose(se); fclose(si); sim_stdout = sim_stderr = sim_stdin = nullptr;
  for (size_t i = 0; i < args.size(); i++) guard_free((void *)argv[i]); guard_free(argv);
  r.out = s->out; r.err = s->err; W->s = nullptr; count("op.tool_run"); return r;
}
inline std::string argstr(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + show(x, 60); return s; }
}
