// C25: file paths and file contents.
// vf-src: bw_format TextView string_view_util MemArena
// vf-opt vc_join: split=6 cost=5
// vf-opt vc_parts: split=2 cost=5
// vf-opt vc_remove_all: split=4 cost=3
// The system calls are replaced by contracts: any behaviour POSIX permits.
#include "vf.h"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <variant>
#include "swoc/bwf_base.h"
extern "C" {
int sys_open(char const *p, int flags, int mode = 0);
int sys_close(int fd);
ssize_t sys_read(int fd, void *p, size_t n);
ssize_t sys_write(int fd, void const *p, size_t n);
int sys_ftruncate(int fd, off_t n);
int sys_fstat(int fd, struct stat *s);
int sys_stat(char const *p, struct stat *s);
int sys_lstat(char const *p, struct stat *s);
int sys_unlink(char const *p);
int sys_rmdir(char const *p);
int sys_mkdir(char const *p, mode_t m);
DIR *sys_opendir(char const *p);
struct dirent *sys_readdir(DIR *d);
int sys_closedir(DIR *d);
char *sys_realpath(char const *p, char *b);
char *sys_getcwd(char *b, size_t n);
char *sys_get_current_dir_name();
int sys_access(char const *p, int m);
char *sys_getenv(char const *n);
}
#define open(...) sys_open(__VA_ARGS__)
#define close(x) sys_close(x)
#define read(a, b, c) sys_read(a, b, c)
#define write(a, b, c) sys_write(a, b, c)
#define ftruncate(a, b) sys_ftruncate(a, b)
#define fstat(a, b) sys_fstat(a, b)
#define stat(a, b) sys_stat(a, b)
#define lstat(a, b) sys_lstat(a, b)
#define unlink(a) sys_unlink(a)
#define rmdir(a) sys_rmdir(a)
#define mkdir(a, b) sys_mkdir(a, b)
#define opendir(a) sys_opendir(a)
#define readdir(a) sys_readdir(a)
#define closedir(a) sys_closedir(a)
#define realpath(a, b) sys_realpath(a, b)
#define getcwd(a, b) sys_getcwd(a, b)
#define get_current_dir_name() sys_get_current_dir_name()
#define access(a, b) sys_access(a, b)
#define getenv(a) sys_getenv(a)
#include "swoc/../../src/swoc_file.cc"
#undef open
#undef close
#undef read
#undef write
#undef stat
using namespace swoc;
using file::path;
typedef std::string_view SV;
static bool same(SV a, SV b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); ++i) ok = vf_and(ok, a[i] == b[i]);
  return ok;
}
static unsigned pick(char const *n, unsigned k) { return vf_pick(n, 0, k - 1); }
// ---- the file system
// Contents and descriptors.
struct File { char data[8]; int len; };
static File src, dst, *out; static char const *const SRC = "s/src";
static char made[4][24]; static unsigned mades; static int make_fails;
static int open_fds, src_pos, dst_pos, claimed, dst_fail_at;
static bool src_missing, read_fails, dst_missing, src_dir, dst_dir;
static int any_errno() { return errno = int(vf_range("errno", 1, 40)); }
// A tree of files, with something outside.
enum Kind { ABSENT, REG, DIRECTORY, LINK, DANGLING, FIFO, CHAR, BLOCK, SOCKET };
struct Node { char const *name; Kind kind; bool stuck; };
static Node tree[6];
static unsigned removed;
static char const *through(char const *p, char *b) { // follow the link as a part of a path
  for (auto &n : tree) {
    size_t k = n.name ? strlen(n.name) : 0;
    if (k && n.kind == LINK && 0 == strncmp(p, n.name, k) && p[k] == '/') { strcpy(b, "o"); strcat(b, p + k); return b; }
  }
  return p;
}
static Node *find(char const *p, bool follow) {
  char b[40];
  p = through(p, b);
  for (auto &n : tree) if (n.name && 0 == strcmp(n.name, p) && n.kind != ABSENT) {
    if (follow && n.kind == LINK) return find("o", false);
    if (follow && n.kind == DANGLING) return nullptr;
    return &n;
  }
  return nullptr;
}
static bool inside(char const *p, char const *dir) { size_t k = strlen(dir); return 0 == strncmp(p, dir, k) && p[k] == '/' && !strchr(p + k + 1, '/'); }
static int mode_of(Kind k) { return k == REG ? S_IFREG : k == DIRECTORY ? S_IFDIR : k == FIFO ? S_IFIFO : k == CHAR ? S_IFCHR : k == BLOCK ? S_IFBLK : k == SOCKET ? S_IFSOCK : S_IFLNK; }
static timespec times[3];
static int sys_stat_any(char const *p, struct stat *s, bool follow) {
  if (0 == strcmp(p, "dst") || 0 == strcmp(p, SRC)) {
    bool d = p[0] == 'd';
    if (d && dst_dir) { s->st_mode = S_IFDIR | 0755; s->st_size = 0; return 0; }
    if (d ? dst_missing : src_missing) { errno = ENOENT; return -1; }
    s->st_mode = d || !src_dir ? S_IFREG | 0644 : S_IFDIR; s->st_size = d ? dst.len : src.len;
    return 0;
  }
  for (unsigned i = 0; i < mades && i < 4; ++i) if (0 == strcmp(made[i], p)) { s->st_mode = S_IFDIR; s->st_size = 0; return 0; }
  if (0 == strcmp(p, "/")) { s->st_mode = S_IFDIR; s->st_size = 0; return 0; }
  if (Node *n = find(p, follow)) { s->st_mode = mode_of(n->kind) | 0755; s->st_size = 3; s->st_atim = times[0]; s->st_mtim = times[1]; s->st_ctim = times[2]; return 0; }
  errno = ENOENT;
  return -1;
}
extern "C" {
int sys_stat(char const *p, struct stat *s) { return sys_stat_any(p, s, true); }
int sys_lstat(char const *p, struct stat *s) { return sys_stat_any(p, s, false); }
int sys_open(char const *p, int flags, int) {
  if (0 == strcmp(p, SRC) && !src_missing) { ++open_fds; if (!(flags & O_CREAT)) { src_pos = 0; return 10; } out = &src; dst_pos = 0; if (flags & O_TRUNC) src.len = 0; return 11; }
  if (0 == strcmp(p, dst_dir ? "dst/src" : "dst") && (flags & O_CREAT) && dst_fail_at != -2) { ++open_fds; out = &dst; dst_pos = 0; if (dst_missing || flags & O_TRUNC) dst.len = 0; dst_missing = false; return 11; }
  any_errno();
  return -1;
}
int sys_close(int) { --open_fds; return 0; }
int sys_fstat(int fd, struct stat *s) {
  s->st_mode = fd == 10 && src_dir ? S_IFDIR : S_IFREG;
  s->st_size = fd == 10 ? claimed : out->len;
  return 0;
}
ssize_t sys_read(int, void *p, size_t n) {
  if (src_dir || (read_fails && vf_bool("read fails"))) { any_errno(); return -1; }
  int left = src.len - src_pos;
  if (left <= 0 || n == 0) return 0;
  int m = int(n < size_t(left) ? n : left);
  int k = int(vf_pick("bytes read", 1, m));
  memcpy(p, src.data + src_pos, k);
  src_pos += k;
  return k;
}
ssize_t sys_write(int, void const *p, size_t n) {
  if (n == 0) return 0;
  if (dst_fail_at >= 0 && dst_pos >= dst_fail_at) { any_errno(); return -1; }
  int k = int(vf_pick("bytes written", 1, n));
  if (dst_fail_at >= 0 && dst_pos + k > dst_fail_at) k = dst_fail_at - dst_pos;
  memcpy(out->data + dst_pos, p, k);
  dst_pos += k;
  if (dst_pos > out->len) out->len = dst_pos;
  return k;
}
int sys_ftruncate(int fd, off_t n) { EN(fd == 11, "only the target is truncated"); out->len = int(n); return 0; }
int sys_unlink(char const *p) {
  Node *n = find(p, false);
  if (!n) { errno = ENOENT; return -1; }
  if (n->kind == DIRECTORY) { errno = EISDIR; return -1; }
  if (n->stuck) { errno = EACCES; return -1; }
  n->kind = ABSENT; ++removed;
  return 0;
}
int sys_rmdir(char const *p) {
  Node *n = find(p, false);
  if (!n) { errno = ENOENT; return -1; }
  if (n->kind != DIRECTORY) { errno = ENOTDIR; return -1; }
  for (auto &c : tree) if (c.name && c.kind != ABSENT && inside(c.name, n->name)) { errno = ENOTEMPTY; return -1; }
  if (n->stuck) { errno = EACCES; return -1; }
  n->kind = ABSENT; ++removed;
  return 0;
}
struct Dir { unsigned next; char name[40]; struct dirent e; };
static int dirs;
DIR *sys_opendir(char const *p) {
  Node *n = find(p, true);
  if (!n || n->kind != DIRECTORY) { errno = ENOENT; return nullptr; }
  Dir *d = static_cast<Dir *>(malloc(sizeof(Dir)));
  d->next = 0; strcpy(d->name, n->name);
  ++dirs;
  return reinterpret_cast<DIR *>(d);
}
struct dirent *sys_readdir(DIR *q) {
  Dir *d = reinterpret_cast<Dir *>(q);
  for (;;) {
    unsigned i = d->next++;
    if (i == 0) { strcpy(d->e.d_name, "."); return &d->e; }
    if (i == 1) { strcpy(d->e.d_name, ".."); return &d->e; }
    if (i - 2 >= 6) return nullptr;
    Node &n = tree[i - 2];
    if (n.name && n.kind != ABSENT && inside(n.name, d->name)) { strcpy(d->e.d_name, n.name + strlen(d->name) + 1); return &d->e; }
  }
}
int sys_closedir(DIR *d) { free(d); --dirs; return 0; }
int sys_mkdir(char const *p, mode_t) {
  size_t n = strlen(p);
  for (unsigned i = 0; i < mades && i < 4; ++i) if (0 == strcmp(made[i], p)) n = 0;
  if (0 == n || 0 == strcmp(p, "/") || find(p, false)) { errno = EEXIST; return -1; }
  if (int(mades) == make_fails) { errno = EACCES; return -1; }
  if (mades < 4) strcpy(made[mades], p);
  ++mades;
  return 0;
}
static int resolve; // 0 fails, 1 succeeds, 2 too long for the buffer
char *sys_realpath(char const *p, char *b) {
  if (resolve == 0) { any_errno(); if (errno == ENAMETOOLONG && vf_bool("long")) resolve = 2; return nullptr; }
  if (resolve == 2 && b) { errno = ENAMETOOLONG; return nullptr; }
  if (!b) b = static_cast<char *>(malloc(40));
  strcpy(b, "/real/"); strcat(b, p);
  return b;
}
char *sys_getcwd(char *b, size_t n) {
  if (resolve == 0) { any_errno(); return nullptr; }
  if (resolve == 2) { errno = ERANGE; return nullptr; }
  strcpy(b, "/here");
  return b;
}
char *sys_get_current_dir_name() {
  if (vf_bool("fails")) { any_errno(); return nullptr; }
  char *b = static_cast<char *>(malloc(8));
  strcpy(b, "/here");
  return b;
}
static bool env[3];
char *sys_getenv(char const *n) {
  static char v[3][4] = {"/e0", "/e1", "/e2"};
  static char const *const N[] = {"TMPDIR", "TMP", "TEMPDIR"};
  for (unsigned i = 0; i < 3; ++i) if (0 == strcmp(n, N[i])) return env[i] ? v[i] : nullptr;
  return nullptr; // not set
}
int sys_access(char const *p, int) { return find(p, true) ? 0 : -1; }
}
static void reset() {
  errno = int(vf_range("errno before", 0, 40)); // not changed by success
  memset(&src, 0, sizeof src); memset(&dst, 0, sizeof dst); memset(tree, 0, sizeof tree); memset(made, 0, sizeof made);
  open_fds = src_pos = dst_pos = claimed = 0; dst_fail_at = 100; src_missing = read_fails = dst_missing = src_dir = dst_dir = false;
  removed = 0; dirs = 0; mades = 0; make_fails = -1; resolve = 0;
}
// ---- path algebra
VC(vc_join) {
  vf_bounded("texts of up to 5 and 4 bytes (thorough: 7 and 6), every byte value");
  static char a[9], b[8];
  unsigned na = vf_part(6) + (VF_N(0, 2)) * pick("longer", 2), nb = pick("size", VF_N(5, 7));
  vf_bytes(a, na, "left"); vf_bytes(b, nb, "right");
  char w[16]; unsigned n = 0;
  if (nb == 0) { memcpy(w, a, na); n = na; }
  else if (na == 0 || b[0] == '/') { memcpy(w, b, nb); n = nb; }
  else { memcpy(w, a, na); n = na; if (a[na - 1] != '/') w[n++] = '/'; memcpy(w + n, b, nb); n += nb; }
  SV want(w, n), A(a, na), B(b, nb);
  path p(A), q(B);
  EN(same((p / q).view(), want), "join of paths");
  EN(same((p / B).view(), want), "join with text");
  EN(same(p.view(), A) && same(q.view(), B), "operands are unchanged");
  EN(same((path(p) / q).view(), want) && same((path(p) / B).view(), want), "join of a temporary");
  path r; r = A;
  r /= q;
  EN(same(r.view(), want), "append in place");
  r = p; r.reserve(20); r /= B;
  EN(same(r.view(), want) && r.string() == want && same(r.c_str(), want.substr(0, strlen(r.c_str()))), "append text in place");
  EN(!nb || b[0] != '/' || r == q, "an absolute right side replaces");
  vf_cover("joined");
}
VC(vc_values) {
  vf_bounded("texts of up to 5 bytes, every byte value");
  static char a[8], b[8];
  unsigned na = pick("size", 6), nb = pick("size", 6);
  vf_bytes(a, na, "text"); vf_bytes(b, nb, "other");
  SV A(a, na), B(b, nb);
  std::string s(A);
  path p(A), q(s), o(B);
  EN(same(p.view(), A) && same(q.view(), A) && same(s, A), "constructed from text");
  EN(p == q && !(p != q) && std::hash<path>()(p) == std::hash<path>()(q), "equal paths");
  EN((p == o) == (A == B) && (p != o) == (A != B), "equality is equality of text");
  path m(std::string{A}), c(o);
  EN(same(m.view(), A) && same(c.view(), B), "moved and copied text");
  path mm(static_cast<path &&>(m));
  EN(same(mm.view(), A), "moved path");
  switch (pick("assignment", 6)) {
  case 0: o = s; break;
  case 1: o = A; break;
  case 2: o = std::string(A); break;
  case 3: o = p; break;
  case 4: o = static_cast<path &&>(q); break;
  case 5: a[na] = 0; o = a; EN(same(path(a).view(), a), "from a C string"); A = SV(a); break;
  }
  EN(same(o.view(), A) && same(c.view(), B) && o.empty() == A.empty() && same(s, SV(a, na)), "assigned");
  vf_cover("values");
}
VC(vc_self) {
  vf_bounded("texts of up to 20 bytes");
  unsigned n = pick("size", 20) + 1;
  static char a[24];
  memset(a, 'x', sizeof a);
  a[0] = vf_u8("first"); a[n - 1] = vf_u8("last");
  VF_REQUIRES(vf_and(a[0] != '/', a[n - 1] != '/'));
  path p(SV(a, n)), q = p;
  p /= p;
  EN(p.view().size() == 2 * n + 1 && same(p.view().substr(0, n), SV(a, n)) && same(p.view().substr(n + 1), SV(a, n)) && p.view()[n] == '/', "a path joined with itself");
  q /= SV(q.view()).substr(n / 2);
  EN(q.view().size() == n + 1 + n - n / 2 && same(q.view().substr(0, n), SV(a, n)) && same(q.view().substr(n + 1), SV(a + n / 2, n - n / 2)), "joined with a part of itself");
  vf_cover("self");
}
VC(vc_parts) {
  vf_bounded("texts of up to 6 bytes (thorough: 8), every byte value");
  static char a[9];
  unsigned n = vf_part(2) ? VF_N(6, 8) : pick("size", VF_N(6, 8));
  vf_bytes(a, n, "path");
  SV A(a, n);
  path p(A);
  int at = -1;
  for (unsigned i = 0; i < n; ++i) if (a[i] == '/') at = i;
  EN(same(p.parent_path().view(), at < 0 ? SV() : at == 0 ? SV("/") : A.substr(0, at)), "parent");
  EN(same(p.filename().view(), at < 0 ? A : A.substr(at + 1)), "file name");
  EN(same(p.relative_path().view(), n && a[0] == '/' ? A.substr(1) : A), "relative path");
  EN(p.is_absolute() == (n && a[0] == '/') && p.is_relative() == !p.is_absolute() && p.empty() == (n == 0), "absolute, relative");
  if (at != int(n) - 1 && !(at > 0 && a[at - 1] == '/')) EN((p.parent_path() / p.filename()) == p, "parent joined with file name is the path");
  vf_cover("parts");
}
VC(vc_resolve) {
  reset();
  resolve = pick("resolution", 3);
  int was = resolve;
  std::error_code ec(5, std::generic_category());
  bool abs = vf_bool("absolute");
  path p(abs ? "/x/y" : "x/y");
  path r = file::absolute(p, ec);
  if (abs) EN(!ec && r == p, "an absolute path is itself");
  else if (ec) EN(r.empty() && was != 1, "failure is reported");
  else EN(same(r.view(), "/real/x/y"), "resolved path");
  resolve = was;
  ec = std::error_code(5, std::generic_category());
  r = file::canonical(p, ec);
  if (ec) EN(r.empty() && was == 0, "failure is reported for canonical");
  else EN(same(r.view(), abs ? "/real//x/y" : "/real/x/y"), "canonical path");
  EN(file::canonical(path(), ec).empty() && ec, "no canonical empty path");
  resolve = was;
  r = file::current_path();
  EN(r.empty() ? was != 1 : same(r.view(), "/here"), "working directory");
  vf_cover("resolved");
}
// ---- content
static void content(File &f, unsigned max) { f.len = pick("length", max + 1); vf_bytes(f.data, f.len, "content"); }
VC(vc_load) {
  reset();
  vf_bounded("files of up to 3 bytes, every pattern of partial reads");
  content(src, 3);
  src_missing = vf_bool("missing"); src_dir = vf_bool("directory"); read_fails = vf_bool("unreliable");
  claimed = src.len + int(pick("claimed size", 3)); // the file can shrink after its size is known
  std::error_code ec(5, std::generic_category());
  std::string s = file::load(path(SRC), ec);
  if (!ec) EN(!src_missing && same(s, SV(src.data, src.len)), "what is loaded without an error is the content");
  if (src_missing || (src_dir && claimed)) EN(bool(ec), "failure to open or read is reported");
  if (!src_missing && !src_dir && !read_fails) EN(!ec, "no failure without cause");
  EN(open_fds == 0, "the file is closed");
  vf_cover("loaded");
}
VC(vc_copy) {
  reset();
  vf_bounded("files of up to 3 bytes, every pattern of partial reads and writes");
  content(src, VF_N(2, 3));
  dst_missing = vf_bool("target missing");
  if (!dst_missing) content(dst, 3);
  dst_dir = vf_bool("into a directory");
  unsigned k = pick("case", 5);
  src_missing = k == 1; src_dir = k == 2; read_fails = k == 3; dst_fail_at = k == 4 ? int(pick("room", 4)) - 2 : 100;
  if (dst_fail_at == -1) dst_fail_at = 2;
  File was = src;
  std::error_code ec(5, std::generic_category());
  bool ok = file::copy(path(SRC), path("dst"), ec);
  EN(ok == !ec, "result agrees with the error");
  if (ok) EN(same(SV(dst.data, dst.len), SV(src.data, src.len)), "the copy has the content");
  if (k == 1 || k == 2 || dst_fail_at == -2 || dst_fail_at < src.len) EN(!ok, "failures are reported");
  if (k == 0) EN(ok, "no failure without cause");
  EN(open_fds == 0 && same(SV(was.data, was.len), SV(src.data, src.len)), "files are closed, the source is unchanged");
  src = was;
  if (k == 0 && file::copy(path(SRC), path(SRC), ec)) EN(same(SV(was.data, was.len), SV(src.data, src.len)), "a file copied to itself has its content");
  EN(!file::copy(path(), path("dst"), ec) && ec && !file::copy(path(SRC), path(), ec), "empty paths");
  vf_cover("copied");
}
// ---- removal
static bool keep; // something can not be removed
static char const *item; // a file of any kind of name in the directory
static void plant(bool stuck) {
  static char const *const A[] = {"t/a", "t/..a", "t/.a", "t/...", "t/d "};
  unsigned part = vf_part(4);
  item = A[vf_pick("name of a", 0, 4)];
  tree[0] = {"t", DIRECTORY, stuck && vf_bool("keep t")};
  tree[1] = {item, Kind(pick("kind of a", 6)), stuck && vf_bool("keep a")};
  tree[2] = {"t/d", part & 1 ? DIRECTORY : ABSENT, false};
  tree[3] = {"t/d/b", part == 3 ? REG : part == 1 ? LINK : ABSENT, stuck && vf_bool("keep b")};
  tree[4] = {"o", DIRECTORY, false};
  tree[5] = {"o/x", REG, false};
}
VC(vc_remove_all) {
  reset();
  plant(vf_bool("some can not be removed"));
  unsigned have = 0, left = 0;
  for (unsigned i = 0; i < 4; ++i) have += tree[i].kind != ABSENT;
  std::error_code ec(5, std::generic_category());
  keep = tree[0].stuck || tree[1].stuck || tree[3].stuck || tree[1].kind == FIFO;
  auto n = file::remove_all(path("t"), ec);
  EN(tree[4].kind == DIRECTORY && tree[5].kind == REG, "nothing outside is removed");
  for (unsigned i = 0; i < 4; ++i) left += tree[i].kind != ABSENT;
  EN(n == removed && n == have - left, "count of the items removed");
  EN(bool(ec) == (left != 0), "error exactly if something is left");
  EN(keep || left == 0, "everything is removed");
  EN(dirs == 0, "directories are closed");
  EN(file::remove_all(path("none"), ec) == 0 && ec && file::remove_all(path(), ec) == 0 && ec, "missing");
  vf_cover("removed all");
}
VC(vc_remove) {
  reset();
  plant(vf_bool("some can not be removed"));
  char const *const P[] = {"t", item, "t/d", "t/d/b", "", "none"};
  unsigned k = pick("target", 6);
  Kind was = k < 4 ? tree[k].kind : ABSENT;
  std::error_code ec(5, std::generic_category());
  bool ok = file::remove(path(P[k]), ec);
  EN(ok == !ec, "result agrees with the error");
  EN(removed == (ok ? 1 : 0) && (!ok || tree[k].kind == ABSENT), "only the item is removed");
  EN(tree[4].kind == DIRECTORY && tree[5].kind == REG, "nothing outside is removed");
  if (was == ABSENT) EN(!ok, "a missing item is an error");
  if ((was == REG || was == LINK || was == DANGLING) && !tree[k].stuck) EN(ok, "a file or link is removed");
  vf_cover("removed");
}
// ---- status
VC(vc_status) {
  reset();
  static Kind const K[] = {REG, DIRECTORY, LINK, DANGLING, FIFO, ABSENT, CHAR, BLOCK, SOCKET};
  Kind k = K[pick("kind", 9)];
  tree[0] = {"p", k, false}; tree[4] = {"o", DIRECTORY, false};
  std::error_code ec(5, std::generic_category());
  auto s = file::status(path("p"), ec);
  bool there = k != ABSENT && k != DANGLING;
  EN(!ec == there, "a missing item is an error");
  EN(file::exists(s) == there && file::exists(path("p")) == there, "exists");
  EN(file::is_regular_file(s) == (k == REG) && file::is_dir(s) == (k == DIRECTORY || k == LINK) && file::is_char_device(s) == (k == CHAR) && file::is_block_device(s) == (k == BLOCK), "type tests");
  EN(s.type() == (k == REG ? file::file_type::regular : k == FIFO ? file::file_type::fifo : k == CHAR ? file::file_type::character : k == BLOCK ? file::file_type::block : k == SOCKET ? file::file_type::socket : there ? file::file_type::directory : file::file_type::not_found), "type");
  EN(file::file_size(s) == (there ? 3 : 0), "size");
  EN(file::file_type(s) == (k == REG ? S_IFREG : k == FIFO ? S_IFIFO : k == CHAR ? S_IFCHR : k == BLOCK ? S_IFBLK : k == SOCKET ? S_IFSOCK : there ? S_IFDIR : 0), "kind as the system tells it");
  EN(file::is_readable(path("p")) == there, "readable");
  vf_cover("status");
}
VC(vc_times) {
  reset();
  tree[0] = {"p", REG, false};
  for (auto &t : times) { t.tv_sec = long(vf_range("seconds", 0, 4000000000)); t.tv_nsec = long(vf_range("nanoseconds", 0, 999999999)); }
  std::error_code ec(5, std::generic_category());
  auto s = file::status(path("p"), ec);
  auto ns = [](timespec const &t) { return t.tv_sec * 1000000000L + t.tv_nsec; };
  EN(file::access_time(s).time_since_epoch().count() == ns(times[0]), "access time");
  EN(file::last_write_time(s).time_since_epoch().count() == ns(times[1]), "modification time");
  EN(file::modify_time(s) == file::last_write_time(s), "modification time by its old name");
  EN(file::status_time(s).time_since_epoch().count() == ns(times[2]), "status change time");
  EN(file::last_write_time(path("p"), ec) == file::last_write_time(s) && !ec, "modification time of a path");
  EN(file::last_write_time(path("none"), ec) == file::file_time_type::min() && ec, "no time of a missing file");
  vf_cover("times");
}
VC(vc_fd) {
  reset();
  int n = int(vf_range("descriptor", 0, 1000));
  open_fds = 2;
  {
    file::unique_fd a(n);
    file::unique_fd b(static_cast<file::unique_fd &&>(a));
    EN(int(a) == file::NO_FD && int(b) == n && open_fds == 2, "ownership moves");
  }
  EN(open_fds == 1, "closed exactly once");
  { file::unique_fd a(n); EN(a.release() == n && int(a) == file::NO_FD, "released"); }
  { file::unique_fd a(file::NO_FD); }
  EN(open_fds == 1, "nothing else is closed");
  vf_cover("descriptor");
}
VC(vc_temporary) {
  for (auto &e : env) e = vf_bool("set");
  path p = file::temp_directory_path();
  EN(p == path(env[0] ? "/e0" : env[1] ? "/e1" : env[2] ? "/e2" : "/tmp"), "temporary directory");
  vf_cover("temporary");
}
VC(vc_create) {
  reset();
  static char const *const P[] = {"a/b/c", "t/b", "t", "/t/x", "a", "a//b/", "", "/"};
  static unsigned const N[] = {3, 1, 0, 2, 1, 2, 0, 0};
  unsigned k = pick("path", 8);
  tree[0] = {"t", vf_bool("directory") ? DIRECTORY : REG, false};
  make_fails = int(pick("failure", 4)) - 1;
  std::error_code ec(5, std::generic_category());
  bool ok = file::create_directories(path(P[k]), ec);
  EN(ok == !ec, "result agrees with the error");
  bool blocked = tree[0].kind == REG && (k == 1 || k == 2), fail = make_fails >= 0 && unsigned(make_fails) < N[k];
  EN(ok == (k != 6 && !blocked && !fail), "success exactly if all could be made");
  if (ok) EN(mades == N[k], "only missing directories are made");
  for (unsigned i = 1; i < mades; ++i) EN(strlen(made[i - 1]) < strlen(made[i]), "parents first");
  vf_cover("created");
}
