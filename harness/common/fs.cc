// A file system and process environment in memory, standing in for libc under the engine and in native
// replays alike, so that no call of the code under test reaches the real one. Every call that changes
// something first has to be inside the output directories.
#include "sym.h"
extern "C" int sym_eqn(const void *a, const void *b, size_t n);
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
namespace {
enum Kind { NONE, DIR_, FILE_, LINK };
struct Node { int kind, parent; bool inside, touched; size_t namelen, len, cap, writes; char name[96]; unsigned char *data; };
const int MAX = 96; Node nodes[MAX]; int count;
struct Fd { int node; size_t pos; bool write; }; Fd fds[512]; int nfds; const int FD0 = 1000;
char env_text[64][160]; char *env_ptr[65]; int nenv;
const char *sources[4]; int nsources, opened;
Node standard_output, standard_input; size_t stdin_pos; bool may_exit, armed; void (*on_exit_)(int);
void fail(const char *id) { sym_assert(0, id); }
int node(int parent, const char *name, size_t n, int kind) {
  if (count == MAX || n >= sizeof nodes[0].name) { fail("model-capacity"); }
  Node &x = nodes[count]; x.kind = kind; x.parent = parent; x.namelen = n; memcpy(x.name, name, n); x.len = x.cap = x.writes = 0; x.data = 0; x.touched = false; x.inside = parent >= 0 && nodes[parent].inside; return count++;
}
int child(int d, const char *name, size_t n) {
  for (int i = 1; i < count; i++) if (nodes[i].kind && nodes[i].parent == d && nodes[i].namelen == n && sym_eqn(nodes[i].name, name, n)) return i;
  return -1;
}
// An output directory that does not exist yet comes into being.
int declared(int d, const char *name, size_t n) {
  for (int i = 1; i < count; i++) if (!nodes[i].kind && nodes[i].inside && nodes[i].parent == d && nodes[i].namelen == n && sym_eqn(nodes[i].name, name, n)) { nodes[i].kind = DIR_; return i; }
  return -1;
}
void put(Node &f, const void *p, size_t n) { if (f.len + n > f.cap) { size_t c = (f.len + n) * 2 + 64; unsigned char *d = (unsigned char *)malloc(c); if (f.len) memcpy(d, f.data, f.len); free(f.data); f.data = d; f.cap = c; } memcpy(f.data + f.len, p, n); f.len += n; }
// The result of following a path: the node, or -1 with `parent` and the last name when only that is missing.
struct At { int node, parent; const char *name; size_t n; int err; };
At walk(int dir, const char *p, size_t n, bool last, int depth) {
  At r = {dir, -1, 0, 0, 0};
  if (n == 0) { r.node = -1; r.err = ENOENT; return r; }
  if (p[0] == '/') r.node = 0;
  size_t i = 0; bool slash = false;
  while (i < n) {
    while (i < n && p[i] == '/') i++;
    if (i == n) { slash = true; break; }
    size_t j = i; while (j < n && p[j] != '/') j++;
    size_t k = j; while (k < n && p[k] == '/') k++;
    bool final = k == n;
    if (nodes[r.node].kind != DIR_) { r.node = -1; r.parent = -1; r.err = ENOTDIR; return r; }
    if (j - i == 1 && p[i] == '.') { i = j; r.parent = -1; continue; }
    if (j - i == 2 && p[i] == '.' && p[i + 1] == '.') { if (nodes[r.node].parent >= 0) r.node = nodes[r.node].parent; i = j; r.parent = -1; continue; }
    int c = child(r.node, p + i, j - i);
    if (c < 0) { int d = r.node; r.node = -1; r.err = ENOENT; r.parent = -1; if (final) { r.parent = d; r.name = p + i; r.n = j - i; } return r; }
    if (nodes[c].kind == LINK && (!final || last || j < k)) {
      if (depth > 8) { r.node = -1; r.parent = -1; r.err = ELOOP; return r; }
      At t = walk(r.node, (const char *)nodes[c].data, nodes[c].len, true, depth + 1);
      if (t.node < 0 && !final) t.parent = -1;
      if (t.node < 0) return t;
      r.node = t.node; r.parent = -1;
    } else { r.parent = r.node; r.node = c; r.name = p + i; r.n = j - i; }
    i = j;
  }
  if (slash && nodes[r.node].kind != DIR_) { r.node = -1; r.parent = -1; r.err = ENOTDIR; }
  return r;
}
int cwd;
At at(const char *p, bool last) { return walk(cwd, p, strlen(p), last, 0); }
bool changed(bool inside) { if (armed) { sym_assert(inside, "writes-only-into-the-output-directories"); } return inside; }
void fill_stat(int n, struct stat64 *s) { memset(s, 0, sizeof *s); const Node &x = nodes[n]; s->st_mode = (x.kind == DIR_ ? S_IFDIR | 0755 : x.kind == LINK ? S_IFLNK | 0777 : S_IFREG | 0644); s->st_size = x.len; s->st_ino = n + 1; s->st_dev = 1; s->st_nlink = 1; }
int err(int e) { errno = e; return -1; }
// A bridge source: it exists wherever a file could be named.
int source(const char *p) {
  size_t n = strlen(p), i = n; while (i > 0 && p[i - 1] != '/') i--;
  if (i == n || (n - i == 1 && p[i] == '.') || (n - i == 2 && p[i] == '.' && p[i + 1] == '.')) return -1;
  if (nsources == 0) return -1;
  if (opened >= nsources) { fail("sources-read-once"); }
  int f = node(-2, "source", 6, FILE_); put(nodes[f], sources[opened], strlen(sources[opened])); opened++; return f;
}
int do_open(const char *p, int flags) {
  int acc = flags & O_ACCMODE; bool creat = flags & O_CREAT; At a = at(p, true); int n = a.node;
  if (n < 0 && acc == O_RDONLY && !creat && armed && at(p, false).node < 0) n = source(p);
  if (n < 0 && creat && a.parent >= 0) { changed(nodes[a.parent].inside); n = node(a.parent, a.name, a.n, FILE_); nodes[n].touched = true; }
  if (n < 0) return err(a.err ? a.err : ENOENT);
  if ((flags & O_CREAT) && (flags & O_EXCL) && a.node >= 0) return err(EEXIST);
  if (acc != O_RDONLY || (flags & O_TRUNC)) { if (nodes[n].kind == DIR_) return err(EISDIR); changed(nodes[n].inside); nodes[n].writes++; if (flags & O_TRUNC) nodes[n].len = 0; }
  if (nfds == 512) { fail("model-capacity"); }
  fds[nfds].node = n; fds[nfds].pos = flags & O_APPEND ? nodes[n].len : 0; fds[nfds].write = acc != O_RDONLY; return FD0 + nfds++;
}
void set(int d, const char *p) { // mkdir -p for the initial tree
  size_t i = 0, n = strlen(p); while (i < n) { while (i < n && p[i] == '/') i++; size_t j = i; while (j < n && p[j] != '/') j++; if (j > i) { int c = child(d, p + i, j - i); if (c < 0) c = declared(d, p + i, j - i); d = c >= 0 ? c : node(d, p + i, j - i, DIR_); } i = j; }
}
}
extern "C" {
extern char **environ;
char **environ = env_ptr;
// ---- set up and inspect
void fs_reset(void) { count = 0; node(-1, "", 0, DIR_); nfds = 0; nenv = 0; env_ptr[0] = 0; nsources = opened = 0; standard_output.len = standard_input.len = stdin_pos = 0; on_exit_ = 0; may_exit = false; armed = false; cwd = 0; }
void fs_dir(const char *p) { set(0, p); }
void fs_file(const char *p, const void *text, size_t n) { At a = walk(0, p, strlen(p), true, 0); int f = node(a.parent, a.name, a.n, FILE_); put(nodes[f], text, n); }
void fs_link(const char *p, const char *to) { At a = walk(0, p, strlen(p), false, 0); int f = node(a.parent, a.name, a.n, LINK); put(nodes[f], to, strlen(to)); }
void fs_output(const char *p) { At a = walk(0, p, strlen(p), true, 0); if (a.node >= 0) nodes[a.node].inside = true; else { int d = node(a.parent, a.name, a.n, NONE); nodes[d].inside = true; } }
void fs_cwd(const char *p) { cwd = walk(0, p, strlen(p), true, 0).node; }
void fs_env(const char *kv) { size_t n = strlen(kv); if (nenv == 64 || n >= sizeof env_text[0]) { fail("model-capacity"); } memcpy(env_text[nenv], kv, n + 1); env_ptr[nenv] = env_text[nenv]; env_ptr[++nenv] = 0; }
void fs_env_n(const char *k, const void *v, size_t n) { size_t m = strlen(k); if (nenv == 64 || m + n + 2 >= sizeof env_text[0]) { fail("model-capacity"); } memcpy(env_text[nenv], k, m); env_text[nenv][m] = '='; memcpy(env_text[nenv] + m + 1, v, n); env_text[nenv][m + 1 + n] = 0; env_ptr[nenv] = env_text[nenv]; env_ptr[++nenv] = 0; }
void fs_source(const char *text) { sources[nsources++] = text; }
void fs_arm(int on, int exit_allowed) { armed = on; may_exit = exit_allowed; }
int fs_node(const char *p, size_t n, int follow) { return walk(0, p, n, follow, 0).node; }
int fs_kind(int n) { return n < 0 ? 0 : nodes[n].kind; }
const unsigned char *fs_data(int n, size_t *len) { *len = nodes[n].len; return nodes[n].data; }
size_t fs_writes(void) { size_t w = 0; for (int i = 0; i < count; i++) w += nodes[i].writes; return w; }
int fs_count(void) { return count; }
size_t fs_path(int n, char *out, size_t cap) { char t[512]; size_t e = sizeof t; while (n > 0) { size_t l = nodes[n].namelen; if (e < l + 1) { fail("model-capacity"); } e -= l; memcpy(t + e, nodes[n].name, l); t[--e] = '/'; n = nodes[n].parent; } if (e == sizeof t) t[--e] = '/'; size_t l = sizeof t - e; if (l >= cap) { fail("model-capacity"); } memcpy(out, t + e, l); out[l] = 0; return l; }
const char *fs_stdout(size_t *n) { *n = standard_output.len; return standard_output.len ? (const char *)standard_output.data : ""; }
void fs_stdout_clear(void) { standard_output.len = 0; }
void fs_stdin(const void *p, size_t n) { put(standard_input, p, n); }
void fs_on_exit(void (*f)(int)) { on_exit_ = f; }
// ---- libc
char *getenv(const char *k) { size_t n = strlen(k); for (int i = 0; i < nenv; i++) if (!strncmp(env_text[i], k, n) && env_text[i][n] == '=') return env_text[i] + n + 1; return 0; }
int open64(const char *p, int flags, ...) { return do_open(p, flags); }
int open(const char *p, int flags, ...) { return do_open(p, flags); }
int openat64(int, const char *p, int flags, ...) { At a = at(p, !(flags & O_NOFOLLOW)); if (a.node >= 0) changed(nodes[a.node].inside); fail("model-openat"); return err(ENOSYS); }
int openat(int d, const char *p, int flags, ...) { return openat64(d, p, flags); }
int close(int fd) { if (fd < FD0) return (int)syscall(SYS_close, fd); return 0; }
ssize_t read(int fd, void *b, size_t n) { if (fd == 0 && armed) { size_t k = standard_input.len - stdin_pos < n ? standard_input.len - stdin_pos : n; memcpy(b, standard_input.data + stdin_pos, k); stdin_pos += k; return k; } if (fd < FD0) return syscall(SYS_read, fd, b, n); Fd &f = fds[fd - FD0]; Node &x = nodes[f.node]; if (x.kind == DIR_) return err(EISDIR); size_t k = x.len - f.pos < n ? x.len - f.pos : n; memcpy(b, x.data + f.pos, k); f.pos += k; return k; }
ssize_t write(int fd, const void *b, size_t n) {
  if (fd == 1 && armed) { put(standard_output, b, n); return n; }
  if (fd < FD0) return sym_on_engine() ? (ssize_t)n : syscall(SYS_write, fd, b, n);
  put(nodes[fds[fd - FD0].node], b, n); return n;
}
ssize_t writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) t += write(fd, v[i].iov_base, v[i].iov_len); return t; }
off64_t lseek64(int fd, off64_t o, int w) { if (fd < FD0) return syscall(SYS_lseek, fd, o, w); Fd &f = fds[fd - FD0]; f.pos = w == SEEK_SET ? o : w == SEEK_CUR ? f.pos + o : nodes[f.node].len + o; return f.pos; }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int fstat64(int fd, struct stat64 *s) { if (fd < FD0) return err(EBADF); fill_stat(fds[fd - FD0].node, s); return 0; }
int stat64(const char *p, struct stat64 *s) { At a = at(p, true); if (a.node < 0) return err(a.err); fill_stat(a.node, s); return 0; }
int lstat64(const char *p, struct stat64 *s) { At a = at(p, false); if (a.node < 0) return err(a.err); fill_stat(a.node, s); return 0; }
int fstatat64(int d, const char *p, struct stat64 *s, int flags) { if ((flags & AT_EMPTY_PATH) && !p[0]) return fstat64(d, s); return flags & AT_SYMLINK_NOFOLLOW ? lstat64(p, s) : stat64(p, s); }
int statx(int d, const char *p, int flags, unsigned, struct statx *x) {
  const char *volatile given = p; if (!given) return err(EFAULT); // std probes with a null path
  struct stat64 s; int r = fstatat64(d, p, &s, flags); if (r) return r;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_dev_minor = 1; x->stx_nlink = 1; return 0;
}
int access(const char *p, int) { At a = at(p, true); return a.node < 0 ? err(a.err) : 0; }
int mkdir(const char *p, mode_t) { At a = at(p, false); if (a.node >= 0) return err(EEXIST); if (a.parent < 0) return err(a.err); 
  if (declared(a.parent, a.name, a.n) >= 0) return 0;
  changed(nodes[a.parent].inside); node(a.parent, a.name, a.n, DIR_); return 0; }
int symlink(const char *to, const char *p) { At a = at(p, false); if (a.node >= 0) return err(EEXIST); if (a.parent < 0) return err(a.err); changed(nodes[a.parent].inside); int f = node(a.parent, a.name, a.n, LINK); put(nodes[f], to, strlen(to)); nodes[f].touched = true; return 0; }
int unlink(const char *p) { At a = at(p, false); if (a.node < 0) return err(a.err); if (nodes[a.node].kind == DIR_) return err(EISDIR); changed(a.parent >= 0 && nodes[a.parent].inside); nodes[a.node].kind = NONE; nodes[a.node].inside = false; nodes[a.node].parent = -2; return 0; }
int rmdir(const char *p) { At a = at(p, false); if (a.node < 0) return err(a.err); changed(nodes[a.node].inside); fail("model-rmdir"); return err(ENOSYS); }
int unlinkat(int, const char *p, int) { return rmdir(p); }
int rename(const char *, const char *) { fail("model-rename"); return err(ENOSYS); }
int link(const char *, const char *) { fail("model-link"); return err(ENOSYS); }
int chmod(const char *, mode_t) { fail("model-chmod"); return err(ENOSYS); }
int truncate64(const char *, off64_t) { fail("model-truncate"); return err(ENOSYS); }
int ftruncate64(int, off64_t) { fail("model-truncate"); return err(ENOSYS); }
ssize_t readlink(const char *p, char *b, size_t n) { At a = at(p, false); if (a.node < 0) return err(a.err); if (nodes[a.node].kind != LINK) return err(EINVAL); size_t k = nodes[a.node].len < n ? nodes[a.node].len : n; memcpy(b, nodes[a.node].data, k); return k; }
char *realpath(const char *p, char *out) { At a = at(p, true); if (a.node < 0) { errno = a.err; return 0; } if (!out) out = (char *)malloc(512); fs_path(a.node, out, 512); return out; }
char *getcwd(char *b, size_t n) { if (!b) { n = 512; b = (char *)malloc(n); } fs_path(cwd, b, n); return b; }
DIR *opendir(const char *) { errno = ENOENT; return 0; }
void exit(int code) { if (on_exit_) { on_exit_(code); sym_exit(); _exit(0); } sym_assert(may_exit && code, "build-succeeds"); sym_reach("refused"); sym_exit(); _exit(0); }
}
