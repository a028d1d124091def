// A complete in-memory file system which takes the place of the kernel's: every path or descriptor call of the code
// under test ends here, nothing reaches the real files.  Each call can fail, be interrupted or move fewer bytes
// (sq::deviate), and after each change an invariant is evaluated: it is what a process killed there leaves behind.
#ifndef VFS_H_
#define VFS_H_
#include "seq.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <map>
#include <vector>
#include <string>
#include <functional>
namespace vfs {
typedef std::string S;
enum Type { REG, DIR_, LNK, FIFO };
struct Ino { Type type; S data; std::map<S, int> ents; unsigned mode; bool dirty; int nlink; long mtime; };
struct Fd { int ino; off_t pos; int flags; };
struct VDir { std::vector<std::pair<S, int> > list; size_t at; int ino; };
static std::vector<Ino> I; static std::vector<Fd> fds; static S cwd; static bool on = false, useTypes = true, xdev = false, faults = false; static int fdBase = 1000, openDirs = 0, mutations = 0, hard = 0;
static std::function<void()> step; static std::function<void(const S &, const S &, int)> onRename; static std::function<bool(const S &)> raceMkdir; static std::vector<S> removed;
static int newIno(Type t, const S &d = S(), unsigned mode = 0644) { Ino x; x.type = t; x.data = d; x.mode = mode; x.dirty = false; x.nlink = 1; x.mtime = 1000000 + (long)I.size(); I.push_back(x); return (int)I.size() - 1; }
static int resolve(const S &path, bool follow, int *parent = 0, S *last = 0) {
	if (parent) *parent = -1;
	if (path.empty()) return -ENOENT; std::vector<int> st(1, 0); std::vector<S> todo; int links = 0;
	auto split = [&](const S &p) { std::vector<S> c; S x; for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { if (!x.empty()) c.push_back(x); x.clear(); } else x += p[i]; for (size_t i = c.size(); i--;) todo.push_back(c[i]); };
	bool needDir = path[path.size() - 1] == '/'; split(path); if (path[0] != '/') split(cwd);
	while (!todo.empty()) { S c = todo.back(); todo.pop_back(); if (I[st.back()].type != DIR_) return -ENOTDIR; if (c == ".") { if (parent) *parent = -1; continue; } if (c == "..") { if (st.size() > 1) st.pop_back(); if (parent) *parent = -1; continue; } if (c.size() > 255) return -ENAMETOOLONG;
		std::map<S, int>::iterator it = I[st.back()].ents.find(c); bool isLast = todo.empty(); if (isLast) { if (parent) *parent = st.back(); if (last) *last = c; } if (it == I[st.back()].ents.end()) { if (!isLast && parent) *parent = -1; return -ENOENT; }
		if (I[it->second].type == LNK && (!isLast || follow || needDir)) { if (++links > 8) return -ELOOP; S t = I[it->second].data; if (t.empty()) return -ENOENT; if (t[0] == '/') st.resize(1); split(t); continue; } st.push_back(it->second); }
	if (needDir && I[st.back()].type != DIR_) return -ENOTDIR; return st.back(); }
static void changed() { mutations++; if (step) step(); }
static int put(const S &path, Type t, const S &data = S(), unsigned mode = 0644) { int p; S n; int r = resolve(path, false, &p, &n); if (r != -ENOENT || p < 0) return r; int i = newIno(t, data, mode); I[p].ents[n] = i; return i; }
static void reset() { I.clear(); fds.clear(); openDirs = 0; mutations = 0; hard = 0; removed.clear(); step = nullptr; onRename = nullptr; raceMkdir = nullptr; useTypes = true; xdev = false; faults = false; newIno(DIR_, S(), 0755); put("/tmp", DIR_); put("/w", DIR_); cwd = "/w"; on = true; }
struct Session { Session() { reset(); } ~Session() { on = false; } };
static bool real(const char *p) { if (!on) return true; size_t n = strlen(sq::scratchDir()); return n > 5 && !strncmp(p, sq::scratchDir(), n); }
static S content(const S &p) { int i = resolve(p, true); return i < 0 ? S("<none>") : I[i].type == REG ? "=" + I[i].data : S("<dir>"); }
static void dump(int i, const S &path, std::map<S, S> &out) { const Ino &n = I[i]; if (n.type == REG) out[path] = "=" + n.data; else if (n.type == LNK) out[path] = "->" + n.data; else if (n.type == FIFO) out[path] = "|"; else { out[path + "/"] = ""; for (auto &e: n.ents) dump(e.second, path + "/" + e.first, out); } }
static std::map<S, S> tree(const S &at = "/") { std::map<S, S> m; int i = resolve(at, false); if (i >= 0) dump(i, at == "/" ? S() : at, m); return m; }
static S show(const std::map<S, S> &m) { S s; for (auto &e: m) s += (s.empty() ? "" : ", ") + e.first + e.second; return s; }
static int fault(const char *what, std::initializer_list<int> errs) { if (!faults) return 0; int k = sq::deviate((int)errs.size() + 1); if (!k) return 0; int e = errs.begin()[k - 1]; if (e > 0 && e != EINTR) hard++; sq::op("[%s: %s]", what, e < 0 ? "short" : strerror(e)); return e; }
static Fd *fd(int f) { if (f < fdBase || f - fdBase >= (int)fds.size() || fds[f - fdBase].ino < 0) { errno = EBADF; return 0; } return &fds[f - fdBase]; }
static int openFds() { int n = 0; for (auto &f: fds) n += f.ino >= 0; return n; }
static int newFd(int ino, int flags) { for (size_t i = 0; i < fds.size(); i++) if (fds[i].ino < 0) { fds[i].ino = ino; fds[i].pos = 0; fds[i].flags = flags; return (int)i + fdBase; } Fd f; f.ino = ino; f.pos = 0; f.flags = flags; fds.push_back(f); return (int)fds.size() - 1 + fdBase; }
static int err(int e) { errno = e; return -1; }
static int doOpen(const char *path, int flags, int mode) {
	int e = fault("open", {EMFILE}); if (e) return err(e); int p; S n; int acc = flags & O_ACCMODE; int i = resolve(path, !((flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL))), &p, &n);
	if (i >= 0) { if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST); if (I[i].type == DIR_ && (acc != O_RDONLY || (flags & O_CREAT))) return err(EISDIR); if (I[i].type == LNK) return err(ELOOP); if ((flags & O_DIRECTORY) && I[i].type != DIR_) return err(ENOTDIR); if ((flags & O_TRUNC) && acc != O_RDONLY && I[i].type == REG) { I[i].data.clear(); I[i].dirty = true; int f = newFd(i, flags); changed(); return f; } return newFd(i, flags); }
	if (i != -ENOENT || !(flags & O_CREAT) || p < 0) return err(-i); if (path[strlen(path) - 1] == '/') return err(EISDIR); i = newIno(REG, S(), mode & 07777 & ~022); I[i].dirty = true; I[p].ents[n] = i; int f = newFd(i, flags); changed(); return f; }
static ssize_t doRead(Fd &f, void *b, size_t n, off_t at) { if ((f.flags & O_ACCMODE) == O_WRONLY) return err(EBADF); if (I[f.ino].type == DIR_) return err(EISDIR); const S &d = I[f.ino].data; size_t k = at < (off_t)d.size() ? d.size() - at : 0; if (k > n) k = n; int e = fault("read", {EINTR, EIO, -1}); if (e > 0) return err(e); if (e < 0 && k > 1) k = 1; memcpy(b, d.data() + at, k); return k; }
static ssize_t doWrite(Fd &f, const void *b, size_t n, off_t at) { if ((f.flags & O_ACCMODE) == O_RDONLY) return err(EBADF); int e = fault("write", {EINTR, ENOSPC, -1}); if (e > 0) return err(e); S &d = I[f.ino].data; if (e < 0 && n > 1) n = 1; if (at < 0 || at > (1 << 20)) return err(EFBIG); if (d.size() < at + n) d.resize(at + n); memcpy(&d[0] + at, b, n); I[f.ino].dirty = true; changed(); return n; }
static int doUnlink(const char *path, bool dir, bool any) { int p; S n; int i = resolve(path, false, &p, &n); if (i < 0) return err(-i); bool d = I[i].type == DIR_; if (any) dir = d; if (dir && !d) return err(ENOTDIR); if (!dir && d) return err(EISDIR); if (p < 0) return err(i == 0 ? EBUSY : EINVAL); if (dir && !I[i].ents.empty()) return err(ENOTEMPTY); int e = fault(dir ? "rmdir" : "unlink", {EIO}); if (e) return err(e); I[p].ents.erase(n); I[i].nlink--; removed.push_back(path); changed(); return 0; }
static bool under(int top, int what) { if (top == what) return true; if (I[top].type != DIR_) return false; for (auto &e: I[top].ents) if (under(e.second, what)) return true; return false; }
static int doRename(const char *a, const char *b) { int pa, pb; S na, nb; int i = resolve(a, false, &pa, &na); if (i < 0) return err(-i); int j = resolve(b, false, &pb, &nb); if (j < 0 && j != -ENOENT) return err(-j); if (pa < 0 || pb < 0) return err(j < 0 ? -j : EBUSY); if (i == j) return 0; if (I[i].type == DIR_ && under(i, pb)) return err(EINVAL); if (j >= 0) { if (I[i].type == DIR_ && I[j].type != DIR_) return err(ENOTDIR); if (I[i].type != DIR_ && I[j].type == DIR_) return err(EISDIR); if (I[j].type == DIR_ && !I[j].ents.empty()) return err(ENOTEMPTY); } else if (b[strlen(b) - 1] == '/' && I[i].type != DIR_) return err(ENOTDIR);
	if (xdev && pa != pb) return err(EXDEV); int e = fault("rename", {EIO}); if (e) return err(e); if (onRename) onRename(a, b, i); I[pa].ents.erase(na); I[pb].ents[nb] = i; changed(); return 0; }
static int doMkdir(const char *path, unsigned mode) { int p; S n; if (raceMkdir && raceMkdir(path)) {} S s = path; while (s.size() > 1 && s[s.size() - 1] == '/') s.resize(s.size() - 1); int i = resolve(s, false, &p, &n); if (i >= 0) return err(EEXIST); if (i != -ENOENT || p < 0) return err(-i); int e = fault("mkdir", {EIO}); if (e) return err(e); I[p].ents[n] = newIno(DIR_, S(), mode & ~022); changed(); return 0; }
template<typename St> static int fillStat(int i, St *st) { memset(st, 0, sizeof *st); const Ino &n = I[i]; st->st_dev = 77; st->st_ino = i + 1; st->st_nlink = n.nlink; st->st_mode = n.mode | (n.type == REG ? S_IFREG : n.type == DIR_ ? S_IFDIR : n.type == LNK ? S_IFLNK : S_IFIFO); st->st_size = n.data.size(); st->st_mtim.tv_sec = n.mtime; st->st_mtim.tv_nsec = 123000000; return 0; }
template<typename St> static int doStat(const char *p, St *st, bool follow) { int e = fault("stat", {EIO}); if (e) return err(e); int i = resolve(p, follow); return i < 0 ? err(-i) : fillStat(i, st); }
template<typename St> static int doFstat(int f, St *st) { Fd *x = fd(f); if (!x) return -1; int e = fault("fstat", {EIO}); if (e) return err(e); return fillStat(x->ino, st); }
static void list(VDir *d) { d->list.clear(); d->at = 0; d->list.push_back(std::make_pair(S("."), d->ino)); for (auto &e: I[d->ino].ents) d->list.push_back(e); d->list.push_back(std::make_pair(S(".."), 0)); }
static int dtype(int i) { return !useTypes ? DT_UNKNOWN : I[i].type == REG ? DT_REG : I[i].type == DIR_ ? DT_DIR : I[i].type == LNK ? DT_LNK : DT_FIFO; }
static std::vector<VDir *> dirs; static bool mine(void *p) { for (VDir *d: dirs) if (d == p) return true; return false; }
static void need(bool ok, const char *what) { if (!ok) sq::fail("the file system model does not know this use of %s", what); }
}
#define VFS_REAL(call, ...) syscall(call, __VA_ARGS__)
extern "C" {
int open(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return vfs::real(p) ? (int)VFS_REAL(SYS_open, p, fl, m) : vfs::doOpen(p, fl, m); }
int open64(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return open(p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (!vfs::on) return (int)VFS_REAL(SYS_openat, d, p, fl, m); vfs::need(d == AT_FDCWD, "openat"); return open(p, fl, m); }
int close(int f) { if (!vfs::on || f < vfs::fdBase) return (int)VFS_REAL(SYS_close, f); vfs::Fd *x = vfs::fd(f); if (!x) return -1; bool w = (x->flags & O_ACCMODE) != O_RDONLY; x->ino = -1; int e = w ? vfs::fault("close", {EIO}) : 0; return e ? vfs::err(e) : 0; }
ssize_t read(int f, void *b, size_t n) { if (!vfs::on || f < vfs::fdBase) return VFS_REAL(SYS_read, f, b, n); vfs::Fd *x = vfs::fd(f); if (!x) return -1; ssize_t r = vfs::doRead(*x, b, n, x->pos); if (r > 0) x->pos += r; return r; }
ssize_t write(int f, const void *b, size_t n) { if (!vfs::on || f < vfs::fdBase) return VFS_REAL(SYS_write, f, b, n); vfs::Fd *x = vfs::fd(f); if (!x) return -1; if (x->flags & O_APPEND) x->pos = vfs::I[x->ino].data.size(); ssize_t r = vfs::doWrite(*x, b, n, x->pos); if (r > 0) vfs::fd(f)->pos += r; return r; }
ssize_t pread(int f, void *b, size_t n, off_t at) { if (!vfs::on || f < vfs::fdBase) return VFS_REAL(SYS_pread64, f, b, n, at); vfs::Fd *x = vfs::fd(f); return x ? vfs::doRead(*x, b, n, at) : -1; }
ssize_t pread64(int f, void *b, size_t n, off64_t at) { return pread(f, b, n, at); }
ssize_t pwrite(int f, const void *b, size_t n, off_t at) { if (!vfs::on || f < vfs::fdBase) return VFS_REAL(SYS_pwrite64, f, b, n, at); vfs::Fd *x = vfs::fd(f); return x ? vfs::doWrite(*x, b, n, x->flags & O_APPEND ? (off_t)vfs::I[x->ino].data.size() : at) : -1; }
ssize_t pwrite64(int f, const void *b, size_t n, off64_t at) { return pwrite(f, b, n, at); }
off_t lseek(int f, off_t o, int wh) noexcept { if (!vfs::on || f < vfs::fdBase) return VFS_REAL(SYS_lseek, f, o, wh); vfs::Fd *x = vfs::fd(f); if (!x) return -1; off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? x->pos : vfs::I[x->ino].data.size(); if (b + o < 0) return vfs::err(EINVAL); return x->pos = b + o; }
off64_t lseek64(int f, off64_t o, int wh) noexcept { return lseek(f, o, wh); }
int ftruncate(int f, off_t n) noexcept { if (!vfs::on || f < vfs::fdBase) return (int)VFS_REAL(SYS_ftruncate, f, n); vfs::Fd *x = vfs::fd(f); if (!x) return -1; if ((x->flags & O_ACCMODE) == O_RDONLY) return vfs::err(EINVAL); int e = vfs::fault("ftruncate", {EINTR, EIO}); if (e) return vfs::err(e); vfs::I[x->ino].data.resize(n); vfs::I[x->ino].dirty = true; vfs::changed(); return 0; }
int ftruncate64(int f, off64_t n) noexcept { return ftruncate(f, n); }
int truncate(const char *p, off_t n) noexcept { if (vfs::real(p)) return (int)VFS_REAL(SYS_truncate, p, n); int i = vfs::resolve(p, true); if (i < 0) return vfs::err(-i); if (vfs::I[i].type != vfs::REG) return vfs::err(EISDIR); vfs::I[i].data.resize(n); vfs::I[i].dirty = true; vfs::changed(); return 0; }
int fsync(int f) { if (!vfs::on || f < vfs::fdBase) return (int)VFS_REAL(SYS_fsync, f); vfs::Fd *x = vfs::fd(f); if (!x) return -1; int e = vfs::fault("fsync", {EIO}); if (e) return vfs::err(e); vfs::I[x->ino].dirty = false; return 0; }
int fdatasync(int f) { return fsync(f); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) noexcept { if (!vfs::on) return VFS_REAL(SYS_sendfile, o, i, off, n); vfs::Fd *a = vfs::fd(i), *b = vfs::fd(o); if (!a || !b) return vfs::err(EBADF); if (vfs::I[a->ino].type == vfs::DIR_) return vfs::err(EINVAL); int e = vfs::fault("sendfile", {EINTR, EIO, -1}); if (e > 0) return vfs::err(e); off_t at = off ? *off : a->pos; const std::string &d = vfs::I[a->ino].data; size_t k = at < (off_t)d.size() ? d.size() - at : 0; if (k > n) k = n; if (e < 0 && k > 1) k = 1; std::string x = d.substr(k ? at : 0, k); if (k) { std::string &t = vfs::I[b->ino].data; if (t.size() < b->pos + k) t.resize(b->pos + k); t.replace(b->pos, k, x); vfs::I[b->ino].dirty = true; b->pos += k; if (off) *off += k; else a->pos += k; vfs::changed(); } return k; }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) noexcept { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned) { vfs::need(!oo, "copy_file_range"); return sendfile(o, i, (off_t *)io, n); }
int flock(int f, int op) noexcept { return vfs::on && f >= vfs::fdBase ? 0 : (int)VFS_REAL(SYS_flock, f, op); }
int fcntl(int f, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return vfs::on && f >= vfs::fdBase ? 0 : (int)VFS_REAL(SYS_fcntl, f, c, x); }
int fcntl64(int f, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return fcntl(f, c, x); }
int unlink(const char *p) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_unlink, p) : vfs::doUnlink(p, false, false); }
int rmdir(const char *p) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_rmdir, p) : vfs::doUnlink(p, true, false); }
int remove(const char *p) noexcept { if (vfs::real(p)) { int r = (int)VFS_REAL(SYS_unlink, p); return r && errno == EISDIR ? (int)VFS_REAL(SYS_rmdir, p) : r; } return vfs::doUnlink(p, false, true); }
int unlinkat(int d, const char *p, int fl) noexcept { if (!vfs::on) return (int)VFS_REAL(SYS_unlinkat, d, p, fl); vfs::need(d == AT_FDCWD, "unlinkat"); return vfs::doUnlink(p, fl & AT_REMOVEDIR, false); }
int rename(const char *a, const char *b) noexcept { return !vfs::on ? (int)VFS_REAL(SYS_rename, a, b) : vfs::doRename(a, b); }
int renameat(int x, const char *a, int y, const char *b) noexcept { vfs::need(vfs::on && x == AT_FDCWD && y == AT_FDCWD, "renameat"); return vfs::doRename(a, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) noexcept { vfs::need(vfs::on && x == AT_FDCWD && y == AT_FDCWD && fl <= 1, "renameat2"); if (fl == 1 && vfs::resolve(b, false) >= 0) return vfs::err(EEXIST); return vfs::doRename(a, b); }
int mkdir(const char *p, mode_t m) noexcept { return !vfs::on ? (int)VFS_REAL(SYS_mkdir, p, m) : vfs::doMkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) noexcept { vfs::need(vfs::on && d == AT_FDCWD, "mkdirat"); return vfs::doMkdir(p, m); }
int symlink(const char *t, const char *p) noexcept { vfs::need(vfs::on, "symlink"); int q; std::string n; int i = vfs::resolve(p, false, &q, &n); if (i >= 0) return vfs::err(EEXIST); if (i != -ENOENT || q < 0) return vfs::err(-i); int e = vfs::fault("symlink", {EIO}); if (e) return vfs::err(e); vfs::I[q].ents[n]; int k = vfs::newIno(vfs::LNK, t); vfs::I[q].ents[n] = k; vfs::changed(); return 0; }
int link(const char *a, const char *b) noexcept { vfs::need(vfs::on, "link"); int i = vfs::resolve(a, false), q; std::string n; if (i < 0) return vfs::err(-i); int j = vfs::resolve(b, false, &q, &n); if (j >= 0) return vfs::err(EEXIST); if (j != -ENOENT || q < 0) return vfs::err(-j); vfs::I[q].ents[n] = i; vfs::I[i].nlink++; vfs::changed(); return 0; }
ssize_t readlink(const char *p, char *b, size_t n) noexcept { if (vfs::real(p)) return VFS_REAL(SYS_readlink, p, b, n); int i = vfs::resolve(p, false); if (i < 0) return vfs::err(-i); if (vfs::I[i].type != vfs::LNK) return vfs::err(EINVAL); size_t k = vfs::I[i].data.size(); if (k > n) k = n; memcpy(b, vfs::I[i].data.data(), k); return k; }
int access(const char *p, int m) noexcept { if (vfs::real(p)) return (int)VFS_REAL(SYS_access, p, m); int i = vfs::resolve(p, true); if (i < 0) return vfs::err(-i); unsigned md = vfs::I[i].mode; if (((m & R_OK) && !(md & 0400)) || ((m & W_OK) && !(md & 0200)) || ((m & X_OK) && !(md & 0100) && vfs::I[i].type != vfs::DIR_)) return vfs::err(EACCES); return 0; }
int faccessat(int d, const char *p, int m, int) noexcept { vfs::need(vfs::on && d == AT_FDCWD, "faccessat"); return access(p, m); }
int stat(const char *p, struct stat *st) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_stat, p, st) : vfs::doStat(p, st, true); }
int lstat(const char *p, struct stat *st) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_lstat, p, st) : vfs::doStat(p, st, false); }
int stat64(const char *p, struct stat64 *st) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_stat, p, st) : vfs::doStat(p, st, true); }
int lstat64(const char *p, struct stat64 *st) noexcept { return vfs::real(p) ? (int)VFS_REAL(SYS_lstat, p, st) : vfs::doStat(p, st, false); }
int fstat(int f, struct stat *st) noexcept { return !vfs::on || f < vfs::fdBase ? (int)VFS_REAL(SYS_fstat, f, st) : vfs::doFstat(f, st); }
int fstat64(int f, struct stat64 *st) noexcept { return !vfs::on || f < vfs::fdBase ? (int)VFS_REAL(SYS_fstat, f, st) : vfs::doFstat(f, st); }
int chmod(const char *p, mode_t m) noexcept { vfs::need(vfs::on, "chmod"); int i = vfs::resolve(p, true); if (i < 0) return vfs::err(-i); vfs::I[i].mode = m; return 0; }
int fchmod(int f, mode_t m) noexcept { vfs::need(vfs::on, "fchmod"); vfs::Fd *x = vfs::fd(f); if (!x) return -1; vfs::I[x->ino].mode = m; return 0; }
int dup(int f) noexcept { if (!vfs::on || f < vfs::fdBase) return (int)VFS_REAL(SYS_dup, f); vfs::Fd *x = vfs::fd(f); return x ? vfs::newFd(x->ino, x->flags) : -1; }
DIR *opendir(const char *p) { vfs::need(vfs::on, "opendir"); int e = vfs::fault("opendir", {EMFILE}); if (e) { errno = e; return 0; } int i = vfs::resolve(p, true); if (i < 0) { errno = -i; return 0; } if (vfs::I[i].type != vfs::DIR_) { errno = ENOTDIR; return 0; } vfs::VDir *d = new vfs::VDir; d->ino = i; vfs::list(d); vfs::openDirs++; vfs::dirs.push_back(d); return (DIR *)d; }
int closedir(DIR *x) { if (!vfs::mine(x)) sq::fail("closedir of a directory which is not open"); vfs::VDir *d = (vfs::VDir *)x; for (size_t i = 0; i < vfs::dirs.size(); i++) if (vfs::dirs[i] == d) { vfs::dirs.erase(vfs::dirs.begin() + i); break; } delete d; vfs::openDirs--; return 0; }
void rewinddir(DIR *x) noexcept { vfs::list((vfs::VDir *)x); }
int readdir_r(DIR *x, struct dirent *e, struct dirent **res) { vfs::VDir *d = (vfs::VDir *)x; *res = 0; int f = vfs::fault("readdir", {EIO}); if (f) return f; if (d->at >= d->list.size()) return 0; const std::pair<std::string, int> &n = d->list[d->at++]; e->d_ino = n.second + 1; e->d_off = d->at; e->d_reclen = sizeof(struct dirent); e->d_type = vfs::dtype(n.second); memcpy(e->d_name, n.first.c_str(), n.first.size() + 1); *res = e; return 0; }
struct dirent *readdir(DIR *x) { static struct dirent e; struct dirent *r; int k = readdir_r(x, &e, &r); if (k) { errno = k; return 0; } return r; }
struct dirent64 *readdir64(DIR *x) { return (struct dirent64 *)readdir(x); }
int readdir64_r(DIR *x, struct dirent64 *e, struct dirent64 **res) { return readdir_r(x, (struct dirent *)e, (struct dirent **)res); }
long pathconf(const char *, int) noexcept { return 255; }
char *getcwd(char *b, size_t n) noexcept { if (!vfs::on) return (long)VFS_REAL(SYS_getcwd, b, n) < 0 ? 0 : b; if (n < vfs::cwd.size() + 1) { errno = ERANGE; return 0; } return strcpy(b, vfs::cwd.c_str()); }
int chdir(const char *) noexcept { sq::fail("the working directory is changed"); }
}
#endif
