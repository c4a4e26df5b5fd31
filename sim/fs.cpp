// File system seam: real files in a private scratch directory; every operation is a simulation point, may be
// refused (containment) or fail (fault injection), and new names may become visible to other processes late.
#include "sim.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = (ret(*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

namespace sim {
bool netRead(int, void *, size_t, ssize_t &);
bool netWrite(int, const void *, size_t, ssize_t &);
bool netWritev(int, const iovec *, int, ssize_t &);
} // namespace sim

namespace {
struct Vis {
  int64_t t;
  int     node;
};
std::map<std::string, Vis> g_vis;
struct FdMap : std::map<int, std::string> {
  std::map<int, int> owner;
  std::string       &operator[](int fd)
  {
    owner[fd] = self ? self->node->id : -1;
    return std::map<int, std::string>::operator[](fd);
  }
};
FdMap                      g_path;
std::map<int, size_t>      g_written;

std::string norm(const char *p)
{
  std::string s = p;
  if (s.empty() || s[0] != '/')
    s = g_scratch + "/" + s;
  // lexical normalisation
  std::vector<std::string> parts;
  std::string              cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || s[i] == '/') {
      if (cur == "..") {
        if (!parts.empty())
          parts.pop_back();
      } else if (!cur.empty() && cur != ".")
        parts.push_back(cur);
      cur.clear();
    } else
      cur += s[i];
  }
  std::string out;
  for (auto &x : parts)
    out += "/" + x;
  return out.empty() ? "/" : out;
}
bool inside(const std::string &p) { return p == g_scratch || p.rfind(g_scratch + "/", 0) == 0; }

// containment: nothing outside the scratch directory is ever modified
bool allowed(const std::string &p, const char *op)
{
  if (inside(p))
    return true;
  if (p == "/dev/null")
    return true;
  simError(std::string(op) + " outside the scratch directory: " + p);
  errno = EACCES;
  return false;
}
// injected error for an operation that changes `p`; 0: none
int fsFault(const std::string &p, const char *op)
{
  for (size_t i = 0; i < K.env.faults.size(); ++i) {
    auto &f = K.env.faults[i];
    if (f.kind.rfind("fs-", 0) != 0 || (f.node >= 0 && f.node != self->node->id))
      continue;
    if (!f.path.empty() && p.find(f.path) == std::string::npos)
      continue;
    if (f.api >= 0 && self->node->apiCalls <= f.api)
      continue;
    bool isOpen = std::string(op) == "open" || ((f.kind == "fs-open" || f.kind == "fs-open-once") && std::string(op) == "open-read");
    int  e      = 0;
    if (f.kind == "fs-open" && isOpen)
      e = EACCES;
    else if (f.kind == "fs-open-once" && isOpen && !K.faultFired[i])
      e = EMFILE;
    else if (f.kind == "fs-full" && (isOpen || std::string(op) == "write" || std::string(op) == "mkdir"))
      e = ENOSPC;
    else if (f.kind == "fs-torn" && std::string(op) == "write" && K.faultFired[i])
      e = ENOSPC;
    else if (f.kind == "fs-io" && std::string(op) == "write")
      e = EIO;
    else if (f.kind == "fs-rename" && std::string(op) == "rename")
      e = EIO;
    else if (f.kind == "fs-mkdir" && std::string(op) == "mkdir")
      e = EACCES;
    if (e) {
      K.faultFired[i] = 1;
      K.fired(f.kind);
      tracef("FAULT %s on %s %s", f.kind.c_str(), op, p.c_str());
      return e;
    }
  }
  return 0;
}
// the disk becomes full within this write
bool torn(const std::string &p)
{
  for (size_t i = 0; i < K.env.faults.size(); ++i) {
    auto &f = K.env.faults[i];
    if (f.kind != "fs-torn" || K.faultFired[i] || (f.node >= 0 && f.node != self->node->id) || p.find(f.path) == std::string::npos || (f.api >= 0 && self->node->apiCalls <= f.api))
      continue;
    K.faultFired[i] = 1;
    K.fired("fs-torn");
    tracef("FAULT fs-torn on %s", p.c_str());
    return true;
  }
  return false;
}
bool hidden(const std::string &p)
{
  if (K.env.fsdelay <= 0)
    return false;
  auto it = g_vis.find(p);
  if (it == g_vis.end() || it->second.node == self->node->id || it->second.t <= K.now)
    return false;
  K.fired("late-visible-file");
  return true;
}
void created(const std::string &p)
{
  if (K.env.fsdelay > 0 && !g_vis.count(p))
    g_vis[p] = Vis{K.now + int64_t(K.env.fsdelay * (0.5 + double(K.uniform(8)) / 8)), self->node->id};
}
void gone(const std::string &p) { g_vis.erase(p); }
bool exists(const std::string &p)
{
  struct stat st;
  Thread     *s = self;
  self          = nullptr;
  bool r        = ::stat(p.c_str(), &st) == 0;
  self          = s;
  return r;
}
FILE *doFopen(FILE *(*r)(const char *, const char *), const char *path, const char *mode)
{
  std::string p  = norm(path);
  bool        wr = mode[0] != 'r' || std::string(mode).find('+') != std::string::npos;
  point("fopen");
  tracef("fopen %s %s", path, mode);
  if (wr) {
    if (!allowed(p, "open"))
      return nullptr;
    if (int e = fsFault(p, "open")) {
      errno = e;
      return nullptr;
    }
  } else {
    if (hidden(p)) {
      errno = ENOENT;
      return nullptr;
    }
    if (inside(p))
      if (int e = fsFault(p, "open-read")) {
        errno = e;
        return nullptr;
      }
  }
  bool  was = exists(p);
  FILE *f   = r(path, mode);
  if (f) {
    g_path[fileno(f)]    = p;
    g_written[fileno(f)] = 0;
    if (wr && !was)
      created(p);
  }
  return f;
}
int doOpen(int (*r)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
  std::string p  = norm(path);
  bool        wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
  point("open");
  tracef("open %s", path);
  if (wr) {
    if (!allowed(p, "open"))
      return -1;
    if (int e = fsFault(p, "open")) {
      errno = e;
      return -1;
    }
  } else if (hidden(p)) {
    errno = ENOENT;
    return -1;
  }
  bool was = exists(p);
  int  fd  = r(path, flags, mode);
  if (fd >= 0) {
    g_path[fd]    = p;
    g_written[fd] = 0;
    if (wr && !was)
      created(p);
  }
  return fd;
}
std::string atPath(int dirfd, const char *path)
{
  if (path[0] == '/' || dirfd == AT_FDCWD)
    return norm(path);
  auto it = g_path.find(dirfd);
  if (it != g_path.end())
    return norm((it->second + "/" + path).c_str());
  return norm(path);
}
} // namespace

void sim::fsReset() {}
void sim::fsClosed(int fd) { g_path.erase(fd); }
void sim::fsLeft(Node *n, std::vector<std::string> &v)
{
  for (auto &p : g_path)
    if (g_path.owner[p.first] == n->id)
      v.push_back("open file " + p.second.substr(std::min(p.second.size(), g_scratch.size())));
}

extern "C" {
FILE *fopen(const char *path, const char *mode)
{
  REAL(FILE *, "fopen", const char *, const char *);
  if (!self)
    return r(path, mode);
  return doFopen(r, path, mode);
}
FILE *fopen64(const char *path, const char *mode)
{
  REAL(FILE *, "fopen64", const char *, const char *);
  if (!self)
    return r(path, mode);
  return doFopen(r, path, mode);
}
int fclose(FILE *f)
{
  REAL(int, "fclose", FILE *);
  if (self && f) {
    point("fclose");
    g_path.erase(fileno(f));
  }
  return r(f);
}
int open(const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  static int (*r)(const char *, int, ...) = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open");
  if (!self)
    return r(path, flags, m);
  return doOpen(r, path, flags, m);
}
int open64(const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  static int (*r)(const char *, int, ...) = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open64");
  if (!self)
    return r(path, flags, m);
  return doOpen(r, path, flags, m);
}
int openat(int dfd, const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  static int (*r)(int, const char *, int, ...) = (int (*)(int, const char *, int, ...)) dlsym(RTLD_NEXT, "openat");
  if (!self)
    return r(dfd, path, flags, m);
  std::string p = atPath(dfd, path);
  point("openat");
  if (((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && !allowed(p, "open"))
    return -1;
  int fd = r(dfd, path, flags, m);
  if (fd >= 0)
    g_path[fd] = p;
  return fd;
}
ssize_t read(int fd, void *b, size_t n)
{
  REAL(ssize_t, "read", int, void *, size_t);
  if (!self)
    return r(fd, b, n);
  ssize_t ret;
  if (netRead(fd, b, n, ret))
    return ret;
  point("read");
  return r(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
  REAL(ssize_t, "write", int, const void *, size_t);
  if (!self)
    return r(fd, b, n);
  ssize_t ret;
  if (netWrite(fd, b, n, ret))
    return ret;
  if (fd <= 2)
    return r(fd, b, n);
  point("write");
  auto it = g_path.find(fd);
  if (it != g_path.end()) {
    if (n > 1 && torn(it->second))
      return r(fd, b, 1 + K.uniform(n - 1));
    if (int e = fsFault(it->second, "write")) {
      errno = e;
      return -1;
    }
  }
  if (n > 1 && K.flip(K.env.pshort)) {
    n = 1 + K.uniform(n - 1);
    K.fired("short-file-write");
  }
  return r(fd, b, n);
}
ssize_t writev(int fd, const iovec *v, int n)
{
  REAL(ssize_t, "writev", int, const iovec *, int);
  if (!self)
    return r(fd, v, n);
  ssize_t ret;
  if (netWritev(fd, v, n, ret))
    return ret;
  if (fd <= 2)
    return r(fd, v, n);
  point("writev");
  auto it = g_path.find(fd);
  if (it != g_path.end()) {
    size_t all = 0;
    for (int i = 0; i < n; ++i)
      all += v[i].iov_len;
    if (all > 1 && torn(it->second)) {
      std::string s;
      for (int i = 0; i < n; ++i)
        s.append((const char *) v[i].iov_base, v[i].iov_len);
      static auto rw = (ssize_t(*)(int, const void *, size_t)) dlsym(RTLD_NEXT, "write");
      return rw(fd, s.data(), 1 + K.uniform(all - 1));
    }
    if (int e = fsFault(it->second, "write")) {
      errno = e;
      return -1;
    }
  }
  return r(fd, v, n);
}
int stat(const char *path, struct stat *st)
{
  REAL(int, "stat", const char *, struct stat *);
  if (!self)
    return r(path, st);
  point("stat");
  if (hidden(norm(path))) {
    errno = ENOENT;
    return -1;
  }
  return r(path, st);
}
int lstat(const char *path, struct stat *st)
{
  REAL(int, "lstat", const char *, struct stat *);
  if (!self)
    return r(path, st);
  point("lstat");
  if (hidden(norm(path))) {
    errno = ENOENT;
    return -1;
  }
  return r(path, st);
}
int access(const char *path, int m)
{
  REAL(int, "access", const char *, int);
  if (!self)
    return r(path, m);
  point("access");
  if (hidden(norm(path))) {
    errno = ENOENT;
    return -1;
  }
  return r(path, m);
}
int rename(const char *a, const char *b)
{
  REAL(int, "rename", const char *, const char *);
  if (!self)
    return r(a, b);
  std::string pa = norm(a), pb = norm(b);
  point("rename");
  tracef("rename %s %s", a, b);
  if (!allowed(pa, "rename") || !allowed(pb, "rename"))
    return -1;
  if (int e = fsFault(pb, "rename")) {
    errno = e;
    return -1;
  }
  int rc = r(a, b);
  if (rc == 0) {
    gone(pa);
    gone(pb);
    created(pb);
  }
  point("renamed");
  return rc;
}
static int doUnlink(int (*r)(const char *), const char *path, const char *op)
{
  std::string p = norm(path);
  point(op);
  tracef("%s %s", op, path);
  if (!allowed(p, op))
    return -1;
  if (int e = fsFault(p, op)) {
    errno = e;
    return -1;
  }
  int rc = r(path);
  if (rc == 0)
    gone(p);
  return rc;
}
int unlink(const char *path) noexcept
{
  REAL(int, "unlink", const char *);
  return self ? doUnlink(r, path, "unlink") : r(path);
}
int remove(const char *path) noexcept
{
  REAL(int, "remove", const char *);
  return self ? doUnlink(r, path, "remove") : r(path);
}
int rmdir(const char *path) noexcept
{
  REAL(int, "rmdir", const char *);
  return self ? doUnlink(r, path, "rmdir") : r(path);
}
int unlinkat(int dfd, const char *path, int flags) noexcept
{
  REAL(int, "unlinkat", int, const char *, int);
  if (!self)
    return r(dfd, path, flags);
  std::string p = atPath(dfd, path);
  point("unlinkat");
  tracef("unlinkat %s", p.c_str());
  if (!allowed(p, "unlinkat"))
    return -1;
  int rc = r(dfd, path, flags);
  if (rc == 0)
    gone(p);
  return rc;
}
int mkdir(const char *path, mode_t m) noexcept
{
  REAL(int, "mkdir", const char *, mode_t);
  if (!self)
    return r(path, m);
  std::string p = norm(path);
  point("mkdir");
  tracef("mkdir %s", path);
  if (!allowed(p, "mkdir"))
    return -1;
  if (int e = fsFault(p, "mkdir")) {
    errno = e;
    return -1;
  }
  return r(path, m);
}
int truncate(const char *path, off_t n) noexcept
{
  REAL(int, "truncate", const char *, off_t);
  if (!self)
    return r(path, n);
  if (!allowed(norm(path), "truncate"))
    return -1;
  return r(path, n);
}
int symlink(const char *a, const char *b) noexcept
{
  REAL(int, "symlink", const char *, const char *);
  if (!self)
    return r(a, b);
  if (!allowed(norm(b), "symlink"))
    return -1;
  return r(a, b);
}
DIR *opendir(const char *path)
{
  REAL(DIR *, "opendir", const char *);
  if (!self)
    return r(path);
  point("opendir");
  DIR *d = r(path);
  if (d)
    g_path[dirfd(d)] = norm(path);
  return d;
}
int closedir(DIR *d)
{
  REAL(int, "closedir", DIR *);
  if (self && d)
    g_path.erase(dirfd(d));
  return r(d);
}
// no child processes from simulated code
int execve(const char *path, char *const a[], char *const e[]) noexcept
{
  REAL(int, "execve", const char *, char *const *, char *const *);
  if (!self)
    return r(path, a, e);
  simError(std::string("execve ") + path);
  errno = EACCES;
  return -1;
}
pid_t fork() noexcept
{
  REAL(pid_t, "fork");
  if (!self)
    return r();
  errno = EAGAIN;
  return -1;
}
int system(const char *c)
{
  REAL(int, "system", const char *);
  if (!self)
    return r(c);
  simError(std::string("system ") + c);
  return -1;
}
}
