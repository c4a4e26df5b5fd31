// Interposed pthread, time and process functions. Simulated threads see the simulator, all others libc.
#include "sim.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
#define REAL(ret, name, ...)                                        \
  static ret (*r)(__VA_ARGS__) = (ret(*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

namespace {
struct CondW {
  Thread *t;
  bool    signaled;
};
struct Rw {
  Thread *writer  = nullptr;
  int     readers = 0;
};
std::map<void *, std::deque<CondW *>> g_conds;
std::map<void *, Rw>                  g_rw;
const int64_t                         EPOCH = 1700000000ll * 1000000000ll;

int64_t readClock(clockid_t c)
{
  K.now += 50; // reading a clock takes time
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    if (K.env.clockjump > 0 && K.flip(K.env.clockjump)) {
      int64_t j = (int64_t(K.uniform(7)) - 3) * 1700000000ll; // up to +-5.1 s
      self->node->clockOffset += j;
      K.fired("clock-jump");
    }
    return EPOCH + K.now + self->node->clockOffset;
  }
  if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)
    return 1000000000ll * 5000 + K.now;
  return K.now;
}
int64_t toAbs(clockid_t c, const timespec *ts)
{
  int64_t v = int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
  if (c == CLOCK_REALTIME)
    return v - EPOCH - self->node->clockOffset;
  return v - 1000000000ll * 5000;
}
void sleepNs(int64_t d)
{
  if (d < 0)
    d = 0;
  block("sleep", [] { return false; }, K.now + d);
}
} // namespace
void sim::pthReset() {}

extern "C" {
// ---------------------------------------------------------------- mutex
int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!self) {
    REAL(int, "pthread_mutex_lock", pthread_mutex_t *);
    return r(m);
  }
  auto &d    = m->__data;
  int   kind = d.__kind & 127;
  if (d.__lock && d.__owner == self->id + 1) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) {
      d.__count++;
      return 0;
    }
    if (kind == PTHREAD_MUTEX_ERRORCHECK)
      return EDEADLK;
  }
  point("lock");
  if (d.__lock)
    block("mutex", [m] { return m->__data.__lock == 0; });
  d.__lock  = 1;
  d.__owner = self->id + 1;
  d.__count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!self) {
    REAL(int, "pthread_mutex_trylock", pthread_mutex_t *);
    return r(m);
  }
  auto &d = m->__data;
  point("trylock");
  if (d.__lock) {
    if ((d.__kind & 127) == PTHREAD_MUTEX_RECURSIVE && d.__owner == self->id + 1) {
      d.__count++;
      return 0;
    }
    return EBUSY;
  }
  d.__lock  = 1;
  d.__owner = self->id + 1;
  d.__count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!self) {
    REAL(int, "pthread_mutex_unlock", pthread_mutex_t *);
    return r(m);
  }
  auto &d = m->__data;
  if ((d.__kind & 127) == PTHREAD_MUTEX_RECURSIVE && d.__count > 1) {
    d.__count--;
    return 0;
  }
  d.__count = 0;
  d.__owner = 0;
  d.__lock  = 0;
  point("unlock");
  return 0;
}
// ---------------------------------------------------------------- condition variables
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
  auto &d     = m->__data;
  auto  count = d.__count;
  CondW w{self, false};
  g_conds[c].push_back(&w);
  d.__count = 0;
  d.__owner = 0;
  d.__lock  = 0;
  if (K.flip(K.env.pspurious)) {
    w.signaled = true;
    K.fired("spurious-wakeup");
  }
  bool ok = block("cond", [&w] { return w.signaled; }, deadline);
  auto it = g_conds.find(c);
  if (it != g_conds.end()) {
    auto &q = it->second;
    for (auto i = q.begin(); i != q.end(); ++i)
      if (*i == &w) {
        q.erase(i);
        break;
      }
    if (q.empty())
      g_conds.erase(it);
  }
  if (d.__lock)
    block("mutex", [m] { return m->__data.__lock == 0; });
  d.__lock  = 1;
  d.__owner = self->id + 1;
  d.__count = count;
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  if (!self) {
    REAL(int, "pthread_cond_wait", pthread_cond_t *, pthread_mutex_t *);
    return r(c, m);
  }
  return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
{
  if (!self) {
    REAL(int, "pthread_cond_timedwait", pthread_cond_t *, pthread_mutex_t *, const timespec *);
    return r(c, m, ts);
  }
  return condWait(c, m, toAbs(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const timespec *ts)
{
  if (!self) {
    REAL(int, "pthread_cond_clockwait", pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
    return r(c, m, ck, ts);
  }
  return condWait(c, m, toAbs(ck, ts));
}
int pthread_cond_signal(pthread_cond_t *c)
{
  if (!self) {
    REAL(int, "pthread_cond_signal", pthread_cond_t *);
    return r(c);
  }
  point("signal");
  auto it = g_conds.find(c);
  if (it != g_conds.end()) {
    std::vector<CondW *> ws;
    for (auto *w : it->second)
      if (!w->signaled && !w->t->node->dead)
        ws.push_back(w);
    if (!ws.empty())
      ws[K.uniform(ws.size())]->signaled = true;
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!self) {
    REAL(int, "pthread_cond_broadcast", pthread_cond_t *);
    return r(c);
  }
  point("broadcast");
  auto it = g_conds.find(c);
  if (it != g_conds.end())
    for (auto *w : it->second)
      w->signaled = true;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
  if (!self) {
    REAL(int, "pthread_cond_destroy", pthread_cond_t *);
    return r(c);
  }
  return 0;
}
// ---------------------------------------------------------------- rwlock
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
  if (!self) {
    REAL(int, "pthread_rwlock_rdlock", pthread_rwlock_t *);
    return r(l);
  }
  if (g_rw[l].writer)
    block("rwlock-r", [l] { return !g_rw[l].writer; });
  g_rw[l].readers++;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
  if (!self) {
    REAL(int, "pthread_rwlock_tryrdlock", pthread_rwlock_t *);
    return r(l);
  }
  if (g_rw[l].writer)
    return EBUSY;
  g_rw[l].readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
  if (!self) {
    REAL(int, "pthread_rwlock_wrlock", pthread_rwlock_t *);
    return r(l);
  }
  point("wrlock");
  auto free = [l] { return !g_rw[l].writer && g_rw[l].readers == 0; };
  if (!free())
    block("rwlock-w", free);
  g_rw[l].writer = self;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
  if (!self) {
    REAL(int, "pthread_rwlock_trywrlock", pthread_rwlock_t *);
    return r(l);
  }
  point("trywrlock");
  if (g_rw[l].writer || g_rw[l].readers)
    return EBUSY;
  g_rw[l].writer = self;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
  if (!self) {
    REAL(int, "pthread_rwlock_unlock", pthread_rwlock_t *);
    return r(l);
  }
  auto &w = g_rw[l];
  if (w.writer == self)
    w.writer = nullptr;
  else if (w.readers > 0)
    w.readers--;
  if (!w.writer && !w.readers)
    g_rw.erase(l);
  return 0;
}
// ---------------------------------------------------------------- once, threads
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
  if (!self) {
    REAL(int, "pthread_once", pthread_once_t *, void (*)(void));
    return r(o, fn);
  }
  int *v = reinterpret_cast<int *>(o);
  if (*v == 2)
    return 0;
  if (*v & 1) {
    block("once", [v] { return !(*v & 1); });
    if (*v == 2)
      return 0;
  }
  *v = 1;
  struct Guard {
    int *v;
    bool ok = false;
    ~Guard() { *v = ok ? 2 : 0; }
  } g{v};
  fn();
  g.ok = true;
  return 0;
}
int pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  if (!self) {
    REAL(int, "pthread_create", pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
    return r(id, a, fn, arg);
  }
  Thread *t = spawn(self->node, fn, arg, false);
  *id       = (pthread_t) t->real;
  point("pthread_create");
  return 0;
}
static Thread *find(pthread_t id)
{
  for (auto it = K.threads.rbegin(); it != K.threads.rend(); ++it)
    if ((pthread_t) (*it)->real == id)
      return *it;
  return nullptr;
}
int pthread_join(pthread_t id, void **ret)
{
  if (!self) {
    REAL(int, "pthread_join", pthread_t, void **);
    return r(id, ret);
  }
  Thread *t = find(id);
  if (!t || t->joined)
    return ESRCH;
  block("join", [t] { return t->st == TS::Done; });
  t->joined = true;
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t id)
{
  if (!self) {
    REAL(int, "pthread_detach", pthread_t);
    return r(id);
  }
  if (Thread *t = find(id))
    t->detached = true;
  return 0;
}
int sched_yield()
{
  if (!self) {
    REAL(int, "sched_yield");
    return r();
  }
  point("~yield");
  return 0;
}
long syscall(long nr, ...)
{
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (auto &x : a)
    x = va_arg(ap, long);
  va_end(ap);
  if (self && nr == SYS_futex) {
    int *addr = (int *) a[0];
    int  op   = int(a[1]) & FUTEX_CMD_MASK;
    int  val  = int(a[2]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*addr != val) {
        errno = EAGAIN;
        return -1;
      }
      int64_t dl = -1;
      if (a[3]) {
        auto *ts = (const timespec *) a[3];
        dl       = op == FUTEX_WAIT ? K.now + int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec : toAbs((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      if (!block("futex", [addr, val] { return *addr != val; }, dl)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point("futex-wake");
      return 1;
    }
  }
  long ret;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8")   = a[4];
  register long r9 asm("r9")   = a[5];
  asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = int(-ret);
    return -1;
  }
  return ret;
}
// ---------------------------------------------------------------- time
int clock_gettime(clockid_t c, timespec *ts)
{
  if (!self) {
    REAL(int, "clock_gettime", clockid_t, timespec *);
    return r(c, ts);
  }
  int64_t v   = readClock(c);
  ts->tv_sec  = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
int gettimeofday(timeval *tv, void *tz) noexcept
{
  if (!self) {
    REAL(int, "gettimeofday", timeval *, void *);
    return r(tv, tz);
  }
  int64_t v   = readClock(CLOCK_REALTIME);
  tv->tv_sec  = v / 1000000000ll;
  tv->tv_usec = v % 1000000000ll / 1000;
  return 0;
}
time_t time(time_t *t) noexcept
{
  if (!self) {
    REAL(time_t, "time", time_t *);
    return r(t);
  }
  time_t v = readClock(CLOCK_REALTIME) / 1000000000ll;
  if (t)
    *t = v;
  return v;
}
int nanosleep(const timespec *ts, timespec *rem)
{
  if (!self) {
    REAL(int, "nanosleep", const timespec *, timespec *);
    return r(ts, rem);
  }
  sleepNs(int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *rem)
{
  if (!self) {
    REAL(int, "clock_nanosleep", clockid_t, int, const timespec *, timespec *);
    return r(c, flags, ts, rem);
  }
  if (flags & TIMER_ABSTIME)
    sleepNs(toAbs(c, ts) - K.now);
  else
    sleepNs(int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
  return 0;
}
int usleep(useconds_t us)
{
  if (!self) {
    REAL(int, "usleep", useconds_t);
    return r(us);
  }
  sleepNs(int64_t(us) * 1000);
  return 0;
}
unsigned sleep(unsigned s)
{
  if (!self) {
    REAL(unsigned, "sleep", unsigned);
    return r(s);
  }
  sleepNs(int64_t(s) * 1000000000ll);
  return 0;
}
int select(int n, fd_set *a, fd_set *b, fd_set *c, timeval *tv)
{
  if (!self) {
    REAL(int, "select", int, fd_set *, fd_set *, fd_set *, timeval *);
    return r(n, a, b, c, tv);
  }
  if (n == 0 && tv) {
    sleepNs(int64_t(tv->tv_sec) * 1000000000ll + tv->tv_usec * 1000ll);
    return 0;
  }
  simError("select() on descriptors is not simulated");
  errno = ENOSYS;
  return -1;
}
// ---------------------------------------------------------------- process
pid_t getpid()
{
  if (!self) {
    REAL(pid_t, "getpid");
    return r();
  }
  return 1000 + self->node->id;
}
int gethostname(char *name, size_t len) noexcept
{
  if (!self) {
    REAL(int, "gethostname", char *, size_t);
    return r(name, len);
  }
  snprintf(name, len, "simhost");
  return 0;
}
void abort()
{
  if (!self) {
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(134);
  }
  killNode(self->node, "abort", "abort() called in " + (self->node->inApi ? self->node->inApiName : std::string("library code")));
  parkForever();
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept
{
  if (self) {
    killNode(self->node, "abort", std::string("assertion ") + e + " at " + f + ":" + std::to_string(l));
    parkForever();
  }
  fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  _exit(134);
}
void exit(int rc)
{
  if (self) {
    killNode(self->node, "exit", "exit(" + std::to_string(rc) + ") called");
    parkForever();
  }
  static void (*r)(int) = (void (*)(int)) dlsym(RTLD_NEXT, "exit");
  r(rc);
  __builtin_unreachable();
}
}
