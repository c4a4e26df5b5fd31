#include "sim.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
Kernel                K;
thread_local Thread  *self __attribute__((tls_model("initial-exec"))) = nullptr;
std::string           g_scratch;

static long rawFutex(int *addr, int op, int val)
{
  long ret;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8")   = 0;
  register long r9 asm("r9")   = 0;
  asm volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(addr), "S"(op), "d"(val), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(int *f)
{
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    rawFutex(f, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fwake(int *f)
{
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  rawFutex(f, FUTEX_WAKE_PRIVATE, 1);
}

void tracef(const char *fmt, ...)
{
  if (!K.trace)
    return;
  char    buf[2048];
  int     n = snprintf(buf, sizeof buf, "[%9lld.%03lld %5llu n%d t%d] ", (long long) (K.now / 1000000), (long long) (K.now / 1000 % 1000), (unsigned long long) K.steps,
                       self && self->node ? self->node->id : -1, self ? self->id : -1);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  va_end(ap);
  n = std::min<int>(n, sizeof buf - 2);
  buf[n++] = '\n';
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(SYS_write), "D"(9L), "S"(buf), "d"((long) n) : "rcx", "r11", "memory");
}

// ------------------------------------------------------------------ decisions
static uint64_t decide(uint64_t live)
{
  uint64_t v = live;
  if (K.replay)
    v = K.dpos < K.nrep ? K.rep[K.dpos] : 0;
  if (K.dpos < K.decCap)
    K.dec[K.dpos] = uint32_t(v);
  K.dpos++;
  return v;
}
uint64_t Kernel::choose(uint64_t n, double pdef0)
{
  if (n <= 1)
    return 0;
  uint64_t v = 0;
  if (!replay && !rng.flip(pdef0))
    v = 1 + rng.below(n - 1);
  v = decide(v);
  return v < n ? v : v % n;
}
uint64_t Kernel::uniform(uint64_t n)
{
  if (n <= 1)
    return 0;
  uint64_t v = replay ? 0 : rng.below(n);
  v          = decide(v);
  return v < n ? v : v % n;
}
bool Kernel::flip(double p)
{
  if (p <= 0)
    return false;
  uint64_t v = replay ? 0 : (rng.flip(p) ? 1 : 0);
  return decide(v) != 0;
}
int64_t delaySample()
{
  // 0 (default decision) is half of the mean; otherwise up to (1+jitter)*mean in 16 steps
  uint64_t q = K.uniform(16);
  double   d = K.env.latency * (0.5 + K.env.jitter * double(q) / 8.0);
  if (K.flip(K.env.pspike)) {
    d += std::min(999 * d, 3e9);
    K.fired("net-delay-spike");
  }
  return int64_t(d) + 1;
}

// ------------------------------------------------------------------ events
static bool later(const Event &a, const Event &b) { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
void        Kernel::at(int64_t t, std::function<void()> fn)
{
  heap.push_back(Event{t, eseq++, std::move(fn)});
  std::push_heap(heap.begin(), heap.end(), later);
}
static void runDueEvents()
{
  while (!K.heap.empty() && K.heap.front().t <= K.now) {
    std::pop_heap(K.heap.begin(), K.heap.end(), later);
    Event e = std::move(K.heap.back());
    K.heap.pop_back();
    e.fn();
  }
}

// ------------------------------------------------------------------ faults
static void checkFaults(Node *n)
{
  for (size_t i = 0; i < K.env.faults.size(); ++i) {
    auto &f = K.env.faults[i];
    if (K.faultFired[i] || f.node != n->id)
      continue;
    if (f.kind != "crash" && f.kind != "killall" && f.kind != "stall" && f.kind != "reset")
      continue;
    bool hit;
    if (f.api < 0)
      hit = n->points >= uint64_t(f.steps);
    else
      hit = n->apiCalls > f.api && n->points >= n->pointsAtApi + uint64_t(f.steps);
    if (f.api >= 0 && n->apiCalls > f.api + 1)
      hit = true;
    if (!hit)
      continue;
    if (f.kind == "reset" && !netReset(n)) // not connected yet
      continue;
    K.faultFired[i] = 1;
    K.note(0xFA017, i);
    if (f.kind == "reset") {
      K.fired("reset");
      continue;
    }
    if (f.kind == "killall") {
      K.fired("killall");
      tracef("FAULT all processes are killed");
      for (auto m : K.nodes)
        if (m != n && !m->dead && !m->done)
          killNode(m, "crash", "injected crash of all processes");
      killNode(n, "crash", "injected crash of all processes");
      return;
    }
    if (f.kind == "crash") {
      K.fired("crash");
      tracef("FAULT crash node %d", n->id);
      killNode(n, "crash", "injected crash");
      return;
    }
    K.fired("stall");
    n->stalledUntil = K.now + int64_t(f.arg * 1e6);
    tracef("FAULT stall node %d until %lld", n->id, (long long) n->stalledUntil);
    K.at(n->stalledUntil, [] {});
  }
}

void killNode(Node *n, const std::string &kind, const std::string &text)
{
  if (n->dead || n->done)
    return;
  n->dead      = true;
  n->deathKind = kind;
  n->deathText = text;
  K.note(0xDEAD, n->id);
  tracef("node %d dies: %s (%s)", n->id, kind.c_str(), text.c_str());
  netNodeDied(n);
  mpiNodeDied(n);
}

void simError(const std::string &s)
{
  tracef("SIMERROR %s", s.c_str());
  K.simErrors.push_back(s);
}

// ------------------------------------------------------------------ scheduler
static void finish(End e, const std::string &text)
{
  K.end     = e;
  K.endText = text;
  fwake(&K.endFutex);
}

static bool runnable(Thread *t)
{
  Node *n = t->node;
  if (t->st == TS::Done || n->dead || n->done)
    return false;
  if (n->stalledUntil > K.now)
    return false;
  if (t->st == TS::Ready)
    return true;
  return (t->deadline >= 0 && t->deadline <= K.now) || t->pred();
}

static std::vector<Thread *> s_run; // reused

// Picks the next thread and hands over. Returns when this thread may run again.
static void schedule(bool voluntary)
{
  Thread *me = self;
  for (;;) {
    if (K.end != End::Running) { // run is over: nobody continues
      for (;;)
        fwait(&me->futex);
    }
    runDueEvents();
    s_run.clear();
    bool meOk = runnable(me);
    if (meOk && me->streak > 3000) // fairness: nobody polls forever while others could run
      voluntary = true;
    if (meOk && !voluntary)
      s_run.push_back(me);
    Thread *starved = nullptr;
    auto    add     = [&](Thread *t) {
      if (!runnable(t)) {
        t->since = 0;
        return;
      }
      if (!t->since)
        t->since = K.steps + 1;
      if (K.steps > t->since + 2000 && (!starved || t->since < starved->since))
        starved = t;
      s_run.push_back(t);
    };
    for (auto *t : K.threads)
      if (t->id > me->id)
        add(t);
    for (auto *t : K.threads)
      if (t->id < me->id)
        add(t);
    if (meOk && voluntary)
      s_run.push_back(me);
    if (s_run.empty()) {
      int64_t next = INT64_MAX;
      if (!K.heap.empty())
        next = K.heap.front().t;
      bool open = false;
      for (auto *t : K.threads) {
        if (t->st == TS::Done || t->node->dead || t->node->done)
          continue;
        if (t->isMain)
          open = true;
        if (t->st == TS::Blocked && t->deadline >= 0)
          next = std::min(next, std::max(t->deadline, t->node->stalledUntil));
      }
      if (!open) {
        bool all = true;
        for (auto *n : K.nodes)
          all = all && (n->dead || n->done);
        if (all) {
          finish(End::AllDone, "");
          continue;
        }
      }
      if (next == INT64_MAX) {
        finish(End::Deadlock, describeThreads());
        continue;
      }
      if (next > K.maxTime) {
        finish(End::TimeLimit, describeThreads());
        continue;
      }
      if (next > K.now)
        K.now = next;
      continue;
    }
    Thread *t = s_run[0];
    if (starved)
      t = starved; // every thread that can run runs eventually
    else if (s_run.size() > 1) {
      size_t idx = 0;
      if (K.env.policy == "pct") {
        if (!K.replay) {
          if (meOk && K.rng.flip(0.02))
            me->prio = K.rng.below(1000); // change point
          if (meOk && voluntary)
            me->prio = 0;
          for (size_t i = 1; i < s_run.size(); ++i)
            if (s_run[i]->prio > s_run[idx]->prio)
              idx = i;
        }
      } else if (meOk && !voluntary) {
        if (!K.replay && K.rng.flip(K.env.pswitch))
          idx = 1 + K.rng.below(s_run.size() - 1);
      } else {
        if (!K.replay)
          idx = K.rng.below(s_run.size());
      }
      idx = decide(idx);
      t   = s_run[idx % s_run.size()];
    }
    t->st    = TS::Ready;
    t->since = 0;
    if (t == me) {
      me->streak++;
      return;
    }
    me->streak = t->streak = 0;
    K.switches++;
    K.note(0x5C4ED, t->id);
    K.schedHash = (K.schedHash ^ uint64_t(t->id + 1)) * 1099511628211ull;
    // if this thread is done or dead it never comes back
    fwake(&t->futex);
    fwait(&me->futex);
    return; // somebody scheduled us: we are runnable
  }
}

static void tick(const char *what)
{
  Thread *t = self;
  K.steps++;
  t->node->points++;
  K.now += 1000;
  if (t->node->slowdown && what[0] != '~') { // a slow process: others go on meanwhile
    t->node->stalledUntil = std::max(t->node->stalledUntil, K.now + t->node->slowdown);
    K.at(t->node->stalledUntil, [] {});
  }
  uint64_t h = 0;
  for (const char *c = what; *c; ++c)
    h = h * 131 + (unsigned char) *c;
  K.note(h, t->id);
  if (K.trace)
    tracef("%s", what);
  if (K.steps > K.maxSteps || K.now > K.maxTime) {
    if (K.end == End::Running)
      finish(K.steps > K.maxSteps ? End::StepLimit : End::TimeLimit, describeThreads());
    parkForever();
  }
  // number of polls since the thread did anything else
  if (what[0] == '~')
    t->polls++;
  else {
    static const char *const idle[] = {"lock", "unlock", "sleep", "stat", "MPI_Test", "MPI_Testall"};
    if (std::none_of(std::begin(idle), std::end(idle), [&](const char *i) { return !strcmp(i, what); }))
      t->polls = 0;
  }
  checkFaults(t->node);
}

void parkForever()
{
  self->st = TS::Done;
  if (K.end == End::Running)
    schedule(true);
  for (;;)
    fwait(&self->futex);
}

void point(const char *what)
{
  if (!self)
    return;
  tick(what);
  if (what[0] == '~' && self->polls > 30) { // a thread that only polls is descheduled for longer and longer
    self->st       = TS::Blocked;
    self->pred     = [] { return false; };
    self->deadline = K.now + std::min(int64_t(20000000), int64_t(2000) << std::min(14, (self->polls - 30) / 2));
    schedule(true);
    self->pred     = nullptr;
    self->deadline = -1;
    self->st       = TS::Ready;
  } else {
    self->st = TS::Ready;
    schedule(what[0] == '~');
  }
  if (self->node->dead)
    parkForever();
}

bool block(const char *what, std::function<bool()> pred, int64_t deadline)
{
  Thread *t = self;
  tick(what);
  t->what = what;
  // a preemption opportunity even if the predicate already holds
  t->st       = TS::Blocked;
  t->pred     = pred;
  t->deadline = deadline;
  for (;;) {
    schedule(true);
    if (t->node->dead)
      parkForever();
    bool ok = pred();
    if (ok || (deadline >= 0 && deadline <= K.now)) {
      t->pred     = nullptr;
      t->deadline = -1;
      t->st       = TS::Ready;
      t->what     = "";
      return ok;
    }
    t->st = TS::Blocked;
  }
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
static pc_t realCreate()
{
  static pc_t f = (pc_t) dlsym(RTLD_NEXT, "pthread_create");
  return f;
}

static void *threadMain(void *p)
{
  Thread *t = static_cast<Thread *>(p);
  fwait(&t->futex); // wait for the baton
  self   = t;
  t->ret = t->fn(t->arg);
  if (t->isMain) { // the process exits: its threads stop, its descriptors are closed
    Node *n = t->node;
    for (auto *x : n->threads)
      if (!x->isMain && x->st != TS::Done)
        n->left.push_back(std::string("thread waiting in ") + x->what);
      else if (!x->isMain && !x->joined && !x->detached)
        n->left.push_back("thread not joined");
    netLeft(n, n->left);
    fsLeft(n, n->left);
    mpiLeft(n, n->left);
    n->done = true;
    netNodeDied(n);
  }
  tracef("thread ends");
  t->st = TS::Done;
  schedule(true);
  return nullptr;
}

Thread *spawn(Node *n, void *(*fn)(void *), void *arg, bool isMain)
{
  auto *t   = new Thread;
  t->id     = int(K.threads.size());
  t->node   = n;
  t->fn     = fn;
  t->arg    = arg;
  t->isMain = isMain;
  t->prio   = K.replay ? 0 : 1 + K.rng.below(1000);
  K.threads.push_back(t);
  n->threads.push_back(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_attr_setstacksize(&a, 8 << 20);
  pthread_t id;
  Thread   *saved = self;
  self            = nullptr;
  int rc          = realCreate()(&id, &a, threadMain, t);
  self            = saved;
  if (rc) {
    fprintf(stderr, "sim: pthread_create failed %d\n", rc);
    _exit(70);
  }
  t->real = (unsigned long) id;
  pthread_attr_destroy(&a);
  return t;
}

std::string describeThreads()
{
  std::string s;
  for (auto *t : K.threads) {
    if (t->st == TS::Done || t->node->dead)
      continue;
    if (!t->isMain)
      continue;
    s += "node " + std::to_string(t->node->id) + " (" + t->node->name + ") in " + (t->node->inApi ? t->node->inApiName : std::string("driver")) + " at " + t->what + "; ";
  }
  return s;
}

struct MainArg {
  Node *n;
};
static void *nodeMain(void *p)
{
  Node *n = static_cast<Node *>(p);
  n->main();
  return nullptr;
}

void run()
{
  K.faultFired.assign(K.env.faults.size(), 0);
  K.active = true;
  for (auto *n : K.nodes) {
    n->clockOffset = int64_t(K.env.clockskew * (n->id - 1));
    if (size_t(n->id) < K.env.slow.size())
      n->slowdown = int64_t(K.env.slow[n->id]);
    Thread *t = spawn(n, nodeMain, n, true);
    int64_t d = size_t(n->id) < K.env.startDelay.size() ? int64_t(K.env.startDelay[n->id]) : 0;
    t->st       = TS::Blocked;
    t->pred     = [] { return false; };
    t->deadline = d;
    t->what     = "start";
  }
  Thread *first = nullptr;
  for (auto *t : K.threads)
    if (!first || t->deadline < first->deadline)
      first = t;
  K.now = std::max<int64_t>(K.now, first->deadline);
  first->st = TS::Ready;
  fwake(&first->futex);
  fwait(&K.endFutex);
  K.active = false;
}
} // namespace sim
