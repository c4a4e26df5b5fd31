// Deterministic simulator kernel: threads, time, decisions.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s = 1;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next()
  { // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int      range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); } // inclusive
  double   unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool     flip(double p) { return unit() < p; }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull));
  return r.next() ^ b * 0xd6e8feb86659fd93ull;
}

// ---------------------------------------------------------------- knobs: the environment of one run
struct Fault {
  // kind: crash | stall | err-fs | enospc | conn-reset | slow | kill-job
  std::string kind;
  int         node   = 0;
  int         api    = -1; // trigger: after that many API calls of the node were started (-1: from the first step)
  int         steps  = 0;  // and that many simulation points of the node later
  double      arg    = 0;  // duration (ms) or probability
  std::string path;        // substring of affected paths for fs faults
  template <class A>
  void io(A &a)
  {
    a("kind", kind); a("node", node); a("api", api); a("steps", steps); a("arg", arg); a("path", path);
  }
};

struct Env {
  std::string        policy    = "random"; // random | pct | sticky
  double             pswitch   = 0.3;      // random: chance to preempt at a simulation point
  double             latency   = 50e3;     // mean network latency, ns
  double             jitter    = 1.0;      // latency multiplier spread
  double             pspike    = 0.0;      // chance that a segment takes 1000x longer (at most 3 s)
  int                sndbuf    = 1 << 20;  // bytes in flight per direction
  double             pshort    = 0.0;      // short reads/writes
  double             peintr    = 0.0;      // EINTR of epoll_wait
  double             psigsync  = 0.0;      // EINTR of synchronous socket operations
  double             pspurious = 0.0;      // spurious condition-variable wake-ups
  int                eager     = 1 << 16;  // MPI eager limit
  double             clockskew = 0.0;      // ns of wall clock offset between nodes
  double             clockjump = 0.0;      // chance of a wall clock jump at a clock reading
  double             fsdelay   = 0.0;      // ns until a created/renamed file is visible to other nodes
  int                backlog   = 128;
  int                mperturb  = 0;
  int                multihost = 0;        // every node has its own address
  std::vector<double> startDelay;          // per node, ns
  std::vector<double> slow;                // per node, ns added to each simulation point
  std::vector<Fault> faults;
  template <class A>
  void io(A &a)
  {
    a("policy", policy); a("pswitch", pswitch); a("latency", latency); a("jitter", jitter); a("pspike", pspike);
    a("sndbuf", sndbuf); a("pshort", pshort); a("peintr", peintr); a("psigsync", psigsync); a("pspurious", pspurious); a("eager", eager);
    a("clockskew", clockskew); a("clockjump", clockjump); a("fsdelay", fsdelay); a("backlog", backlog); a("mperturb", mperturb);
    a("multihost", multihost); a("startDelay", startDelay); a("slow", slow); a("faults", faults);
  }
};

// ---------------------------------------------------------------- kernel objects
struct Thread;
struct Node {
  int         id    = 0;
  int         group = 0; // participant: ranks of one MPI job
  int         rank = 0, size = 1;
  std::string name;
  std::string ip        = "127.0.0.1";
  bool        dead      = false; // crashed or killed: no thread of it ever runs again
  bool        done      = false; // main returned
  std::string deathKind;         // why dead: crash (injected) | abort | signal | jobkill | exit
  std::string deathText;
  int64_t     stalledUntil = 0;
  int64_t     slowdown     = 0;
  int64_t     clockOffset  = 0;
  uint64_t    points       = 0; // simulation points executed by this node
  int         apiCalls     = 0; // API calls started
  uint64_t    pointsAtApi  = 0;
  bool        inApi        = false;
  std::string inApiName;
  std::vector<Thread *> threads;
  std::set<int>         fds;
  std::function<int()>  main;
  bool mpiInit = false, mpiFini = false;
  std::vector<std::string> left; // resources held when main returned
};

enum class TS { Ready, Blocked, Done };
struct Thread {
  int                   id = 0;
  Node                 *node = nullptr;
  TS                    st   = TS::Ready;
  std::function<bool()> pred;
  int64_t               deadline = -1;
  const char           *what     = "";
  int                   futex    = 0;
  uint64_t              prio     = 0;
  int                   polls    = 0;
  uint64_t              since    = 0; // step at which it became able to run
  uint64_t              streak   = 0; // simulation points since another thread ran
  void *(*fn)(void *) = nullptr;
  void         *arg   = nullptr;
  void         *ret   = nullptr;
  bool          detached = false, joined = false;
  unsigned long real   = 0;
  bool          isMain = false;
};

struct Event {
  int64_t               t;
  uint64_t              seq;
  std::function<void()> fn;
};

enum class End { Running, AllDone, Deadlock, StepLimit, TimeLimit, Fatal };

// Raised through fail(): a broken environment contract found by the simulator itself (collective mismatch, ...)
struct Stats {
  std::map<std::string, uint64_t> fired; // fault kinds and rare conditions that really happened
};

struct Kernel {
  bool                                 active = false;
  Env                                  env;
  Rng                                  rng;
  int64_t                              now    = 0;
  uint64_t                             steps  = 0, switches = 0;
  uint64_t                             hash   = 1469598103934665603ull;
  uint64_t                             schedHash = 1469598103934665603ull;
  uint64_t                             maxSteps = 2000000;
  int64_t                              maxTime  = int64_t(3600) * 1000000000ll;
  std::vector<Node *>                  nodes;
  std::vector<Thread *>                threads;
  std::vector<Event>                   heap;
  uint64_t                             eseq = 0;
  End                                  end  = End::Running;
  std::string                          endText;
  int                                  endFutex = 0;
  Stats                                stats;
  std::vector<std::string>             simErrors; // contract violations seen by the simulator
  std::vector<char>                    faultFired;
  // decisions
  bool            replay = false;
  uint32_t       *dec    = nullptr; // recorded decisions of this run (mmap)
  size_t          decCap = 0;
  const uint32_t *rep    = nullptr; // decisions to replay
  size_t          nrep   = 0;
  size_t          dpos   = 0;
  bool                  trace = false;

  uint64_t choose(uint64_t n, double pdef0);           // [0,n); 0 with probability pdef0, else uniform over 1..n-1
  uint64_t uniform(uint64_t n);                        // [0,n) uniform
  bool     flip(double p);                             // false is the default
  double   gauss() = delete;
  void     at(int64_t t, std::function<void()> fn);
  void     note(uint64_t a, uint64_t b = 0)
  {
    hash = (hash ^ a) * 1099511628211ull;
    hash = (hash ^ b) * 1099511628211ull;
  }
  void fired(const std::string &k, uint64_t n = 1) { stats.fired[k] += n; }
};
extern Kernel K;
extern thread_local Thread *self; // non-null: this is a simulated thread

inline bool on() { return self != nullptr; }
void        point(const char *what); // a simulation point: others may run, faults may fire
// Blocks until pred() or the deadline (absolute ns, -1: none). Returns true if pred holds.
bool    block(const char *what, std::function<bool()> pred, int64_t deadline = -1);
Thread *spawn(Node *n, void *(*fn)(void *), void *arg, bool isMain);
void    killNode(Node *n, const std::string &kind, const std::string &text);
[[noreturn]] void parkForever();
void    run();                 // called by the control thread; returns when the run ended
void    simError(const std::string &s);
void    tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int64_t delaySample();         // network latency sample
// fs-, net- and MPI-side hooks
void netLeft(Node *n, std::vector<std::string> &v);
void mpiLeft(Node *n, std::vector<std::string> &v);
void fsClosed(int fd);
void fsLeft(Node *n, std::vector<std::string> &v);
void netNodeDied(Node *n);
void netSeed(uint64_t s); // first ephemeral port
void mpiNodeDied(Node *n);
void mpiReset();
bool netReset(Node *n);
void fsReset();
void pthReset();
std::string describeThreads();
extern std::string g_scratch; // all files of the run live below this directory
void installSignalHandlers(void (*fatal)(const char *));
} // namespace sim
