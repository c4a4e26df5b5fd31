// Node libraries are loaded once; every simulated run is a fork of the pristine loader process ("zygote").
#include "run.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <grp.h>
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {
typedef int (*NodeMain)(void *);
NodeMain     g_mains[32];
int          g_nmains = 0;
const size_t PAYCAP   = 64u << 20;
const size_t DECCAP   = 16u << 20;

struct Header {
  uint64_t magic, len, ndec;
  uint32_t replay, wantDec;
  char     dir[256];
  char     trace[256];
};
struct Frame {
  char     kind;
  uint64_t len;
};
bool readAll(int fd, void *b, size_t n)
{
  char *p = (char *) b;
  while (n) {
    ssize_t r = ::read(fd, p, n);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      return false;
    p += r;
    n -= size_t(r);
  }
  return true;
}
bool writeAll(int fd, const void *b, size_t n)
{
  const char *p = (const char *) b;
  while (n) {
    ssize_t r = ::write(fd, p, n);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      return false;
    p += r;
    n -= size_t(r);
  }
  return true;
}
void sendFrame(int fd, char kind, const void *b, size_t n)
{
  Frame f{kind, n};
  writeAll(fd, &f, sizeof f);
  writeAll(fd, b, n);
}

struct NodeSvc final : spec::Svc {
  Node         *n;
  run::NodeOut *o;
  void          apiBegin(const char *name) override
  {
    tracef("API %s", name);
    n->apiCalls++;
    n->pointsAtApi = n->points;
    n->inApi       = true;
    n->inApiName   = name;
    o->apis.push_back(name);
    K.note(0xA91, uint64_t(n->id));
    point("api");
  }
  void apiEnd() override { n->inApi = false; }
  void compute(double ns) override
  {
    if (ns > 0)
      block("compute", [] { return false; }, K.now + int64_t(ns));
  }
  void record(spec::Ev &&e) override
  {
    e.t    = K.now;
    e.step = K.steps;
    o->tEnd = K.now;
    for (double d : e.x) {
      uint64_t b;
      memcpy(&b, &d, 8);
      K.note(b, 3);
    }
    if (K.trace) {
      std::string s = e.op + " mesh " + std::to_string(e.mesh) + " data " + std::to_string(e.data) + " i";
      for (int i : e.i)
        s += " " + std::to_string(i);
      s += " x";
      for (double d : e.x) {
        char b[32];
        snprintf(b, sizeof b, " %.6g", d);
        s += b;
      }
      tracef("REC %s %s", s.c_str(), e.s.c_str());
    }
    o->ev.push_back(std::move(e));
  }
  void crashSelf(const char *why) override
  {
    killNode(n, "stop", why);
    parkForever();
  }
};

int  g_sock = -1;
void onSignal(int sig, siginfo_t *, void *)
{
  static volatile int depth = 0;
  if (self && depth++ < 8) {
    Node *n = self->node;
    if (K.trace) {
      void *f[60];
      int   k = backtrace(f, 60);
      backtrace_symbols_fd(f, k, 9);
    }
    if (!n->dead)
      killNode(n, "signal", std::string(strsignal(sig)) + " in " + (n->inApi ? n->inApiName : std::string("driver")));
    parkForever();
  }
  signal(sig, SIG_DFL);
  raise(sig);
}

void child(int sock, const Header &h, const char *payload, uint32_t *rep, uint32_t *dec)
{
  mallopt(M_PERTURB, 0x80); // memory that was not initialised, or that was freed, has the same absurd content in every execution
  g_sock = sock;
  run::In in;
  {
    ar::BinIn b{payload, payload + h.len};
    b.val(in);
  }
  if (h.trace[0]) {
    int fd = ::open(h.trace, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      dup2(fd, 9);
      K.trace = true;
    }
  }
  if (::chdir(h.dir) != 0)
    _exit(71);
  g_scratch = h.dir;
  umask(022);
  if (geteuid() == 0) {
    if (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))
      _exit(72);
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl = {30, 40};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {256u << 20, 256u << 20};
  setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  struct sigaction sa {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL})
    sigaction(s, &sa, nullptr);
  {
    std::string xml = run::makeXml(in.spec);
    FILE       *f   = ::fopen("precice-config.xml", "w");
    if (!f)
      _exit(73);
    fwrite(xml.data(), 1, xml.size(), f);
    ::fclose(f);
  }
  if (in.env.mperturb)
    mallopt(M_PERTURB, in.env.mperturb);
  K.env      = in.env;
  K.rng      = Rng(in.seed);
  netSeed(in.seed * 7919);
  K.replay   = h.replay;
  K.rep      = rep;
  K.nrep     = h.ndec;
  K.dec      = dec;
  K.decCap   = DECCAP;
  K.maxSteps = in.maxSteps;
  K.maxTime  = int64_t(in.maxTime);
  run::Out out;
  int      total = in.spec.nodes();
  if (total > g_nmains)
    _exit(74);
  out.nodes.resize(size_t(total));
  std::vector<std::unique_ptr<NodeSvc>>   svcs;
  std::vector<std::unique_ptr<spec::Ctx>> ctxs;
  for (size_t p = 0; p < in.spec.parts.size(); ++p)
    for (int r = 0; r < in.spec.parts[p].size; ++r) {
      auto *n  = new Node;
      n->id    = int(K.nodes.size());
      n->group = int(p);
      n->rank  = r;
      n->size  = in.spec.parts[p].size;
      n->name  = in.spec.parts[p].name + (n->size > 1 ? "#" + std::to_string(r) : "");
      if (in.env.multihost)
        n->ip = "10.0.0." + std::to_string(n->id + 1);
      auto &o = out.nodes[size_t(n->id)];
      o.name  = n->name;
      o.part  = int(p);
      o.rank  = r;
      auto sv = std::make_unique<NodeSvc>();
      sv->n   = n;
      sv->o   = &o;
      auto cx = std::make_unique<spec::Ctx>(spec::Ctx{&in.spec, int(p), r, sv.get(), "precice-config.xml"});
      NodeMain  fn  = g_mains[n->id];
      spec::Ctx *cp = cx.get();
      n->main       = [fn, cp] { return fn(cp); };
      svcs.push_back(std::move(sv));
      ctxs.push_back(std::move(cx));
      K.nodes.push_back(n);
    }
  sim::run();
  static const char *names[] = {"running", "done", "deadlock", "steps", "time", "fatal"};
  out.end       = names[int(K.end)];
  out.endText   = K.endText;
  out.now       = K.now;
  out.steps     = K.steps;
  out.switches  = K.switches;
  out.hash      = K.hash;
  out.schedHash = K.schedHash;
  out.ndec      = K.dpos;
  out.fired     = K.stats.fired;
  out.simErrors = K.simErrors;
  for (auto *n : K.nodes) {
    auto &o    = out.nodes[size_t(n->id)];
    o.dead     = n->dead;
    o.done     = n->done;
    o.kind     = n->deathKind;
    o.text     = n->deathText;
    o.points   = n->points;
    o.apiCalls = n->apiCalls;
    o.left     = n->left;
  }
  ar::BinOut b;
  b.val(out);
  sendFrame(sock, 'R', b.s.data(), b.s.size());
  if (h.wantDec)
    sendFrame(sock, 'D', dec, std::min<size_t>(K.dpos, DECCAP) * 4);
  _exit(0);
}

void zygoteLoop(int sock)
{
  char     *pay = (char *) mmap(nullptr, PAYCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint32_t *rep = (uint32_t *) mmap(nullptr, DECCAP * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint32_t *dec = (uint32_t *) mmap(nullptr, DECCAP * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static Header h;
  signal(SIGINT, SIG_DFL);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (;;) {
    if (!readAll(sock, &h, sizeof h) || h.magic != 0xD57 || h.len > PAYCAP || h.ndec > DECCAP)
      _exit(0);
    if (!readAll(sock, pay, h.len) || !readAll(sock, rep, h.ndec * 4))
      _exit(0);
    int mem = memfd_create("log", 0);
    int pid = ::fork();
    if (pid == 0) {
      dup2(mem, 1);
      dup2(mem, 2);
      int32_t me[2] = {getpid(), 0};
      sendFrame(sock, 'P', me, sizeof me); // (by the child: it must not be interleaved with its results)
      child(sock, h, pay, rep, dec);
      _exit(70);
    }
    int32_t v[2] = {pid, 0};
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
      ;
    char  log[6000];
    off_t sz = lseek(mem, 0, SEEK_END);
    off_t at = sz > (off_t) sizeof log ? sz - (off_t) sizeof log : 0;
    ssize_t n = pread(mem, log, sizeof log, at);
    ::close(mem);
    sendFrame(sock, 'L', log, n > 0 ? size_t(n) : 0);
    v[1] = st;
    sendFrame(sock, 'Z', v, sizeof v);
    if (h.ndec)
      madvise(rep, DECCAP * 4, MADV_DONTNEED);
  }
}
} // namespace

namespace run {
void loadNodes(const char *dir, int n)
{
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 20);
  char path[512];
  for (int i = 0; i < n; ++i) {
    void *h = nullptr;
    for (const char *pat : {"%s/libboost_l%02d.so.1.83.0", "%s/libboost_l%02d_setup.so.1.83.0", "%s/node%02d.so"}) {
      snprintf(path, sizeof path, pat, dir, i);
      h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
      if (!h) {
        fprintf(stderr, "dlopen: %s\n", dlerror());
        _exit(3);
      }
    }
    g_mains[i] = (NodeMain) dlsym(h, "dst_node_main");
    g_nmains   = i + 1;
  }
}
int startZygote()
{
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0)
    _exit(3);
  int pid = ::fork();
  if (pid == 0) {
    ::close(sv[0]);
    zygoteLoop(sv[1]);
    _exit(0);
  }
  ::close(sv[1]);
  fcntl(sv[0], F_SETFD, FD_CLOEXEC);
  return sv[0];
}

Out exec(int z, const In &in, const std::string &dir, const Opts &o)
{
  static char tracePath[256];
  Out         out;
  ar::BinOut  b;
  b.val(in);
  Header h;
  memset(&h, 0, sizeof h);
  h.magic   = 0xD57;
  h.len     = b.s.size();
  h.ndec    = o.replay ? o.replay->size() : 0;
  h.replay  = o.replay != nullptr;
  h.wantDec = o.decisions != nullptr;
  snprintf(h.dir, sizeof h.dir, "%s", dir.c_str());
  if (o.traceFd >= 0) {
    snprintf(tracePath, sizeof tracePath, "/proc/self/fd/%d", o.traceFd);
    char    lnk[256];
    ssize_t n = readlink(tracePath, lnk, sizeof lnk - 1);
    if (n > 0) {
      lnk[n] = 0;
      snprintf(h.trace, sizeof h.trace, "%s", lnk);
    }
  }
  writeAll(z, &h, sizeof h);
  writeAll(z, b.s.data(), b.s.size());
  if (h.ndec)
    writeAll(z, o.replay->data(), h.ndec * 4);
  bool        got = false, timedOut = false;
  int         pid = -1, st = 0;
  std::string buf, log;
  for (;;) {
    Frame  f;
    pollfd p{z, POLLIN, 0};
    int    rc = ::poll(&p, 1, 240000);
    if (rc == 0 && pid > 0 && !timedOut) {
      timedOut = true;
      kill(pid, SIGKILL);
      continue;
    }
    if (rc < 0 && errno == EINTR)
      continue;
    if (rc <= 0 || !readAll(z, &f, sizeof f)) {
      out.status = 3;
      out.text   = "zygote lost";
      return out;
    }
    buf.resize(f.len);
    if (f.len && !readAll(z, &buf[0], f.len)) {
      out.status = 3;
      out.text   = "zygote lost";
      return out;
    }
    if (f.kind == 'P')
      memcpy(&pid, buf.data(), 4);
    else if (f.kind == 'R') {
      ar::BinIn bi{buf.data(), buf.data() + buf.size()};
      bi.val(out);
      got = true;
    } else if (f.kind == 'D') {
      o.decisions->resize(buf.size() / 4);
      memcpy(o.decisions->data(), buf.data(), buf.size());
    } else if (f.kind == 'L')
      log = buf;
    else if (f.kind == 'Z') {
      memcpy(&st, buf.data() + 4, 4);
      break;
    }
  }
  out.log = log;
  if (!got) {
    if (!timedOut && WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) {
      out.status = 2;
      out.text   = "spin: 30 s of processor time without an end";
    } else if (timedOut || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
      out.status = 2;
      out.text   = "no end within the real time limit";
    } else if (WIFSIGNALED(st)) {
      out.status = 1;
      out.text   = std::string("process died: ") + strsignal(WTERMSIG(st));
    } else if (WEXITSTATUS(st) == 134) {
      out.status = 1;
      out.text   = "process aborted";
    } else {
      out.status = 3;
      out.text   = "child exit code " + std::to_string(WEXITSTATUS(st));
    }
  }
  return out;
}
std::string Out::brief() const
{
  std::string s = "status " + std::to_string(status) + " " + text + " end " + end + " " + endText + " t=" + std::to_string(double(now) * 1e-9) + "s steps=" + std::to_string(steps);
  for (auto &e : simErrors)
    s += "; SIM " + e;
  for (auto &n : nodes)
    s += "; " + n.name + ": " + (n.dead ? "dead(" + n.kind + ": " + n.text + ") " : n.done ? "done " : "open ") + n.outcome();
  return s;
}
} // namespace run
