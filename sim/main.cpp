// Command line of the simulator: search, minimise, replay, evidence.
#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace core;
typedef std::chrono::steady_clock Clk;
static double secs(Clk::time_point a) { return std::chrono::duration<double>(Clk::now() - a).count(); }

// ------------------------------------------------------------------ scratch directories
static std::string g_root; // of this process tree
static void        removeTree(const std::string &p)
{
  if (p.compare(0, g_root.size(), g_root) != 0 || g_root.size() < 10)
    return;
  struct stat st;
  if (lstat(p.c_str(), &st) != 0)
    return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR *d = opendir(p.c_str())) {
      while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
          removeTree(p + "/" + n);
      }
      closedir(d);
    }
    rmdir(p.c_str());
  } else
    unlink(p.c_str());
}
static void snapTree(const std::string &p, const std::string &rel, Snap &s)
{
  DIR *d = opendir(p.c_str());
  if (!d)
    return;
  std::vector<std::string> names;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..")
      names.push_back(n);
  }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    std::string f = p + "/" + n, r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat(f.c_str(), &st) != 0)
      continue;
    if (S_ISDIR(st.st_mode)) {
      s[r + "/"] = "";
      snapTree(f, r, s);
    } else if (S_ISREG(st.st_mode) && st.st_size < (4 << 20)) {
      std::string c;
      if (FILE *fp = fopen(f.c_str(), "rb")) {
        char   b[65536];
        size_t k;
        while ((k = fread(b, 1, sizeof b, fp)) > 0)
          c.append(b, k);
        fclose(fp);
      }
      s[r] = c;
    }
  }
}
static void makeDirs(const std::string &base, const std::string &rel)
{
  std::string p = base;
  size_t      i = 0;
  for (;;) {
    size_t j = rel.find('/', i);
    if (j == std::string::npos)
      break;
    p += "/" + rel.substr(i, j - i);
    mkdir(p.c_str(), 0777);
    chmod(p.c_str(), 0777);
    i = j + 1;
  }
}

// ------------------------------------------------------------------ execution of a case
struct Executor {
  int                                zyg = -1;
  std::string                        dir; // scratch directory of this executor
  std::vector<std::vector<uint32_t>> const *replay = nullptr;
  std::vector<std::vector<uint32_t>> *      decisions = nullptr;
  std::string                        trace;
  uint64_t                           runs = 0;
  std::string                        fresh(const std::string &n)
  {
    std::string d = dir + "/" + n;
    removeTree(d);
    mkdir(dir.c_str(), 0777);
    chmod(dir.c_str(), 0777);
    mkdir(d.c_str(), 0777);
    chmod(d.c_str(), 0777);
    return d;
  }
  Results run(const Case &c, bool snaps)
  {
    Results r;
    std::set<int> made;
    if (decisions)
      decisions->assign(c.runs.size(), {});
    for (size_t i = 0; i < c.runs.size(); ++i) {
      auto       &in = c.runs[i];
      std::string dn = "d" + std::to_string(in.dir), d = dir + "/" + dn;
      if (made.insert(in.dir).second)
        fresh(dn);
      for (auto &f : c.files)
        if (f.dir == in.dir && f.before == int(i)) {
          makeDirs(d, f.path);
          if (f.path.empty() || f.path.back() == '/')
            continue;
          if (FILE *fp = fopen((d + "/" + f.path).c_str(), "wb")) {
            fwrite(f.content.data(), 1, f.content.size(), fp);
            fclose(fp);
            chmod((d + "/" + f.path).c_str(), 0666);
          }
        }
      run::Opts o;
      if (replay)
        o.replay = i < replay->size() ? &(*replay)[i] : nullptr;
      if (decisions)
        o.decisions = &(*decisions)[i];
      int tf = -1;
      if (!trace.empty()) {
        tf        = open((trace + (c.runs.size() > 1 ? "." + std::to_string(i) : "")).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        o.traceFd = tf;
      }
      r.outs.push_back(run::exec(zyg, in, d, o));
      if (tf >= 0)
        close(tf);
      ++runs;
      r.snaps.emplace_back();
      if (snaps)
        snapTree(d, "", r.snaps.back());
    }
    for (int k : made)
      removeTree(dir + "/d" + std::to_string(k));
    return r;
  }
  Maker maker(const std::string &tier)
  {
    Maker m;
    m.tier  = tier;
    m.pilot = [this](const run::In &in, Snap *s) {
      std::string d = fresh("pilot");
      auto        o = run::exec(zyg, in, d, run::Opts());
      ++runs;
      if (s)
        snapTree(d, "", *s);
      removeTree(d);
      return o;
    };
    return m;
  }
};
static Case makeCase(const Prop &p, uint64_t base, uint64_t index, Executor &ex, const std::string &tier)
{
  Case c;
  c.prop = p.id;
  c.seed = index;
  uint64_t h = base;
  for (const char *q = p.id; *q; ++q)
    h = sim::mix(h, uint64_t(*q));
  Rng   r(sim::mix(h, index));
  Maker m = ex.maker(tier);
  p.make(r, m, c);
  return c;
}
static bool harnessTrouble(const Results &r)
{
  for (auto &o : r.outs)
    if (o.status == 3 || (o.status == 2 && o.text.find("spin") == std::string::npos))
      return true;
  return false;
}
static std::vector<uint64_t> hashes(const Results &r)
{
  std::vector<uint64_t> h;
  for (auto &o : r.outs) {
    h.push_back(o.hash);
    h.push_back(o.steps);
  }
  return h;
}

// ------------------------------------------------------------------ workers
struct Found {
  Case                  c;
  Verdict               v;
  std::vector<uint64_t> h;
  template <class A>
  void io(A &a)
  {
    a("c", c); a("v", v); a("h", h);
  }
};
struct WorkerResult {
  uint64_t                        cases = 0, runs = 0, steps = 0, trouble = 0, recheck = 0, mismatch = 0, decisions = 0;
  double                          simtime = 0;
  std::map<std::string, uint64_t> fired, stats, known;
  std::vector<uint64_t>           sched; // distinct schedules
  std::vector<std::string>        samples, troubles;
  std::vector<Found>              found;
  template <class A>
  void io(A &a)
  {
    a("cases", cases); a("runs", runs); a("steps", steps); a("trouble", trouble); a("recheck", recheck); a("mismatch", mismatch);
    a("decisions", decisions); a("simtime", simtime); a("fired", fired); a("stats", stats); a("known", known); a("sched", sched);
    a("samples", samples); a("troubles", troubles); a("found", found);
  }
};
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int>      stop;
};
struct Known {
  std::string property, match, text;
  template <class A>
  void io(A &a)
  {
    a("property", property); a("match", match); a("text", text);
  }
};
static std::vector<Known> g_known;
static const Known       *knownFor(const std::string &prop, const Verdict &v)
{
  for (auto &k : g_known)
    if (k.property == prop && v.sig.find(k.match) != std::string::npos)
      return &k;
  return nullptr;
}
static std::string describe(const Case &c, const Results &r)
{
  std::string s = c.prop + " case " + std::to_string(c.seed) + (c.kind.empty() ? "" : " (" + c.kind + ")") + (c.note.empty() ? "" : " " + c.note);
  for (size_t i = 0; i < c.runs.size() && i < r.outs.size() && i < 3; ++i) {
    auto &in = c.runs[i];
    s += " | run " + std::to_string(i) + ":";
    for (auto &p : in.spec.parts)
      s += " " + p.name + "x" + std::to_string(p.size);
    for (auto &k : in.spec.schemes)
      s += " " + k.type;
    for (auto &m : in.spec.m2ns)
      s += " " + m.type;
    s += " env " + in.env.policy;
    for (auto &f : in.env.faults)
      s += " fault:" + f.kind + "@node" + std::to_string(f.node);
    s += " -> " + r.outs[i].end + " steps=" + std::to_string(r.outs[i].steps) + " simtime=" + num(double(r.outs[i].now) * 1e-9) + "s";
  }
  return s;
}
static void worker(int id, const Prop &p, int zyg, Shared *sh, int fd, uint64_t base, const std::string &tier, double seconds, uint64_t maxCases)
{
  WorkerResult W;
  auto         t0 = Clk::now();
  Executor     ex;
  ex.zyg = zyg;
  ex.dir = g_root + "/w" + std::to_string(id);
  std::set<uint64_t> sched;
  Stats              st;
  while (!sh->stop.load() && secs(t0) < seconds) {
    uint64_t i = sh->next.fetch_add(1);
    if (i >= maxCases)
      break;
    Case    c = makeCase(p, base, i, ex, tier);
    if (c.runs.empty()) {
      st.add("cases not applicable");
      continue;
    }
    Results r = ex.run(c, p.snaps);
    ++W.cases;
    uint64_t sc = 0;
    for (auto &o : r.outs) {
      W.steps += o.steps;
      W.decisions += o.ndec;
      W.simtime += double(o.now) * 1e-9;
      for (auto &f : o.fired)
        W.fired[f.first] += f.second;
      sc = sim::mix(sc, o.schedHash);
    }
    if (harnessTrouble(r)) {
      ++W.trouble;
      if (W.troubles.size() < 3)
        for (auto &o : r.outs)
          if (o.status >= 2)
            W.troubles.push_back("case " + std::to_string(i) + ": " + o.text);
      continue;
    }
    Verdict v = p.check(c, r, st);
    sched.insert(sc);
    if (v.bad()) {
      if (auto *k = knownFor(p.id, v)) {
        W.known[k->match]++;
        continue;
      }
      W.found.push_back({c, v, hashes(r)});
      if (W.found.size() >= 2) {
        sh->stop = 1;
        break;
      }
      // a couple more, then stop
      sh->stop = 1;
      break;
    }
    if (W.samples.size() < 2)
      W.samples.push_back(describe(c, r));
    if (i % 32 == 0) {
      Results r2 = ex.run(c, p.snaps);
      ++W.recheck;
      if (hashes(r2) != hashes(r)) {
        ++W.mismatch;
        if (W.troubles.size() < 3)
          W.troubles.push_back("case " + std::to_string(i) + " is not deterministic");
      }
    }
  }
  W.runs  = ex.runs;
  W.stats = st.n;
  W.sched.assign(sched.begin(), sched.end());
  removeTree(ex.dir);
  ar::BinOut b;
  b.val(W);
  const char *q = b.s.data();
  size_t      n = b.s.size();
  while (n) {
    ssize_t k = write(fd, q, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      break;
    q += k;
    n -= size_t(k);
  }
  _exit(0);
}

// ------------------------------------------------------------------ replay files
struct Replay {
  std::string                        property, signature, text;
  Case                               c;
  int                                byDecisions = 0; // otherwise by the seeds of the runs
  std::vector<std::vector<uint32_t>> decisions;       // sparse: index, value, ...
  std::vector<uint64_t>              h;
  template <class A>
  void io(A &a)
  {
    a("property", property); a("signature", signature); a("violation", text); a("case", c); a("byDecisions", byDecisions);
    a("decisions", decisions); a("hashes", h);
  }
};
typedef std::vector<std::vector<uint32_t>> Decs;
static Decs sparse(const Decs &d)
{
  Decs s;
  for (auto &v : d) {
    s.emplace_back();
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i]) {
        s.back().push_back(uint32_t(i));
        s.back().push_back(v[i]);
      }
  }
  return s;
}
static Decs dense(const Decs &s)
{
  Decs d;
  for (auto &v : s) {
    d.emplace_back();
    for (size_t i = 0; i + 1 < v.size(); i += 2) {
      d.back().resize(v[i] + 1, 0);
      d.back()[v[i]] = v[i + 1];
    }
    if (d.back().empty())
      d.back().push_back(0);
  }
  return d;
}
static std::string slurp(const std::string &f)
{
  std::string c;
  if (FILE *fp = fopen(f.c_str(), "rb")) {
    char   b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, fp)) > 0)
      c.append(b, k);
    fclose(fp);
  }
  return c;
}

// ------------------------------------------------------------------ minimisation
static std::vector<std::function<bool(Case &)>> shrinkers(const Case &c0)
{
  std::vector<std::function<bool(Case &)>> S;
  size_t                                   nr = c0.runs.size();
  // the same change is applied to all runs of a case, so that differential cases stay comparable
  auto all = [&](std::function<bool(run::In &)> f) {
    S.push_back([f](Case &c) {
      bool any = false;
      for (auto &r : c.runs)
        any = f(r) || any;
      return any;
    });
  };
  for (size_t i = 0; i < nr; ++i)
    for (size_t k = c0.runs[i].env.faults.size(); k-- > 0;)
      S.push_back([i, k](Case &c) {
        auto &f = c.runs[i].env.faults;
        if (k >= f.size() || f.size() == 1)
          return false;
        f.erase(f.begin() + long(k));
        return true;
      });
#define ENVDEF(field)                     \
  all([](run::In &r) {                    \
    sim::Env d;                           \
    if (r.env.field == d.field)           \
      return false;                       \
    r.env.field = d.field;                \
    return true;                          \
  });
  all([](run::In &r) { // everything calm at once
    sim::Env d;
    d.faults    = r.env.faults;
    d.multihost = r.env.multihost;
    bool same   = ar::toJson(d) == ar::toJson(r.env);
    r.env       = d;
    return !same;
  });
  ENVDEF(startDelay) ENVDEF(slow) ENVDEF(fsdelay) ENVDEF(clockjump) ENVDEF(clockskew) ENVDEF(pspurious) ENVDEF(peintr) ENVDEF(pshort) ENVDEF(pspike)
  ENVDEF(sndbuf) ENVDEF(jitter) ENVDEF(latency) ENVDEF(eager) ENVDEF(backlog) ENVDEF(policy) ENVDEF(pswitch) ENVDEF(mperturb)
#undef ENVDEF
  // fewer windows and iterations
  all([](run::In &r) {
    bool any = false;
    for (auto &s : r.spec.schemes) {
      if (s.maxWindows > 1) {
        s.maxWindows--;
        any = true;
      }
      if (s.maxTime > 1.5 * s.window) {
        s.maxTime -= s.window;
        any = true;
      }
    }
    return any;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &s : r.spec.schemes)
      if (s.maxIter > 1) {
        s.maxIter--;
        s.minIter = std::min(s.minIter, s.maxIter);
        any       = true;
      }
    return any;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &s : r.spec.schemes)
      if (!s.measures.empty() && s.maxIter > 0) {
        s.measures.pop_back();
        any = true;
      }
    return any;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &p : r.spec.parts) {
      any = any || p.permute || p.single || p.stepCost > 0 || p.sections;
      p.permute = p.single = p.sections = 0;
      p.stepCost                        = 0;
    }
    return any;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &p : r.spec.parts) {
      any   = any || p.api != "cpp";
      p.api = "cpp";
    }
    return any;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &p : r.spec.parts) {
      any      = any || p.ownMpi;
      p.ownMpi = 0;
    }
    return any;
  });
  for (size_t k = 0; k < 4; ++k) {
    all([k](run::In &r) {
      if (k >= r.spec.parts.size() || r.spec.parts[k].dts.size() == 1 || r.spec.parts[k].ownWindow > 0)
        return false;
      r.spec.parts[k].dts = {1};
      return true;
    });
    all([k](run::In &r) {
      if (k >= r.spec.parts.size() || r.spec.parts[k].readAt.size() == 1)
        return false;
      r.spec.parts[k].readAt.pop_back();
      return true;
    });
    all([k](run::In &r) { // drop an exported file, watch point, action, profiling
      if (k >= r.spec.parts.size())
        return false;
      auto &p = r.spec.parts[k];
      if (!p.exports.empty())
        p.exports.pop_back();
      else if (!p.watches.empty())
        p.watches.pop_back();
      else if (!p.actions.empty())
        p.actions.pop_back();
      else
        return false;
      return true;
    });
  }
  all([](run::In &r) {
    if (r.spec.profiling == "off")
      return false;
    r.spec.profiling = "off";
    r.spec.profilingAttrs.clear();
    return true;
  });
  all([](run::In &r) {
    bool any = false;
    for (auto &s : r.spec.schemes)
      if (!s.accel.type.empty()) {
        s.accel = spec::Accel();
        any     = true;
      }
    return any;
  });
  // a data set less
  for (int d = 7; d >= 0; --d)
    all([d](run::In &r) {
      auto &s = r.spec;
      if (d >= int(s.datas.size()))
        return false;
      int users = 0;
      for (auto &c : s.schemes)
        for (auto &e : c.exchanges)
          users += e.data != d;
      if (!users)
        return false;
      auto drop = [&](std::vector<spec::RW> &v) {
        v.erase(std::remove_if(v.begin(), v.end(), [&](auto &x) { return x.data == d; }), v.end());
      };
      size_t before = 0, after = 0;
      for (auto &c : s.schemes) {
        before += c.exchanges.size();
        c.exchanges.erase(std::remove_if(c.exchanges.begin(), c.exchanges.end(), [&](auto &x) { return x.data == d; }), c.exchanges.end());
        c.measures.erase(std::remove_if(c.measures.begin(), c.measures.end(), [&](auto &x) { return x.data == d; }), c.measures.end());
        drop(c.accel.data);
        after += c.exchanges.size();
      }
      for (auto &p : s.parts) {
        drop(p.writes);
        drop(p.reads);
      }
      for (auto &m : s.meshes)
        m.data.erase(std::remove(m.data.begin(), m.data.end(), d), m.data.end());
      for (auto &p : s.parts) // mappings without data
        p.maps.erase(std::remove_if(p.maps.begin(), p.maps.end(), [&](auto &x) {
                       if (x.from < 0 || x.to < 0)
                         return false;
                       for (auto &w : x.write ? p.writes : p.reads)
                         if (w.mesh == (x.write ? x.from : x.to))
                           return false;
                       return true;
                     }),
                     p.maps.end());
      return after < before;
    });
  // one rank: all vertices to rank 0
  for (int k = 3; k >= 0; --k)
    all([k](run::In &r) {
      auto &s = r.spec;
      if (k >= int(s.parts.size()) || s.parts[size_t(k)].size == 1)
        return false;
      for (auto &m : s.meshes)
        if (m.owner == k && !m.stages.empty())
          return false;
      for (auto &m : s.meshes)
        if (m.owner == k) {
          std::vector<double> f = gen::flat(m);
          m.pts                 = {f};
          m.conn.clear();
        }
      for (auto &j : s.parts[size_t(k)].jits) {
        std::vector<double> f;
        for (auto &p : j.pts)
          f.insert(f.end(), p.begin(), p.end());
        j.pts = {f};
      }
      s.parts[size_t(k)].size  = 1;
      s.parts[size_t(k)].intra = "";
      for (auto &q : s.parts)
        for (auto &x : q.receives)
          x.boxes.resize(std::min<size_t>(x.boxes.size(), size_t(q.size)));
      r.env.startDelay.clear();
      r.env.slow.clear();
      for (auto &f : r.env.faults)
        f.node = std::min(f.node, s.nodes() - 1);
      return true;
    });
  return S;
}
struct Minimiser {
  Executor   &ex;
  const Prop &p;
  std::string sig;
  double      budget;
  Clk::time_point t0 = Clk::now();
  uint64_t    tries = 0;
  bool        over() const { return secs(t0) > budget; }
  bool        fails(const Case &c, const Decs *rep, Decs *dec, Verdict *vo, std::vector<uint64_t> *h)
  {
    ++tries;
    ex.replay    = rep;
    ex.decisions = dec;
    Stats   st;
    Results r;
    Verdict v;
    try {
      r = ex.run(c, p.snaps);
      if (!harnessTrouble(r))
        v = p.check(c, r, st);
    } catch (const std::exception &) {
    }
    ex.replay    = nullptr;
    ex.decisions = nullptr;
    if (v.sig != sig)
      return false;
    if (vo)
      *vo = v;
    if (h)
      *h = hashes(r);
    return true;
  }
  void reduceCase(Case &c)
  {
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      auto S   = shrinkers(c);
      for (auto &f : S) {
        if (over())
          break;
        for (int rep = 0; rep < 8 && !over(); ++rep) {
          Case d = c;
          bool changed = false;
          try {
            changed = f(d);
          } catch (...) {
          }
          if (!changed || !fails(d, nullptr, nullptr, nullptr, nullptr))
            break;
          c        = d;
          progress = true;
        }
      }
    }
  }
  void reduceDecisions(const Case &c, Decs &d)
  {
    for (size_t run = 0; run < d.size(); ++run) {
      { // all defaults?
        Decs e = d;
        e[run] = {0};
        if (!over() && fails(c, &e, nullptr, nullptr, nullptr)) {
          d = e;
          continue;
        }
      }
      for (size_t chunk = std::max<size_t>(1, d[run].size() / 2); !over(); chunk /= 2) {
        for (size_t at = 0; at < d[run].size() && !over(); at += chunk) {
          Decs e   = d;
          bool any = false;
          for (size_t i = at; i < std::min(d[run].size(), at + chunk); ++i) {
            any       = any || e[run][i];
            e[run][i] = 0;
          }
          if (any && fails(c, &e, nullptr, nullptr, nullptr))
            d = e;
        }
        if (chunk <= 1)
          break;
      }
      while (d[run].size() > 1 && !d[run].back())
        d[run].pop_back();
    }
  }
};

// ------------------------------------------------------------------ commands
static std::string g_verif = "/verif";
static std::vector<int> g_zyg;
static std::string jstr(const std::string &s)
{
  ar::JsonOut o;
  o.val(s);
  return o.s;
}
static std::string jmap(const std::map<std::string, uint64_t> &m)
{
  ar::JsonOut o;
  o.val(m);
  return o.s;
}
static int cmdReplay(const std::string &file, bool quiet, const std::string &trace)
{
  Replay R;
  try {
    ar::fromJson(slurp(file), R);
  } catch (const std::exception &e) {
    fprintf(stderr, "cannot read %s: %s\n", file.c_str(), e.what());
    return 2;
  }
  const Prop *p = find(R.property);
  if (!p) {
    fprintf(stderr, "unknown property in %s\n", file.c_str());
    return 2;
  }
  Executor ex;
  ex.zyg   = g_zyg[0];
  ex.dir   = g_root + "/r";
  ex.trace = trace;
  Decs d   = dense(R.decisions);
  if (R.byDecisions)
    ex.replay = &d;
  Results r = ex.run(R.c, p->snaps);
  Stats   st;
  if (harnessTrouble(r)) {
    fprintf(stderr, "harness trouble in the replay\n");
    return 2;
  }
  Verdict v    = p->check(R.c, r, st);
  bool    same = hashes(r) == R.h;
  if (v.bad()) {
    if (!quiet)
      printf("%s: %s\n", v.sig.c_str(), v.text.c_str());
    printf("replay %s: signature %s, execution %s\n", file.c_str(), v.sig == R.signature ? "identical" : "different", same ? "identical" : "different");
    printf("VIOLATION property=%s replay=%s\n", R.property.c_str(), file.c_str());
    return quiet && (v.sig != R.signature || !same) ? 4 : 1;
  }
  printf("replay %s: the property holds (execution %s)\n", file.c_str(), same ? "identical" : "different");
  return 0;
}
static int spawnReplay(const std::string &file)
{
  int pid = fork();
  if (pid == 0) {
    unsetenv("DST_REEXEC");
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    execl("/proc/self/exe", "dst", "replay", file.c_str(), "--quiet", (char *) nullptr);
    _exit(9);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}
static int cmdCheck(const std::string &id, const std::string &tier, uint64_t seed, double seconds, uint64_t maxCases, double minBudget)
{
  const Prop *p = find(id);
  if (!p) {
    fprintf(stderr, "unknown property %s\n", id.c_str());
    return 2;
  }
  auto t0 = Clk::now();
  printf("property %s tier %s VERIF_SEED %llu\n", id.c_str(), tier.c_str(), (unsigned long long) seed);
  fflush(stdout);
  Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared();
  sh->next  = 0;
  sh->stop  = 0;
  size_t nw = g_zyg.size() - 1; // the last one is for the parent
  std::vector<int> fds, pids;
  for (size_t i = 0; i < nw; ++i) {
    int pf[2];
    if (pipe(pf) != 0)
      return 2;
    int pid = fork();
    if (pid == 0) {
      close(pf[0]);
      worker(int(i), *p, g_zyg[i], sh, pf[1], seed, tier, seconds, maxCases);
    }
    close(pf[1]);
    fds.push_back(pf[0]);
    pids.push_back(pid);
  }
  WorkerResult       T;
  std::set<uint64_t> sched;
  int                lost = 0;
  for (size_t i = 0; i < nw; ++i) {
    std::string s;
    char        b[65536];
    ssize_t     k;
    while ((k = read(fds[i], b, sizeof b)) > 0 || (k < 0 && errno == EINTR))
      if (k > 0)
        s.append(b, size_t(k));
    close(fds[i]);
    int st;
    waitpid(pids[i], &st, 0);
    try {
      WorkerResult W;
      ar::BinIn    bi{s.data(), s.data() + s.size()};
      bi.val(W);
      T.cases += W.cases; T.runs += W.runs; T.steps += W.steps; T.trouble += W.trouble; T.recheck += W.recheck; T.mismatch += W.mismatch;
      T.decisions += W.decisions;
      T.simtime += W.simtime;
      for (auto &x : W.fired) T.fired[x.first] += x.second;
      for (auto &x : W.stats) T.stats[x.first] += x.second;
      for (auto &x : W.known) T.known[x.first] += x.second;
      sched.insert(W.sched.begin(), W.sched.end());
      for (auto &x : W.samples) if (T.samples.size() < 6) T.samples.push_back(x);
      for (auto &x : W.troubles) if (T.troubles.size() < 6) T.troubles.push_back(x);
      for (auto &x : W.found) T.found.push_back(x);
    } catch (const std::exception &e) {
      ++lost;
      fprintf(stderr, "worker %zu lost (%s, status %d)\n", i, e.what(), st);
    }
  }
  double searchWall = secs(t0);
  // --- violations: smallest index first
  std::sort(T.found.begin(), T.found.end(), [](const Found &a, const Found &b) { return a.c.seed < b.c.seed; });
  std::string line;
  int         violations = 0, unreproducible = 0;
  Executor    ex;
  ex.zyg = g_zyg.back();
  ex.dir = g_root + "/p";
  for (auto &f : T.found) {
    Minimiser m{ex, *p, f.v.sig, minBudget};
    Decs      d;
    Verdict   v;
    std::vector<uint64_t> h;
    printf("case %llu: %s: %s\n", (unsigned long long) f.c.seed, f.v.sig.c_str(), f.v.text.c_str());
    fflush(stdout);
    if (!m.fails(f.c, nullptr, &d, &v, &h) || h != f.h) {
      ++unreproducible;
      printf("  not reproduced by a second execution\n");
      continue;
    }
    Replay R;
    R.property = id;
    Case c     = f.c;
    m.reduceCase(c);
    // first by seed, then by the recorded decisions
    if (!m.fails(c, nullptr, &d, &v, &h)) {
      c = f.c;
      if (!m.fails(c, nullptr, &d, &v, &h)) {
        ++unreproducible;
        continue;
      }
    }
    R.c         = c;
    R.signature = v.sig;
    R.text      = v.text;
    R.h         = h;
    size_t dn   = 0;
    for (auto &x : d)
      dn += x.size();
    Decs full = d;
    if (dn < 2000000 && m.fails(c, &d, nullptr, &v, nullptr)) {
      m.budget += 15;
      m.reduceDecisions(c, d);
      std::vector<uint64_t> h2;
      if (m.fails(c, &d, nullptr, &v, &h2)) {
        R.byDecisions = 1;
        R.decisions   = sparse(d);
        R.h           = h2;
        R.text        = v.text;
      }
    }
    std::string dir = g_verif + "/evidence";
    mkdir(dir.c_str(), 0755);
    dir += "/replays";
    mkdir(dir.c_str(), 0755);
    std::string file = dir + "/" + id + "-" + std::to_string(seed) + "-" + std::to_string(f.c.seed) + ".json";
    auto        save = [&] {
      std::string s = ar::toJson(R) + "\n";
      if (FILE *fp = fopen(file.c_str(), "wb")) {
        fwrite(s.data(), 1, s.size(), fp);
        fclose(fp);
      }
    };
    save();
    int rc = spawnReplay(file);
    if (rc != 1) { // fall back to the unreduced case
      R.c           = f.c;
      R.byDecisions = 0;
      R.decisions.clear();
      R.h         = f.h;
      R.signature = f.v.sig;
      R.text      = f.v.text;
      save();
      rc = spawnReplay(file);
    }
    if (rc != 1) {
      ++unreproducible;
      printf("  not reproduced by a fresh process (%d)\n", rc);
      continue;
    }
    ++violations;
    size_t nz = 0;
    for (auto &x : R.decisions)
      nz += x.size() / 2;
    printf("minimised in %llu executions%s: %s: %s\n", (unsigned long long) m.tries, R.byDecisions ? (", " + std::to_string(nz) + " scheduling decisions differ from the default").c_str() : "", R.signature.c_str(), R.text.c_str());
    line = "VIOLATION property=" + id + " replay=" + file;
    break;
  }
  // --- evidence
  double      wall = secs(t0);
  std::string s    = "{\"property\":" + jstr(id) + ",\"tier\":" + jstr(tier) + ",\"seed\":" + std::to_string((long long) seed) + ",\"level\":\"exploration\",\"coverage\":{";
  s += "\"evaluations\":" + std::to_string(T.cases) + ",\"distinct_nontrivial\":" + std::to_string(sched.size()) + ",\"rule\":" + jstr(p->rule);
  s += ",\"samples\":[";
  for (size_t i = 0; i < T.samples.size(); ++i)
    s += (i ? "," : "") + jstr(T.samples[i]);
  s += "],\"simulated_runs\":" + std::to_string(T.runs) + ",\"seeds\":" + std::to_string(T.cases);
  s += ",\"runs_per_hour\":" + std::to_string((long long) (double(T.runs) / std::max(0.001, searchWall) * 3600)) + ",\"seeds_per_hour\":" + std::to_string((long long) (double(T.cases) / std::max(0.001, searchWall) * 3600));
  s += ",\"simulated_seconds\":" + num(T.simtime) + ",\"simulation_steps\":" + std::to_string(T.steps) + ",\"scheduler_decisions\":" + std::to_string(T.decisions);
  s += ",\"distinct_interleavings\":" + std::to_string(sched.size()) + ",\"interleaving_measure\":\"hash over the sequence of scheduled threads and fired faults of all runs of a case\"";
  s += ",\"faults_and_rare_events_fired\":" + jmap(T.fired) + ",\"oracle_statistics\":" + jmap(T.stats);
  s += ",\"determinism\":{\"cases_executed_twice\":" + std::to_string(T.recheck) + ",\"different\":" + std::to_string(T.mismatch) + "}";
  s += ",\"inconclusive_cases\":" + std::to_string(T.trouble) + ",\"unreproducible\":" + std::to_string(unreproducible) + ",\"known_findings_hit\":" + jmap(T.known);
  s += ",\"trouble\":[";
  for (size_t i = 0; i < T.troubles.size(); ++i)
    s += (i ? "," : "") + jstr(T.troubles[i]);
  s += "],\"real_components\":[\"all preCICE sources listed in /repo/src/sources.cmake (C++ API, coupling schemes, m2n, com, partition, mapping, acceleration, io, profiling, xml)\",\"C and Fortran bindings\",\"Boost.Asio, Boost.Log, Eigen, libxml2, libstdc++\"]";
  s += ",\"stub_components\":[\"MPI (in-process, with ports and communicators)\",\"kernel sockets, epoll, eventfd, timerfd\",\"pthread scheduling, mutexes, condition variables\",\"clocks, sleeps\",\"visibility and failures of file operations (files themselves are real, in a scratch directory)\",\"tag name style assertion\"]";
  s += "},\"assumptions\":[\"asserts of preCICE enabled, PETSc, Ginkgo, Kokkos and Python off\",\"x86-64 Linux, single address space\"],\"wall_s\":" + num(wall) + ",\"violations\":" + std::to_string(violations) + "}\n";
  std::string ed = g_verif + "/evidence";
  mkdir(ed.c_str(), 0755);
  if (FILE *fp = fopen((ed + "/" + id + ".json").c_str(), "wb")) {
    fwrite(s.data(), 1, s.size(), fp);
    fclose(fp);
  }
  for (auto &k : T.known)
    for (auto &g : g_known)
      if (g.property == id && g.match == k.first)
        printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), g.text.c_str());
  printf("%llu cases, %llu runs, %zu distinct schedules, %.1f simulated seconds, %.1f s (search %.1f s)\n", (unsigned long long) T.cases, (unsigned long long) T.runs, sched.size(), T.simtime, wall, searchWall);
  for (auto &x : T.troubles)
    printf("trouble: %s\n", x.c_str());
  if (!line.empty()) {
    printf("%s\n", line.c_str());
    return 1;
  }
  if (unreproducible || lost || T.cases == 0 || T.mismatch) {
    printf("no answer: %d unreproducible, %d workers lost, %llu mismatches\n", unreproducible, lost, (unsigned long long) T.mismatch);
    return 2;
  }
  return 0;
}

static void onTerm(int)
{
  _exit(9);
}
int main(int argc, char **argv)
{
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DST_REEXEC")) {
    personality(pers | ADDR_NO_RANDOMIZE);
    setenv("DST_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::string self(4096, 0);
  ssize_t     n = readlink("/proc/self/exe", &self[0], self.size());
  self.resize(n > 0 ? size_t(n) : 0);
  std::string bdir = self.substr(0, self.rfind('/'));
  run::loadNodes((bdir + "/nodes").c_str(), 12);
  cpu_set_t allowed;
  CPU_ZERO(&allowed);
  sched_getaffinity(0, sizeof allowed, &allowed);
  std::vector<int> cpus;
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &allowed))
      cpus.push_back(i);
  std::string cmd = argc > 1 ? argv[1] : "";
  size_t      want = cmd == "check" ? std::min<size_t>(8, std::max<size_t>(1, cpus.size())) + 1 : 1;
  for (size_t i = 0; i < want; ++i) {
    cpu_set_t one;
    CPU_ZERO(&one);
    CPU_SET(cpus[i % cpus.size()], &one);
    sched_setaffinity(0, sizeof one, &one);
    g_zyg.push_back(run::startZygote());
  }
  sched_setaffinity(0, sizeof allowed, &allowed);
  signal(SIGPIPE, SIG_IGN);
  signal(SIGTERM, onTerm);
  if (const char *v = getenv("DST_VERIF"))
    g_verif = v;
  std::string tmp = "/dev/shm";
  if (access(tmp.c_str(), W_OK) != 0)
    tmp = "/tmp";
  g_root = tmp + "/dst-" + std::to_string(getpid());
  mkdir(g_root.c_str(), 0777);
  chmod(g_root.c_str(), 0777);
  std::string kf = slurp(g_verif + "/known_findings.json");
  if (!kf.empty())
    try {
      ar::JV j = ar::parseJson(kf);
      if (auto *a = j.get("findings"))
        for (auto &x : a->a) {
          Known k;
          ar::fromJson(x, k);
          if (!k.match.empty())
            g_known.push_back(k);
        }
    } catch (const std::exception &e) {
      fprintf(stderr, "known_findings.json: %s\n", e.what());
      return 2;
    }
  std::map<std::string, std::string> opt;
  std::vector<std::string>           pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) {
      std::string v = "1";
      if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0 && a != "--quiet")
        v = argv[++i];
      opt[a.substr(2)] = v;
    } else
      pos.push_back(a);
  }
  const char *vs   = getenv("VERIF_SEED");
  uint64_t    seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : vs ? strtoull(vs, nullptr, 10) : 1;
  std::string tier = opt.count("tier") ? opt["tier"] : "quick";
  int         rc   = 2;
  if (cmd == "check" && !pos.empty())
    rc = cmdCheck(pos[0], tier, seed, opt.count("seconds") ? atof(opt["seconds"].c_str()) : tier == "quick" ? 25 : 600, opt.count("cases") ? strtoull(opt["cases"].c_str(), nullptr, 10) : ~0ull,
                  opt.count("minimise") ? atof(opt["minimise"].c_str()) : 40);
  else if (cmd == "replay" && !pos.empty())
    rc = cmdReplay(pos[0], opt.count("quiet"), opt.count("trace") ? opt["trace"] : "");
  else if (cmd == "case" && pos.size() > 1) { // one case, for debugging
    const Prop *p = find(pos[0]);
    if (p) {
      Executor ex;
      ex.zyg   = g_zyg[0];
      ex.dir   = g_root + "/c";
      Case c   = makeCase(*p, seed, strtoull(pos[1].c_str(), nullptr, 10), ex, tier);
      if (opt.count("cpp"))
        for (auto &r : c.runs)
          for (auto &q : r.spec.parts)
            q.api = "cpp";
      if (opt.count("dump"))
        printf("%s\n", ar::toJson(c).c_str());
      if (opt.count("xml"))
        for (auto &r : c.runs)
          printf("%s\n", run::makeXml(r.spec).c_str());
      ex.trace = opt.count("trace") ? opt["trace"] : "";
      Results r = ex.run(c, p->snaps || opt.count("files"));
      for (auto &o : r.outs)
        printf("%s\n hash %llx\n%s\n", o.brief().c_str(), (unsigned long long) o.hash, opt.count("log") ? o.log.c_str() : "");
      if (opt.count("files"))
        for (auto &s : r.snaps)
          for (auto &f : s)
            printf("--- %s (%zu)\n%s\n", f.first.c_str(), f.second.size(), opt["files"] == "2" ? f.second.c_str() : "");
      Stats   st;
      Verdict v = p->check(c, r, st);
      for (auto &x : st.n)
        printf("  %s: %llu\n", x.first.c_str(), (unsigned long long) x.second);
      printf("%s\n", v.bad() ? (v.sig + ": " + v.text).c_str() : "holds");
      rc = v.bad() ? 1 : 0;
    }
  } else if (cmd == "list") {
    for (auto &p : props())
      printf("%s\n", p.id);
    rc = 0;
  } else
    fprintf(stderr, "usage: dst check PROPERTY [--tier quick|thorough] [--seed N] [--seconds S] [--cases N] | replay FILE | case PROPERTY INDEX [--trace FILE] [--dump] [--xml] [--log]\n");
  removeTree(g_root);
  fflush(stdout);
  return rc;
}
