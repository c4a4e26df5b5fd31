// C07: establishment of the communication.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
// another coupled simulation in the same directory: participants, meshes and data with other names
static void addStranger(Rng &r, Spec &s)
{
  gen::Opt o;
  o.maxRanks    = 2;
  o.maxNodes    = 3;
  o.parts       = 2;
  o.composition = false;
  Spec t        = gen::makeSpec(r, o);
  int  np = int(s.parts.size()), nm = int(s.meshes.size()), nd = int(s.datas.size());
  for (auto &d : t.datas) {
    d.name = "X" + d.name;
    s.datas.push_back(d);
  }
  for (auto &m : t.meshes) {
    m.name = "X" + m.name;
    m.owner += np;
    for (auto &d : m.data)
      d += nd;
    s.meshes.push_back(m);
  }
  for (auto p : t.parts) {
    p.name = "X" + p.name;
    for (auto &m : p.provides)
      m += nm;
    for (auto &x : p.receives)
      x.mesh += nm;
    for (auto *v : {&p.writes, &p.reads})
      for (auto &x : *v)
        x.mesh += nm, x.data += nd;
    for (auto &m : p.maps)
      m.from += nm, m.to += nm;
    s.parts.push_back(p);
  }
  for (auto m : t.m2ns) {
    m.acceptor += np;
    m.connector += np;
    s.m2ns.push_back(m);
  }
  for (auto c : t.schemes) {
    c.first += np;
    c.second += np;
    for (auto &x : c.parts)
      x += np;
    for (auto &x : c.exchanges)
      x.data += nd, x.mesh += nm, x.from += np, x.to += np;
    for (auto &x : c.measures)
      x.data += nd, x.mesh += nm;
    for (auto &x : c.accel.data)
      x.data += nd, x.mesh += nm;
    s.schemes.push_back(c);
  }
}
static void makeC07(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.nnOnly     = true;
  o.maxRanks   = 4;
  o.maxNodes   = 8;
  o.maxWindows = 2;
  o.maxPts     = 5;
  o.parts      = r.flip(0.4) ? r.range(3, 5) : 0;
  if (r.flip(0.6))
    o.implicit = 0;
  double x     = r.unit();
  c.kind       = x < 0.4 ? "meet" : x < 0.65 ? "killed" : "files";
  if (c.kind != "meet")
    o.maxNodes = 5;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  if (c.kind == "meet" && in.spec.parts.size() <= 3 && r.flip(0.4))
    addStranger(r, in.spec);
  if (c.kind != "meet") {
    for (auto &p : in.spec.parts) {
      p.onError = "abort";
      p.ownMpi  = 0;
    }
    for (auto &m : in.spec.m2ns)
      if (m.twoLevel) {
        m.twoLevel = 0;
        for (auto &p : in.spec.parts)
          if (p.size > 1)
            p.intra = "sockets";
      }
  }
  in.seed     = r.next();
  in.dir      = 0;
  in.maxSteps = 1500000;
  c.runs.push_back(in);
  run::In b = in;
  b.env     = gen::makeEnv(r, in.spec.nodes(), 2);
  b.env.startDelay.clear();
  for (int i = 0; i < in.spec.nodes(); ++i)
    b.env.startDelay.push_back(r.flip(0.4) ? 0 : 1e6 * double(r.below(r.flip(0.3) ? 400 : 20)));
  b.seed = r.next();
  if (c.kind == "meet") {
    b.env.latency = std::min(b.env.latency, in.spec.nodes() > 5 ? 1e6 : 5e6);
    c.runs.push_back(b); // in the directory of the first run
    return;
  }
  b.dir      = 1;
  b.maxSteps = 300000;
  b.env.faults.clear();
  int nodes = in.spec.nodes();
  if (c.kind == "killed") {
    sim::Fault f;
    f.kind  = "killall";
    f.node  = int(r.below(uint64_t(nodes)));
    f.api   = -1;
    f.steps = int(r.below(r.flip(0.5) ? 150 : 800));
    run::In k = b;
    k.env.faults.push_back(f);
    c.runs.push_back(k);
    b.seed = r.next();
    b.maxSteps = 400000;
    c.runs.push_back(b);
    return;
  }
  int n = r.flip(0.8) ? 1 : 2;
  for (int i = 0; i < n; ++i) {
    sim::Fault  f;
    const char *k[] = {"fs-open-once", "fs-open", "fs-full", "fs-io", "fs-torn", "fs-torn", "fs-rename", "fs-mkdir"};
    f.kind          = k[r.below(8)];
    f.node          = int(r.below(uint64_t(nodes)));
    f.api           = -1;
    f.path          = "precice-run";
    b.env.faults.push_back(f);
  }
  b.maxSteps = 300000;
  c.runs.push_back(b);
}
static bool connects(const run::NodeOut &n) { return !n.apis.empty() && (n.apis.back() == "initialize" || n.apis.back() == "construct"); }
static Verdict disturbed(const Case &c, const run::Out &o, const run::Out &ref, Stats &st, bool wait)
{
  if (o.status == 1)
    return failed("process-died", o.text);
  if (o.status == 2)
    return failed("spin", o.text);
  if (!o.simErrors.empty())
    return failed("environment-contract:" + strip(o.simErrors[0], 60), o.simErrors[0]);
  for (size_t n = 0; n < o.nodes.size(); ++n) {
    auto d = diffNode(o.nodes[n], ref.nodes[n], true);
    if (!d.empty())
      return failed("wrong-data", d + " (disturbed or not)");
  }
  bool err = false, waits = false;
  for (auto &n : o.nodes) {
    auto &p = c.runs[1].spec.parts[size_t(n.part)];
    if (n.dead && (n.kind == "signal" || (n.kind == "abort" && n.text.find("Error") == std::string::npos && p.api == "cpp")))
      return failed("crash:" + n.kind + ":" + strip(n.text, 80), n.name + " died (" + n.kind + "): " + n.text + " | " + (o.log.size() > 400 ? o.log.substr(o.log.size() - 400) : o.log));
    auto out = n.outcome();
    if (!out.empty() && out != "ok" && !n.error())
      return failed("exception:" + strip(out, 80), n.name + ": " + out);
    err   = err || (n.dead && n.kind != "jobkill") || (!out.empty() && out != "ok");
    waits = waits || (!n.dead && !n.done && connects(n));
    st.add(n.ok() ? "processes that finished" : n.dead || n.done ? "processes that reported an error" : "processes waiting for connection information");
  }
  bool mpi = false; // MPI does not notice that the process at the other end is gone
  for (auto &m : c.runs[1].spec.m2ns)
    mpi = mpi || m.type != "sockets";
  if (o.end != "done" && !((waits || mpi) && (err || wait)))
    return failed(std::string("no-progress:") + (waits ? "nobody reports an error" : o.end), o.end + ": " + o.endText.substr(0, 1500));
  return {};
}
static Verdict checkC07(const Case &c, const Results &R, Stats &st)
{
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  st.add("cases " + c.kind);
  if (c.kind == "meet") {
    v = mustSucceed(c.runs[1], R.outs[1]);
    if (v.bad())
      return v;
    for (size_t n = 0; n < R.outs[0].nodes.size(); ++n) {
      auto d = diffNode(R.outs[0].nodes[n], R.outs[1].nodes[n], false);
      if (!d.empty())
        return failed("history-depends-on-start", d);
    }
    st.add("connection orders compared");
    return {};
  }
  if (c.kind == "files") {
    bool once = true;
    for (auto &f : c.runs[1].env.faults)
      once = once && f.kind == "fs-open-once";
    if (once || R.outs[1].fired.empty()) { // one failure to open a file is tolerated
      bool two = c.runs[1].env.faults.size() > 1;
      if (!two) {
        v = mustSucceed(c.runs[1], R.outs[1]);
        if (v.bad())
          return v;
      }
    }
    return disturbed(c, R.outs[1], R.outs[0], st, false);
  }
  // killed: the run after it, in the same directory
  if (R.outs[1].status == 1 || R.outs[1].status == 2 || !R.outs[1].simErrors.empty())
    return mustSucceed(c.runs[1], R.outs[1]);
  bool left = false;
  for (auto &f : R.snaps[1])
    left = left || f.first.find("precice-run/") != std::string::npos;
  if (!left) {
    st.add("killed without leftovers");
    v = mustSucceed(c.runs[2], R.outs[2]);
    if (v.bad())
      return v;
  } else
    st.add("killed with leftovers");
  return disturbed(c, R.outs[2], R.outs[0], st, false);
}
void addProps4(std::vector<Prop> &p)
{
  p.push_back({"C07", "coupled simulations that start in any order, run again after being killed, or meet failing files while they connect", makeC07, checkC07, true, true});
}
} // namespace core
