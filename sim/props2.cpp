// C03-C07: partitions, schedules, progress and clean end, failures, establishment of the communication.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
// ------------------------------------------------------------------ comparison of two runs
static bool sameNum(double a, double b)
{
  return a == b || (std::isnan(a) && std::isnan(b));
}
// first difference of the observable histories of a node; empty: none. `prefix`: a may end early
std::string diffNode(const run::NodeOut &a, const run::NodeOut &b, bool prefix)
{
  size_t n = std::min(a.ev.size(), b.ev.size());
  for (size_t i = 0; i < n; ++i) {
    auto &x = a.ev[i], &y = b.ev[i];
    if (prefix && i + 1 == a.ev.size() && x.op == "end" && x.s != "ok")
      return "";
    std::string at = a.name + " event " + std::to_string(i) + " " + x.op;
    if (x.op != y.op || x.mesh != y.mesh || x.data != y.data)
      return at + ": other event " + y.op + (y.s.empty() ? "" : " " + y.s);
    if (x.i != y.i)
      return at + ": other flags or identifiers";
    if (x.s != y.s)
      return at + ": \"" + x.s + "\" or \"" + y.s + "\"";
    if (x.x.size() != y.x.size())
      return at + ": other sizes";
    for (size_t k = 0; k < x.x.size(); ++k)
      if (!sameNum(x.x[k], y.x[k]))
        return at + (x.data >= 0 ? " data " + std::to_string(x.data) : std::string()) + ": " + num(x.x[k]) + " or " + num(y.x[k]) + " at " + std::to_string(k);
  }
  if (a.ev.size() != b.ev.size() && !(prefix && a.ev.size() < b.ev.size()))
    return a.name + ": " + std::to_string(a.ev.size()) + " or " + std::to_string(b.ev.size()) + " events";
  return "";
}
std::string diffSnap(const Snap &a, const Snap &b)
{
  for (auto &f : a) {
    auto i = b.find(f.first);
    if (i == b.end())
      return "file " + f.first + " only in one run";
    if (i->second != f.second) {
      size_t k = 0;
      while (k < f.second.size() && k < i->second.size() && f.second[k] == i->second[k])
        ++k;
      size_t s = k > 40 ? k - 40 : 0;
      return "file " + f.first + " differs: \"" + f.second.substr(s, 90) + "\" or \"" + i->second.substr(s, 90) + "\"";
    }
  }
  for (auto &f : b)
    if (!a.count(f.first))
      return "file " + f.first + " only in one run";
  return "";
}
void reactive(Rng &r, Spec &s)
{
  for (auto &p : s.parts)
    if (r.flip(0.6)) {
      p.reactive = 1;
      p.gamma    = 0.2 + 0.5 * r.unit();
    }
}

// ------------------------------------------------------------------ C04: schedules do not matter
static void makeC04(Rng &r, Maker &m, Case &c)
{
  gen::Opt o;
  o.nnOnly   = r.flip(0.5);
  o.maxRanks = 3;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  if (r.flip(0.7))
    gen::addAccel(r, in.spec, r.flip(0.3) ? 1 : 2);
  reactive(r, in.spec);
  if (r.flip(0.5))
    gen::addConnectivity(r, in.spec, 0.5);
  gen::addOutputs(r, in.spec);
  in.seed = r.next();
  in.dir  = 0;
  c.runs.push_back(in);
  int n = m.tier == "thorough" ? 3 : 2;
  for (int i = 1; i < n; ++i) {
    run::In b = in;
    b.env     = gen::makeEnv(r, in.spec.nodes(), r.flip(0.7) ? 1 : 2);
    b.seed    = r.next();
    b.dir     = i;
    c.runs.push_back(b);
  }
}
static Verdict checkC04(const Case &c, const Results &R, Stats &st)
{
  bool gaveUp = accelGaveUp(R.outs[0]);
  for (size_t i = 0; i < R.outs.size(); ++i) {
    if (gaveUp || accelGaveUp(R.outs[i])) {
      st.add("acceleration gave up");
      if (!accelGaveUp(R.outs[i]) || !gaveUp)
        return failed("error-depends-on-schedule", "the acceleration failed under one schedule only");
      continue;
    }
    Verdict v = mustSucceed(c.runs[i], R.outs[i]);
    if (v.bad())
      return v;
  }
  if (gaveUp)
    return {};
  for (size_t i = 1; i < R.outs.size(); ++i) {
    for (size_t n = 0; n < R.outs[0].nodes.size(); ++n) {
      auto d = diffNode(R.outs[0].nodes[n], R.outs[i].nodes[n], false);
      if (!d.empty())
        return failed("history-depends-on-schedule", d);
      st.add("histories compared");
      st.add("events compared", R.outs[0].nodes[n].ev.size());
    }
    auto d = diffSnap(R.snaps[0], R.snaps[i]);
    if (!d.empty())
      return failed("files-depend-on-schedule", d);
    st.add("files compared", R.snaps[0].size());
  }
  return {};
}

// ------------------------------------------------------------------ C05: progress and clean end
static void makeC05(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.nnOnly   = r.flip(0.7);
  o.maxRanks = 4;
  o.maxNodes = 9;
  o.parts    = r.flip(0.2) ? 3 : r.flip(0.2) ? r.range(4, 5) : 0;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  if (r.flip(0.5))
    gen::addAccel(r, in.spec, 2);
  reactive(r, in.spec);
  gen::addOutputs(r, in.spec);
  in.spec.waitInFinalize = r.flip(0.4);
  for (auto &p : in.spec.parts)
    if (p.api == "cpp" && r.flip(0.25))
      p.noFinalize = 1; // the destructor ends the coupling
  if (r.flip(0.3)) {
    const char *md[]        = {"all", "fundamental", "api"};
    in.spec.profiling       = md[r.below(3)];
    in.spec.profilingAttrs  = "flush-every=\"" + std::to_string(r.range(1, 60)) + "\"";
    if (r.flip(0.3))
      in.spec.profilingAttrs += " synchronize=\"true\"";
  }
  in.env  = gen::makeEnv(r, in.spec.nodes(), r.flip(0.2) ? 1 : 2);
  in.seed = r.next();
  if (r.flip(0.2))
    setMultihost(in);
  c.runs.push_back(in);
}
static Verdict checkC05(const Case &c, const Results &R, Stats &st)
{
  if (accelGaveUp(R.outs[0])) {
    st.add("acceleration gave up");
    return {};
  }
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  for (auto &n : R.outs[0].nodes)
    for (auto &l : n.left)
      return failed("left:" + strip(l, 40), n.name + " ended with " + l);
  for (auto &f : R.snaps[0])
    if (f.first.find("precice-run/") != std::string::npos && f.first.find("precice-run/") + 12 < f.first.size())
      return failed("left-files", "left after the run: " + f.first);
  st.add("processes ended cleanly", R.outs[0].nodes.size());
  return {};
}

// ------------------------------------------------------------------ C06: failures of other processes
// C is the reference without the fault (run 0), run 1 has the fault
static void makeC06(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.nnOnly      = r.flip(0.7);
  o.socketsOnly = true;
  o.maxNodes    = 6;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  for (auto &m : in.spec.m2ns)
    m.type = "sockets";
  for (auto &p : in.spec.parts) {
    if (p.size > 1)
      p.intra = in.spec.m2ns[0].twoLevel ? "" : "sockets";
    // the implicit finalization while unwinding communicates between ranks and may fail again (DESIGN.md)
    p.onError = p.api == "cpp" && p.size == 1 && r.flip(0.7) ? "unwind" : "abort";
    p.ownMpi  = 0;
  }
  if (in.spec.m2ns[0].twoLevel) // needs the MPI communication between the ranks, which has failure semantics of its own
    for (auto &p : in.spec.parts)
      if (p.size > 1) {
        p.intra = "sockets";
        in.spec.m2ns[0].twoLevel = 0;
      }
  if (r.flip(0.3))
    gen::addAccel(r, in.spec, 1);
  in.spec.waitInFinalize = r.flip(0.2);
  if (in.spec.waitInFinalize)
    for (auto &p : in.spec.parts)
      p.onError = "abort";
  reactive(r, in.spec);
  in.env      = gen::makeEnv(r, in.spec.nodes(), 1);
  in.env.peintr = in.env.peintr;
  in.seed     = r.next();
  in.dir      = 0;
  run::In b   = in;
  b.dir       = 1;
  b.maxSteps  = 200000;
  in.env      = sim::Env(); // calm reference
  c.runs.push_back(in);
  sim::Fault f;
  f.kind  = r.flip(0.75) ? "crash" : "reset";
  f.node  = int(r.below(uint64_t(in.spec.nodes())));
  f.api   = int(r.below(r.flip(0.5) ? 12 : 60));
  f.steps = int(r.below(r.flip(0.5) ? 40 : 400));
  b.env.faults.push_back(f);
  if (r.flip(0.15)) {
    f.node = int(r.below(uint64_t(in.spec.nodes())));
    f.api  = int(r.below(40));
    b.env.faults.push_back(f);
  }
  c.runs.push_back(b);
}
// what the processes did in a run in which some of them failed: nothing wrong, no crash, no endless waiting
Verdict survivors(const Spec &s, const run::Out &o, const run::Out &ref, Stats &st)
{
  // what every process did before the end is what it did without the fault
  for (size_t n = 0; n < o.nodes.size(); ++n) {
    auto d = diffNode(o.nodes[n], ref.nodes[n], true);
    if (!d.empty())
      return failed("wrong-data-after-failure", d + " (fault or without)");
  }
  for (auto &n : o.nodes) {
    if (n.dead && (n.kind == "signal" || (n.kind == "abort" && n.text.find("Error") == std::string::npos && s.parts[size_t(n.part)].api == "cpp")))
      return failed("crash:" + n.kind + ":" + strip(n.text, 80), n.name + " died (" + n.kind + "): " + n.text + " | " + (o.log.size() > 400 ? o.log.substr(o.log.size() - 400) : o.log));
    auto out = n.outcome();
    if (!out.empty() && out != "ok" && !n.error())
      return failed("exception:" + strip(out, 80), n.name + ": " + out);
    if (n.dead && n.kind == "crash")
      st.add("crashed processes");
    else if (n.ok())
      st.add("survivors that finished");
    else
      st.add("survivors that reported an error");
  }
  if (o.end != "done") {
    // a process may wait for the connection information of a process that is gone, and others for that process
    bool init = false;
    for (auto &n : o.nodes)
      if (!n.dead && !n.done)
        init = init || (!n.apis.empty() && (n.apis.back() == "initialize" || n.apis.back() == "construct"));
    if (init) {
      st.add("survivors waiting for connection information");
      return {};
    }
    return failed("no-progress:" + o.end, o.end + ": " + o.endText.substr(0, 1500));
  }
  return {};
}
static Verdict checkC06(const Case &c, const Results &R, Stats &st)
{
  if (accelGaveUp(R.outs[0]))
    return {};
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  auto &o   = R.outs[1];
  auto &ref = R.outs[0];
  if (o.status == 1)
    return failed("process-died", o.text);
  if (o.status == 2)
    return failed("spin", o.text);
  if (!o.simErrors.empty())
    return failed("environment-contract:" + strip(o.simErrors[0], 60), o.simErrors[0]);
  bool fired = o.fired.count("crash") || o.fired.count("reset");
  if (!fired) {
    st.add("fault came after the end");
    return mustSucceed(c.runs[1], o);
  }
  return survivors(c.runs[1].spec, o, ref, st);
}

void addProps2(std::vector<Prop> &p)
{
  p.push_back({"C04", "the same coupled simulation under two or three schedules and environments", makeC04, checkC04, true, false});
  p.push_back({"C05", "a random coupled simulation in a hostile environment", makeC05, checkC05, true, false});
  p.push_back({"C06", "a coupled simulation with and without a process crash or connection loss", makeC06, checkC06, false, true});
}
} // namespace core
