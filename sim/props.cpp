// The properties: generators of cases and oracles.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
std::string num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.12g", v);
  return b;
}
std::string strip(const std::string &s, size_t n)
{
  std::string r;
  for (size_t i = 0; i < s.size() && r.size() < n; ++i) {
    if (isdigit((unsigned char) s[i])) {
      if (r.empty() || r.back() != '#')
        r += '#';
    } else if (s[i] == '\n')
      break;
    else if (s[i] != '"' && s[i] != '\\')
      r += s[i];
  }
  return r;
}
Verdict failed(const std::string &sig, const std::string &text)
{
  return {sig, text};
}
static std::string tail(const std::string &s, size_t n) { return s.size() > n ? s.substr(s.size() - n) : s; }
Verdict            mustSucceed(const run::In &, const run::Out &o)
{
  if (o.status == 1)
    return failed("process-died", o.text + ": " + tail(o.log, 600));
  if (o.status == 2)
    return failed("spin", o.text);
  if (!o.simErrors.empty())
    return failed("environment-contract:" + strip(o.simErrors[0], 60), o.simErrors[0]);
  for (auto &n : o.nodes)
    if (n.dead && n.kind != "crash" && n.kind != "stop" && n.kind != "jobkill")
      return failed("crash:" + n.kind + ":" + strip(n.text, 80), n.name + " died (" + n.kind + "): " + n.text + " | " + tail(o.log, 400));
  for (auto &n : o.nodes)
    if (!n.outcome().empty() && n.outcome() != "ok")
      return failed("unexpected-error:" + strip(n.outcome(), 100), n.name + ": " + n.outcome());
  if (o.end != "done")
    return failed("no-progress:" + o.end, o.end + ": " + o.endText.substr(0, 1500));
  for (auto &n : o.nodes)
    if (!n.ok())
      return failed("not-finished", n.name + " did not finish: " + n.outcome() + " " + n.text);
  return {};
}

// ------------------------------------------------------------------ C01, C02: reference model
// every process on a host of its own: connections go through the external interface
void setMultihost(run::In &in)
{
  in.env.multihost = 1;
  for (auto &m : in.spec.m2ns)
    if (m.type == "sockets")
      m.attrs += " network=\"eth0\"";
  for (auto &p : in.spec.parts)
    if (p.intra == "sockets")
      p.intraAttrs += " network=\"eth0\"";
}
void pickEnv(Rng &r, run::In &in, bool hostile)
{
  double x = r.unit();
  in.env   = gen::makeEnv(r, in.spec.nodes(), x < 0.25 ? 0 : x < 0.8 || !hostile ? 1 : 2);
  in.seed  = r.next();
  if (r.flip(0.2))
    setMultihost(in);
}
// strict convergence measures: a window which ends without their convergence is an error
static const char *strictError = "strict convergence measure";
bool               hasStrictError(const run::Out &o)
{
  for (auto &n : o.nodes)
    if (n.outcome().find(strictError) != std::string::npos)
      return true;
  return o.log.find(strictError) != std::string::npos;
}
static void makeStrict(Rng &r, Maker &m, Case &c, run::In in, bool two)
{
  bool    any    = false;
  run::In strict = in;
  for (auto &x : strict.spec.schemes)
    if (x.implicit() && x.maxIter > 0) {
      int ctl = x.type == "multi" ? x.first : x.second;
      if (!two) // several measures which interact
        for (auto &e : x.exchanges) {
          bool used = false;
          for (auto &y : x.measures)
            used = used || y.data == e.data;
          if (used || (e.from != ctl && (e.to != ctl || x.type == "serial-implicit")) || r.flip(0.3))
            continue;
          Measure y;
          y.kind  = "absolute";
          y.data  = e.data;
          y.mesh  = e.mesh;
          y.limit = in.spec.datas[size_t(e.data)].base * std::pow(10.0, 1 - 3 * r.unit());
          x.measures.push_back(y);
        }
      for (auto &y : x.measures) {
        y.suffices = r.flip(0.5);
        y.strict   = r.flip(0.5);
        any        = any || y.strict;
      }
    }
  if (!any) {
    c.runs.push_back(in);
    return;
  }
  if (two) { // run 0 does without, run 1 is expected to fail or not
    for (auto &x : strict.spec.schemes)
      for (auto &y : x.measures)
        y.suffices = 0;
    in = strict;
    for (auto &x : in.spec.schemes)
      for (auto &y : x.measures)
        y.strict = 0;
    strict.dir = 1;
    c.kind     = "strict";
    c.runs     = {in, strict};
    return;
  }
  run::In pilot = strict;
  for (auto &p : pilot.spec.parts)
    p.api = "cpp";
  if (hasStrictError(m.pilot(pilot, nullptr)))
    for (auto &x : strict.spec.schemes)
      for (auto &y : x.measures)
        y.strict = 0;
  c.runs.push_back(strict);
}
static void makeModel(Rng &r, Maker &m, Case &c)
{
  gen::Opt o;
  if (r.flip(0.4))
    o.serialOnly = true;
  o.nnOnly = r.flip(0.6);
  if (m.tier == "thorough" && r.flip(0.3)) {
    o.maxWindows = 8;
    o.maxPts     = 25;
  }
  int strict = r.flip(0.25) ? r.flip(0.4) ? 2 : 1 : 0;
  if (strict == 2)
    o.socketsOnly = true;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  double x = r.unit();
  if (x < 0.6)
    gen::addAccel(r, in.spec, x < 0.45 ? 1 : 2);
  if (strict == 2) { // losing a peer is noticed with sockets only
    for (auto &y : in.spec.m2ns) {
      y.type     = "sockets";
      y.twoLevel = 0;
    }
    for (auto &p : in.spec.parts) {
      p.api     = "cpp"; // the other bindings end the process
      p.onError = p.size == 1 && r.flip(0.7) ? "unwind" : "abort";
      if (p.size > 1)
        p.intra = "sockets";
    }
  }
  pickEnv(r, in);
  if (strict) {
    makeStrict(r, m, c, in, strict == 2);
    return;
  }
  c.runs.push_back(in);
}
// quasi-Newton updates of (nearly) singular systems are reported as an error
bool accelGaveUp(const run::Out &o)
{
  for (auto &n : o.nodes)
    if (n.outcome().find("update contains NaN") != std::string::npos || n.outcome().find("All columns were removed") != std::string::npos)
      return true;
  return o.log.find("update contains NaN") != std::string::npos;
}
Verdict checkModel(const Case &c, const Results &R, Stats &st, const std::vector<std::string> &cats, bool values)
{
  if (accelGaveUp(R.outs[0])) {
    st.add("acceleration gave up");
    return {};
  }
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  model::Opts op;
  op.values = values;
  for (auto &s : c.runs[0].spec.schemes)
    if (s.accel.type != "" && s.accel.type != "constant")
      op.fixedPointOnly = true;
  auto M = model::check(c.runs[0].spec, R.outs[0], op);
  st.add("reads compared", M.readsChecked);
  st.add("steps compared", M.flagsChecked);
  st.add("ambiguous reads skipped", M.skipped);
  for (auto &p : M.problems)
    for (auto &k : cats)
      if (p.cat == k)
        return failed("model:" + p.cat, p.text);
  if (c.kind != "strict")
    return {};
  bool fails = false, unsure = false;
  for (size_t i = 0; i < M.schemes.size(); ++i) {
    auto &S = c.runs[1].spec.schemes[i];
    for (size_t w = 0; w < M.schemes[i].status.size(); ++w)
      for (size_t k = 0; k < M.schemes[i].status[w].size(); ++k)
        for (size_t q = 0; int(k) + 1 == S.maxIter && q < S.measures.size(); ++q)
          if (S.measures[q].strict) {
            int z  = q < M.schemes[i].status[w][k].size() ? M.schemes[i].status[w][k][q] : 2;
            fails  = fails || z == 0;
            unsure = unsure || z == 2;
          }
  }
  bool got = hasStrictError(R.outs[1]);
  if (got != fails && !(unsure && !fails))
    return failed(fails ? "model:strict" : "model:strict-too-early", fails ? "a time window ended although a strict convergence measure did not converge" : "strict convergence measures converged, but the simulation ended with an error");
  st.add(got ? "strict measures which end the simulation" : "strict measures without effect");
  if (got)
    return survivors(c.runs[1].spec, R.outs[1], R.outs[0], st);
  v = mustSucceed(c.runs[1], R.outs[1]);
  for (size_t n = 0; !v.bad() && n < R.outs[1].nodes.size(); ++n) {
    auto d = diffNode(R.outs[1].nodes[n], R.outs[0].nodes[n], false);
    if (!d.empty())
      return failed("strict-changes", d + " (with or without strict convergence measures)");
  }
  return v;
}
static Verdict checkC01(const Case &c, const Results &R, Stats &st) { return checkModel(c, R, st, {"read", "trace"}, true); }
static Verdict checkC02(const Case &c, const Results &R, Stats &st) { return checkModel(c, R, st, {"time", "flags", "lockstep", "trace", "convergence"}, false); }

const std::vector<Prop> &props()
{
  static const std::vector<Prop> p = [] {
    std::vector<Prop> p{
      {"C01", "random coupled simulation (participants, ranks, meshes, mappings, schemes, step sizes, bindings) in a random environment; every read is compared with the reference model", makeModel, checkC01, false, false},
      {"C02", "random coupled simulation in a random environment; every flag, step size and window is compared with the reference model", makeModel, checkC02, false, false},
    };
    addProps2(p);
    addProps3(p);
    addProps4(p);
    addProps5(p);
    addProps6(p);
    addProps7(p);
    addProps8(p);
    addProps9(p);
    addProps10(p);
    return p;
  }();
  return p;
}
const Prop *find(const std::string &id)
{
  for (auto &p : props())
    if (id == p.id)
      return &p;
  return nullptr;
}
} // namespace core
