// C11: wrong use of the API.
#include "core.hpp"
#include <algorithm>

using namespace spec;
namespace core {
namespace {
enum { OK = 0, ERR = 1, ANY = 2, NEXT = 3 }; // NEXT: the error comes with a later call
struct Op {
  const char *op;
  int         constructed, setup, running, ended, finalized; // -1: not used there
};
// running: initialized, loop, written
const Op ops[] = {
    {"initialize", -1, -1, ERR, ERR, ERR},
    {"advance", ERR, ERR, -1, ERR, ERR},
    {"advance0", ERR, ERR, ERR, ERR, ERR},
    {"advance-neg", ERR, ERR, ERR, ERR, ERR},
    {"advance-nan", ERR, ERR, ERR, ERR, ERR},
    {"advance-inf", ERR, ERR, ERR, ERR, ERR},
    {"advance-toolarge", ERR, ERR, ERR, ERR, ERR},
    {"finalize", -1, -1, -1, -1, ERR},
    {"reqW", ERR, ERR, -1, -1, ERR},
    {"reqR", ERR, ERR, -1, -1, ERR},
    {"reqInit", -1, -1, ERR, ERR, ERR},
    {"ongoing", ERR, ERR, OK, OK, ERR},
    {"twc", ERR, ERR, OK, OK, ERR},
    {"maxdt", ERR, ERR, OK, OK, ERR},
    {"meshDim-unknown", ERR, ERR, ERR, ERR, ERR},
    {"dataDim-unknown", ERR, ERR, ERR, ERR, ERR},
    {"dataDim-unknownmesh", ERR, ERR, ERR, ERR, ERR},
    {"reqConn-unknown", ERR, ERR, ERR, ERR, ERR},
    {"vertex-unknown", ERR, ERR, ERR, ERR, ERR},
    {"vertex", -1, -1, ERR, ERR, ERR},
    {"vertex-dim", ERR, ERR, ERR, ERR, ERR},
    {"vertex-received", ERR, ERR, ERR, ERR, ERR},
    {"vertices-size", ERR, ERR, ERR, ERR, ERR},
    {"edge-bad", -1, ERR, ERR, ERR, ERR},
    {"edges-odd", -1, ERR, ERR, ERR, ERR},
    {"edges-bad", -1, ERR, ERR, ERR, ERR},
    {"tri-bad", -1, ERR, ERR, ERR, ERR},
    {"tris-bad", -1, ERR, ERR, ERR, ERR},
    {"quad-bad", -1, ERR, ERR, ERR, ERR},
    {"quads-bad", -1, ERR, ERR, ERR, ERR},
    {"tet-bad", -1, ERR, ERR, ERR, ERR},
    {"tets-bad", -1, ERR, ERR, ERR, ERR},
    {"tri-rep", -1, ERR, ERR, ERR, ERR},
    {"tris-rep", -1, ERR, ERR, ERR, ERR},
    {"quad-rep", -1, ERR, ERR, ERR, ERR},
    {"quads-rep", -1, ERR, ERR, ERR, ERR},
    {"tet-rep", -1, ERR, ERR, ERR, ERR},
    {"tets-rep", -1, ERR, ERR, ERR, ERR},
    {"meshSize-unknown", ERR, ERR, ERR, ERR, ERR},
    {"meshSize-received", ERR, ERR, ANY, ANY, ANY},
    {"write-unknown", ERR, ERR, ERR, ERR, ERR},
    {"write-unknowndata", ERR, ERR, ERR, ERR, ERR},
    {"write-badid", ERR, ERR, ERR, ERR, ERR},
    {"write-size", ERR, ERR, ERR, ERR, ERR},
    {"write-nan", ERR, ERR, ERR, ERR, ERR},
    {"write-readdata", ERR, ERR, ERR, ERR, ERR},
    {"read-unknown", ERR, ERR, ERR, ERR, ERR},
    {"read-unknowndata", ERR, ERR, ERR, ERR, ERR},
    {"read-badid", ERR, ERR, ERR, ERR, ERR},
    {"read-size", ERR, ERR, ERR, ERR, ERR},
    {"read-neg", ERR, ERR, ERR, ERR, ERR},
    {"read-toolarge", ERR, ERR, ERR, ERR, ERR},
    {"read-nan", ERR, ERR, ERR, ERR, ERR},
    {"read-writedata", ERR, ERR, ERR, ERR, ERR},
    {"read", ERR, ERR, -1, -1, ERR},
    {"write", -1, -1, -1, ERR, ERR},
    {"writeMap", ERR, ERR, ERR, ERR, ERR},
    {"readMap", ERR, ERR, ERR, ERR, ERR},
    {"region", ERR, ERR, ERR, ERR, ERR},
    {"region-provided", ERR, ERR, ERR, ERR, ERR},
    {"region-size", ERR, ERR, ERR, ERR, ERR},
    {"region-inverted", ERR, ERR, ERR, ERR, ERR},
    {"getVerts", ERR, ERR, ERR, ERR, ERR},
    {"getVerts-provided", ERR, ERR, ERR, ERR, ERR},
    {"grad", ANY, ANY, ANY, ANY, ERR},
    {"reset", ERR, ERR, ERR, ERR, ERR},
    {"reset-unknown", ERR, ERR, ERR, ERR, ERR},
    {"secStop", ERR, ERR, ERR, ERR, ERR},
    {"secStart", ERR, ERR, ERR, ERR, ERR},
    {"skip-reqInit", -1, NEXT, -1, -1, -1},
    {"skip-reqW", -1, -1, NEXT, -1, -1},
    {"skip-reqR", -1, -1, NEXT, -1, -1},
    {"dt-mismatch", -1, -1, NEXT, -1, -1},
};
const char *constructs[] = {"construct-rank", "construct-size", "construct-name", "construct-config", "construct-null"};
int         at(const Op &o, const std::string &st)
{
  return st == "constructed" ? o.constructed : st == "setup" ? o.setup : st == "ended" ? o.ended : st == "finalized" ? o.finalized : o.running;
}
bool has(const std::vector<RW> &v, const RW &x)
{
  for (auto &y : v)
    if (y.mesh == x.mesh && y.data == x.data)
      return true;
  return false;
}
} // namespace

static void makeC11(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.nnOnly      = r.flip(0.7);
  o.socketsOnly = true;
  o.maxNodes    = 6;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  for (auto &m : in.spec.m2ns) {
    m.type     = "sockets";
    m.twoLevel = 0;
  }
  if (r.flip(0.5))
    gen::addConnectivity(r, in.spec, 0.6);
  for (auto &p : in.spec.parts) {
    if (p.size > 1)
      p.intra = "sockets";
    p.api     = "cpp"; // the other bindings end the process by design
    p.onError = p.size == 1 && r.flip(0.7) ? "unwind" : "abort";
    p.ownMpi  = 0;
  }
  in.spec.experimental = r.flip(0.3);
  in.seed              = r.next();
  in.dir               = 0;
  in.env               = sim::Env();
  c.runs.push_back(in);
  run::In b  = in;
  b.env      = gen::makeEnv(r, in.spec.nodes(), 1);
  b.dir      = 1;
  b.maxSteps = 300000;
  int   n    = int(r.below(uint64_t(in.spec.nodes())));
  int   pi   = 0;
  while (pi + 1 < int(in.spec.parts.size()) && in.spec.nodeOf(pi + 1, 0) <= n)
    ++pi;
  Part &p    = b.spec.parts[size_t(pi)];
  Misuse m;
  m.rank = n - in.spec.nodeOf(pi, 0);
  m.arg  = int(r.below(4));
  if (r.flip(0.08)) {
    m.stage = "construct";
    m.op    = constructs[r.below(5)];
  } else {
    const char *st[] = {"constructed", "setup", "initialized", "loop", "loop", "written", "written", "ended", "finalized"};
    for (;;) {
      m.stage     = st[r.below(9)];
      const Op &x = ops[r.below(sizeof ops / sizeof *ops)];
      if (at(x, m.stage) < 0)
        continue;
      m.op = x.op;
      if ((m.op == "skip-reqW" && m.stage != "loop") || ((m.op == "skip-reqR" || m.op == "dt-mismatch") && m.stage != "written"))
        continue;
      if (m.op == "dt-mismatch" && p.size == 1)
        continue;
      break;
    }
    m.count = m.stage == "loop" || m.stage == "written" ? int(r.below(r.flip(0.5) ? 3 : 8)) : 0;
  }
  p.misuse.push_back(m);
  // connectivity calls do something only if a mapping asks for connectivity
  if (std::string("etq").find(m.op[0]) != std::string::npos && m.stage == "setup" && !p.provides.empty() && r.flip(0.8)) {
    int me = p.provides[0];
    for (run::In *x : {&c.runs[0], &b})
      for (auto &pt : x->spec.parts)
        for (auto &q : pt.maps)
        if (q.type == "nearest-neighbor" && (q.constraint == "conservative" ? q.to : q.from) == me)
          q.type = "nearest-projection";
  }
  c.kind = m.op + "@" + m.stage;
  c.runs.push_back(b);
}
static Verdict checkC11(const Case &c, const Results &R, Stats &st)
{
  if (accelGaveUp(R.outs[0]))
    return {};
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  const Spec   &s  = c.runs[1].spec;
  int           pi = -1;
  const Misuse *m  = nullptr;
  for (size_t i = 0; i < s.parts.size(); ++i)
    for (auto &x : s.parts[i].misuse) {
      pi = int(i);
      m  = &x;
    }
  if (!m) {
    st.add("cases without misuse");
    return {};
  }
  auto      &P   = s.parts[size_t(pi)];
  run::Out   o   = R.outs[1];
  auto      &bad = o.nodes[size_t(s.nodeOf(pi, m->rank))];
  auto      &ref = R.outs[0].nodes[size_t(s.nodeOf(pi, m->rank))];
  int        res = -1;
  size_t     pos = 0;
  std::string msg;
  for (size_t i = 0; i < bad.ev.size(); ++i)
    if (bad.ev[i].op == "misuse") {
      res = bad.ev[i].i[0];
      pos = i;
      msg = bad.ev[i].s;
      bad.ev.erase(bad.ev.begin() + long(i));
      break;
    }
  if (o.status == 1)
    return failed("process-died", o.text);
  if (o.status == 2)
    return failed("spin", o.text);
  if (!o.simErrors.empty())
    return failed("environment-contract:" + strip(o.simErrors[0], 60), o.simErrors[0]);
  std::string what = m->op + " at " + m->stage;
  bool        late = res == 2; // the error comes with a later call, if at all
  if (late) {
    // the omitted call matters if it had asked for something
    bool matters = false;
    auto next    = [&](const char *op) -> const Ev * {
      for (size_t i = pos; i < ref.ev.size(); ++i)
        if (ref.ev[i].op == op)
          return &ref.ev[i];
      return nullptr;
    };
    if (m->op == "skip-reqInit") {
      auto *e = next("reqInit");
      matters = e && e->i[0];
    } else if (m->op == "skip-reqW") {
      auto *e = next("step");
      matters = e && e->i[0];
    } else if (m->op == "skip-reqR") {
      auto *e = next("advanced");
      matters = e && e->i[2] && e->i[0];
    } else
      matters = true;
    bool reported = false;
    for (int r = 0; r < P.size; ++r) {
      auto &N  = o.nodes[size_t(s.nodeOf(pi, r))];
      reported = reported || (m->op == "dt-mismatch" || r == m->rank ? N.error() || (N.dead && N.kind == "crash") : false);
    }
    if (matters && !reported)
      return failed("accepted:" + m->op, bad.name + ": " + what + " was not reported (" + bad.outcome() + ")");
    if (!matters && reported)
      return failed("rejected:" + m->op, bad.name + ": " + what + " is allowed, but: " + bad.outcome());
    st.add(matters ? "omissions reported" : "omissions without effect");
    if (matters && bad.ev.size() > pos)
      bad.ev.resize(pos); // the flag itself is missing
    // the other ranks may have gone on with the diverging step or state until the error
    if (matters) {
      for (auto &N : o.nodes)
        if (N.dead && (N.kind == "signal" || (N.kind == "abort" && N.text.find("Error") == std::string::npos)))
          return failed("crash:" + N.kind + ":" + strip(N.text, 80), what + ": " + N.name + " died (" + N.kind + "): " + N.text);
    }
  } else if (res >= 0) {
    int want = ANY;
    if (m->stage == "construct")
      want = ERR;
    else
      for (auto &x : ops)
        if (m->op == x.op)
          want = at(x, m->stage);
    // cases in which the operation is not wrong after all
    bool conn = false, provides = !P.provides.empty();
    if (provides)
      for (auto &e : ref.ev)
        if (e.op == "mesh" && e.mesh == P.provides[0])
          conn = e.i[1];
    bool locked = m->stage != "constructed" && m->stage != "setup";
    for (const char *e : {"edge-bad", "edges-odd", "edges-bad", "tri-bad", "tris-bad", "quad-bad", "quads-bad", "tet-bad", "tets-bad", "tri-rep", "tris-rep", "quad-rep", "quads-rep", "tet-rep", "tets-rep"})
      if (m->op == e && !locked && !conn)
        want = ANY;
    if (m->op == "advance-toolarge" && P.ownWindow > 0)
      want = ANY;
    if (m->op == "read-toolarge" && P.ownWindow > 0)
      want = ANY;
    if (m->op == "write-readdata" && !P.reads.empty() && has(P.writes, P.reads[0]))
      want = ANY;
    if (m->op == "read-writedata" && !P.writes.empty() && has(P.reads, P.writes[0]))
      want = ANY;
    if (want == ERR && res != 1)
      return failed("accepted:" + m->op + "@" + m->stage, bad.name + ": " + what + " was accepted");
    if (want == OK && res != 0)
      return failed("rejected:" + m->op + "@" + m->stage, bad.name + ": " + what + " was rejected: " + msg);
    st.add(res == 1 ? "wrong calls rejected" : "odd calls accepted");
    if (res == 1 && msg.size() < m->op.size() + 10)
      return failed("no-message", what + " was rejected without a message");
  } else
    st.add("misuse not reached");
  if (res < 0 || (res == 0)) {
    // a call that was accepted changes nothing
    for (auto &N : o.nodes)
      if (N.dead && (N.kind == "signal" || (N.kind == "abort" && N.text.find("Error") == std::string::npos)))
        return failed("crash:" + N.kind + ":" + strip(N.text, 80), what + ": " + N.name + " died (" + N.kind + "): " + N.text + " | " + (o.log.size() > 400 ? o.log.substr(o.log.size() - 400) : o.log));
    bool any = m->op == "meshSize-received" || m->op == "grad" || (m->op.find("-bad") != std::string::npos && (m->op[0] == 'e' || m->op[0] == 't' || m->op[0] == 'q'));
    if (res == 0 && m->op == "grad")
      return {};
    (void) any;
    v = mustSucceed(c.runs[1], o);
    if (v.bad())
      return v;
    for (size_t n = 0; n < o.nodes.size(); ++n) {
      auto d = diffNode(o.nodes[n], R.outs[0].nodes[n], false);
      if (!d.empty())
        return failed("changed-by:" + m->op, d + " (with or without " + what + ")");
    }
    return {};
  }
  return survivors(s, o, R.outs[0], st);
}
void addProps6(std::vector<Prop> &p)
{
  p.push_back({"C11", "a coupled simulation with and without one wrong API call of one process at a seeded point", makeC11, checkC11, false, true});
}
} // namespace core
