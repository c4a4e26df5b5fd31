// C09: acceleration, iteration and convergence logs.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>

using namespace spec;
namespace core {
namespace {
typedef std::vector<double> VD;

void makeC09(Rng &r, Maker &m, Case &c)
{
  run::In in;
  for (int tries = 0; tries < 20; ++tries) {
    gen::Opt o;
    o.nnOnly   = true;
    o.implicit = 1;
    o.maxRanks = 3;
    o.minPts   = r.flip(0.2) ? 1 : 5;
    o.maxPts   = 14;
    in         = run::In();
    in.spec    = gen::makeSpec(r, o);
    bool any   = false;
    for (auto &s : in.spec.schemes)
      any = any || s.implicit();
    if (any)
      break;
  }
  auto &s = in.spec;
  // small gaps between the iterates make a sharp difference: more iterations than elsewhere
  for (auto &x : s.schemes)
    if (x.implicit() && r.flip(0.5))
      x.maxIter = std::max(x.maxIter, r.range(3, 9));
  if (r.flip(0.9))
    gen::addAccel(r, s, r.flip(0.15) ? 1 : 2);
  else
    reactive(r, s);
  for (auto &x : s.schemes)
    if (x.accel.type.compare(0, 3, "IQN") == 0) {
      x.accel.enforce = r.flip(0.25) && x.accel.type == "IQN-ILS"; // DESIGN.md: IMVJ
      if (r.flip(0.4) && x.accel.extra.find("RS-LS") == std::string::npos) { // one set of primary data and nothing reused: the update can be recomputed
        x.accel.data.resize(1);
        x.accel.scaling.resize(std::min<size_t>(1, x.accel.scaling.size()));
        x.accel.reused = 0;
        x.accel.attrs  = "";
        if (r.flip(0.6))
          x.accel.filterLimit = x.accel.filter == "QR1-absolute" ? 1e-14 : 1e-10;
      }
    }
  in.dir = 0;
  bool iqn = false;
  for (auto &x : s.schemes)
    iqn = iqn || x.accel.type.compare(0, 3, "IQN") == 0;
  if (iqn && r.flip(0.5)) { // bounds close to the range of the values without bounds
    in.seed  = 1;
    auto out = m.pilot(in, nullptr);
    for (size_t d = 0; d < s.datas.size(); ++d) {
      if (s.datas[d].vec || r.flip(0.3))
        continue;
      double lo = INFINITY, hi = -INFINITY;
      for (auto &n : out.nodes)
        for (auto &e : n.ev)
          if (e.op == "write" && e.data == int(d))
            for (size_t i = 1; i < e.x.size(); ++i) {
              lo = std::min(lo, e.x[i]);
              hi = std::max(hi, e.x[i]);
            }
      if (!(lo < hi))
        continue;
      double w = (hi - lo) * (r.flip(0.15) ? -0.1 * r.unit() : 0.1 * r.unit() * r.unit());
      if (r.flip(0.7))
        s.datas[d].lo = lo - w;
      if (r.flip(0.7))
        s.datas[d].hi = hi + w;
    }
    const char *how[] = {"clamp", "discard", "scale", "ignore"};
    for (auto &x : s.schemes)
      if (x.accel.type.compare(0, 3, "IQN") == 0)
        x.accel.bounds = how[r.below(4)];
  }
  pickEnv(r, in);
  in.seed = r.next();
  c.runs.push_back(in);
}

bool table(const std::string &t, std::vector<std::string> &head, std::vector<VD> &rows)
{
  std::istringstream i(t);
  std::string        l;
  bool               first = true;
  while (std::getline(i, l)) {
    std::istringstream w(l);
    std::string        x;
    VD                 v;
    while (w >> x) {
      if (first)
        head.push_back(x);
      else {
        char  *e;
        double d = strtod(x.c_str(), &e);
        if (*e)
          return false;
        v.push_back(d);
      }
    }
    if (!first)
      rows.push_back(v);
    first = false;
  }
  return true;
}
std::string logs(const Spec &s, const model::Result &M, const Snap &snap, Stats &st)
{
  for (size_t p = 0; p < s.parts.size(); ++p) {
    const std::string &name = s.parts[p].name;
    auto               it = snap.find("precice-" + name + "-iterations.log"), cv = snap.find("precice-" + name + "-convergence.log");
    int                ci = -1;
    for (size_t i = 0; i < s.schemes.size(); ++i) {
      auto &x = s.schemes[i];
      if (x.implicit() && (x.first == int(p) || x.second == int(p) || std::find(x.parts.begin(), x.parts.end(), int(p)) != x.parts.end()))
        ci = int(i);
    }
    if (ci < 0) {
      if (it != snap.end() || cv != snap.end())
        return name + " without implicit coupling wrote logs of iterations";
      continue;
    }
    auto &x   = s.schemes[size_t(ci)];
    int   ctl = x.type == "multi" ? x.first : x.second;
    auto &SR  = M.schemes[size_t(ci)];
    if (it == snap.end())
      return name + " wrote no log of iterations";
    std::vector<std::string> head, want{"TimeWindow", "TotalIterations", "Iterations", "Convergence"};
    std::vector<VD>          rows;
    if (!table(it->second, head, rows))
      return it->first + " is malformed: " + it->second.substr(0, 300);
    bool qn = x.accel.type.compare(0, 3, "IQN") == 0 && ctl == int(p);
    if (head.size() < 4 || !std::equal(want.begin(), want.end(), head.begin()) || (!qn && head.size() != 4))
      return it->first + " has an unexpected header: " + it->second.substr(0, 200);
    // what this participant went through
    std::vector<int> its;
    for (auto &t : M.traces[p].steps)
      if (t.advanced && t.twc)
        its.push_back(t.k);
    if (rows.size() != its.size())
      return it->first + " has " + std::to_string(rows.size()) + " rows for " + std::to_string(its.size()) + " time windows";
    int total = 0;
    for (size_t w = 0; w < rows.size(); ++w) {
      total += its[w];
      bool conv = its[w] >= x.minIter && (x.maxIter <= 0 || its[w] < x.maxIter);
      if (rows[w].size() != head.size())
        return it->first + " row " + std::to_string(w + 1) + " has " + std::to_string(rows[w].size()) + " values instead of " + std::to_string(head.size());
      if (rows[w][0] != double(w + 1) || rows[w][1] != total || rows[w][2] != its[w] || rows[w][3] != double(conv))
        return it->first + " row " + std::to_string(w + 1) + " says window " + num(rows[w][0]) + ", total " + num(rows[w][1]) + ", iterations " + num(rows[w][2]) + ", convergence " + num(rows[w][3]) +
               "; the solver did " + std::to_string(its[w]) + " iterations, " + std::to_string(total) + " in total" + (conv ? "" : ", up to the limit");
      if (qn)
        for (size_t q = 4; q < head.size(); ++q)
          if (!(rows[w][q] >= 0) || rows[w][q] != std::floor(rows[w][q]) || (head[q] == "QNColumns" && rows[w][q] > x.accel.maxUsed))
            return it->first + " row " + std::to_string(w + 1) + ": " + head[q] + " is " + num(rows[w][q]) + " (at most " + std::to_string(x.accel.maxUsed) + ")";
      st.add("rows of iteration logs compared");
    }
    if (ctl != int(p)) {
      if (cv != snap.end())
        return name + " does not measure the convergence, but wrote " + cv->first;
      continue;
    }
    if (cv == snap.end())
      return name + " wrote no log of the convergence";
    std::vector<std::string> h2;
    std::vector<VD>          r2;
    if (!table(cv->second, h2, r2))
      return cv->first + " is malformed: " + cv->second.substr(0, 300);
    if (h2.size() != 2 + x.measures.size() || h2[0] != "TimeWindow" || h2[1] != "Iteration")
      return cv->first + " has an unexpected header: " + cv->second.substr(0, 200);
    for (size_t i = 0; i < x.measures.size(); ++i) {
      auto       &m = x.measures[i];
      std::string k = m.kind == "absolute" ? "Abs" : m.kind == "relative" ? "Rel" : m.kind == "residual-relative" ? "Drop" : "AbsOrRel";
      std::string e = "Res" + k + "(" + s.meshes[size_t(m.mesh)].name + ":" + s.datas[size_t(m.data)].name + ")";
      if (h2[2 + i] != e)
        return cv->first + ": column " + h2[2 + i] + " instead of " + e;
    }
    size_t row = 0;
    for (size_t w = 0; w < its.size(); ++w)
      for (int k = 1; k <= its[w]; ++k, ++row) {
        std::string at = cv->first + " row " + std::to_string(row + 1);
        if (row >= r2.size())
          return cv->first + " has " + std::to_string(r2.size()) + " rows for more iterations";
        auto &v = r2[row];
        if (v.size() != h2.size() || v[0] != double(w + 1) || v[1] != k)
          return at + " does not stand for iteration " + std::to_string(k) + " of window " + std::to_string(w + 1);
        if (w < SR.residuals.size() && size_t(k) <= SR.residuals[w].size())
          for (size_t i = 0; i < x.measures.size() && i < SR.residuals[w][size_t(k - 1)].size(); ++i) {
            double y = SR.residuals[w][size_t(k - 1)][i], z = v[2 + i];
            if (!std::isfinite(y)) // not modelled or divided by zero
              continue;
            if (x.measures[i].kind == "absolute-or-relative")
              continue; // either of the two
            // rounding of the iterates themselves
            double scale = model::dataScale(s, M.traces, x.measures[i].data);
            double slack = x.measures[i].kind == "absolute" ? 1e-7 * scale : 1e-5;
            if (!(std::fabs(y - z) <= 1e-5 * std::fabs(y) + slack))
              return at + ": " + h2[2 + i] + " is " + num(z) + ", but the values of this iteration have " + num(y);
            st.add("residuals compared");
          }
      }
    if (row != r2.size())
      return cv->first + " has " + std::to_string(r2.size()) + " rows for " + std::to_string(row) + " iterations";
  }
  return "";
}
Verdict checkC09(const Case &c, const Results &R, Stats &st)
{
  if (accelGaveUp(R.outs[0])) {
    st.add("acceleration gave up");
    return {};
  }
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  auto       &s = c.runs[0].spec;
  model::Opts op;
  for (auto &x : s.schemes)
    if (x.accel.type != "" && x.accel.type != "constant")
      op.fixedPointOnly = true;
  auto M = model::check(s, R.outs[0], op);
  st.add("steps compared", M.flagsChecked);
  st.add("accelerated values recomputed", M.accelChecked);
  st.add("reads within bounds", M.boundsChecked);
  for (auto &p : M.problems)
    if (p.cat != "read" || !op.fixedPointOnly)
      return failed("model:" + p.cat, p.text);
  auto e = logs(s, M, R.snaps[0], st);
  if (!e.empty())
    return failed("log:" + strip(e, 60), e);
  return {};
}
} // namespace
void addProps7(std::vector<Prop> &p)
{
  p.push_back({"C09", "implicit coupling with acceleration of solvers that react on what they read; iterates, convergence decisions and the logs of iterations and residuals are recomputed", makeC09, checkC09, true, false});
}
} // namespace core
