// C03: partitions; C08: mappings in parallel.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
typedef std::vector<double> VD;
static bool rbf(const Map &m) { return m.type.find("rbf") == 0; }

// mappings other than nearest neighbour on the meshes of elementGeometry
void richMaps(Rng &r, Spec &s, bool conservativeToo)
{
  for (auto &p : s.parts)
    for (auto &m : p.maps) {
      bool cons = m.constraint == "conservative";
      auto &el  = s.meshes[size_t(cons ? m.to : m.from)];
      if (cons && !conservativeToo)
        continue;
      int k = int(r.below(5));
      if (k == 0 && !cons)
        m.type = "nearest-neighbor-gradient", s.experimental = 1;
      else if (k <= 2 && gen::hasElements(el) && el.conn[0].tets.empty())
        m.type = "nearest-projection";
      else if (k == 3 && gen::hasElements(el) && (el.dim == 2 ? !el.conn[0].tris.empty() : !el.conn[0].tets.empty()))
        m.type = "linear-cell-interpolation";
    }
}
void rbfMaps(Rng &r, Spec &s)
{
  for (auto &p : s.parts)
    for (auto &m : p.maps)
      if (rbf(m)) {
        const char *b[] = {"<basis-function:compact-polynomial-c2 support-radius=\"5\" />", "<basis-function:compact-polynomial-c4 support-radius=\"6\" />", "<basis-function:compact-tps-c2 support-radius=\"6\" />",
                           "<basis-function:thin-plate-splines />", "<basis-function:gaussian shape-parameter=\"1\" />", "<basis-function:volume-splines />"};
        int         k   = int(r.below(6));
        m.type          = "rbf-global-direct";
        m.inner         = b[k];
        m.attrs         = k == 3 || k == 5 ? (r.flip(0.5) ? "polynomial=\"separate\"" : "polynomial=\"on\"") : r.flip(0.7) ? "polynomial=\"separate\"" : "polynomial=\"off\"";
      }
}
static void react(Rng &r, Spec &s)
{
  for (auto &p : s.parts)
    if (r.flip(0.6)) {
      p.reactive = r.range(1, 2);
      p.gamma    = 0.2 + 0.4 * r.unit();
    }
}
// measures and accelerations that do not depend on how the data are distributed
static void partitionable(Spec &s)
{
  for (auto &c : s.schemes) {
    int  ctl = c.type == "multi" ? c.first : c.second;
    auto ok  = [&](int mesh) { return s.meshes[size_t(mesh)].owner == ctl && !gen::hasElements(s.meshes[size_t(mesh)]); };
    std::vector<Measure> ms;
    for (auto &m : c.measures)
      if (ok(m.mesh))
        ms.push_back(m);
    c.measures = ms;
    if (c.accel.type != "" && c.accel.type != "constant") {
      bool all = c.accel.type == "aitken";
      for (auto &d : c.accel.data)
        all = all && ok(d.mesh);
      if (!all) {
        c.accel       = Accel();
        c.accel.type  = "constant";
        c.accel.relax = 0.5;
      }
    }
  }
}
static void makeC03(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.serialOnly   = true;
  o.nnOnly       = r.flip(0.55);
  o.dup          = false;
  o.parallelMaps = true;
  o.minPts       = 2;
  o.maxPts       = 12;
  run::In in;
  in.spec  = gen::makeSpec(r, o);
  bool rb  = false;
  for (auto &p : in.spec.parts)
    for (auto &m : p.maps)
      rb = rb || rbf(m);
  if (rb) {
    rbfMaps(r, in.spec);
    if (r.flip(0.7)) // every vertex counts
      for (auto &d : in.spec.datas)
        d.kind = 0;
  }
  else if (in.spec.parts.size() == 2 && r.flip(0.6) && gen::elementGeometry(r, in.spec, 16))
    { // vertices on the boundaries of partitions are duplicated: only consistent mappings
      for (auto &p : in.spec.parts)
        for (auto &m : p.maps)
          if (m.constraint == "conservative")
            for (int q : {m.from, m.to})
              in.spec.meshes[size_t(q)].conn.assign(1, {});
      richMaps(r, in.spec, false);
    }
  if (r.flip(0.5))
    gen::addAccel(r, in.spec, r.flip(0.5) ? 1 : 2);
  react(r, in.spec);
  partitionable(in.spec);
  for (auto &p : in.spec.parts)
    for (int m : p.provides)
      if (r.flip(0.4) && (in.spec.meshes[size_t(m)].dim == 2 || !gen::hasElements(in.spec.meshes[size_t(m)]))) {
        Watch w;
        w.name = "w";
        w.mesh = m;
        VD  f  = gen::flat(in.spec.meshes[size_t(m)]);
        int d  = in.spec.meshes[size_t(m)].dim;
        size_t v = r.below(f.size() / size_t(d));
        for (int k = 0; k < d; ++k)
          w.at.push_back(f[v * size_t(d) + size_t(k)] + 0.07 * (2 * r.unit() - 1));
        p.watches.push_back(w);
      }
  in.dir = 0;
  for (auto &p : in.spec.parts)
    for (auto &x : p.receives) {
      x.filter = "no-filter";
      x.safety = -1;
    }
  for (auto &m : in.spec.m2ns)
    m.type = "sockets", m.gatherScatter = 0;
  in.seed   = r.next();
  run::In b = in;
  gen::PartOpt po;
  po.allowEmpty = !rb || r.flip(0.3);
  if (r.flip(0.15)) {
    po.maxRanks = 6;
    po.maxNodes = 12;
  }
  po.twoLevel = b.spec.parts.size() == 2 && r.flip(rb ? 0.4 : 0.15);
  gen::partition(r, b.spec, po);
  for (auto &p : b.spec.parts) {
    p.permute = r.flip(0.5) ? int(1 + r.below(1000)) : 0;
    p.single  = r.flip(0.2);
    p.ownMpi  = r.flip(0.5) ? 0 : r.range(1, 2);
  }
  b.dir = 1;
  b.env = gen::makeEnv(r, b.spec.nodes(), r.flip(0.3) ? 0 : 1);
  c.runs.push_back(in);
  c.runs.push_back(b);
}
static std::vector<const Ev *> relevant(const run::NodeOut &n)
{
  std::vector<const Ev *> v;
  for (auto &e : n.ev)
    if (e.op != "mesh" && e.op != "end" && e.op != "access")
      v.push_back(&e);
  return v;
}
// rows of numbers of a text file; false: not comparable
static std::vector<VD> table(const std::string &s)
{
  std::vector<VD> t;
  size_t          i = 0;
  while (i < s.size()) {
    size_t      e = s.find('\n', i);
    std::string l = s.substr(i, e == std::string::npos ? std::string::npos : e - i);
    VD          row;
    const char *q = l.c_str();
    for (;;) {
      char  *z;
      double d = strtod(q, &z);
      if (z == q)
        break;
      row.push_back(d);
      q = z;
    }
    t.push_back(row);
    if (e == std::string::npos)
      break;
    i = e + 1;
  }
  return t;
}
static Verdict checkC03(const Case &c, const Results &R, Stats &st)
{
  for (int i = 0; i < 2; ++i) {
    if (accelGaveUp(R.outs[size_t(i)])) {
      st.add("acceleration gave up");
      return {};
    }
    Verdict v = mustSucceed(c.runs[size_t(i)], R.outs[size_t(i)]);
    if (v.bad())
      return v;
  }
  const Spec &A = c.runs[0].spec, &B = c.runs[1].spec;
  bool        soft = false;
  for (auto &p : A.parts)
    for (auto &m : p.maps)
      soft = soft || rbf(m);
  // magnitude of each data
  std::vector<double> scale(A.datas.size(), 1e-12);
  for (auto &n : R.outs[0].nodes)
    for (auto &e : n.ev)
      if (e.data >= 0 && (e.op == "read" || e.op == "write"))
        for (size_t k = 1; k < e.x.size(); ++k)
          scale[size_t(e.data)] = std::max(scale[size_t(e.data)], std::fabs(e.x[k]));
  double smax = 0;
  for (double x : scale)
    smax = std::max(smax, x);
  bool mixes = false; // reactive solvers couple the data
  for (auto &p : A.parts)
    mixes = mixes || p.reactive;
  for (size_t p = 0; p < A.parts.size(); ++p) {
    auto &na = R.outs[0].nodes[size_t(A.nodeOf(int(p), 0))];
    auto  ea = relevant(na);
    for (int k = 0; k < B.parts[p].size; ++k) {
      auto       &nb = R.outs[1].nodes[size_t(B.nodeOf(int(p), k))];
      auto        eb = relevant(nb);
      std::string nm = A.parts[p].name + " rank " + std::to_string(k) + " of " + std::to_string(B.parts[p].size);
      if (ea.size() != eb.size())
        return failed("control-flow-depends-on-partition", nm + ": " + std::to_string(eb.size()) + " instead of " + std::to_string(ea.size()) + " events");
      for (size_t i = 0; i < ea.size(); ++i) {
        const Ev   &x  = *ea[i], &y = *eb[i];
        std::string at = nm + " event " + std::to_string(i) + " " + x.op;
        bool        val = x.op == "read" || x.op == "write";
        if (x.op != y.op || x.mesh != y.mesh || x.data != y.data || x.i != y.i || x.s != y.s || (val ? x.x[0] != y.x[0] : x.x != y.x))
          return failed("control-flow-depends-on-partition", at + ": other event, flags or times than on one rank (" + y.op + ")");
        if (x.op != "read")
          continue;
        auto &MA = A.meshes[size_t(x.mesh)], &MB = B.meshes[size_t(x.mesh)];
        int   dim = MA.dim, nc = A.dims(x.data, x.mesh);
        auto &pa = MA.pts[0], &pb = MB.pts[size_t(k)];
        if (y.x.size() != 1 + pb.size() / size_t(dim) * size_t(nc))
          return failed("size", at + ": " + std::to_string(y.x.size()) + " values");
        double tol = (soft ? 1e-5 : 1e-9) * (mixes ? smax : scale[size_t(x.data)]);
        for (size_t v = 0; v * size_t(dim) < pb.size(); ++v) {
          size_t w = 0;
          while (memcmp(&pa[w * size_t(dim)], &pb[v * size_t(dim)], sizeof(double) * size_t(dim)))
            ++w;
          st.add("values compared");
          for (int q = 0; q < nc; ++q) {
            double a = x.x[1 + w * size_t(nc) + size_t(q)], b = y.x[1 + v * size_t(nc) + size_t(q)];
            if (!(std::fabs(a - b) <= tol))
              return failed("values-depend-on-partition", at + " data " + A.datas[size_t(x.data)].name + " vertex " + std::to_string(v) + ": " + num(b) + " instead of " + num(a));
          }
        }
      }
    }
  }
  for (auto &f : R.snaps[0]) {
    if (f.first.find("watchpoint") == std::string::npos)
      continue;
    auto g = R.snaps[1].find(f.first);
    if (g == R.snaps[1].end())
      return failed("watchpoint", "no file " + f.first + " in parallel");
    auto a = table(f.second), b = table(g->second);
    if (a.size() != b.size())
      return failed("watchpoint", f.first + ": other number of lines in parallel");
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t k = 0; k < std::max(a[i].size(), b[i].size()); ++k)
        if (k >= a[i].size() || k >= b[i].size() || !(std::fabs(a[i][k] - b[i][k]) <= 1e-5 * std::max(1.0, smax)))
          return failed("watchpoint", f.first + " line " + std::to_string(i) + " column " + std::to_string(k) + " depends on the partition");
    st.add("watchpoint lines compared", a.size());
  }
  return {};
}
void addProps3(std::vector<Prop> &p)
{
  p.push_back({"C03", "a coupled simulation with participants on one rank each, and the same one with random partitions, filters and communication", makeC03, checkC03, true, false});
}
} // namespace core
