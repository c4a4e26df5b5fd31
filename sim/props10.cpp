// C08: what the constraints of mappings promise.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
typedef std::vector<double> VD;

static void linearData(Spec &s, int m1)
{
  for (int d : s.meshes[size_t(m1)].data)
    s.datas[size_t(d)].kind = 1;
}
// nearest projection, cells, gradients on a mesh with elements
static void elements(Rng &r, Spec &s)
{
  richMaps(r, s, true);
  for (auto &p : s.parts)
    for (auto &m : p.maps)
      if (m.type == "nearest-neighbor-gradient") {
        if (model::meshOp(s, m).tol < 0) // too few vertices
          m.type = "nearest-neighbor";
        else
          linearData(s, m.from);
      }
}
// bumpy surfaces, loose triangles, edges and vertices, and points anywhere around them whose projections are clear
static bool surface(Rng &r, Spec &s, bool par)
{
  for (int t = 0; t < 20; ++t) {
    std::vector<Mesh> all(1, s.meshes[0]);
    Mesh             &A = all[0];
    int               dim = A.dim, n;
    bool              soup = dim == 2 || r.flip(0.5);
    if (soup) {
      n = r.range(3, 10);
      A.pts.assign(1, {});
      A.conn.assign(1, {});
      for (int i = 0; i < n * dim; ++i)
        A.pts[0].push_back(1.8 * r.unit());
    } else {
      gen::gridMesh(r, A, 1, r.range(4, 9));
      auto &p = A.pts[0];
      n       = int(p.size()) / 3;
      for (int i = 0; i < n; ++i)
        p[size_t(i * 3 + 2)] = r.unit();
    }
    auto &C = A.conn[0];
    auto  at = [&] { return int(r.below(uint64_t(n))); };
    for (int k = soup ? r.range(dim == 2, 4) : r.range(0, 2); k > 0; --k) {
      int a = at(), b = at();
      if (a != b)
        C.edges.insert(C.edges.end(), {a, b});
    }
    for (int k = dim == 3 && soup ? r.range(1, 5) : 0; k > 0; --k) {
      int a = at(), b = at(), c = at();
      if (a != b && b != c && a != c)
        C.tris.insert(C.tris.end(), {a, b, c});
    }
    if (!gen::hasElements(A))
      continue;
    bool ok = true;
    for (size_t i = 1; i < s.meshes.size() && ok; ++i) {
      Mesh b = s.meshes[i];
      b.pts.assign(1, {});
      b.conn.assign(1, {});
      for (int k = r.range(1, 10); k > 0; --k)
        for (int q = 0; q < 60; ++q) {
          VD x;
          for (int d = 0; d < dim; ++d)
            x.push_back(2.2 * r.unit() - 0.2);
          if (!model::clearProjection(A, x.data(), 4, par ? 1 : 4, par))
            continue;
          b.pts[0].insert(b.pts[0].end(), x.begin(), x.end());
          break;
        }
      ok = !b.pts[0].empty();
      if (ok)
        ok = gen::uniqueNearest(b.pts[0], A.pts[0], dim, 1e-3) && gen::uniqueNearest(A.pts[0], b.pts[0], dim, 1e-3);
      for (size_t o = 1; o < all.size(); ++o)
        ok = ok && gen::uniqueNearest(b.pts[0], all[o].pts[0], dim, 1e-3) && gen::uniqueNearest(all[o].pts[0], b.pts[0], dim, 1e-3);
      all.push_back(b);
    }
    if (!ok)
      continue;
    s.meshes = all;
    return true;
  }
  return false;
}
static void scaled(Rng &r, Spec &s)
{
  bool any = r.flip(0.5) && gen::elementGeometry(r, s, 12);
  if (!any) { // elements on both meshes
    int dim = s.meshes[0].dim, kind = dim == 2 ? int(r.below(2)) : 1 + int(r.below(2)), n = r.range(4, 12);
    for (auto &m : s.meshes)
      gen::gridMesh(r, m, kind, std::max(4, n + r.range(-3, 3)));
  }
  auto &A = s.meshes[0].conn[0];
  auto &B = s.meshes[1];
  int   dim = B.dim, nb = int(B.pts[0].size()) / dim;
  bool  tris = !A.tris.empty() || !A.tets.empty(), tets = !A.tets.empty();
  if (any) { // any elements on the other mesh
    auto &C = B.conn[0];
    C       = Conn();
    for (int i = 0; i + 1 < nb; ++i)
      C.edges.insert(C.edges.end(), {i, i + 1});
    for (int i = 0; i + 2 < nb; ++i)
      C.tris.insert(C.tris.end(), {i, i + 1, i + 2});
    if (nb < 3)
      tris = false, C.tris.clear();
    tets = false;
  }
  bool surface = dim == 2 ? any ? nb > 1 : true : tris, volume = dim == 2 ? tris : tets;
  for (auto &p : s.parts)
    for (auto &m : p.maps) {
      m.type  = "nearest-neighbor";
      m.attrs = m.inner = "";
      bool vol     = volume && (!surface || r.flip(0.5));
      m.constraint = !vol && !surface ? "consistent" : vol ? "scaled-consistent-volume" : "scaled-consistent-surface";
      int k        = int(r.below(3));
      if (any && m.from == 0 && k == 0 && !vol && A.tets.empty())
        m.type = "nearest-projection";
      else if (any && m.from == 0 && k == 1 && m.constraint != "scaled-consistent-surface" && (dim == 2 ? !A.tris.empty() : !A.tets.empty()))
        m.type = "linear-cell-interpolation";
      else if (k == 2) {
        m.type  = "rbf-global-direct";
        m.attrs = "polynomial=\"separate\"";
        m.inner = "<basis-function:compact-polynomial-c4 support-radius=\"30\" />";
        if (model::meshOp(s, m).tol < 0)
          m.type = "nearest-neighbor", m.attrs = m.inner = "";
        else
          linearData(s, m.from);
      }
    }
}
// a line of vertices, or a single one, coupled to a mesh in three dimensions
static void multiscale(Rng &r, Spec &s)
{
  bool   rad = r.flip(0.5);
  int    axis = int(r.below(3)), coarse = int(r.below(2)), n = rad ? r.range(1, 6) : 1, nf = r.range(n, 14);
  Mesh  &L = s.meshes[size_t(coarse)], &B = s.meshes[size_t(1 - coarse)];
  for (auto &m : s.meshes)
    m.dim = 3, m.conn.assign(1, {});
  for (auto &d : s.datas)
    d.vec = 0;
  VD at; // positions along the axis
  for (int i = 0; i < n; ++i)
    at.push_back(i + 0.3 * (2 * r.unit() - 1));
  VD sorted = at;
  for (int i = n - 1; i > 0; --i)
    if (r.flip(0.6))
      std::swap(at[size_t(i)], at[size_t(r.below(uint64_t(i + 1)))]);
  double off[3] = {r.unit(), r.unit(), r.unit()};
  L.pts.assign(1, {});
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < 3; ++d)
      L.pts[0].push_back(d == axis ? at[size_t(i)] : off[d]);
  B.pts.assign(1, {});
  double far = 0;
  for (int i = 0; i < nf; ++i) {
    double x;
    do {
      x         = (i < n ? at[size_t(i)] : (n - 1) * r.unit()) + 0.3 * (2 * r.unit() - 1);
      bool ok   = true;
      for (int k = 0; k + 1 < n; ++k)
        ok = ok && std::fabs(x - (sorted[size_t(k)] + sorted[size_t(k + 1)]) / 2) > 1e-3;
      int near = 0;
      for (int k = 1; k < n; ++k)
        if (std::fabs(at[size_t(k)] - x) < std::fabs(at[size_t(near)] - x))
          near = k;
      if (ok && (i >= n || near == i))
        break;
    } while (true);
    double d2 = 0;
    for (int d = 0; d < 3; ++d) {
      double v = d == axis ? x : off[d] + (2 * r.unit() - 1);
      B.pts[0].push_back(v);
      d2 += (v - (d == axis ? at[0] : off[d])) * (v - (d == axis ? at[0] : off[d]));
    }
    far = std::max(far, std::sqrt(d2));
  }
  s.experimental = 1;
  char buf[40];
  snprintf(buf, sizeof buf, "%.17g", rad ? 1.0 : far * (1 + r.unit()));
  for (auto &p : s.parts)
    for (auto &m : p.maps) {
      bool spread  = m.from == coarse;
      m.constraint = "consistent";
      m.inner      = "";
      m.type       = rad ? "radial-geometric-multiscale" : "axial-geometric-multiscale";
      m.attrs      = std::string("multiscale-type=\"") + (spread ? "spread" : "collect") + "\" multiscale-axis=\"" + char('x' + axis) + "\" multiscale-radius=\"" + buf + "\"";
      if (!rad) {
        int k = int(r.below(4));
        m.attrs += std::string(" multiscale-dimension=\"") + (k == 3 ? "1d-2d" : "1d-3d") + "\" multiscale-cross-section-profile=\"" + (k == 0 ? "uniform" : "parabolic") + "\" multiscale-cross-section=\"" + (k == 2 ? "square" : "circle") + "\"";
      }
    }
}
// multiplication with and division by the area of each vertex
static void actions(Rng &r, Spec &s)
{
  int dim = s.meshes[0].dim, n = r.range(4, 12);
  for (auto &m : s.meshes)
    gen::gridMesh(r, m, dim == 2 ? int(r.below(2)) : 1, std::max(4, n + r.range(-3, 3)));
  // Samples which stay, such as the one at the start of a window, are processed again in every advance
  // (probe), hence only data which is written, without its substeps.
  for (size_t p = 0; p < s.parts.size(); ++p)
    for (auto &rw : s.parts[p].writes) {
      if (r.flip(0.3))
        continue;
      Action a;
      a.type   = r.flip(0.5) ? "multiply-by-area" : "divide-by-area";
      a.timing = "write-mapping-post";
      a.target = rw.data;
      a.mesh   = rw.mesh;
      for (auto &c : s.schemes) // on the mesh which is sent
        for (auto &e : c.exchanges)
          if (e.data == rw.data && e.from == int(p))
            a.mesh = e.mesh;
      s.parts[p].actions.push_back(a);
    }
  for (auto &p : s.parts) // without subcycling
    p.dts = {1.0};
  for (auto &c : s.schemes)
    for (auto &e : c.exchanges)
      e.substeps = 0;
  for (auto &d : s.datas)
    d.degree = 0;
}
// A fixed simulation with a known finding: a read action on received data without read mapping, several windows.
static void actionsProbe(Case &c)
{
  gen::Opt o;
  o.parts      = 2;
  o.serialOnly = true;
  o.implicit   = 0;
  o.nnOnly     = true;
  o.minPts     = 4;
  o.maxPts     = 6;
  run::In in;
  for (uint64_t k = 1; k < 10000; ++k) {
    Rng q(k);
    in.spec = gen::makeSpec(q, o);
    auto &s = in.spec;
    if (s.schemes.size() != 1 || s.schemes[0].type != "serial-explicit" || s.schemes[0].second != 1 || s.schemes[0].maxWindows < 3 || s.parts[1].reads.empty() || s.datas[size_t(s.parts[1].reads[0].data)].degree != 1)
      continue;
    bool mapped = false;
    for (auto &m : s.parts[1].maps)
      mapped = mapped || !m.write;
    if (mapped)
      continue;
    for (auto &m : s.meshes)
      gen::gridMesh(q, m, m.dim == 2 ? 0 : 1, 6);
    Action a;
    a.type   = "divide-by-area";
    a.timing = "read-mapping-post";
    a.target = s.parts[1].reads[0].data;
    a.mesh   = s.parts[1].reads[0].mesh;
    s.parts[1].actions.push_back(a);
    break;
  }
  Rng q(1);
  gen::links(q, in.spec, false);
  c.kind = "probe:actions-repeated";
  c.runs.push_back(in);
}
static void makeC08(Rng &r, Maker &m, Case &c)
{
  if (c.seed == 0)
    return actionsProbe(c);
  gen::Opt o;
  o.parts        = 2;
  o.serialOnly   = true;
  o.dup          = false;
  o.minPts       = 2;
  o.maxPts       = m.tier == "thorough" && r.flip(0.3) ? 24 : 12;
  int v          = int(r.below(20));
  bool el = v < 8, sc = v >= 8 && v < 11, ms = v >= 11 && v < 13, ac = v == 13, rb = v >= 14;
  o.nnOnly       = !rb;
  o.parallelMaps = (el || rb) && r.flip(0.7);
  run::In in;
  in.spec = gen::makeSpec(r, o);
  bool par     = false;
  auto allowed = [&] { // the constraints parallel participants may use
    bool ok = true;
    for (auto &p : in.spec.parts)
      for (auto &q : p.maps)
        ok = ok && q.write == (q.constraint == "conservative");
    return ok;
  };
  c.kind = el ? "elements" : sc ? "scaled" : ms ? "multiscale" : ac ? "actions" : "rbf";
  bool any = el && r.flip(0.4), anyPar = r.flip(0.6);
  if (any && surface(r, in.spec, anyPar)) {
    c.kind = "surface";
    elements(r, in.spec);
    for (auto &p : in.spec.parts)
      for (auto &q : p.maps)
        if (q.type == "nearest-neighbor" && gen::hasElements(in.spec.meshes[size_t(q.constraint == "conservative" ? q.to : q.from)]))
          q.type = "nearest-projection";
    par = allowed() && anyPar;
  } else if (el) {
    if (gen::elementGeometry(r, in.spec, 16)) {
      elements(r, in.spec);
      par = allowed() && r.flip(0.8);
    }
  } else if (sc)
    scaled(r, in.spec);
  else if (ms)
    multiscale(r, in.spec);
  else if (ac)
    actions(r, in.spec);
  else {
    if (r.flip(0.5))
      rbfMaps(r, in.spec);
    for (auto &p : in.spec.parts)
      for (auto &q : p.maps)
        if (q.attrs.find("off") != std::string::npos)
          q.attrs = "polynomial=\"separate\"";
    if (r.flip(0.3)) // partition of unity: constants
      for (auto &p : in.spec.parts) {
        p.api = "cpp"; // the other bindings end the process
        for (auto &q : p.maps) {
          q.type  = "rbf-pum-direct";
          q.inner = "<basis-function:compact-polynomial-c2 support-radius=\"8\" />";
          q.attrs = std::string("polynomial=\"separate\" project-to-input=\"") + (r.flip(0.5) ? "true" : "false") + "\" vertices-per-cluster=\"" + std::to_string(r.range(2, 12)) + "\" relative-overlap=\"0." + std::to_string(r.range(1, 5)) + "\"";
          for (int d : in.spec.meshes[size_t(q.from)].data)
            in.spec.datas[size_t(d)].kind = 2;
        }
      }
    par = allowed() && r.flip(0.85);
  }
  if (r.flip(0.3))
    gen::addAccel(r, in.spec, 1);
  if (par) {
    gen::PartOpt po;
    po.allowEmpty = el || r.flip(0.3);
    gen::partition(r, in.spec, po);
  } else
    gen::links(r, in.spec, false);
  for (auto &p : in.spec.parts) {
    p.permute = r.flip(0.5) ? int(1 + r.below(1000)) : 0;
    p.single  = r.flip(0.2);
  }
  pickEnv(r, in);
  c.runs.push_back(in);
  c.par["parallel"] = par;
}
static Verdict checkC08(const Case &c, const Results &R, Stats &st)
{
  st.add("cases with " + c.kind + (c.get("parallel") ? " in parallel" : ""));
  for (auto &p : c.runs[0].spec.parts)
    for (auto &m : p.maps)
      if (m.type == "rbf-pum-direct")
        for (auto &n : R.outs[0].nodes)
          if ((n.outcome() + n.text + R.outs[0].log).find("could not be assigned to any cluster") != std::string::npos || (n.outcome() + n.text).find("Too many vertices have been filtered out") != std::string::npos ||
              n.outcome().find("all ranks are empty") != std::string::npos) {
            st.add("geometry without clusters near a vertex");
            return {};
          }
  Verdict v = checkModel(c, R, st, {"read", "trace"}, true);
  if (c.kind.compare(0, 6, "probe:") == 0 && v.bad())
    v.sig = c.kind + ":" + v.sig;
  return v;
}
void addProps10(std::vector<Prop> &p)
{
  p.push_back({"C08", "random coupled simulation with mappings of all types and constraints on random geometry, partitions and schedules; every value read is compared with an independent reference of the mapping", makeC08, checkC08, false, false});
}
} // namespace core
