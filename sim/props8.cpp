// C14: direct and just-in-time access to a received mesh.
#include "core.hpp"
#include <algorithm>
#include <cmath>

using namespace spec;
namespace core {
namespace {
typedef std::vector<double> VD;

double gap2(const double *a, const double *b, int dim)
{
  double s = 0;
  for (int d = 0; d < dim; ++d)
    s += (a[d] - b[d]) * (a[d] - b[d]);
  return s;
}
bool inBox(const double *x, const VD &b, int dim)
{
  for (int d = 0; d < dim; ++d)
    if (x[d] < b[size_t(2 * d)] || x[d] > b[size_t(2 * d + 1)])
      return false;
  return true;
}
VD inside(const VD &pts, const VD &box, int dim)
{
  std::vector<VD> v;
  for (size_t i = 0; i < pts.size(); i += size_t(dim))
    if (box.empty() || inBox(&pts[i], box, dim))
      v.push_back(VD(pts.begin() + long(i), pts.begin() + long(i) + dim));
  std::sort(v.begin(), v.end());
  VD o;
  for (auto &x : v)
    o.insert(o.end(), x.begin(), x.end());
  return o;
}
// box around the given points; some faces go exactly through a vertex
VD around(Rng &r, const VD &p, int dim)
{
  VD   b;
  bool point = r.flip(0.05);
  for (int d = 0; d < dim; ++d) {
    double lo = 1e300, hi = -1e300;
    for (size_t i = size_t(d); i < p.size(); i += size_t(dim))
      lo = std::min(lo, p[i]), hi = std::max(hi, p[i]);
    if (point && lo == hi) {
      b.insert(b.end(), {lo, hi});
      continue;
    }
    double e[] = {1e-9, 0.01, 0.3, 2};
    b.push_back(r.flip(0.15) && hi > lo ? lo : lo - e[r.below(4)]);
    b.push_back(r.flip(0.15) && hi > lo ? hi : hi + e[r.below(4)]);
  }
  return b;
}

enum { KEEP = 0, JIT = 1, DIRECT = 2 };

// turns the mappings of participant X into direct or just-in-time access; false: not possible here
bool convert(Rng &r, Spec &A, Spec &B, int X, bool mayDirect, bool linear, Case &c)
{
  Part &xa = A.parts[size_t(X)];
  if (xa.maps.empty() || xa.provides.size() != 1)
    return false;
  int  xm  = xa.provides[0];
  auto other = [&](const Map &m) { return m.write ? m.to : m.from; };
  // --- what becomes of each mapping
  std::vector<int> mode;
  int  target = other(xa.maps[r.below(xa.maps.size())]);
  bool direct = mayDirect && !linear && r.flip(0.5);
  bool any    = false;
  for (auto &m : xa.maps) {
    if (m.type != "nearest-neighbor" && !linear)
      return false;
    int k = r.flip(0.15) ? KEEP : direct && other(m) == target ? DIRECT : JIT;
    mode.push_back(k);
    any = any || k;
    if (k) {
      m.constraint = m.write ? "conservative" : "consistent";
      m.attrs.clear();
      m.inner.clear();
      m.type = "nearest-neighbor";
      if (linear) { // exact for linear functions, their sums and first moments
        const char *b[] = {"<basis-function:compact-polynomial-c0 support-radius=\"5\" />", "<basis-function:compact-polynomial-c4 support-radius=\"6\" />", "<basis-function:compact-tps-c2 support-radius=\"6\" />"};
        m.type          = "rbf-pum-direct";
        m.inner         = b[r.below(3)];
        m.attrs         = "polynomial=\"separate\" vertices-per-cluster=\"" + std::to_string(r.flip(0.5) ? 50 : r.range(20, 30)) + "\"";
        if (r.flip(0.5))
          m.attrs += " project-to-input=\"false\"";
        if (r.flip(0.5))
          m.attrs += " relative-overlap=\"" + num(0.15 + 0.5 * r.unit()) + "\"";
      }
    }
  }
  if (!any)
    return false;
  auto &MX = A.meshes[size_t(xm)];
  int   dim = MX.dim;
  if (direct) {
    for (auto &m : xa.maps) // the remaining ones need points in a general position
      if (other(m) != target && m.constraint == "conservative" && m.write == 0)
        return false;
    for (size_t q = 0; q < A.parts.size(); ++q) // several vertices with the same coordinates
      if (int(q) != X)
        for (auto &m : A.parts[q].maps)
          if ((m.to == xm && m.constraint == "conservative") || (m.from == xm && m.constraint == "conservative"))
            return false;
  }
  // --- access regions, one per received mesh and rank; only needless where a mapping to a mesh of the same serial participant remains
  auto mayOmit = [&](int o) {
    for (size_t i = 0; i < xa.maps.size(); ++i)
      if (mode[i] == KEEP && other(xa.maps[i]) == o)
        return true;
    return false;
  };
  bool parallel = xa.size > 1;
  std::map<int, std::vector<VD>> boxes;
  std::map<int, double>          margins;
  if (direct) {
    VD  T = gen::flat(A.meshes[size_t(target)]);
    int n = int(T.size()) / dim, total = 0;
    auto &bx = boxes[target];
    for (int k = 0; k < xa.size; ++k) {
      VD b, p;
      if (!parallel && mayOmit(target) && r.flip(0.6))
        b.clear();
      else if (parallel && r.flip(0.15))
        for (int d = 0; d < dim; ++d)
          b.insert(b.end(), {1000, 1001}); // nothing in there
      else {
        int cnt = r.range(1, std::max(1, n / 2));
        VD  q;
        for (int i = 0; i < cnt; ++i) {
          int v = int(r.below(uint64_t(n)));
          q.insert(q.end(), T.begin() + v * dim, T.begin() + (v + 1) * dim);
        }
        b = around(r, q, dim);
      }
      bx.push_back(b);
      MX.pts[size_t(k)] = inside(T, b, dim);
      total += int(MX.pts[size_t(k)].size());
    }
    MX.conn.assign(MX.pts.size(), {});
    if (!total)
      return false;
  }
  for (size_t i = 0; i < xa.maps.size(); ++i) {
    auto &m = xa.maps[i];
    if (m.type != "nearest-neighbor")
      continue;
    VD T = gen::flat(A.meshes[size_t(other(m))]), P = gen::flat(MX);
    // every participant maps without ambiguity
    bool onto = m.constraint == "conservative" ? m.write : !m.write; // own points look for vertices of the other mesh
    if (!(onto ? gen::uniqueNearest(P, T, dim, 1e-3) : gen::uniqueNearest(T, P, dim, 1e-3)))
      return false;
  }
  for (size_t q = 0; q < A.parts.size() && !linear; ++q)
    if (int(q) != X)
      for (auto &m : A.parts[q].maps)
        if (m.from == xm || m.to == xm) {
          VD I = gen::flat(A.meshes[size_t(m.from)]), O = gen::flat(A.meshes[size_t(m.to)]);
          if (!(m.constraint == "conservative" ? gen::uniqueNearest(I, O, dim, 1e-3) : gen::uniqueNearest(O, I, dim, 1e-3)))
            return false;
        }
  for (size_t i = 0; i < xa.maps.size(); ++i) {
    int o = other(xa.maps[i]);
    if (mode[i] != JIT || boxes.count(o))
      continue;
    VD    T  = gen::flat(A.meshes[size_t(o)]);
    auto &bx = boxes[o];
    bool  noBox = !parallel && mayOmit(o) && r.flip(0.6);
    // boxes around the points alone: the nearest vertices may lie outside, but within the safety margin
    bool   tight  = !linear && r.flip(0.5);
    double safety = !tight || r.flip(0.5) ? 0.5 : 0.1 + 1.5 * r.unit();
    std::vector<VD> tb;
    for (int k = 0; k < xa.size && tight; ++k) {
      auto &P = MX.pts[size_t(k)];
      VD    b, big;
      if (P.empty()) {
        for (int d = 0; d < dim; ++d)
          b.insert(b.end(), {1000, 1001});
        tb.push_back(b);
        continue;
      }
      b           = around(r, P, dim);
      double edge = 0;
      for (int d = 0; d < dim; ++d)
        edge = std::max(edge, b[size_t(2 * d + 1)] - b[size_t(2 * d)]);
      for (int d = 0; d < 2 * dim; ++d)
        big.push_back(b[size_t(d)] + (d % 2 ? 1 : -1) * (safety * edge - 1e-9));
      for (size_t v = 0; v < P.size() && parallel; v += size_t(dim)) {
        size_t best = 0;
        for (size_t w = 0; w < T.size(); w += size_t(dim))
          if (gap2(&P[v], &T[w], dim) < gap2(&P[v], &T[best], dim))
            best = w;
        tight = tight && inBox(&T[best], big, dim);
      }
      tb.push_back(b);
    }
    if (tight && !noBox) {
      bx          = tb;
      margins[o]  = safety;
      c.par["access regions around the points alone"] += 1;
      continue;
    }
    for (int k = 0; k < xa.size; ++k) {
      auto &P = MX.pts[size_t(k)];
      VD    q = P;
      for (size_t v = 0; v < P.size(); v += size_t(dim)) {
        size_t best = 0;
        for (size_t w = 0; w < T.size(); w += size_t(dim))
          if (gap2(&P[v], &T[w], dim) < gap2(&P[v], &T[best], dim))
            best = w;
        q.insert(q.end(), T.begin() + long(best), T.begin() + long(best) + dim);
      }
      if (noBox)
        bx.push_back({});
      else if (q.empty()) {
        VD b;
        if (r.flip(0.5)) {
          size_t w = r.below(T.size() / size_t(dim)) * size_t(dim);
          b        = around(r, VD(T.begin() + long(w), T.begin() + long(w) + dim), dim);
        } else
          for (int d = 0; d < dim; ++d)
            b.insert(b.end(), {1000, 1001});
        bx.push_back(b);
      } else {
        bx.push_back(around(r, q, dim));
        for (int d = 0; d < 2 * dim && linear; ++d) // enough vertices in general position
          bx.back()[size_t(d)] += d % 2 ? 2 : -2;
      }
    }
  }
  // both access the mesh, ranks that only use just-in-time mappings keep their region
  for (auto &b : boxes)
    if (direct && b.first == target)
      for (size_t i = 0; i < xa.maps.size(); ++i)
        if (mode[i] == JIT && other(xa.maps[i]) == target)
          return false;
  // --- no initial data written to a mesh that is not there before initialize
  auto modeOf = [&](int data, bool write) {
    for (size_t i = 0; i < xa.maps.size(); ++i)
      if (mode[i] && bool(xa.maps[i].write) == write) {
        auto &dm = A.meshes[size_t(other(xa.maps[i]))].data;
        for (auto &s : A.schemes)
          for (auto &e : s.exchanges)
            if (e.data == data && (write ? e.from : e.to) == X && e.mesh == other(xa.maps[i]) && std::count(dm.begin(), dm.end(), data))
              return mode[i] * 1000 + other(xa.maps[i]);
      }
    return 0;
  };
  for (auto &s : A.schemes)
    for (auto &e : s.exchanges)
      if (e.from == X && boxes.count(e.mesh))
        for (auto &f : s.exchanges)
          if (f.from == e.from && f.to == e.to)
            f.init = 0;
  auto order = [&](std::vector<RW> &v, bool write) {
    std::stable_sort(v.begin(), v.end(), [&](const RW &a, const RW &b) {
      int p = modeOf(a.data, write) / 1000 == JIT, q = modeOf(b.data, write) / 1000 == JIT;
      return p < q;
    });
  };
  order(xa.reads, false);
  order(xa.writes, true);
  for (auto &x : xa.receives) {
    x.filter = "no-filter";
    x.safety = -1;
  }
  // --- the second simulation
  std::vector<int> owners;
  for (auto &m : B.meshes)
    owners.push_back(m.owner);
  B.meshes = A.meshes;
  for (size_t i = 0; i < owners.size(); ++i)
    B.meshes[i].owner = owners[i];
  B.schemes = A.schemes;
  Part &xb  = B.parts[size_t(X)];
  xb.reads.clear();
  xb.writes.clear();
  xb.maps.clear();
  for (int wr = 0; wr < 2; ++wr)
    for (auto &e : wr ? xa.writes : xa.reads) {
      int k = modeOf(e.data, wr), o = k % 1000;
      if (k / 1000 == JIT) {
        Jit j;
        j.mesh  = o;
        j.data  = e.data;
        j.write = wr;
        j.pts   = A.meshes[size_t(xm)].pts;
        xb.jits.push_back(j);
      } else
        (wr ? xb.writes : xb.reads).push_back({k ? o : e.mesh, e.data});
      c.par[std::string(k / 1000 == JIT ? "jit" : k ? "direct" : "kept") + (wr ? " writes" : " reads")] += 1;
    }
  for (size_t i = 0; i < xa.maps.size(); ++i) {
    Map m = xa.maps[i];
    if (mode[i] == DIRECT)
      continue;
    if (mode[i] == JIT)
      (m.write ? m.from : m.to) = -1;
    xb.maps.push_back(m);
  }
  bool kept = false;
  for (size_t i = 0; i < mode.size(); ++i)
    kept = kept || !mode[i];
  for (auto &x : xb.receives) {
    x.filter = "no-filter";
    x.safety = -1;
    auto b   = boxes.find(x.mesh);
    if (b == boxes.end())
      continue;
    x.access = 1;
    x.boxes  = b->second;
    auto mg  = margins.find(x.mesh);
    if (mg != margins.end() && (mg->second != 0.5 || r.flip(0.5)))
      x.safety = mg->second;
    if (!kept) {
      const char *f[] = {"", "on-primary-rank", "on-secondary-ranks", "no-filter"};
      x.filter        = f[r.below(4)];
      if (mg == margins.end() && r.flip(0.4))
        x.safety = linear ? 1 : r.flip(0.3) ? 0 : 2 * r.unit();
    }
  }
  bool used = false;
  for (auto &e : xb.reads)
    used = used || e.mesh == xm;
  for (auto &e : xb.writes)
    used = used || e.mesh == xm;
  for (auto &m : xb.maps)
    used = used || m.from == xm || m.to == xm;
  for (auto &p : B.parts)
    for (auto &x : p.receives)
      used = used || x.mesh == xm;
  if (!used) {
    xb.provides.clear();
    B.meshes[size_t(xm)].owner = -1;
  }
  B.experimental = 1;
  return true;
}

void makeC14(Rng &r, Maker &, Case &c)
{
  for (int tries = 0;; ++tries) {
    c.runs.clear();
    c.par.clear();
    gen::Opt o;
    bool linear = r.flip(0.2);
    o.nnOnly   = !linear;
    o.dup      = false;
    o.maxRanks = 3;
    o.minPts   = linear ? 12 : 2;
    o.maxPts   = linear ? 40 : 12;
    o.parts    = r.flip(0.7) ? 2 : 3;
    if (tries > 40)
      o.serialOnly = true;
    run::In in;
    in.spec = gen::makeSpec(r, o);
    Spec &A = in.spec;
    if (linear) {
      bool all = true;
      for (auto &d : A.datas)
        all = all && d.kind == 1;
      for (auto &p : A.parts)
        for (auto &x : p.maps)
          all = all && x.type != "nearest-neighbor";
      if (!all)
        continue;
      for (auto &x : A.schemes)
        x.measures.clear();
      if (r.flip(0.5))
        gen::addAccel(r, A, 1);
      for (auto &p : A.parts) {
        p.reactive = 0;
        p.api      = "cpp"; // errors are reported
      }
    } else if (r.flip(0.5))
      gen::addAccel(r, A, r.flip(0.5) ? 1 : 2);
    for (auto &p : A.parts)
      if (!linear && r.flip(0.5)) {
        p.reactive = r.range(1, 2);
        p.gamma    = 0.2 + 0.4 * r.unit();
      }
    for (auto &m : A.m2ns)
      m.type = "sockets", m.gatherScatter = 0, m.twoLevel = 0;
    for (auto &p : A.parts)
      for (auto &x : p.receives) {
        x.filter = "no-filter";
        x.safety = -1;
      }
    run::In b  = in;
    Spec   &B  = b.spec;
    bool    ok = false, direct = true;
    std::vector<int> todo;
    for (size_t i = 0; i < A.parts.size(); ++i)
      todo.push_back(int(i));
    for (size_t i = todo.size(); i > 1; --i)
      std::swap(todo[i - 1], todo[r.below(i)]);
    for (int X : todo)
      if (!ok || r.flip(0.4)) {
        Spec a2 = A, b2 = B;
        auto par = c.par;
        if (convert(r, a2, b2, X, direct, linear, c)) {
          A      = a2;
          B      = b2;
          direct = false;
          ok     = true;
        } else
          c.par = par;
      }
    if (!ok)
      continue;
    for (size_t p = 0; p < A.parts.size(); ++p) // moving points
      if (!linear && !B.parts[p].jits.empty() && r.flip(0.4))
        A.parts[p].rotate = B.parts[p].rotate = r.range(2, 3);
    // both simulations measure and accelerate the same vertices
    for (Spec *s : {&A, &B})
      for (auto &x : s->schemes) {
        int  ctl  = x.type == "multi" ? x.first : x.second;
        auto same = [&](int mesh) { return s->meshes[size_t(mesh)].owner == ctl || A.parts[size_t(ctl)].size == 1; };
        std::vector<Measure> ms;
        for (auto &q : x.measures)
          if (same(q.mesh))
            ms.push_back(q);
        x.measures = ms;
        if (x.accel.type != "" && x.accel.type != "constant") {
          bool all = x.accel.type == "aitken";
          for (auto &d : x.accel.data)
            all = all && same(d.mesh);
          if (!all) {
            x.accel       = Accel();
            x.accel.type  = "constant";
            x.accel.relax = 0.5;
          }
        }
      }
    for (auto &p : B.parts) {
      p.permute = r.flip(0.5) ? int(1 + r.below(1000)) : 0;
      p.single  = r.flip(0.2);
      p.ownMpi  = p.size == 1 ? p.ownMpi : r.flip(0.5) ? 0 : r.range(1, 2);
    }
    int st2 = 0;
    for (auto &m : B.m2ns) {
      int k = int(r.below(10));
      m.type = k == 0 ? "mpi-multiple-ports" : "sockets";
      m.gatherScatter = r.flip(0.15);
      auto &pa = B.parts[size_t(m.acceptor)], &pb = B.parts[size_t(m.connector)];
      if (!linear && !m.gatherScatter && B.parts.size() == 2 && pa.size == 2 && pb.size == 2 && r.flip(0.5)) {
        bool kept = false; // two-level initialization always compares bounding boxes
        for (auto &p : B.parts)
          for (auto &q : p.maps)
            kept = kept || (q.from >= 0 && q.to >= 0);
        for (auto &p : B.parts)
          for (auto &x : p.receives)
            kept = kept || x.filter == "on-primary-rank";
        if (!kept) {
          m.twoLevel = 1;
          pa.intra = pb.intra = "";
          st2++;
        }
      }
    }
    c.par["two-level initialization"] = st2;
    in.dir  = 0;
    in.seed = r.next();
    b.dir   = 1;
    b.seed  = r.next();
    b.env   = gen::makeEnv(r, B.nodes(), r.flip(0.4) ? 0 : 1);
    c.runs  = {in, b};
    return;
  }
}
std::vector<const Ev *> values(const run::NodeOut &n)
{
  std::vector<const Ev *> v;
  for (auto &e : n.ev)
    if (e.op != "mesh" && e.op != "end" && e.op != "access")
      v.push_back(&e);
  return v;
}
Verdict checkC14(const Case &c, const Results &R, Stats &st)
{
  for (auto &o : R.outs) // partition of unity mappings may leave out vertices, which is an error of the configuration
    for (auto &n : o.nodes)
      for (auto &t : {n.outcome(), n.text})
        if (t.find("assigned to any cluster") != std::string::npos) {
          st.add("clusters do not cover the vertices");
          return {};
        }
  for (int i = 0; i < 2; ++i) {
    if (accelGaveUp(R.outs[size_t(i)])) {
      st.add("acceleration gave up");
      return {};
    }
    Verdict v = mustSucceed(c.runs[size_t(i)], R.outs[size_t(i)]);
    if (v.bad())
      return v;
  }
  const Spec &A = c.runs[0].spec, &B = c.runs[1].spec;
  for (auto &p : c.par)
    st.add(p.first, uint64_t(p.second));
  // --- what the participant sees of the mesh
  for (size_t p = 0; p < B.parts.size(); ++p)
    for (int k = 0; k < B.parts[p].size; ++k) {
      auto &n = R.outs[1].nodes[size_t(B.nodeOf(int(p), k))];
      for (auto &x : B.parts[p].receives) {
        if (!x.access)
          continue;
        int         dim = B.meshes[size_t(x.mesh)].dim, seen = 0;
        VD          want = inside(gen::flat(B.meshes[size_t(x.mesh)]), x.boxes[size_t(k)], dim);
        std::string nm   = n.name + " mesh " + B.meshes[size_t(x.mesh)].name;
        for (auto &e : n.ev)
          if (e.op == "access" && e.mesh == x.mesh) {
            seen++;
            std::set<int> ids(e.i.begin(), e.i.end());
            if (ids.size() != e.i.size() || (!ids.empty() && *ids.begin() < 0))
              return failed("vertex-ids", nm + ": vertex identifiers are not distinct and non-negative");
            VD got = inside(e.x, {}, dim);
            if (got != want)
              return failed("visible-vertices", nm + ": " + std::to_string(got.size() / size_t(dim)) + " vertices are visible, the access region contains " + std::to_string(want.size() / size_t(dim)) +
                                                    (got.size() == want.size() ? " others" : ""));
            st.add("vertices seen", got.size() / size_t(dim));
          }
        if (!seen)
          return failed("visible-vertices", nm + ": no access");
      }
    }
  // --- what the coupled participants read
  std::vector<double> scale(A.datas.size(), 1e-12);
  double              smax = 0;
  bool                mixes = false;
  for (auto &n : R.outs[0].nodes)
    for (auto &e : n.ev)
      if (e.data >= 0 && (e.op == "read" || e.op == "write"))
        for (size_t k = 1; k < e.x.size(); ++k)
          scale[size_t(e.data)] = std::max(scale[size_t(e.data)], std::fabs(e.x[k]));
  for (double x : scale)
    smax = std::max(smax, x);
  for (auto &p : A.parts)
    mixes = mixes || p.reactive;
  // conservative partition of unity mappings preserve the sum and the first moments, not each value
  std::set<int> soft;
  bool          rbf = false;
  for (auto &p : B.parts) {
    for (auto &m : p.maps)
      rbf = rbf || m.type.compare(0, 3, "rbf") == 0;
    for (auto &j : p.jits)
      for (auto &m : p.maps)
        if (j.write && m.write && m.from == -1 && m.to == j.mesh && m.type.compare(0, 3, "rbf") == 0)
          soft.insert(j.data);
  }
  std::map<std::string, VD> moments[2];
  for (int run = 0; run < 2; ++run)
    for (auto &n : R.outs[size_t(run)].nodes) {
      std::map<int, int> nth;
      for (auto &e : n.ev)
        if (e.op == "read" && soft.count(e.data)) {
          auto &M   = A.meshes[size_t(e.mesh)];
          auto &P   = M.pts[size_t(n.rank)];
          int   nc  = A.dims(e.data, e.mesh), cnt = int(P.size()) / M.dim;
          auto &sum = moments[run][A.parts[size_t(n.part)].name + " " + A.datas[size_t(e.data)].name + " read " + std::to_string(nth[e.data]++)];
          sum.resize(size_t(nc * (M.dim + 1)), 0);
          for (int v = 0; v < cnt && e.x.size() == size_t(cnt * nc + 1); ++v)
            for (int q = 0; q < nc; ++q)
              for (int d = 0; d <= M.dim; ++d)
                sum[size_t(q * (M.dim + 1) + d)] += e.x[size_t(1 + v * nc + q)] * (d ? P[size_t(v * M.dim + d - 1)] : 1);
        }
    }
  for (auto &m : moments[0]) {
    auto &o = moments[1][m.first];
    for (size_t k = 0; k < m.second.size(); ++k)
      if (o.size() != m.second.size() || !(std::fabs(o[k] - m.second[k]) <= 1e-4 * smax))
        return failed("sums-depend-on-access", m.first + " moment " + std::to_string(k) + ": " + (k < o.size() ? num(o[k]) : std::string("none")) + ", through a mesh of its own " + num(m.second[k]));
    st.add("moments compared", m.second.size());
  }
  bool ls = false; // least-squares updates amplify differences due to rounding
  for (auto &s : A.schemes)
    ls = ls || s.accel.type == "aitken" || s.accel.type.compare(0, 3, "IQN") == 0;
  for (size_t i = 0; i < R.outs[0].nodes.size(); ++i) {
    auto       &na = R.outs[0].nodes[i];
    auto        ea = values(na), eb = values(R.outs[1].nodes[i]);
    if (ea.size() != eb.size())
      return failed("control-flow-depends-on-access", na.name + ": " + std::to_string(eb.size()) + " instead of " + std::to_string(ea.size()) + " events");
    for (size_t k = 0; k < ea.size(); ++k) {
      const Ev   &x = *ea[k], &y = *eb[k];
      std::string op = y.op == "jitread" ? "read" : y.op == "jitwrite" ? "write" : y.op;
      std::string at = na.name + " event " + std::to_string(k) + " " + y.op + (x.data >= 0 ? " " + A.datas[size_t(x.data)].name : "");
      auto        yi = y.i;
      if (op != y.op)
        yi.pop_back();
      if (x.op != op || x.data != y.data || x.i != yi || x.s != y.s || x.x.size() != y.x.size())
        return failed("control-flow-depends-on-access", at + ": other event than with a mesh of its own (" + x.op + ")");
      if (x.data < 0) {
        if (x.x != y.x)
          return failed("control-flow-depends-on-access", at + ": other times than with a mesh of its own");
        continue;
      }
      if (op == "read" && soft.count(x.data))
        continue;
      double tol = (ls || rbf ? 1e-6 : 1e-9) * (mixes ? smax : scale[size_t(x.data)]);
      if (x.x[0] != y.x[0])
        return failed("control-flow-depends-on-access", at + ": at time " + num(y.x[0]) + " instead of " + num(x.x[0]));
      for (size_t v = 1; v < x.x.size(); ++v) {
        if (y.op == "jitread" && y.x[v] == 7e77 && B.parts[size_t(na.part)].rotate) // took no part in this step
          continue;
        if (!(std::fabs(x.x[v] - y.x[v]) <= tol))
          return failed(op == "read" ? "values-depend-on-access" : "written-values-depend-on-access",
                        at + " value " + std::to_string(v - 1) + ": " + num(y.x[v]) + ", through a mesh of its own " + num(x.x[v]));
      }
      st.add(op == y.op ? "values compared" : "just-in-time values compared", x.x.size() - 1);
    }
  }
  return {};
}
} // namespace
void addProps8(std::vector<Prop> &p)
{
  p.push_back({"C14", "a coupled simulation in which participants map with meshes of their own, and the same one with direct or just-in-time access to the received meshes", makeC14, checkC14, false, false});
}
} // namespace core
