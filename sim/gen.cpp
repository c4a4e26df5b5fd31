#include "gen.hpp"
#include <algorithm>
#include <cmath>
#include <set>

using namespace spec;
namespace gen {
typedef std::vector<double> VD;

static double dist2(const double *a, const double *b, int dim)
{
  double s = 0;
  for (int d = 0; d < dim; ++d)
    s += (a[d] - b[d]) * (a[d] - b[d]);
  return s;
}
VD flat(const Mesh &m)
{
  VD v;
  for (auto &p : m.pts)
    v.insert(v.end(), p.begin(), p.end());
  return v;
}
bool uniqueNearest(const VD &out, const VD &in, int dim, double margin)
{
  if (in.empty())
    return out.empty();
  for (size_t i = 0; i < out.size(); i += size_t(dim)) {
    double best = 1e300;
    size_t bi   = 0;
    for (size_t j = 0; j < in.size(); j += size_t(dim)) {
      double d = std::sqrt(dist2(&out[i], &in[j], dim));
      if (d < best) {
        best = d;
        bi   = j;
      }
    }
    for (size_t j = 0; j < in.size(); j += size_t(dim))
      if (j != bi && dist2(&in[j], &in[bi], dim) > 0 && std::sqrt(dist2(&out[i], &in[j], dim)) < best + margin)
        return false;
  }
  return true;
}
void split(Rng &r, Mesh &m, const VD &pts, int ranks, bool allowEmpty, int style)
{
  int n = int(pts.size()) / m.dim;
  m.pts.assign(size_t(ranks), {});
  m.conn.assign(size_t(ranks), {});
  std::vector<int> o(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i)
    o[size_t(i)] = i;
  if (style == 0) // slabs in x
    std::sort(o.begin(), o.end(), [&](int a, int b) { return pts[size_t(a * m.dim)] < pts[size_t(b * m.dim)]; });
  std::vector<int> to(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i)
    to[size_t(i)] = style == 0 ? std::min(ranks - 1, i * ranks / std::max(1, n)) : int(r.below(uint64_t(ranks)));
  int empty = -1;
  if (allowEmpty && ranks > 1 && r.flip(0.25))
    empty = int(r.below(uint64_t(ranks)));
  for (int i = 0; i < n; ++i) {
    int k = to[size_t(i)];
    if (k == empty)
      k = (k + 1) % ranks;
    for (int d = 0; d < m.dim; ++d)
      m.pts[size_t(k)].push_back(pts[size_t(o[size_t(i)] * m.dim + d)]);
  }
  if (!allowEmpty)
    for (int k = 0; k < ranks; ++k)
      if (m.pts[size_t(k)].empty())
        for (int q = 0; q < ranks; ++q)
          if (int(m.pts[size_t(q)].size()) > m.dim) {
            auto &v = m.pts[size_t(q)];
            m.pts[size_t(k)].assign(v.end() - m.dim, v.end());
            v.resize(v.size() - size_t(m.dim));
            break;
          }
}
// the nearest partner of every local vertex of `own` lies inside the bounding box of the local vertices plus safety margin
bool filterSafe(const Mesh &own, const Mesh &recv, double safety, bool)
{
  int dim = own.dim;
  VD  in  = flat(recv);
  for (auto &p : own.pts) {
    if (p.empty())
      continue;
    VD lo(size_t(dim), 1e300), hi(size_t(dim), -1e300);
    for (size_t i = 0; i < p.size(); ++i) {
      lo[i % size_t(dim)] = std::min(lo[i % size_t(dim)], p[i]);
      hi[i % size_t(dim)] = std::max(hi[i % size_t(dim)], p[i]);
    }
    double side = 0;
    for (int d = 0; d < dim; ++d)
      side = std::max(side, hi[size_t(d)] - lo[size_t(d)]);
    side *= safety * 0.999;
    for (size_t i = 0; i < p.size(); i += size_t(dim)) {
      double best = 1e300;
      size_t bi   = 0;
      for (size_t j = 0; j < in.size(); j += size_t(dim)) {
        double d = dist2(&p[i], &in[j], dim);
        if (d < best) {
          best = d;
          bi   = j;
        }
      }
      for (int d = 0; d < dim; ++d)
        if (in[bi + size_t(d)] < lo[size_t(d)] - side + 1e-9 || in[bi + size_t(d)] > hi[size_t(d)] + side - 1e-9)
          return false;
    }
  }
  return true;
}

VD lattice(Rng &r, int n, int dim, double jitter)
{
  int w = std::max(2, int(std::ceil(std::pow(double(n), 1.0 / dim))) + 1);
  std::set<int> used;
  int           total = dim == 2 ? w * w : w * w * w;
  VD            p;
  while (int(used.size()) < std::min(n, total)) {
    int c = int(r.below(uint64_t(total)));
    if (!used.insert(c).second)
      continue;
    int x[3] = {c % w, c / w % w, c / w / w};
    for (int d = 0; d < dim; ++d)
      p.push_back(x[d] + jitter * (2 * r.unit() - 1));
  }
  return p;
}

void pairGeometry(Rng &r, const VD &a, VD &b, int dim, int nb)
{
  for (int t = 0; t < 60; ++t) {
    b.clear();
    int    na  = int(a.size()) / dim;
    double rad = 0.22 / std::sqrt(double(dim));
    for (int i = 0; i < nb; ++i) {
      int k = i < na && r.flip(0.6) ? i : int(r.below(uint64_t(na)));
      for (int d = 0; d < dim; ++d)
        b.push_back(a[size_t(k * dim + d)] + rad * (2 * r.unit() - 1));
    }
    if (uniqueNearest(b, a, dim, 1e-3) && uniqueNearest(a, b, dim, 1e-3))
      return;
  }
  b = a;
  for (size_t i = 0; i < b.size(); ++i)
    b[i] += 0.05 * double(i % size_t(dim) + 1);
}

// enough vertices in general position for a radial basis function interpolation with a linear polynomial
static bool wellPosed(const VD &p, int dim)
{
  int n = int(p.size()) / dim;
  if (n < dim + 2)
    return false;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (dist2(&p[size_t(i * dim)], &p[size_t(j * dim)], dim) < 0.09)
        return false;
  double c[3] = {0, 0, 0}, g[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < dim; ++d)
      c[d] += p[size_t(i * dim + d)] / n;
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < dim; ++d)
      for (int e = 0; e < dim; ++e)
        g[d][e] += (p[size_t(i * dim + d)] - c[d]) * (p[size_t(i * dim + e)] - c[e]) / n;
  double tr = g[0][0] + g[1][1] + g[2][2], det;
  if (dim == 2)
    det = g[0][0] * g[1][1] - g[0][1] * g[1][0];
  else
    det = g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) +
          g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0]);
  return det > 0.01 * std::pow(tr / dim, dim);
}
void linearGeometry(Rng &r, const VD *a, VD &b, int dim, int nb)
{
  for (int t = 0; t < 400; ++t) {
    b = lattice(r, nb, dim, 0.18);
    if (a && r.flip(0.5)) { // close to the partner
      b = *a;
      for (auto &x : b)
        x += 0.1 * (2 * r.unit() - 1);
    }
    if (wellPosed(b, dim) && (!a || (uniqueNearest(b, *a, dim, 1e-3) && uniqueNearest(*a, b, dim, 1e-3))))
      return;
  }
  if (a) {
    b = *a;
    for (size_t i = 0; i < b.size(); ++i)
      b[i] += 0.05 * double(i % size_t(dim) + 1);
  }
}

Spec makeSpec(Rng &r, const Opt &o)
{
  Spec s;
  s.seed   = int(r.below(1000000));
  int  np  = o.parts ? o.parts : 2;
  if (!o.parts && o.composition && r.flip(0.35))
    np = r.flip(0.55) ? 3 : r.range(4, std::min(5, o.maxNodes));
  int  dim = r.flip(0.65) ? 2 : 3;
  bool linear = !o.nnOnly && r.flip(0.6);
  int  nodes  = 0;
  s.parts.resize(size_t(np));
  for (int i = 0; i < np; ++i) {
    Part &p = s.parts[size_t(i)];
    p.name  = std::string(1, char('A' + i)) + (r.flip(0.3) ? "Solver" : "");
    int left = o.maxNodes - nodes - (np - 1 - i);
    p.size   = o.serialOnly ? 1 : std::max(1, std::min(left, r.flip(0.45) ? 1 : r.range(1, o.maxRanks)));
    nodes += p.size;
    if (p.size > 1) {
      int k = int(r.below(4));
      p.intra = k == 0 ? "" : k == 1 ? "mpi" : "sockets";
    }
    if (o.bindings && r.flip(0.4))
      p.api = r.flip(0.5) ? "c" : "fortran";
    p.ownMpi  = r.flip(0.5) ? 0 : r.range(1, 2);
    p.permute = r.flip(0.5) ? int(1 + r.below(1000)) : 0;
    p.single  = r.flip(0.2);
    if (r.flip(0.3))
      p.stepCost = 1e6 * double(r.range(1, 200));
  }
  // --- who is coupled with whom: a tree, a star around the controller of a multi scheme with further participants, or a cycle
  struct Pair {
    int a, b;
  };
  bool              multi  = np >= 3 && r.flip(0.35) && o.implicit != 0;
  int               nmulti = multi ? (np == 3 || r.flip(0.4) ? 3 : std::min(np, 4)) : 0;
  std::vector<int>  parent(size_t(np), 0);
  std::vector<Pair> pairs;
  if (multi)
    pairs.push_back({1, 0});
  else
    pairs.push_back({0, 1});
  for (int i = 2; i < np; ++i) {
    parent[size_t(i)] = i < nmulti ? 1 : np == 3 && r.flip(0.7) ? 1 : int(r.below(uint64_t(i)));
    pairs.push_back({parent[size_t(i)], i});
  }
  bool cycle = np >= 3 && !multi && r.flip(0.25);
  // --- meshes: one per participant
  int nA = r.range(o.minPts, o.maxPts);
  if (linear)
    nA = std::max(nA, dim == 2 ? 5 : 7);
  bool dup = o.dup && !linear && r.flip(0.25);
  VD   base = lattice(r, nA, dim, 0.18);
  if (linear)
    linearGeometry(r, nullptr, base, dim, nA);
  std::vector<VD> pts(static_cast<size_t>(np));
  for (int i = 0; i < np; ++i) {
    Mesh m;
    m.name  = "Mesh" + s.parts[size_t(i)].name;
    m.owner = i;
    m.dim   = dim;
    if (i == 0)
      pts[0] = base;
    else if (linear) {
      linearGeometry(r, &pts[size_t(parent[size_t(i)])], pts[size_t(i)], dim, std::max(dim == 2 ? 5 : 7, r.range(o.minPts, o.maxPts)));
    } else {
      int nb = r.range(o.minPts, o.maxPts);
      pairGeometry(r, pts[size_t(parent[size_t(i)])], pts[size_t(i)], dim, nb);
    }
    s.meshes.push_back(m);
    s.parts[size_t(i)].provides = {i};
  }
  if (cycle) { // one more pair
    int x = int(r.below(uint64_t(np))), y = int(r.below(uint64_t(np)));
    cycle = x != y && uniqueNearest(pts[size_t(x)], pts[size_t(y)], dim, 1e-3) && uniqueNearest(pts[size_t(y)], pts[size_t(x)], dim, 1e-3);
    for (auto &q : pairs)
      if ((q.a == x && q.b == y) || (q.a == y && q.b == x))
        cycle = false;
    if (cycle)
      pairs.push_back({x, y});
  }
  // --- scheme kinds
  double windows[] = {1.0, 0.5, 0.1, 1.0 / 3, 0.25, 1e-3, 7.3, 0.7};
  double W         = windows[r.below(8)];
  int    nw        = r.range(1, o.maxWindows);
  bool   firstMethod = false;
  std::vector<std::string> kinds;
  std::vector<bool> hasImpl(size_t(np), false); // at most one implicit scheme per participant
  for (size_t i = 0; i < pairs.size(); ++i) {
    if (multi && pairs[i].a < nmulti && pairs[i].b < nmulti) {
      kinds.push_back("multi");
      hasImpl[size_t(pairs[i].a)] = hasImpl[size_t(pairs[i].b)] = true;
      continue;
    }
    bool impl = o.implicit == 1 ? true : o.implicit == 0 ? false : r.flip(0.6);
    if (hasImpl[size_t(pairs[i].a)] || hasImpl[size_t(pairs[i].b)])
      impl = false;
    if (impl)
      hasImpl[size_t(pairs[i].a)] = hasImpl[size_t(pairs[i].b)] = true;
    bool ser = r.flip(0.5);
    kinds.push_back(std::string(ser ? "serial" : "parallel") + (impl ? "-implicit" : "-explicit"));
  }
  // compositions around a cycle with serial schemes may wait for each other (known finding)
  if (cycle)
    for (auto &k : kinds)
      k = "parallel" + k.substr(k.find('-'));
  if (np == 2 && o.firstMethod && kinds[0].find("serial") == 0 && r.flip(0.2))
    firstMethod = true;
  // --- data and mappings
  bool conservativeAny = false;
  bool subst           = r.flip(0.6);
  int  useMap          = int(r.below(5));
  auto addRecv         = [&](int p, int mesh) -> Recv & {
    for (auto &x : s.parts[size_t(p)].receives)
      if (x.mesh == mesh)
        return x;
    Recv x;
    x.mesh = mesh;
    s.parts[size_t(p)].receives.push_back(x);
    return s.parts[size_t(p)].receives.back();
  };
  std::vector<std::vector<Exch>> exch(pairs.size());
  for (size_t pi = 0; pi < pairs.size(); ++pi)
    for (int dir = 0; dir < 2; ++dir) {
      int P = dir ? pairs[pi].b : pairs[pi].a, Q = dir ? pairs[pi].a : pairs[pi].b;
      int nd = r.flip(0.7) ? 1 : 2;
      bool impl = kinds[pi] == "multi" || kinds[pi].find("implicit") != std::string::npos;
      if (dir == 1 && !impl && !o.pairExchangeBoth && r.flip(0.15))
        nd = 0;
      int  init  = !cycle && r.flip(0.4);
      bool wrDir = r.flip(0.5); // one mapping per pair and direction
      for (int k = 0; k < nd; ++k) {
        Data d;
        d.name   = std::string(r.flip(0.5) ? "Data" : "Field-") + std::to_string(s.datas.size());
        d.vec    = r.flip(0.35);
        d.degree = int(r.below(4));
        if (r.flip(0.3))
          d.degree = 1;
        d.kind = linear ? 1 : (r.flip(0.85) ? 0 : 1);
        double bases[] = {1, 1, 10, 1e-3, 1e5};
        d.base = bases[r.below(5)];
        d.rate = r.flip(0.8) ? 0.3 + r.unit() : 0;
        d.quad = r.flip(0.4) ? r.unit() : 0;
        if (impl) {
          d.iterAmp   = d.base * (0.1 + r.unit());
          d.iterDecay = r.flip(0.5) ? 0.1 + 0.5 * r.unit() : 0.9;
        }
        int id = int(s.datas.size());
        s.datas.push_back(d);
        int MP = P, MQ = Q; // one mesh per participant
        s.meshes[size_t(MP)].data.push_back(id);
        s.meshes[size_t(MQ)].data.push_back(id);
        s.parts[size_t(P)].writes.push_back({MP, id});
        s.parts[size_t(Q)].reads.push_back({MQ, id});
        bool wr = wrDir;
        int  mp = wr ? P : Q; // mapping participant
        Map  m;
        m.write      = wr;
        m.from       = MP;
        m.to         = MQ;
        m.type       = "nearest-neighbor";
        bool par     = o.parallelMaps || s.parts[size_t(mp)].size > 1;
        bool cons    = par ? wr : r.flip(0.35);
        m.constraint = cons ? "conservative" : "consistent";
        if (linear) {
          const char *types[] = {"rbf-global-direct", "rbf-thin-plate", "nearest-neighbor", "rbf-gaussian"};
          (void) types;
          int k2 = int(r.below(4));
          if (k2 == 0 || k2 == 3) {
            m.type  = "rbf-global-direct";
            m.attrs = r.flip(0.5) ? "polynomial=\"separate\"" : "polynomial=\"on\"";
            bool compact = r.flip(0.5); // compact support does not allow the integrated polynomial
            if (compact)
              m.attrs = "polynomial=\"separate\"";
            m.inner = compact ? "<basis-function:compact-polynomial-c4 support-radius=\"30\" />" : "<basis-function:thin-plate-splines />";
          } else if (k2 == 1) {
            m.type  = "rbf-global-direct";
            m.attrs = "polynomial=\"separate\"";
            m.inner = "<basis-function:gaussian support-radius=\"20\" />";
          }
        }
        if (useMap == 4 && r.flip(0.3)) {
        }
        // one mapping per (from, to, direction) of a participant
        bool have = false;
        for (auto &x : s.parts[size_t(mp)].maps)
          if (x.from == m.from && x.to == m.to && x.write == m.write) {
            m    = x;
            have = true;
          }
        if (!have)
          s.parts[size_t(mp)].maps.push_back(m);
        if (m.constraint == "conservative")
          conservativeAny = true;
        addRecv(mp, wr ? MQ : MP);
        Exch e;
        e.data     = id;
        e.mesh     = wr ? MQ : MP;
        e.from     = P;
        e.to       = Q;
        e.init     = init;
        e.substeps = r.flip(0.85) ? subst : !subst;
        // higher degrees require the data of substeps, piecewise constant interpolation forbids it
        auto &deg = s.datas[size_t(id)].degree;
        if (!e.substeps)
          deg = std::min(deg, 1);
        else if (deg == 0)
          e.substeps = 0;
        exch[pi].push_back(e);
      }
    }
  // --- distribute the vertices
  for (int i = 0; i < np; ++i) {
    Mesh &m = s.meshes[size_t(i)];
    split(r, m, pts[size_t(i)], s.parts[size_t(i)].size, o.allowEmptyRank && !linear, int(r.below(2)));
    if (dup && !conservativeAny && m.pts.size() > 1)
      for (size_t k = 0; k + 1 < m.pts.size(); ++k)
        if (!m.pts[k].empty() && r.flip(0.6))
          m.pts[k + 1].insert(m.pts[k + 1].end(), m.pts[k].begin(), m.pts[k].begin() + m.dim);
  }
  // --- geometric filters
  bool filterSafeAll = true;
  for (auto &p : s.parts)
    for (auto &x : p.receives) {
      double safety = r.flip(0.6) ? 0.5 : r.unit() * 3;
      bool   ok     = true;
      for (auto &m : p.maps)
        if (m.from == x.mesh || m.to == x.mesh) {
          if (m.type != "nearest-neighbor")
            ok = false;
          else
            ok = ok && filterSafe(s.meshes[size_t(m.from == x.mesh ? m.to : m.from)], s.meshes[size_t(x.mesh)], safety, true);
        }
      if (!ok) {
        x.filter   = "no-filter";
        filterSafeAll = false;
      } else {
        const char *f[] = {"", "on-primary-rank", "on-secondary-ranks", "no-filter"};
        x.filter        = f[r.below(4)];
        if (safety != 0.5)
          x.safety = safety;
      }
    }
  // --- communication
  for (auto &pr : pairs) {
    M2N m;
    bool sw     = r.flip(0.5);
    m.acceptor  = sw ? pr.a : pr.b;
    m.connector = sw ? pr.b : pr.a;
    if (!o.socketsOnly) {
      int k  = int(r.below(10));
      m.type = k == 0 ? "mpi" : k <= 2 ? "mpi-multiple-ports" : "sockets";
    }
    bool bothPar = s.parts[size_t(pr.a)].size > 1 && s.parts[size_t(pr.b)].size > 1;
    if (r.flip(0.15))
      m.gatherScatter = 1;
    else if (bothPar && r.flip(0.35)) {
      bool primaryFilter = false;
      for (int q : {pr.a, pr.b})
        for (auto &x : s.parts[size_t(q)].receives)
          if (x.filter == "on-primary-rank")
            primaryFilter = true;
      // two-level initialization always compares bounding boxes
      if (!primaryFilter && filterSafeAll && np == 2) {
        m.twoLevel = 1;
        // secondary ranks exchange ownership directly, which the intra-comm tags do not provide (known finding)
        for (int q : {pr.a, pr.b})
          if (s.parts[size_t(q)].size > 2 || s.parts[size_t(q)].intra != "")
            s.parts[size_t(q)].intra = "";
      }
    }
    // MPI over a single port is collective: every rank must take part in every connection
    if (m.type == "mpi")
      m.type = "mpi-multiple-ports";
    s.m2ns.push_back(m);
  }
  // --- schemes
  auto fill = [&](Scheme &c) {
    c.window = W;
    if (r.flip(0.5)) {
      c.maxWindows = nw;
      if (firstMethod) {
      } else if (r.flip(0.3))
        c.maxTime = W * nw;
    } else
      c.maxTime = r.flip(0.5) ? W * nw : W * (nw - 0.35);
    if (c.implicit()) {
      c.maxIter = r.range(1, 4);
      if (r.flip(0.3))
        c.minIter = r.range(1, c.maxIter);
    }
  };
  if (multi) {
    Scheme c;
    c.type  = "multi";
    c.first = 1;
    for (int i = 0; i < nmulti; ++i)
      c.parts.push_back(i);
    for (size_t i = 0; i < pairs.size(); ++i)
      if (kinds[i] == "multi")
        c.exchanges.insert(c.exchanges.end(), exch[i].begin(), exch[i].end());
    fill(c);
    s.schemes.push_back(c);
  }
  std::vector<int> order(static_cast<size_t>(np)); // of the serial schemes around a cycle
  for (int i = 0; i < np; ++i)
    order[size_t(i)] = int(r.below(1000)) * 8 + i;
  for (size_t i = 0; i < pairs.size(); ++i) {
    if (kinds[i] == "multi")
      continue;
    Scheme c;
    c.type    = kinds[i];
    bool sw   = cycle ? order[size_t(pairs[i].a)] > order[size_t(pairs[i].b)] : r.flip(0.5);
    c.first   = sw ? pairs[i].b : pairs[i].a;
    c.second  = sw ? pairs[i].a : pairs[i].b;
    c.exchanges = exch[i];
    if (s.schemes.empty())
      fill(c);
    else {
      c.window     = W;
      c.maxTime    = s.schemes[0].maxTime;
      c.maxWindows = s.schemes[0].maxWindows;
      if (c.implicit()) {
        c.maxIter = r.range(1, 4);
        if (r.flip(0.3))
          c.minIter = r.range(1, c.maxIter);
      }
    }
    s.schemes.push_back(c);
  }
  if (s.schemes.size() > 1 && r.flip(0.5)) // the order of the schemes in the configuration
    std::swap(s.schemes[0], s.schemes[size_t(1 + r.below(s.schemes.size() - 1))]);
  if (firstMethod) {
    auto &c  = s.schemes[0];
    c.method = "first-participant";
    Part &f  = s.parts[size_t(c.first)];
    f.ownWindow = W;
    f.dts = {1};
    if (r.flip(0.6))
      f.dts = {1, 0.5, 1.25};
    if (c.maxTime < 0 && c.maxWindows < 0)
      c.maxWindows = nw;
  }
  if (o.measures)
    for (auto &c : s.schemes)
      if (c.implicit() && r.flip(0.6)) {
        int n = r.flip(0.7) ? 1 : 2;
        std::set<int> used;
        for (int i = 0; i < n; ++i) {
          auto &e = r.pick(c.exchanges);
          // measured on data the second participant (controller) sends or receives
          int ctl = c.type == "multi" ? c.first : c.second;
          if (e.from != ctl && e.to != ctl)
            continue;
          if (c.type == "serial-implicit" && e.from != ctl)
            continue;
          if (!used.insert(e.data).second)
            continue;
          Measure m;
          const char *k[] = {"absolute", "relative", "residual-relative", "absolute-or-relative"};
          m.kind  = k[r.below(4)];
          m.data  = e.data;
          m.mesh  = e.mesh;
          double sc = m.kind[0] == 'a' ? s.datas[size_t(e.data)].base : 1;
          m.limit   = std::min(m.kind == "relative" || m.kind == "residual-relative" ? 0.9 : 1e300, sc * std::pow(10.0, -3 * r.unit()));
          m.limit2  = std::pow(10.0, -1 - 3 * r.unit());
          m.suffices = r.flip(0.25);
          c.measures.push_back(m);
        }
      }
  // --- time stepping of the solvers
  for (int i = 0; i < np; ++i) {
    Part &p = s.parts[size_t(i)];
    if (p.ownWindow == 0 && o.subcycling) {
      static const std::vector<std::vector<double>> plans{{1}, {0.5}, {0.3, 0.7}, {0.25}, {1.0 / 3}, {0.1, 0.2, 0.7}, {0.4}, {0.15}, {2}};
      p.dts = r.flip(0.35) ? std::vector<double>{1} : plans[r.below(plans.size())];
    }
    static const std::vector<std::vector<double>> reads{{0, 1}, {1}, {0}, {0.5}, {0, 0.25, 1}, {0.1, 0.9}, {1, 0}};
    p.readAt = reads[r.below(reads.size())];
    if (p.ownWindow > 0) // unlimited maximal step
      p.readAt = {0};
  }
  return s;
}

void addAccel(Rng &r, Spec &s, int types)
{
  for (auto &c : s.schemes) {
    if (!c.implicit() || c.exchanges.empty())
      continue;
    int             ctl = c.type == "multi" ? c.first : c.second;
    bool            ser = c.type == "serial-implicit";
    std::vector<RW> can;
    for (auto &e : c.exchanges)
      if (!ser || e.from == ctl)
        can.push_back({e.mesh, e.data});
    if (can.empty())
      continue;
    Accel a;
    int   k = types == 1 ? 0 : int(r.below(8));
    a.type  = k < 3 ? "constant" : k < 4 ? "aitken" : k < 6 ? "IQN-ILS" : "IQN-IMVJ";
    // solvers that react with a distinct factor per vertex keep the least-squares systems regular
    for (auto &p : s.parts)
      for (auto &m : p.maps)
        if (m.type != "nearest-neighbor")
          a.type = "constant";
    if (a.type == "constant") {
      a.relax = r.flip(0.2) ? 1 : 0.1 + 0.85 * r.unit();
      c.accel = a;
      continue;
    }
    a.relax = 0.1 + 0.8 * r.unit();
    for (auto &x : can)
      if (r.flip(0.75) || (a.data.empty() && &x == &can.back()))
        a.data.push_back(x);
    if (a.type == "aitken") {
      if (a.data.size() > 1 || r.flip(0.3))
        a.precond = r.flip(0.5) ? "residual-sum" : "value";
    } else {
      const char *f[] = {"", "QR1", "QR1-absolute", "QR2", "QR3"};
      a.filter        = f[r.below(5)];
      a.filterLimit   = a.filter == "QR1-absolute" ? 1e-12 : std::pow(10.0, -2 - 8 * r.unit());
      const char *q[] = {"", "constant", "value", "residual", "residual-sum"};
      a.precond       = q[r.below(5)];
      if (a.precond == "constant")
        for (size_t i = 0; i < a.data.size(); ++i)
          a.scaling.push_back(std::pow(10.0, r.unit() * 2 - 1));
      a.maxUsed = r.flip(0.3) ? r.range(1, 3) : 20;
      a.reused  = r.flip(0.4) ? 0 : r.range(1, 3);
      if (r.flip(0.3))
        a.attrs += " reduced-time-grid=\"false\"";
      if (a.type == "IQN-IMVJ") {
        if (r.flip(0.5)) {
          const char *m[] = {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE"};
          int         i   = int(r.below(5));
          a.extra         = std::string("<imvj-restart-mode type=\"") + m[i] + "\" chunk-size=\"" + std::to_string(r.range(1, 3)) + "\" reused-time-windows-at-restart=\"" + std::to_string(r.range(1, 3)) + "\" truncation-threshold=\"0.01\" />";
        }
      }
    }
    c.maxIter = std::max(c.maxIter, r.range(2, 6));
    if (a.type != "aitken") { // linearly dependent differences of iterations are an error of the user (DESIGN.md)
      int n = 1 << 30;
      for (auto &x : a.data) {
        int k = int(flat(s.meshes[size_t(x.mesh)]).size()) / s.meshes[size_t(x.mesh)].dim * s.dims(x.data, x.mesh);
        n     = std::min(n, k);
      }
      for (auto &e : c.exchanges)
        for (int q : {e.from, e.to})
          for (int mi : s.parts[size_t(q)].provides)
            n = std::min(n, int(flat(s.meshes[size_t(mi)]).size()) / s.meshes[size_t(mi)].dim);
      if (a.extra.find("RS-LS") != std::string::npos)
        n /= 4;
      if (n < 2 * (c.maxIter + 1) * (a.reused + 1)) {
        a.reused  = 0;
        c.maxIter = std::min(c.maxIter, n / 2 - 1);
      }
      if (c.maxIter < 2) {
        c.maxIter    = 2;
        Accel b;
        b.type  = "aitken";
        b.relax = a.relax;
        b.data  = {a.data[0]};
        a       = b;
      }
      if (c.minIter > c.maxIter)
        c.minIter = c.maxIter;
    }
    c.accel = a;
    for (auto &e : c.exchanges)
      for (int q : {e.from, e.to}) {
        s.parts[size_t(q)].reactive = 2;
        s.parts[size_t(q)].gamma    = 0.2 + 0.4 * r.unit();
      }
  }
}
// connectivity between the vertices of each rank
void addConnectivity(Rng &r, Spec &s, double chance)
{
  for (auto &m : s.meshes) {
    if (!r.flip(chance))
      continue;
    m.conn.assign(m.pts.size(), {});
    int kind = int(r.below(m.dim == 2 ? 3 : 5)); // edges, triangles, both, quads, tetrahedra
    for (size_t k = 0; k < m.pts.size(); ++k) {
      auto &P = m.pts[k];
      auto &C = m.conn[k];
      int   n = int(P.size()) / m.dim;
      auto  x = [&](int i, int d) { return P[size_t(i * m.dim + d)]; };
      auto  area = [&](int a, int b, int c) {
        double u[3] = {0, 0, 0}, v[3] = {0, 0, 0};
        for (int d = 0; d < m.dim; ++d) {
          u[d] = x(b, d) - x(a, d);
          v[d] = x(c, d) - x(a, d);
        }
        double q[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
        return 0.5 * std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
      };
      auto vol = [&](int a, int b, int c, int e) {
        double u[3], v[3], w[3];
        for (int d = 0; d < 3; ++d) {
          u[d] = x(b, d) - x(a, d);
          v[d] = x(c, d) - x(a, d);
          w[d] = x(e, d) - x(a, d);
        }
        return std::fabs(u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6;
      };
      if (kind == 0 || kind == 2)
        for (int i = 0; i + 1 < n; ++i)
          if (dist2(&P[size_t(i * m.dim)], &P[size_t((i + 1) * m.dim)], m.dim) > 1e-4)
            C.edges.insert(C.edges.end(), {i, i + 1});
      if (kind == 1 || kind == 2 || kind == 3)
        for (int i = 0; i + 2 < n; ++i)
          if (area(i, i + 1, i + 2) > 0.05)
            C.tris.insert(C.tris.end(), {i, i + 1, i + 2});
      if (kind == 4)
        for (int i = 0; i + 3 < n; ++i)
          if (vol(i, i + 1, i + 2, i + 3) > 0.02)
            C.tets.insert(C.tets.end(), {i, i + 1, i + 2, i + 3});
    }
  }
}
void addOutputs(Rng &r, Spec &s)
{
  for (size_t i = 0; i < s.parts.size(); ++i) {
    Part &p = s.parts[i];
    if (r.flip(0.5)) {
      Export e;
      const char *t[] = {"vtu", "vtp", "csv", "vtk"};
      e.type          = t[r.below(p.size > 1 ? 3 : 4)];
      e.dir           = r.flip(0.4) ? "out" : r.flip(0.5) ? "out/" + p.name : ".";
      e.every         = r.range(1, 3);
      e.iterations    = r.flip(0.3);
      e.series        = r.flip(0.3);
      p.exports.push_back(e);
    }
    for (int m : p.provides) {
      VD f = flat(s.meshes[size_t(m)]);
      int dim = s.meshes[size_t(m)].dim;
      for (int k = 0; k < 2; ++k)
        if (r.flip(0.35) && !f.empty()) {
          Watch w;
          w.name = "w" + std::to_string(k);
          w.mesh = m;
          size_t v = r.below(f.size() / size_t(dim));
          for (int d = 0; d < dim; ++d)
            w.at.push_back(f[v * size_t(dim) + size_t(d)] + 0.1 * (2 * r.unit() - 1));
          p.watches.push_back(w);
        }
      if (r.flip(0.4)) {
        Watch w;
        w.name     = "sum";
        w.mesh     = m;
        w.integral = 1;
        w.scale    = r.flip(0.5);
        p.watches.push_back(w);
      }
    }
  }
}
sim::Env makeEnv(Rng &r, int nodes, int level)
{
  sim::Env e;
  if (level == 0)
    return e;
  const char *pol[] = {"random", "random", "pct", "sticky"};
  e.policy          = pol[r.below(4)];
  e.pswitch         = e.policy == "sticky" ? 0.02 : 0.05 + 0.6 * r.unit();
  double lat[]      = {1e3, 20e3, 50e3, 500e3, 5e6, 50e6};
  e.latency         = lat[r.below(level == 1 ? 4 : 6)];
  if (nodes > 4) // otherwise processes poll for files for minutes
    e.latency = std::min(e.latency, 5e6);
  e.jitter          = r.flip(0.3) ? 0 : 4 * r.unit();
  if (r.flip(0.3))
    e.pspike = 0.02 * r.unit();
  if (r.flip(0.5)) {
    int b[]  = {64, 512, 4096, 65536};
    e.sndbuf = b[r.below(4)];
  }
  if (r.flip(0.5))
    e.pshort = r.unit() * (level == 1 ? 0.3 : 0.8);
  if (r.flip(0.4))
    e.peintr = 0.1 * r.unit();
  if (r.flip(0.4))
    e.pspurious = 0.2 * r.unit();
  int eg[] = {0, 64, 1024, 1 << 16};
  e.eager  = eg[r.below(4)];
  if (r.flip(0.3))
    e.clockskew = 1e9 * r.unit() * 100;
  if (r.flip(0.3))
    e.clockjump = 0.05;
  if (r.flip(0.4))
    e.fsdelay = 1e6 * double(r.range(1, 400));
  e.mperturb = r.flip(0.5) ? int(1 + r.below(255)) : 0;
  if (r.flip(0.6))
    for (int i = 0; i < nodes; ++i)
      e.startDelay.push_back(r.flip(0.5) ? 0 : 1e6 * double(r.below(r.flip(0.2) ? 6000 : 50)));
  if (r.flip(0.3))
    for (int i = 0; i < nodes; ++i)
      e.slow.push_back(r.flip(0.6) ? 0 : 1e3 * double(r.below(500)));
  if (r.flip(level == 1 ? 0.25 : 0.5)) {
    sim::Fault f;
    f.kind  = "stall";
    f.node  = int(r.below(uint64_t(nodes)));
    f.api   = int(r.below(30));
    f.steps = int(r.below(200));
    f.arg   = double(r.range(1, 5000));
    e.faults.push_back(f);
  }
  return e;
}
} // namespace gen
