// Structured meshes with connectivity and their partitions; communication choices.
#include "gen.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <set>

using namespace spec;
namespace gen {
typedef std::vector<double> VD;

// a jittered lattice with connectivity on one rank; kind 0: edges (line), 1: triangles, 2: tetrahedra (3D)
void gridMesh(Rng &r, Mesh &m, int kind, int n)
{
  m.pts.assign(1, {});
  m.conn.assign(1, {});
  VD   &P = m.pts[0];
  Conn &C = m.conn[0];
  auto  j = [&](double a) { return a * (2 * r.unit() - 1); };
  if (kind == 0) {
    double sl = j(0.5);
    for (int i = 0; i < n; ++i) {
      P.push_back(i + j(0.15));
      P.push_back(sl * i + j(0.15));
      if (m.dim == 3)
        P.push_back(j(0.3));
      if (i)
        C.edges.insert(C.edges.end(), {i - 1, i});
    }
    return;
  }
  int nx = std::max(2, int(std::sqrt(double(n)))), ny = std::max(2, n / nx);
  if (kind == 1) {
    for (int y = 0; y < ny; ++y)
      for (int x = 0; x < nx; ++x) {
        P.push_back(x + j(0.08));
        P.push_back(y + j(0.08));
        if (m.dim == 3)
          P.push_back(j(0.08));
      }
    for (int y = 0; y + 1 < ny; ++y)
      for (int x = 0; x + 1 < nx; ++x) {
        int a = y * nx + x, b = a + 1, c = a + nx, d = c + 1;
        if (r.flip(0.5))
          C.tris.insert(C.tris.end(), {a, b, c, b, d, c});
        else
          C.tris.insert(C.tris.end(), {a, b, d, a, d, c});
      }
    return;
  }
  int q = 2, qy = n > 16 ? 3 : 2, qz = n > 10 ? 3 : 2;
  for (int z = 0; z < qz; ++z)
    for (int y = 0; y < qy; ++y)
      for (int x = 0; x < q; ++x) {
        P.push_back(x + j(0.1));
        P.push_back(y + j(0.1));
        P.push_back(z + j(0.1));
      }
  auto id = [&](int x, int y, int z) { return (z * qy + y) * q + x; };
  for (int z = 0; z + 1 < qz; ++z)
    for (int y = 0; y + 1 < qy; ++y)
      for (int x = 0; x + 1 < q; ++x) { // six tetrahedra around the diagonal of the cell
        int p[3] = {0, 1, 2};
        do {
          int v[3] = {x, y, z};
          C.tets.push_back(id(v[0], v[1], v[2]));
          for (int k = 0; k < 3; ++k) {
            v[p[k]]++;
            C.tets.push_back(id(v[0], v[1], v[2]));
          }
        } while (std::next_permutation(p, p + 3));
      }
}
bool hasElements(const Mesh &m)
{
  for (auto &c : m.conn)
    if (!c.edges.empty() || !c.tris.empty() || !c.quads.empty() || !c.tets.empty())
      return true;
  return false;
}
// distributes the elements of a mesh on one rank, vertices shared by elements of several ranks are duplicated
void splitElements(Rng &r, Mesh &m, const Mesh &g, int ranks)
{
  const VD   &P = g.pts[0];
  const Conn &C = g.conn[0];
  int         n = int(P.size()) / g.dim, style = int(r.below(3));
  m.pts.assign(size_t(ranks), {});
  m.conn.assign(size_t(ranks), {});
  std::vector<std::vector<int>> local(size_t(ranks), std::vector<int>(size_t(n), -1));
  double                        lo = 1e300, hi = -1e300;
  int                           axis = int(r.below(2));
  for (int i = 0; i < n; ++i) {
    lo = std::min(lo, P[size_t(i * g.dim + axis)]);
    hi = std::max(hi, P[size_t(i * g.dim + axis)]);
  }
  auto add = [&](int k, int v) {
    int &l = local[size_t(k)][size_t(v)];
    if (l < 0) {
      auto &q = m.pts[size_t(k)];
      l       = int(q.size()) / g.dim;
      q.insert(q.end(), P.begin() + v * g.dim, P.begin() + (v + 1) * g.dim);
    }
    return l;
  };
  int  empty = ranks > 1 && r.flip(0.2) ? int(r.below(uint64_t(ranks))) : -1;
  auto each  = [&](const std::vector<int> &el, size_t w, std::vector<int> Conn::*out) {
    for (size_t e = 0; e < el.size(); e += w) {
      double c = 0;
      for (size_t k = 0; k < w; ++k)
        c += P[size_t(el[e + k] * g.dim + axis)] / double(w);
      int k = style == 0 ? int(r.below(uint64_t(ranks))) : std::min(ranks - 1, std::max(0, int((c - lo) / (hi - lo + 1e-9) * ranks)));
      if (k == empty)
        k = (k + 1) % ranks;
      for (size_t q = 0; q < w; ++q)
        (m.conn[size_t(k)].*out).push_back(add(k, el[e + q]));
    }
  };
  each(C.edges, 2, &Conn::edges);
  each(C.tris, 3, &Conn::tris);
  each(C.quads, 4, &Conn::quads);
  each(C.tets, 4, &Conn::tets);
  for (int i = 0; i < n; ++i) {
    bool used = false;
    for (int k = 0; k < ranks; ++k)
      used = used || local[size_t(k)][size_t(i)] >= 0;
    if (!used)
      add(int(r.below(uint64_t(ranks))), i);
  }
}
// one participant pair: participant 0 has a mesh with connectivity, the others vertices near it
// whether few enough elements are near a point (2D) to be among the candidates of the implementation
static bool fewCandidates(const VD &pts, const Conn &c, const double *p)
{
  auto box = [&](std::initializer_list<int> v) {
    double d2 = 0;
    for (int k = 0; k < 2; ++k) {
      double lo = 1e300, hi = -1e300;
      for (int i : v) {
        lo = std::min(lo, pts[size_t(i * 2 + k)]);
        hi = std::max(hi, pts[size_t(i * 2 + k)]);
      }
      double d = std::max(0.0, std::max(lo - p[k], p[k] - hi));
      d2 += d * d;
    }
    return std::sqrt(d2);
  };
  int  boxes  = 0;
  bool inside = false;
  std::set<std::pair<int, int>> edges;
  for (size_t i = 0; i + 1 < c.edges.size(); i += 2)
    edges.insert({std::min(c.edges[i], c.edges[i + 1]), std::max(c.edges[i], c.edges[i + 1])});
  for (size_t i = 0; i + 2 < c.tris.size(); i += 3) {
    int v[3] = {c.tris[i], c.tris[i + 1], c.tris[i + 2]};
    boxes += box({v[0], v[1], v[2]}) <= 1e-9;
    double side[3];
    for (int k = 0; k < 3; ++k) {
      int a = v[k], b = v[(k + 1) % 3];
      edges.insert({std::min(a, b), std::max(a, b)});
      const double *x = &pts[size_t(a * 2)], *y = &pts[size_t(b * 2)];
      side[k] = (y[0] - x[0]) * (p[1] - x[1]) - (y[1] - x[1]) * (p[0] - x[0]);
    }
    inside = inside || (side[0] >= 0 && side[1] >= 0 && side[2] >= 0) || (side[0] <= 0 && side[1] <= 0 && side[2] <= 0);
  }
  if (boxes > 4)
    return false;
  if (inside)
    return true;
  double best = 1e300;
  for (auto &e : edges) {
    const double *x = &pts[size_t(e.first * 2)], *y = &pts[size_t(e.second * 2)];
    double dx = y[0] - x[0], dy = y[1] - x[1], t = ((p[0] - x[0]) * dx + (p[1] - x[1]) * dy) / (dx * dx + dy * dy);
    t    = std::min(1.0, std::max(0.0, t));
    best = std::min(best, std::hypot(x[0] + t * dx - p[0], x[1] + t * dy - p[1]));
  }
  int near = 0;
  for (auto &e : edges)
    near += box({e.first, e.second}) <= best + 1e-9;
  return near <= 4;
}
bool elementGeometry(Rng &r, Spec &s, int maxPts)
{
  for (int t = 0; t < 40; ++t) {
    Mesh A = s.meshes[0];
    int  kind = A.dim == 2 ? (r.flip(0.35) ? 0 : 1) : int(r.below(3));
    gridMesh(r, A, kind, r.range(4, std::max(5, maxPts)));
    VD   a = A.pts[0];
    int  na = int(a.size()) / A.dim;
    bool ok = true;
    std::vector<Mesh> B;
    for (size_t i = 1; i < s.meshes.size() && ok; ++i) {
      Mesh b = s.meshes[i];
      b.pts.assign(1, {});
      b.conn.assign(1, {});
      int nb = r.range(1, maxPts);
      // the projections and cells of these points do not depend on the order of the elements, which
      // the implementation selects among a few candidates found by their bounding boxes
      const Conn &C  = A.conn[0];
      auto       &el = kind == 1 ? C.tris : C.tets;
      int         w  = kind == 0 ? 2 : kind == 1 ? 3 : 4;
      for (int k = 0; k < nb; ++k) {
        if (kind == 0 || (kind == 1 && A.dim == 2 && r.flip(0.4))) { // close to a vertex, or between two of them
          int    x = int(r.below(uint64_t(na))), y = int(r.below(uint64_t(na)));
          double d2 = 0;
          for (int d = 0; d < A.dim; ++d)
            d2 += std::pow(a[size_t(x * A.dim + d)] - a[size_t(y * A.dim + d)], 2);
          double u = d2 < 4 && r.flip(0.6) ? 0.4 * r.unit() : 0;
          for (int d = 0; d < A.dim; ++d)
            b.pts[0].push_back((1 - u) * a[size_t(x * A.dim + d)] + u * a[size_t(y * A.dim + d)] + 0.12 * (2 * r.unit() - 1));
          continue;
        }
        size_t e = r.below(el.size() / size_t(w)) * size_t(w); // in the middle of an element
        double f[4], sum = 0;
        for (int q = 0; q < w; ++q)
          sum += f[q] = 0.3 + r.unit();
        for (int d = 0; d < A.dim; ++d) {
          double v = kind == 1 && d == 2 ? 0.1 * (2 * r.unit() - 1) : 0;
          for (int q = 0; q < w; ++q)
            v += f[q] / sum * a[size_t(el[e + size_t(q)] * A.dim + d)];
          b.pts[0].push_back(v);
        }
      }
      for (size_t k = 0; A.dim == 2 && ok && k + 1 < b.pts[0].size(); k += 2)
        ok = fewCandidates(a, C, &b.pts[0][k]);
      if (!ok)
        break;
      ok = uniqueNearest(b.pts[0], a, A.dim, 1e-3) && uniqueNearest(a, b.pts[0], A.dim, 1e-3);
      for (auto &o : B)
        ok = ok && uniqueNearest(b.pts[0], o.pts[0], A.dim, 1e-3) && uniqueNearest(o.pts[0], b.pts[0], A.dim, 1e-3);
      B.push_back(b);
    }
    if (!ok)
      continue;
    s.meshes[0] = A;
    for (size_t i = 0; i < B.size(); ++i)
      s.meshes[i + 1] = B[i];
    return true;
  }
  return false;
}
static bool localMapping(const std::string &t) { return t == "nearest-neighbor" || t == "nearest-neighbor-gradient"; }

// sizes of the participants, their partitions, geometric filters and communication of a serial specification
void partition(Rng &r, Spec &s, const PartOpt &o)
{
  int nodes = 0, np = int(s.parts.size());
  for (int i = 0; i < np; ++i) {
    Part &p  = s.parts[size_t(i)];
    int left = o.maxNodes - nodes - (np - 1 - i);
    p.size   = std::max(1, std::min(left, o.twoLevel ? r.range(2, o.maxRanks) : r.flip(o.serial) ? 1 : r.range(1, o.maxRanks)));
    nodes += p.size;
    p.intra = "";
    if (p.size > 1) {
      int k   = int(r.below(4));
      p.intra = k == 0 ? "" : k == 1 ? "mpi" : "sockets";
    }
  }
  for (auto &m : s.meshes) {
    Mesh g = m;
    int  n = s.parts[size_t(m.owner)].size;
    if (hasElements(g))
      splitElements(r, m, g, n);
    else
      split(r, m, flat(g), n, o.allowEmpty, int(r.below(2)));
  }
  filters(r, s, o.twoLevel);
  links(r, s, o.socketsOnly, o.twoLevel);
}
// all that the mappings need is left after filtering with this safety factor
bool filterOk(const Spec &s, const Part &p, const Recv &x, double safety)
{
  bool ok = true;
  for (auto &m : p.maps)
    if (m.from == x.mesh || m.to == x.mesh) {
      auto &own = s.meshes[size_t(m.from == x.mesh ? m.to : m.from)];
      if (localMapping(m.type))
        ok = ok && filterSafe(own, s.meshes[size_t(x.mesh)], safety, true);
      else if (m.type == "nearest-projection" || m.type == "linear-cell-interpolation") {
        for (auto &q : own.pts) { // everything within three units is kept
          if (q.empty())
            continue;
          double side = 0;
          for (int d = 0; d < own.dim; ++d) {
            double lo = 1e300, hi = -1e300;
            for (size_t i = size_t(d); i < q.size(); i += size_t(own.dim)) {
              lo = std::min(lo, q[i]);
              hi = std::max(hi, q[i]);
            }
            side = std::max(side, hi - lo);
          }
          ok = ok && side * safety > 3;
        }
      } else if (m.type == "rbf-global-direct") { // every rank sees the whole mesh
        VD all = flat(s.meshes[size_t(x.mesh)]);
        for (auto &q : own.pts) {
          if (q.empty())
            continue;
          size_t dim = size_t(own.dim);
          VD     lo(dim, 1e300), hi(dim, -1e300);
          double side = 0;
          for (size_t i = 0; i < q.size(); ++i) {
            lo[i % dim] = std::min(lo[i % dim], q[i]);
            hi[i % dim] = std::max(hi[i % dim], q[i]);
          }
          for (size_t d = 0; d < dim; ++d)
            side = std::max(side, hi[d] - lo[d]);
          for (size_t i = 0; i < all.size(); ++i)
            ok = ok && all[i] > lo[i % dim] - side * safety + 1e-9 && all[i] < hi[i % dim] + side * safety - 1e-9;
        }
      } else
        ok = false;
    }
  return ok;
}
void filters(Rng &r, Spec &s, bool twoLevel)
{
  for (auto &p : s.parts)
    for (auto &x : p.receives) {
      double safety = r.flip(0.5) ? 0.5 : r.unit() * 4;
      for (auto &m : p.maps)
        if (m.type == "rbf-global-direct" && (twoLevel || r.flip(0.7)))
          safety = 2 + r.unit() * 6;
      bool   ok     = filterOk(s, p, x, safety);
      x.safety      = -1;
      if (!ok)
        x.filter = "no-filter";
      else {
        const char *f[] = {"", "on-primary-rank", "on-secondary-ranks", "no-filter"};
        x.filter        = f[twoLevel ? 2 * r.below(2) : r.below(4)];
        if (safety != 0.5)
          x.safety = safety;
      }
    }
}
void links(Rng &r, Spec &s, bool socketsOnly, bool twoLevel)
{
  for (auto &m : s.m2ns) {
    if (!socketsOnly) {
      int k  = int(r.below(10));
      m.type = k <= 2 ? "mpi-multiple-ports" : "sockets";
    }
    m.gatherScatter = m.twoLevel = 0;
    bool bothPar    = s.parts[size_t(m.acceptor)].size > 1 && s.parts[size_t(m.connector)].size > 1;
    if (r.flip(twoLevel ? 0.0 : 0.2))
      m.gatherScatter = 1;
    else if (bothPar && (twoLevel || r.flip(0.4)) && s.parts.size() == 2) {
      bool ok = true;
      for (int q : {m.acceptor, m.connector})
        for (auto &x : s.parts[size_t(q)].receives)
          if (x.filter == "on-primary-rank" || x.filter == "no-filter")
            ok = false;
      if (ok) {
        m.twoLevel = 1;
        for (int q : {m.acceptor, m.connector})
          s.parts[size_t(q)].intra = "";
      }
    }
  }
}
} // namespace gen
