#include "model.hpp"
#include "gen.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <set>

using namespace spec;
namespace model {
static std::string num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.12g", v);
  return b;
}
// ------------------------------------------------------------------ small dense linear algebra
static bool solve(std::vector<VD> a, VD b, VD &x)
{
  size_t n = b.size();
  for (size_t c = 0; c < n; ++c) {
    size_t p = c;
    for (size_t r = c; r < n; ++r)
      if (std::fabs(a[r][c]) > std::fabs(a[p][c]))
        p = r;
    if (std::fabs(a[p][c]) < 1e-13)
      return false;
    std::swap(a[p], a[c]);
    std::swap(b[p], b[c]);
    for (size_t r = c + 1; r < n; ++r) {
      double f = a[r][c] / a[c][c];
      for (size_t k = c; k < n; ++k)
        a[r][k] -= f * a[c][k];
      b[r] -= f * b[c];
    }
  }
  x.assign(n, 0);
  for (size_t c = n; c-- > 0;) {
    double s = b[c];
    for (size_t k = c + 1; k < n; ++k)
      s -= a[c][k] * x[k];
    x[c] = s / a[c][c];
  }
  return true;
}
// ------------------------------------------------------------------ sampling in time
static double basis(const VD &u, size_t i, int p, double t, size_t last)
{ // Cox-de Boor, right end closed
  if (p == 0)
    return (t >= u[i] && t < u[i + 1]) || (i == last && t >= u[i + 1]) ? 1 : 0;
  double a = 0, b = 0;
  if (u[i + size_t(p)] > u[i])
    a = (t - u[i]) / (u[i + size_t(p)] - u[i]) * basis(u, i, p - 1, t, last);
  if (u[i + size_t(p) + 1] > u[i + 1])
    b = (u[i + size_t(p) + 1] - t) / (u[i + size_t(p) + 1] - u[i + 1]) * basis(u, i + 1, p - 1, t, last);
  return a + b;
}
VD Wave::sample(double at, int degree) const
{
  size_t n = t.size();
  int    p = std::min(degree, int(n) - 1);
  if (n == 1)
    return v[0];
  if (p == 0) {
    for (size_t i = 0; i < n; ++i)
      if (t[i] - at >= -1e-14)
        return v[i];
    return v.back();
  }
  for (size_t i = 0; i < n; ++i)
    if (std::fabs(t[i] - at) <= 1e-14)
      return v[i];
  VD ts;
  for (double x : t)
    ts.push_back((x - t[0]) / (t[n - 1] - t[0]));
  double q = std::min(1.0, std::max(0.0, (at - t[0]) / (t[n - 1] - t[0])));
  VD     u(size_t(p) + 1, 0.0);
  for (size_t j = 1; j + size_t(p) < n; ++j) {
    double s = 0;
    for (size_t k = j; k < j + size_t(p); ++k)
      s += ts[k];
    u.push_back(s / p);
  }
  for (int i = 0; i <= p; ++i)
    u.push_back(1.0);
  size_t          last = n - 1;
  std::vector<VD> A(n, VD(n, 0.0));
  for (size_t r = 0; r < n; ++r)
    for (size_t c = 0; c < n; ++c)
      A[r][c] = basis(u, c, p, ts[r], last);
  // weights of the samples for the evaluation point: solve A^T y = b(q)
  std::vector<VD> At(n, VD(n));
  VD              bq(n), y;
  for (size_t r = 0; r < n; ++r) {
    bq[r] = basis(u, r, p, q, last);
    for (size_t c = 0; c < n; ++c)
      At[r][c] = A[c][r];
  }
  if (!solve(At, bq, y))
    return VD(v[0].size(), NAN);
  VD out(v[0].size(), 0.0);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < out.size(); ++k)
      out[k] += y[i] * v[i][k];
  return out;
}
bool Wave::ambiguous(double at, int degree) const
{
  if (std::min(degree, int(t.size()) - 1) != 0 || t.size() == 1)
    return false;
  for (double x : t)
    if (std::fabs(x - at) > 0.5e-14 && std::fabs(x - at) < 1e-11 * std::max(1.0, std::fabs(at)))
      return true;
  return false;
}
// ------------------------------------------------------------------ mappings
VD Op::apply(const VD &in, int nc) const
{
  if (identity)
    return in;
  VD out(size_t(nout * nc), 0.0);
  for (int r = 0; r < nout; ++r)
    for (int c = 0; c < nin; ++c)
      if (m[size_t(r)][size_t(c)] != 0)
        for (int k = 0; k < nc; ++k)
          out[size_t(r * nc + k)] += m[size_t(r)][size_t(c)] * in[size_t(c * nc + k)];
  if (!win.empty())
    for (int k = 0; k < nc; ++k) {
      double a = 0, b = 0, ref = 0;
      for (int i = 0; i < nin; ++i)
        a += win[size_t(i)] * in[size_t(i * nc + k)];
      for (int i = 0; i < nout; ++i) {
        b += wout[size_t(i)] * out[size_t(i * nc + k)];
        ref += std::fabs(wout[size_t(i)] * out[size_t(i * nc + k)]);
      }
      double f = ref == 0 ? 1 : std::fabs(b) < 1e-2 * ref ? NAN : a / b; // NaN: too sensitive to rounding
      for (int i = 0; i < nout; ++i)
        out[size_t(i * nc + k)] *= f;
    }
  return out;
}
static int nearest(const VD &pts, const double *x, int dim)
{
  double best = 1e300;
  int    b    = -1;
  for (size_t j = 0; j < pts.size(); j += size_t(dim)) {
    double d = 0;
    for (int k = 0; k < dim; ++k)
      d += (pts[j + size_t(k)] - x[k]) * (pts[j + size_t(k)] - x[k]);
    if (d < best) {
      best = d;
      b    = int(j) / dim;
    }
  }
  return b;
}
static Op momentsOp(const Mesh &M, bool sumOnly = false)
{
  VD p = gen::flat(M);
  Op o;
  o.moments = true;
  o.nin     = int(p.size()) / M.dim;
  o.nout    = sumOnly ? 1 : 1 + M.dim;
  o.m.assign(size_t(o.nout), VD(size_t(o.nin), 0.0));
  for (int i = 0; i < o.nin; ++i) {
    o.m[0][size_t(i)] = 1;
    for (int d = 0; d < M.dim && !sumOnly; ++d)
      o.m[size_t(1 + d)][size_t(i)] = p[size_t(i * M.dim + d)];
  }
  return o;
}
// ---------------------------------------------------------------- projections
typedef std::array<int, 4> El;
struct Elements {
  std::vector<std::array<int, 2>> edges;
  std::vector<std::array<int, 3>> tris;
  std::vector<std::array<int, 4>> tets;
};
static Elements elementsOf(const Mesh &M)
{
  std::set<std::array<int, 2>> e;
  std::set<std::array<int, 3>> t;
  Elements                     r;
  auto edge = [&](int a, int b) { e.insert({std::min(a, b), std::max(a, b)}); };
  auto tri  = [&](int a, int b, int c) {
    std::array<int, 3> x{a, b, c};
    std::sort(x.begin(), x.end());
    t.insert(x);
    edge(a, b);
    edge(b, c);
    edge(a, c);
  };
  int off = 0;
  for (size_t k = 0; k < M.conn.size() && k < M.pts.size(); ++k) {
    auto &C = M.conn[k];
    for (size_t i = 0; i + 1 < C.edges.size(); i += 2)
      edge(off + C.edges[i], off + C.edges[i + 1]);
    for (size_t i = 0; i + 2 < C.tris.size(); i += 3)
      tri(off + C.tris[i], off + C.tris[i + 1], off + C.tris[i + 2]);
    for (size_t i = 0; i + 3 < C.tets.size(); i += 4) {
      int v[4] = {off + C.tets[i], off + C.tets[i + 1], off + C.tets[i + 2], off + C.tets[i + 3]};
      tri(v[0], v[1], v[2]);
      tri(v[0], v[1], v[3]);
      tri(v[0], v[2], v[3]);
      tri(v[1], v[2], v[3]);
      r.tets.push_back({v[0], v[1], v[2], v[3]});
    }
    off += int(M.pts[k].size()) / M.dim;
  }
  r.edges.assign(e.begin(), e.end());
  r.tris.assign(t.begin(), t.end());
  return r;
}
// barycentric coordinates of the projection of x onto the simplex, its distance; false: outside
static bool project(const VD &P, const int *v, int n, const double *x, int dim, VD &w, double &dist)
{
  int             k = n - 1;
  std::vector<VD> A(size_t(k), VD(size_t(k), 0.0));
  VD              b(size_t(k), 0.0), u;
  auto            e = [&](int i, int d) { return P[size_t(v[i + 1] * dim + d)] - P[size_t(v[0] * dim + d)]; };
  for (int i = 0; i < k; ++i)
    for (int d = 0; d < dim; ++d) {
      for (int j = 0; j < k; ++j)
        A[size_t(i)][size_t(j)] += e(i, d) * e(j, d);
      b[size_t(i)] += e(i, d) * (x[d] - P[size_t(v[0] * dim + d)]);
    }
  if (!solve(A, b, u))
    return false;
  w.assign(1, 1);
  for (double z : u) {
    w[0] -= z;
    w.push_back(z);
  }
  dist = 0;
  for (int d = 0; d < dim; ++d) {
    double p = 0;
    for (int i = 0; i < n; ++i)
      p += w[size_t(i)] * P[size_t(v[i] * dim + d)];
    dist += (p - x[d]) * (p - x[d]);
  }
  dist = std::sqrt(dist);
  for (double z : w)
    if (z < -1e-12)
      return false;
  return true;
}
// weights of the vertices of M for the point x
static std::vector<std::pair<int, double>> projection(const Mesh &M, const VD &P, const Elements &E, const double *x, bool cells)
{
  typedef std::vector<std::pair<int, double>> W;
  int    dim = M.dim, nn = nearest(P, x, dim);
  double dv  = 0;
  for (int d = 0; d < dim; ++d)
    dv += (P[size_t(nn * dim + d)] - x[d]) * (P[size_t(nn * dim + d)] - x[d]);
  dv        = std::sqrt(dv);
  auto best = [&](auto &els, double &dist) {
    W r;
    dist = 1e300;
    for (auto &el : els) {
      VD     w;
      double d;
      if (project(P, el.data(), int(el.size()), x, dim, w, d) && d < dist) {
        dist = d;
        r.clear();
        for (size_t i = 0; i < el.size(); ++i)
          r.push_back({el[i], w[i]});
      }
    }
    return r;
  };
  double d;
  W      r;
  if (cells) {
    r = dim == 2 ? best(E.tris, d) : best(E.tets, d);
    if (!r.empty())
      return r;
  }
  if (dim == 3) {
    r = best(E.tris, d);
    if (!r.empty() && d <= dv)
      return r;
  }
  r = best(E.edges, d);
  if (!r.empty() && d <= dv)
    return r;
  return {{nn, 1.0}};
}
// Whether the projection of x is clear, also for an implementation that compares few elements, the nearest `nt` triangles
// and `ne` edges by the distance of the element or of its bounding box. Filtered: also if
// vertices which no projection uses are missing.
bool clearProjection(const Mesh &M, const double *x, int nt, int ne, bool filtered)
{
  VD       P = gen::flat(M);
  Elements E = elementsOf(M);
  int      dim = M.dim, nn = nearest(P, x, dim);
  auto     dist = [&](int v) {
    double s = 0;
    for (int d = 0; d < dim; ++d)
      s += (P[size_t(v * dim + d)] - x[d]) * (P[size_t(v * dim + d)] - x[d]);
    return std::sqrt(s);
  };
  double dv = dist(nn);
  for (int v = 0; v < int(P.size()) / dim; ++v)
    if (v != nn && dist(v) < dv + 1e-4)
      return false;
  auto box = [&](const int *v, int n) {
    double d2 = 0;
    for (int d = 0; d < dim; ++d) {
      double lo = 1e300, hi = -1e300;
      for (int i = 0; i < n; ++i) {
        lo = std::min(lo, P[size_t(v[i] * dim + d)]);
        hi = std::max(hi, P[size_t(v[i] * dim + d)]);
      }
      double g = std::max(0.0, std::max(lo - x[d], x[d] - hi));
      d2 += g * g;
    }
    return std::sqrt(d2);
  };
  // 1: found, 0: none, -1: not clear
  auto best = [&](auto &els, int few) {
    double d1 = 1e300, d2 = 1e300, near = 0;
    int    byBox = 0, byDist = 0;
    for (auto &el : els) {
      VD     w;
      double d;
      bool   in = project(P, el.data(), int(el.size()), x, dim, w, d);
      for (double z : w)
        if (std::fabs(z) < 1e-4 || std::fabs(z) > 1e3)
          return -1;
      if (!in)
        continue;
      if (d < d1)
        d2 = d1, d1 = d, near = box(el.data(), int(el.size()));
      else
        d2 = std::min(d2, d);
    }
    if (d1 > 1e299)
      return 0;
    if (d2 < d1 + 1e-4 || std::fabs(d1 - dv) < 1e-4)
      return -1;
    if (d1 > dv)
      return filtered && els[0].size() == 3 ? -1 : 0;
    for (auto &el : els) {
      byBox += box(el.data(), int(el.size())) <= near + 1e-9;
      double d = 1e300;
      int    n = int(el.size());
      for (int mask = 1; mask < 1 << n; ++mask) { // the distance to its faces, edges and vertices
        std::vector<int> v;
        for (int i = 0; i < n; ++i)
          if (mask >> i & 1)
            v.push_back(el[size_t(i)]);
        double q;
        VD     w;
        if (v.size() == 1)
          d = std::min(d, dist(v[0]));
        else if (project(P, v.data(), int(v.size()), x, dim, w, q))
          d = std::min(d, q);
      }
      byDist += d <= d1 + 1e-9;
    }
    return byBox <= few && byDist <= few ? 1 : -1;
  };
  if (dim == 3) {
    int k = best(E.tris, nt);
    if (k)
      return k == 1;
  }
  return best(E.edges, ne) >= 0;
}
// integration weights of the vertices
static VD integral(const Mesh &M, bool volume)
{
  VD       P = gen::flat(M), w(P.size() / size_t(M.dim), 0.0);
  Elements E = elementsOf(M);
  auto     len = [&](int a, int b) {
    double s = 0;
    for (int d = 0; d < M.dim; ++d)
      s += (P[size_t(a * M.dim + d)] - P[size_t(b * M.dim + d)]) * (P[size_t(a * M.dim + d)] - P[size_t(b * M.dim + d)]);
    return std::sqrt(s);
  };
  auto area = [&](const std::array<int, 3> &t) {
    double a = len(t[0], t[1]), b = len(t[1], t[2]), c = len(t[0], t[2]), q = (a + b + c) / 2;
    return std::sqrt(std::max(0.0, q * (q - a) * (q - b) * (q - c)));
  };
  if (M.dim == 2 && !volume)
    for (auto &e : E.edges)
      for (int v : e)
        w[size_t(v)] += len(e[0], e[1]) / 2;
  else if (M.dim == 2 || !volume)
    for (auto &t : E.tris)
      for (int v : t)
        w[size_t(v)] += area(t) / 3;
  else
    for (auto &t : E.tets) {
      double m[3][3];
      for (int i = 0; i < 3; ++i)
        for (int d = 0; d < 3; ++d)
          m[i][d] = P[size_t(t[size_t(i + 1)] * 3 + d)] - P[size_t(t[0] * 3 + d)];
      double v = std::fabs(m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])) / 6;
      for (int i : t)
        w[size_t(i)] += v / 4;
    }
  return w;
}
static std::string attribute(const Map &m, const std::string &k)
{
  size_t i = m.attrs.find(k + "=\"");
  if (i == std::string::npos)
    return "";
  i += k.size() + 2;
  return m.attrs.substr(i, m.attrs.find('"', i) - i);
}
// geometric multiscale mappings of scalars
static Op multiscaleOp(const VD &a, const VD &b, int dim, const Map &m, Op o)
{
  bool        spread = attribute(m, "multiscale-type") == "spread", radial = m.type.find("radial") == 0;
  int         axis   = attribute(m, "multiscale-axis")[0] - 'x';
  double      R      = atof(attribute(m, "multiscale-radius").c_str());
  const VD   &line   = spread ? a : b;
  auto        at     = [&](const double *x) { // vertex of the coarse mesh
    double best = 1e300;
    int    k    = 0;
    for (size_t j = 0; j < line.size() / size_t(dim); ++j) {
      double d = 0;
      for (int q = 0; q < dim; ++q)
        if (!radial || q == axis)
          d += (line[j * size_t(dim) + size_t(q)] - x[q]) * (line[j * size_t(dim) + size_t(q)] - x[q]);
      if (d < best) {
        best = d;
        k    = int(j);
      }
    }
    return k;
  };
  const VD &fine = spread ? b : a;
  int       nf   = int(fine.size()) / dim;
  std::string profile = attribute(m, "multiscale-cross-section-profile"), dims = attribute(m, "multiscale-dimension");
  bool        square  = attribute(m, "multiscale-cross-section") == "square";
  VD          count(line.size() / size_t(dim), 0.0);
  for (int i = 0; i < nf; ++i)
    count[size_t(at(&fine[size_t(i * dim)]))] += 1;
  for (int i = 0; i < nf; ++i) {
    const double *x = &fine[size_t(i * dim)];
    int           k = at(x);
    if (!spread) {
      o.m[size_t(k)][size_t(i)] = 1 / count[size_t(k)];
      continue;
    }
    double f = 1;
    if (!radial && profile == "parabolic") {
      double d = 0, s[2];
      for (int q = 0; q < dim; ++q)
        d += (x[q] - line[size_t(k * dim + q)]) * (x[q] - line[size_t(k * dim + q)]);
      for (int q = 0; q < 2; ++q)
        s[q] = (x[(axis + 1 + q) % 3] - line[size_t(k * dim + (axis + 1 + q) % 3)]) / R;
      d /= R * R;
      f = dims == "1d-2d" ? 1.5 * (1 - d) : square ? 2.096 * std::pow(std::max(0.0, 1 - s[0] * s[0]), 0.879) * std::pow(std::max(0.0, 1 - s[1] * s[1]), 0.879) : 2 * (1 - d);
    }
    o.m[size_t(i)][size_t(k)] = f;
  }
  return o;
}
static bool shared(const Mesh &M) // vertices at the same place
{
  VD                 p = gen::flat(M);
  std::set<VD>       seen;
  for (size_t i = 0; i < p.size(); i += size_t(M.dim))
    if (!seen.insert(VD(p.begin() + long(i), p.begin() + long(i) + M.dim)).second)
      return true;
  return false;
}
Op meshOp(const Spec &s, const Map &mp)
{
  if (mp.constraint.find("scaled-consistent") == 0) {
    Map  q       = mp;
    q.constraint = "consistent";
    Op   o       = meshOp(s, q);
    bool volume  = mp.constraint == "scaled-consistent-volume";
    if (o.tol < 0)
      return o;
    o.win        = integral(s.meshes[size_t(mp.from)], volume);
    o.wout       = integral(s.meshes[size_t(mp.to)], volume);
    o.tol        = std::max(o.tol * 100, 1e-7);
    return o;
  }
  const Mesh &F = s.meshes[size_t(mp.from)], &T = s.meshes[size_t(mp.to)];
  VD          a = gen::flat(F), b = gen::flat(T);
  int         dim = F.dim;
  Op          o;
  o.nin  = int(a.size()) / dim;
  o.nout = int(b.size()) / dim;
  o.m.assign(size_t(o.nout), VD(size_t(o.nin), 0.0));
  if (mp.constraint == "conservative" && mp.type != "rbf-global-direct" && shared(T)) // only the sum does not depend on which of several vertices at the same place is chosen
    return momentsOp(F, true);
  if (mp.type == "rbf-pum-direct") { // constants and sums
    if (mp.constraint == "conservative") {
      Op q  = momentsOp(F, true);
      q.tol = 1e-6;
      return q;
    }
    for (int j = 0; j < o.nout; ++j)
      for (int i = 0; i < o.nin; ++i)
        o.m[size_t(j)][size_t(i)] = 1.0 / o.nin;
    o.tol = 1e-6;
    return o;
  }
  if (mp.type == "nearest-neighbor") {
    if (mp.constraint == "consistent")
      for (int i = 0; i < o.nout; ++i)
        o.m[size_t(i)][size_t(nearest(a, &b[size_t(i * dim)], dim))] = 1;
    else
      for (int i = 0; i < o.nin; ++i)
        o.m[size_t(nearest(b, &a[size_t(i * dim)], dim))][size_t(i)] = 1;
    return o;
  }
  if (mp.type.find("multiscale") != std::string::npos)
    return multiscaleOp(a, b, dim, mp, o);
  if (mp.type == "nearest-projection" || mp.type == "linear-cell-interpolation") {
    bool        cons = mp.constraint == "conservative", cells = mp.type[0] == 'l';
    const Mesh &S = cons ? T : F;
    const VD   &P = cons ? b : a, &X = cons ? a : b;
    Elements    E = elementsOf(S);
    for (int i = 0; i < (cons ? o.nin : o.nout); ++i)
      for (auto &w : projection(S, P, E, &X[size_t(i * dim)], cells))
        (cons ? o.m[size_t(w.first)][size_t(i)] : o.m[size_t(i)][size_t(w.first)]) += w.second;
    return o;
  }
  if (mp.constraint == "conservative") {
    Op q  = momentsOp(F);
    q.tol = 1e-6;
    return q;
  }
  // exact for fields linear in the coordinates: affine least-squares fit, evaluated at the output
  int             q = dim + 1;
  std::vector<VD> N(size_t(q), VD(size_t(q), 0.0));
  auto            phi = [&](const double *x, int k) { return k == 0 ? 1.0 : x[k - 1]; };
  for (int i = 0; i < o.nin; ++i)
    for (int r = 0; r < q; ++r)
      for (int c = 0; c < q; ++c)
        N[size_t(r)][size_t(c)] += phi(&a[size_t(i * dim)], r) * phi(&a[size_t(i * dim)], c);
  for (int j = 0; j < o.nout; ++j) {
    VD e, w;
    for (int r = 0; r < q; ++r)
      e.push_back(phi(&b[size_t(j * dim)], r));
    if (!solve(N, e, w)) {
      o.tol = -1;
      return o;
    }
    for (int i = 0; i < o.nin; ++i) {
      double z = 0;
      for (int r = 0; r < q; ++r)
        z += w[size_t(r)] * phi(&a[size_t(i * dim)], r);
      o.m[size_t(j)][size_t(i)] = z;
    }
  }
  o.tol = 1e-5;
  return o;
}
// ------------------------------------------------------------------ traces
Trace mergeTrace(const Spec &s, int part, const run::Out &o, std::vector<Problem> &pr)
{
  Trace                             t;
  const Part                       &P = s.parts[size_t(part)];
  std::vector<const run::NodeOut *> n;
  for (int r = 0; r < P.size; ++r)
    n.push_back(&o.nodes[size_t(s.nodeOf(part, r))]);
  std::vector<std::vector<const Ev *>> ev(n.size());
  for (size_t r = 0; r < n.size(); ++r)
    for (auto &e : n[r]->ev)
      if (e.op != "mesh" && e.op != "end" && e.op != "access" && e.op != "misuse")
        ev[r].push_back(&e);
  size_t len = ev[0].size();
  for (auto &v : ev)
    if (v.size() != len) {
      pr.push_back({"trace", P.name + ": ranks made different numbers of coupling steps"});
      len = std::min(len, v.size());
    }
  Step *cur = nullptr;
  for (size_t i = 0; i < len; ++i) {
    const Ev &e = *ev[0][i];
    for (size_t r = 1; r < n.size(); ++r) {
      const Ev &f      = *ev[r][i];
      bool      values = e.op == "write" || e.op == "read" || e.op == "jitwrite" || e.op == "jitread";
      if (f.op != e.op || f.mesh != e.mesh || f.data != e.data || f.i != e.i || (values ? f.x[0] != e.x[0] : f.x != e.x)) {
        std::string d = P.name + ": rank " + std::to_string(r) + " diverges from rank 0 at " + e.op + "/" + f.op;
        for (int k : e.i)
          d += " " + std::to_string(k);
        d += " vs";
        for (int k : f.i)
          d += " " + std::to_string(k);
        pr.push_back({"trace", d});
        return t;
      }
    }
    auto all = [&] {
      VD v;
      for (size_t r = 0; r < n.size(); ++r)
        v.insert(v.end(), ev[r][i]->x.begin() + 1, ev[r][i]->x.end());
      return v;
    };
    if (e.op == "reqInit")
      t.reqInit = e.i[0];
    else if (e.op == "initialized") {
      t.initialized = true;
      t.initOn      = e.i[0];
      t.initTwc     = e.i[1];
      t.initMx      = e.x[0];
    } else if (e.op == "write") {
      VD v = all();
      if (!t.initialized)
        t.initWrites[{e.mesh, e.data}] = v;
      else if (cur)
        cur->writes[{e.mesh, e.data}] = v;
    } else if (e.op == "jitwrite") {
      if (!t.initialized)
        t.initJitWrites[e.i[1]] = all();
      else if (cur)
        cur->jitWrites[e.i[1]] = all();
    } else if (e.op == "step") {
      t.steps.emplace_back();
      cur       = &t.steps.back();
      cur->reqW = e.i[0];
      cur->w    = e.i[1];
      cur->k    = e.i[2];
      cur->t    = e.x[0];
      cur->mx   = e.x[1];
      cur->dt   = e.x[2];
    } else if (e.op == "read" || e.op == "jitread") {
      Read r{e.op == "read" ? e.mesh : e.i[2], e.data, e.x[0], all()};
      bool jit = e.op == "jitread";
      if (cur && !cur->advanced)
        (jit ? cur->jitReads : cur->reads).push_back(r);
      else
        (jit ? t.finalJitReads : t.finalReads).push_back(r);
    } else if (e.op == "advanced") {
      if (cur) {
        cur->advanced = true;
        cur->on       = e.i[0];
        cur->twc      = e.i[1];
        cur->rr       = e.i[2];
        cur->mxAfter  = e.x[0];
        if (!cur->on)
          cur = nullptr;
      }
    } else if (e.op == "finalized")
      t.finalized = true;
  }
  return t;
}
// ------------------------------------------------------------------ time
double windowEnd(const Scheme &c, int w)
{
  double e = (w + 1) * c.window;
  if (c.maxTime > 0)
    e = std::min(e, c.maxTime);
  return e;
}
int expectedWindows(const Scheme &c)
{
  int n = 1 << 30;
  if (c.maxWindows > 0)
    n = c.maxWindows;
  if (c.maxTime > 0)
    n = std::min(n, int(std::ceil(c.maxTime / c.window - 1e-9)));
  return n;
}
double dataScale(const Spec &s, const std::vector<Trace> &tr, int data)
{
  double m = 1e-12;
  auto   f = [&](const VD &v) {
    for (double x : v)
      if (std::isfinite(x))
        m = std::max(m, std::fabs(x));
  };
  for (auto &t : tr) {
    for (auto &w : t.initWrites)
      if (w.first.second == data)
        f(w.second);
    for (auto &st : t.steps)
      for (auto &w : st.writes)
        if (w.first.second == data)
          f(w.second);
  }
  for (auto &p : s.parts)
    for (auto &j : p.jits)
      if (j.data == data)
        m = std::max(m, 10 * s.datas[size_t(data)].base);
  return m;
}
// ------------------------------------------------------------------ the model
namespace {
struct Flow { // one exchanged data set
  const Exch *e;
  int         data, P, Q, nc, degree, wmesh, rmesh;
  Op          toX;   // written values -> exchange level
  Op          toR;   // exchange level -> reading level
  Op          proj;  // projection of the values actually read (identity or moments)
  bool        known = true; // vertex values are known at the exchange level
  VD          start; // sample of the sender at the start of the window, exchange level
  VD          base;  // sample the receiver holds for the start of the window
  Wave        cur;   // what the receiver sees in its next iteration
  Wave        prev;  // previous iteration, as stored by the accelerating participant
  bool        prevKnown = true;
};

// ---------------------------------------------------------------- reference implementation of the accelerations
struct AccFlow { // one accelerated data set in one iteration, at the end of the window
  int         mesh = 0, data = 0;
  std::string name;
  bool        partial = false, xtKnown = false, xKnown = false, xnKnown = false;
  double      scale   = 1, lo = -INFINITY, hi = INFINITY;
  bool        inside = true; // everything the solver computed respects the bounds
  int         degree = 1;
  std::vector<VD> seen; // everything read in the next iteration
  VD          xt, x, xn; // computed by the solvers, input of the iteration, input of the next iteration
};
struct AccState {
  uint64_t checked = 0, boundsChecked = 0;
  // Aitken
  bool   omegaKnown = true, rKnown = false;
  double omega = NAN;
  VD     rOld;
  // quasi-Newton
  bool                         qnKnown = true, firstWindow = true;
  std::vector<VD>              V;
  std::vector<std::vector<VD>> W;         // per column, per flow
  std::vector<bool>            wKnown;    // per flow
  std::vector<VD>              xtOld;
  bool                         first = true;

  static double dot(const VD &a, const VD &b)
  {
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i)
      d += a[i] * b[i];
    return d;
  }
  // largest deviation of xn from want, relative to the scale
  std::string compare(const AccFlow &f, const VD &want, double tol, const char *what)
  {
    ++checked;
    for (size_t q = 0; q < want.size(); ++q)
      if (!(std::fabs(f.xn[q] - want[q]) <= tol * f.scale))
        return std::string(what) + ": " + f.name + " value " + std::to_string(q) + " is " + num(f.xn[q]) + " after the acceleration, expected " + num(want[q]) + " (computed " + num(f.xt[q]) + ", previous " + num(f.x[q]) + ")";
    return "";
  }
  std::string aitken(const Scheme &c, std::vector<AccFlow> &af, int k, bool conv)
  {
    if (conv) {
      return "";
    }
    // primary residual
    bool known = !c.accel.data.empty(), partial = false;
    VD   r;
    for (auto &d : c.accel.data)
      for (auto &f : af)
        if (f.data == d.data && f.mesh == d.mesh) {
          known   = known && f.xtKnown && f.xKnown;
          partial = partial || f.partial;
          for (size_t q = 0; q < f.xt.size() && q < f.x.size(); ++q)
            r.push_back(f.xt[q] - f.x[q]);
        }
    double want = NAN, cond = 1;
    if (std::isnan(omega))
      omega = c.accel.relax;
    if (k == 1) {
      if (omegaKnown)
        want = (omega < 0 ? -1 : 1) * std::min(c.accel.relax, std::fabs(omega));
      // whatever it was, it is the same for everything
    } else if (omegaKnown && known && rKnown && !partial && c.accel.data.size() == 1 && r.size() == rOld.size()) {
      VD d(r);
      for (size_t q = 0; q < d.size(); ++q)
        d[q] -= rOld[q];
      double dd = dot(d, d);
      if (dd > 0) {
        want = -omega * dot(rOld, d) / dd;
        cond = (std::sqrt(dot(rOld, rOld)) + std::sqrt(dot(r, r))) / std::sqrt(dd);
      }
    }
    rKnown = known;
    rOld   = r;
    // the factor found in the data that can be observed
    double num_ = 0, den = 0;
    for (auto &f : af)
      if (f.xtKnown && f.xKnown && f.xnKnown)
        for (size_t q = 0; q < f.xt.size(); ++q) {
          double a = (f.xt[q] - f.x[q]) / f.scale, b = (f.xn[q] - f.x[q]) / f.scale;
          num_ += a * b;
          den += a * a;
        }
    bool   seen = den > 1e-10;
    double got  = seen ? num_ / den : NAN;
    bool   trust = !std::isnan(want) && cond < 1e3;
    if (trust || seen)
      for (auto &f : af)
        if (f.xtKnown && f.xKnown && f.xnKnown) {
          double om = trust ? want : got;
          VD     y(f.xt.size());
          for (size_t q = 0; q < y.size(); ++q)
            y[q] = f.x[q] + om * (f.xt[q] - f.x[q]);
          std::string e = compare(f, y, 1e-9 * (1 + std::fabs(om)) * (1 + cond * cond), trust ? "Aitken relaxation" : "one relaxation factor for all data");
          if (!e.empty())
            return e + ", factor " + num(om);
        }
    if (seen) {
      omega      = got;
      omegaKnown = den > 1e-6;
    } else if (trust) {
      omega = want;
    } else
      omegaKnown = false;
    return "";
  }
  std::string qn(const Scheme &c, std::vector<AccFlow> &af, int k, bool conv)
  {
    size_t pi = af.size();
    for (size_t i = 0; i < af.size(); ++i)
      if (!c.accel.data.empty() && af[i].data == c.accel.data[0].data && af[i].mesh == c.accel.data[0].mesh)
        pi = i;
    if (c.accel.data.size() != 1 || pi == af.size() || af[pi].partial || !af[pi].xtKnown || !af[pi].xKnown || c.accel.attrs.find("reduced-time-grid=\"false\"") != std::string::npos)
      qnKnown = false;
    bool enforce = c.accel.attrs.find("enforce=\"true\"") != std::string::npos || c.accel.enforce;
    // the first step of all is a relaxation, whatever the rest
    if (firstWindow && first && !conv) {
      for (auto &f : af)
        if (f.xtKnown && f.xKnown && f.xnKnown) {
          VD y(f.xt.size());
          for (size_t q = 0; q < y.size(); ++q)
            y[q] = f.x[q] + c.accel.relax * (f.xt[q] - f.x[q]);
          std::string e = compare(f, y, 1e-9, "initial relaxation");
          if (!e.empty())
            return e;
        }
    } else if (k == 1 && enforce && !conv) {
      for (auto &f : af)
        if (f.xtKnown && f.xKnown && f.xnKnown) {
          VD y(f.xt.size());
          for (size_t q = 0; q < y.size(); ++q)
            y[q] = f.x[q] + c.accel.relax * (f.xt[q] - f.x[q]);
          std::string e = compare(f, y, 1e-9, "enforced relaxation");
          if (!e.empty())
            return e;
        }
    }
    bool bounded = false, inside = true;
    for (auto &f : af) {
      bounded = bounded || std::isfinite(f.lo) || std::isfinite(f.hi);
      inside  = inside && f.inside;
    }
    bounded = bounded && !c.accel.bounds.empty() && c.accel.bounds != "ignore";
    if (bounded && inside && !conv && !(k == 1 && (firstWindow || enforce)))
      for (auto &f : af)
        if (f.degree <= 1 && !f.partial)
          for (auto &v : f.seen) {
            ++boundsChecked;
            for (size_t q = 0; q < v.size(); ++q)
              if (v[q] < f.lo - 1e-9 * f.scale || v[q] > f.hi + 1e-9 * f.scale)
                return "bounds (" + c.accel.bounds + "): " + f.name + " value " + std::to_string(q) + " is " + num(v[q]) + " after the acceleration, outside of " + num(f.lo) + " to " + num(f.hi);
          }
    if (!qnKnown) {
      if (conv && k > 1)
        firstWindow = false;
      return "";
    }
    VD r(af[pi].xt);
    for (size_t q = 0; q < r.size(); ++q)
      r[q] -= af[pi].x[q];
    auto store = [&] {
      rOld = r;
      xtOld.clear();
      for (auto &f : af)
        xtOld.push_back(f.xt);
    };
    if (k > 1) { // a new column
      VD              d(r);
      std::vector<VD> w;
      for (size_t q = 0; q < d.size(); ++q)
        d[q] -= rOld[q];
      for (size_t i = 0; i < af.size(); ++i) {
        VD x(af[i].xt);
        for (size_t q = 0; q < x.size(); ++q)
          x[q] -= xtOld[i][q];
        w.push_back(x);
      }
      V.insert(V.begin(), d);
      W.insert(W.begin(), w);
      if (int(V.size()) > c.accel.maxUsed || V.size() > r.size()) {
        V.pop_back();
        W.pop_back();
      }
    }
    store();
    if (conv) {
      if (k > 1) {
        firstWindow = false;
        if (c.accel.type == "IQN-IMVJ" || c.accel.reused > 0)
          qnKnown = false; // uses more than the columns of this window
        else if (enforce) {
          V.clear();
          W.clear();
        }
      } else if (V.empty())
        qnKnown = false; // falls back to older columns
      return "";
    }
    if ((k == 1 && firstWindow) || (k == 1 && enforce))
      return "";
    if (V.empty()) {
      qnKnown = false;
      return "";
    }
    // least squares by Gram-Schmidt, twice
    size_t          n = V.size();
    std::vector<VD> Q(V);
    std::vector<VD> Rm(n, VD(n, 0.0));
    double          ratio = 1, biggest = 0;
    for (size_t j = 0; j < n; ++j)
      biggest = std::max(biggest, std::sqrt(dot(V[j], V[j])));
    for (size_t j = 0; j < n; ++j) {
      for (int twice = 0; twice < 2; ++twice)
        for (size_t i = 0; i < j; ++i) {
          double d = dot(Q[i], Q[j]);
          Rm[i][j] += d;
          for (size_t q = 0; q < Q[j].size(); ++q)
            Q[j][q] -= d * Q[i][q];
        }
      double nn = std::sqrt(dot(Q[j], Q[j]));
      ratio     = std::min(ratio, biggest > 0 ? nn / biggest : 0);
      Rm[j][j]  = nn;
      if (nn > 0)
        for (auto &q : Q[j])
          q /= nn;
    }
    double lim = c.accel.filter.empty() ? 1e-2 : c.accel.filterLimit; // QR3 by default
    if (ratio < 1e-4 || ratio < 2 * double(n) * lim || biggest < 1e-6 * af[pi].scale) {
      qnKnown = false; // columns may be filtered out, or rounding matters
      return "";
    }
    VD     al(n);
    double big = 0;
    for (size_t jj = n; jj-- > 0;) {
      double b = -dot(Q[jj], r);
      for (size_t i = jj + 1; i < n; ++i)
        b -= Rm[jj][i] * al[i];
      al[jj] = b / Rm[jj][jj];
      big    = std::max(big, std::fabs(al[jj]));
    }
    for (size_t i = 0; i < af.size(); ++i) {
      auto &f = af[i];
      if (!f.xtKnown || !f.xnKnown || bounded)
        continue;
      VD     y(f.xt);
      double ww = 0;
      for (size_t j = 0; j < n; ++j)
        for (size_t q = 0; q < y.size(); ++q) {
          y[q] += W[j][i][q] * al[j];
          ww = std::max(ww, std::fabs(W[j][i][q]));
        }
      std::string e = compare(f, y, 1e-9 * (1 + big) * (1 + ww / f.scale) / (ratio * ratio), "quasi-Newton update");
      if (!e.empty())
        return e + ", " + std::to_string(n) + " columns";
    }
    if (k == 1) { // the columns of the previous window only serve the first iteration
      V.clear();
      W.clear();
    }
    return "";
  }
  std::string step(const Scheme &c, std::vector<AccFlow> &af, int k, bool conv)
  {
    std::string e;
    if (c.accel.type == "aitken")
      e = aitken(c, af, k, conv);
    else if (c.accel.type.compare(0, 3, "IQN") == 0)
      e = qn(c, af, k, conv);
    if (conv)
      first = true;
    else
      first = false;
    return e;
  }
};
} // namespace

static Op identityOp()
{
  Op o;
  o.identity = true;
  return o;
}

Result check(const Spec &s, const run::Out &o, const Opts &op)
{
  Result R;
  auto   bad = [&](const std::string &cat, const std::string &t) {
    if (R.problems.size() < 20)
      R.problems.push_back({cat, t});
  };
  for (size_t p = 0; p < s.parts.size(); ++p)
    R.traces.push_back(mergeTrace(s, int(p), o, R.problems));
  if (!R.problems.empty())
    return R;
  // ---- per participant: steps of (window, iteration)
  std::vector<std::map<std::pair<int, int>, std::vector<const Step *>>> it(s.parts.size());
  for (size_t p = 0; p < s.parts.size(); ++p)
    for (auto &st : R.traces[p].steps)
      it[p][{st.w, st.k}].push_back(&st);
  // ---- schemes of a participant
  auto involved = [&](const Scheme &c, int p) {
    if (c.type == "multi")
      return std::find(c.parts.begin(), c.parts.end(), p) != c.parts.end();
    return c.first == p || c.second == p;
  };
  std::vector<const Scheme *> impl(s.parts.size(), nullptr);
  for (auto &c : s.schemes)
    if (c.implicit())
      for (size_t p = 0; p < s.parts.size(); ++p)
        if (involved(c, int(p)))
          impl[p] = &c;
  // windows prescribed by the first participant
  const Scheme &c0 = s.schemes[0];
  std::vector<double> wstart{0};
  if (c0.method == "first-participant") {
    const Trace &t = R.traces[size_t(c0.first)];
    for (auto &st : t.steps)
      if (st.twc)
        wstart.push_back(wstart.back() + st.dt);
  } else {
    int n = expectedWindows(c0);
    if (n > 100000)
      n = 0;
    for (int w = 0; w < n; ++w)
      wstart.push_back(windowEnd(c0, w));
  }
  const double TT = 1e-12;
  auto         near = [&](double a, double b) { return std::fabs(a - b) <= TT * std::max(1.0, std::fabs(b)); };
  // ---- control flow of each participant
  for (size_t p = 0; p < s.parts.size(); ++p) {
    const Trace &t    = R.traces[p];
    std::string  name = s.parts[p].name;
    bool         mine = false, first = false;
    for (auto &c : s.schemes)
      if (involved(c, int(p)))
        mine = true;
    if (!mine)
      continue;
    first = c0.method == "first-participant" && c0.first == int(p);
    if (!t.initialized || !t.finalized) {
      bad("flags", name + " did not reach the end");
      continue;
    }
    if (!t.initOn)
      bad("flags", name + ": coupling is not ongoing after initialize()");
    if (t.initTwc)
      bad("flags", name + ": time window complete after initialize()");
    double prevMx = t.initMx;
    int    nwin   = 0;
    for (size_t i = 0; i < t.steps.size(); ++i) {
      const Step &st = t.steps[i];
      R.flagsChecked++;
      std::string at = name + " window " + std::to_string(st.w) + " iteration " + std::to_string(st.k) + " t=" + num(st.t);
      bool        fs = st.k == 1 && (i == 0 || t.steps[i - 1].twc);
      if (st.reqW != (impl[p] && fs))
        bad("flags", at + ": requiresWritingCheckpoint() is " + std::to_string(st.reqW));
      if (st.mx != prevMx)
        bad("time", at + ": getMaxTimeStepSize() changed between calls");
      if (!st.advanced) {
        bad("flags", at + ": did not complete advance()");
        break;
      }
      double wend;
      if (first)
        wend = st.t + st.dt;
      else if (size_t(st.w + 1) < wstart.size())
        wend = wstart[size_t(st.w + 1)];
      else {
        bad("time", at + ": more time windows than configured");
        break;
      }
      double emx = wend - st.t;
      if (first) {
        emx = c0.maxTime > 0 ? c0.maxTime - st.t : st.mx;
        if (c0.maxTime <= 0 && st.mx < 1e300)
          bad("time", at + ": maximal step " + num(st.mx) + " although the participant prescribes the window");
      }
      if (!near(st.mx, emx))
        bad("time", at + ": getMaxTimeStepSize() is " + num(st.mx) + ", expected " + num(emx));
      if (!near(st.t, wstart[size_t(st.w)]) && st.t < wstart[size_t(st.w)])
        bad("time", at + ": before the start of the window");
      bool end = near(st.t + st.dt, wend);
      if (!end) {
        if (st.twc || st.rr || !st.on)
          bad("flags", at + ": step inside the window reports complete=" + std::to_string(st.twc) + " readCheckpoint=" + std::to_string(st.rr) + " ongoing=" + std::to_string(st.on));
        if (!near(st.mxAfter, wend - st.t - st.dt))
          bad("time", at + ": getMaxTimeStepSize() after the step is " + num(st.mxAfter) + ", expected " + num(wend - st.t - st.dt));
      } else {
        if (impl[p] ? st.twc == st.rr : (!st.twc || st.rr))
          bad("flags", at + ": end of window reports complete=" + std::to_string(st.twc) + " readCheckpoint=" + std::to_string(st.rr));
        if (st.twc)
          ++nwin;
        bool more = true;
        if (st.twc) {
          if (c0.maxWindows > 0 && nwin >= c0.maxWindows)
            more = false;
          if (c0.maxTime > 0 && near(st.t + st.dt, c0.maxTime))
            more = false;
        }
        if (st.on != more)
          bad("flags", at + ": isCouplingOngoing() is " + std::to_string(st.on) + " after window " + std::to_string(nwin));
        if (!more && st.mxAfter != 0)
          bad("time", at + ": getMaxTimeStepSize() is " + num(st.mxAfter) + " after the end");
        if (st.rr && !first && !near(st.mxAfter, wend - wstart[size_t(st.w)]))
          bad("time", at + ": getMaxTimeStepSize() is " + num(st.mxAfter) + " after going back to the start of the window");
        if (st.rr && i + 1 < t.steps.size() && t.steps[i + 1].k != st.k + 1)
          bad("flags", at + ": unexpected next iteration");
      }
      prevMx = st.mxAfter;
    }
    if (!t.steps.empty() && t.steps.back().on)
      bad("flags", name + ": ended while the coupling was ongoing");
    int want = c0.method == "first-participant" ? int(wstart.size()) - 1 : expectedWindows(c0);
    if (want < (1 << 20) && nwin != want)
      bad("lockstep", name + " completed " + std::to_string(nwin) + " time windows, expected " + std::to_string(want));
  }
  R.schemes.resize(s.schemes.size());
  if (!R.problems.empty())
    return R;
  // ---- data
  auto substepsOf = [&](int p) {
    for (auto &c : s.schemes)
      for (auto &e : c.exchanges)
        if (e.from == p && e.substeps)
          return true;
    return false;
  };
  for (size_t ci = 0; ci < s.schemes.size(); ++ci) {
    const Scheme     &c  = s.schemes[ci];
    SchemeResult     &SR = R.schemes[ci];
    bool              ser = c.type.find("serial") == 0, multi = c.type == "multi", im = c.implicit();
    int               ctl = multi ? c.first : c.second; // controls convergence and acceleration
    std::vector<Flow> fl;
    bool              modelled = true;
    for (auto &e : c.exchanges) {
      Flow f;
      f.e      = &e;
      f.data   = e.data;
      f.P      = e.from;
      f.Q      = e.to;
      f.degree = s.datas[size_t(e.data)].degree;
      f.wmesh = f.rmesh = -1;
      for (auto &w : s.parts[size_t(f.P)].writes)
        if (w.data == f.data)
          f.wmesh = w.mesh;
      for (auto &w : s.parts[size_t(f.Q)].reads)
        if (w.data == f.data)
          f.rmesh = w.mesh;
      if (f.wmesh < 0 || f.rmesh < 0) {
        modelled = false; // just-in-time or direct access: modelled elsewhere
        continue;
      }
      f.nc   = s.dims(f.data, f.wmesh);
      f.toX  = identityOp();
      f.toR  = identityOp();
      f.proj = identityOp();
      if (f.wmesh != e.mesh)
        for (auto &m : s.parts[size_t(f.P)].maps)
          if (m.write && m.from == f.wmesh && m.to == e.mesh) {
            f.toX = meshOp(s, m);
            if (f.toX.moments)
              f.proj = momentsOp(s.meshes[size_t(m.to)], f.toX.nout == 1);
          }
      if (f.rmesh != e.mesh)
        for (auto &m : s.parts[size_t(f.Q)].maps)
          if (!m.write && m.from == e.mesh && m.to == f.rmesh) {
            f.toR = meshOp(s, m);
            if (f.toR.moments)
              f.proj = momentsOp(s.meshes[size_t(m.to)], f.toR.nout == 1);
          }
      // actions which scale by the areas of the vertices
      auto scale = [&](Op &o, const Action &a) {
        VD w = integral(s.meshes[size_t(a.mesh)], false);
        if (o.identity) {
          o          = Op();
          o.nin      = o.nout = int(w.size());
          o.m.assign(w.size(), VD(w.size(), 0.0));
          for (size_t i = 0; i < w.size(); ++i)
            o.m[i][i] = 1;
        }
        for (size_t i = 0; i < w.size(); ++i)
          for (auto &x : o.m[i])
            x *= a.type == "multiply-by-area" ? w[i] : 1 / w[i];
      };
      for (auto &a : s.parts[size_t(f.P)].actions)
        if (a.timing == "write-mapping-post" && a.mesh == e.mesh && a.target == f.data)
          scale(f.toX, a);
      for (auto &a : s.parts[size_t(f.Q)].actions)
        if (a.timing == "read-mapping-post" && a.mesh == f.rmesh && a.target == f.data)
          scale(f.toR, a);
      f.known = !f.toX.moments && f.toX.win.empty();
      fl.push_back(f);
    }
    auto written = [&](const Flow &f, const std::map<std::pair<int, int>, VD> &w) {
      auto i = w.find({f.wmesh, f.data});
      VD   v;
      if (i != w.end())
        v = i->second;
      else
        v.assign(gen::flat(s.meshes[size_t(f.wmesh)]).size() / size_t(s.meshes[size_t(f.wmesh)].dim) * size_t(f.nc), 0.0);
      return f.toX.apply(v, f.nc);
    };
    // initial data
    auto anyInit = [&](int from, int to) {
      for (auto &e : c.exchanges)
        if (e.from == from && e.to == to && e.init)
          return true;
      return false;
    };
    for (auto &f : fl) {
      f.start = written(f, R.traces[size_t(f.P)].initWrites);
      VD zero(f.start.size(), 0.0);
      f.base = anyInit(f.P, f.Q) ? f.start : zero;
      f.cur.t = {0};
      f.cur.v = {f.base};
      f.prev.t = {0};
      f.prev.v = {f.P == ctl ? f.start : zero};
    }
    // raw waveform of the sender in (w,k)
    auto raw = [&](const Flow &f, int w, int k, Wave &wv) {
      auto i = it[size_t(f.P)].find({w, k});
      if (i == it[size_t(f.P)].end())
        return false;
      wv.t = {wstart[size_t(w)]};
      wv.v = {f.start};
      for (size_t j = 0; j < i->second.size(); ++j) {
        const Step *st = i->second[j];
        if (j + 1 < i->second.size() && !substepsOf(f.P))
          continue;
        wv.t.push_back(st->t + st->dt);
        wv.v.push_back(written(f, st->writes));
      }
      return true;
    };
    // what the receiver gets of a waveform
    auto transmit = [&](const Flow &f, const Wave &wv) {
      if (f.e->substeps)
        return wv;
      Wave x;
      x.t = {wv.t.front(), wv.t.back()};
      x.v = {f.base, wv.v.back()};
      return x;
    };
    auto readCheck = [&](const Flow &f, const Wave &wv, const std::vector<const Step *> &steps) {
      if (!op.values)
        return;
      double scale = dataScale(s, R.traces, f.data);
      for (const Step *st : steps)
        for (auto &r : st->reads) {
          if (r.mesh != f.rmesh || r.data != f.data)
            continue;
          double at = st->t + r.rt;
          if (wv.ambiguous(at, f.degree)) {
            R.skipped++;
            continue;
          }
          VD want;
          if (f.toR.win.empty())
            want = f.toR.apply(wv.sample(at, f.degree), f.nc);
          else { // samples are mapped one by one
            Wave q = wv;
            for (auto &v : q.v)
              v = f.toR.apply(v, f.nc);
            want = q.sample(at, f.degree);
          }
          VD got = f.proj.apply(r.v, f.nc);
          double tol = std::max(f.toX.tol, f.toR.tol) * scale * (f.proj.moments ? 100 : 1);
          R.readsChecked++;
          for (size_t q = 0; q < std::max(want.size(), got.size()); ++q)
            if (q < want.size() && std::isnan(want[q]) && q < got.size())
              R.skipped++;
            else if (q >= want.size() || q >= got.size() || !(std::fabs(want[q] - got[q]) <= (f.toR.win.empty() && f.toX.win.empty() ? tol : tol * std::max(1.0, std::fabs(want[q]) / scale)))) {
              bad("read", s.parts[size_t(f.Q)].name + " reads " + s.datas[size_t(f.data)].name + " in window " + std::to_string(st->w) + " iteration " + std::to_string(st->k) + " at t=" + num(at) +
                              (f.proj.moments ? " moment " : " value ") + std::to_string(q) + ": got " + (q < got.size() ? num(got[q]) : "nothing") + ", expected " + (q < want.size() ? num(want[q]) : "nothing"));
              return;
            }
        }
    };
    AccState acc;
    bool     observe = op.fixedPointOnly && !c.accel.type.empty() && c.accel.type != "constant"; // iterates are taken from the reads
    int      nwin = int(wstart.size()) - 1;
    for (int w = 0; w < nwin && modelled && R.problems.empty(); ++w) {
      SR.iterations.push_back(0);
      SR.converged.push_back(0);
      SR.residuals.emplace_back();
      SR.status.emplace_back();
      std::vector<double> firstNorm(c.measures.size(), -1);
      for (int k = 1;; ++k) {
        // explicit schemes act with the last iteration of their participants
        std::map<int, int> kk;
        bool               present = true;
        for (auto &f : fl)
          for (int p : {f.P, f.Q}) {
            int q = k;
            if (!im) { // last iteration of the window
              q = 1;
              while (it[size_t(p)].count({w, q + 1}))
                ++q;
            }
            kk[p] = q;
            if (!it[size_t(p)].count({w, q}))
              present = false;
          }
        if (!present) {
          bad("lockstep", "scheme " + std::to_string(ci) + ": participants disagree on iteration " + std::to_string(k) + " of window " + std::to_string(w));
          break;
        }
        SR.iterations.back() = k;
        auto stepsOf         = [&](int p) {
          std::vector<const Step *> v;
          if (im)
            v = it[size_t(p)][{w, k}];
          else
            for (int q = 1; q <= kk[p]; ++q)
              v.insert(v.end(), it[size_t(p)][{w, q}].begin(), it[size_t(p)][{w, q}].end());
          return v;
        };
        int conv = im ? it[size_t(ctl)][{w, k}].back()->twc : 1;
        for (auto &kv : kk)
          if (im && it[size_t(kv.first)][{w, k}].back()->twc != conv)
            bad("lockstep", "scheme " + std::to_string(ci) + ": participants disagree on the convergence of window " + std::to_string(w) + " iteration " + std::to_string(k));
        // sent and received waveforms
        std::vector<Wave> sent(fl.size());
        for (size_t i = 0; i < fl.size(); ++i) {
          raw(fl[i], w, kk[fl[i].P], sent[i]);
          Flow &f = fl[i];
          if (ser && f.P == c.first) { // the second participant computes with the data of this iteration
            f.cur = transmit(f, sent[i]);
          }
          if (!op.fixedPointOnly || k == 1 || (ser && f.P == c.first))
            readCheck(f, f.cur, stepsOf(f.Q));
        }
        if (!R.problems.empty())
          break;
        if (im) {
          // what the controlling participant holds before acceleration
          std::vector<Wave> held(fl.size());
          for (size_t i = 0; i < fl.size(); ++i)
            held[i] = fl[i].P == ctl ? sent[i] : transmit(fl[i], sent[i]);
          // convergence
          bool all = true, suff = false, strict = false, sure = true;
          VD   norms;
          std::vector<int> status;
          for (size_t mi = 0; mi < c.measures.size(); ++mi) {
            auto &m  = c.measures[mi];
            Flow *fm = nullptr;
            Wave *hm = nullptr;
            for (size_t i = 0; i < fl.size(); ++i)
              if (fl[i].data == m.data) {
                fm = &fl[i];
                hm = &held[i];
              }
            // the ranks of a parallel participant hold filtered, overlapping, and possibly partial copies of received meshes
            bool partial = s.parts[size_t(ctl)].size > 1 && s.meshes[size_t(m.mesh)].owner != ctl;
            if (!fm || !fm->known || partial || !fm->prevKnown) {
              sure = false;
              norms.push_back(NAN);
              status.push_back(2);
              continue;
            }
            double d = 0, nn = 0;
            bool   sureBefore = sure;
            sure              = true;
            for (size_t q = 0; q < hm->v.back().size(); ++q) {
              double x = hm->v.back()[q], y = fm->prev.v.back()[q];
              d += (x - y) * (x - y);
              nn += x * x;
            }
            d  = std::sqrt(d);
            nn = std::sqrt(nn);
            double scale = dataScale(s, R.traces, m.data);
            double eps   = 1e-8 * scale * std::sqrt(double(hm->v.back().size() + 1));
            if (fm->toX.tol > 1e-8)
              eps *= 1e4;
            bool   ok  = false;
            double lim = m.limit, res = d;
            if (firstNorm[mi] < 0)
              firstNorm[mi] = d;
            auto le = [&](double a, double b, double e) {
              if (std::fabs(a - b) <= e)
                sure = false;
              return a <= b;
            };
            if (m.kind == "absolute")
              ok = le(d, lim, eps);
            else if (m.kind == "relative") {
              ok  = le(d, lim * nn, eps);
              res = nn > 1e-14 ? d / nn : INFINITY;
            } else if (m.kind == "residual-relative") {
              ok  = le(d, lim * firstNorm[mi], eps);
              res = firstNorm[mi] > 1e-14 ? d / firstNorm[mi] : INFINITY;
            } else {
              bool a = le(d, lim, eps), b = le(d, m.limit2 * nn, eps);
              ok = a || b;
            }
            norms.push_back(res);
            status.push_back(sure ? ok : 2);
            sure = sure && sureBefore;
            if (!ok) {
              all = false;
              if (m.strict)
                strict = true;
            } else if (m.suffices)
              suff = true;
          }
          SR.residuals.back().push_back(norms);
          SR.status.back().push_back(status);
          bool byMeasure = !c.measures.empty() && (all || (suff && !strict)) && k >= std::max(1, c.minIter);
          bool want      = byMeasure || (c.maxIter > 0 && k == c.maxIter);
          if (k < std::max(1, c.minIter) && !(c.maxIter > 0 && k == c.maxIter))
            sure = true;
          if (c.maxIter > 0 && k == c.maxIter)
            sure = true;
          if (c.measures.empty())
            sure = true;
          SR.converged.back() = byMeasure;
          if (sure && want != bool(conv)) {
            std::string tx = "scheme " + std::to_string(ci) + " window " + std::to_string(w) + " iteration " + std::to_string(k) + (conv ? ": converged" : ": not converged") + " although the measures say otherwise (norms";
            for (double x : norms)
              tx += " " + num(x);
            bad("convergence", tx + ")");
          }
          // acceleration
          if (observe) {
            std::vector<AccFlow> af;
            double               wend = held.empty() ? 0 : held[0].t.back();
            for (size_t i = 0; i < fl.size(); ++i) {
              Flow &f = fl[i];
              if (ser && f.P != ctl)
                continue;
              AccFlow a;
              a.mesh    = f.e->mesh;
              a.data    = f.data;
              a.name    = s.datas[size_t(f.data)].name;
              a.partial = s.parts[size_t(ctl)].size > 1 && s.meshes[size_t(f.e->mesh)].owner != ctl;
              a.scale   = dataScale(s, R.traces, f.data);
              a.xtKnown = f.known && f.toX.tol <= 1e-8;
              a.xt      = held[i].v.back();
              a.xKnown  = f.prevKnown;
              a.x       = f.prev.v.back();
              a.lo      = s.datas[size_t(f.data)].lo;
              a.hi      = s.datas[size_t(f.data)].hi;
              a.degree  = f.degree;
              for (double y : f.base)
                a.inside = a.inside && y >= a.lo && y <= a.hi;
              for (auto &v : held[i].v)
                for (double y : v)
                  a.inside = a.inside && y >= a.lo && y <= a.hi;
              // what the other participant reads in the next iteration
              if (!conv && f.toR.identity && !f.toR.moments) {
                auto nx = it[size_t(f.Q)].find({w, k + 1});
                if (nx != it[size_t(f.Q)].end()) {
                  for (const Step *st : nx->second)
                    for (auto &r : st->reads)
                      if (r.mesh == f.rmesh && r.data == f.data)
                        a.seen.push_back(r.v);
                  for (const Step *st : nx->second)
                    for (auto &r : st->reads)
                      if (r.mesh == f.rmesh && r.data == f.data && near(st->t + r.rt, wend)) {
                        a.xn      = r.v;
                        a.xnKnown = a.xn.size() == a.xt.size();
                      }
                }
              }
              af.push_back(a);
            }
            std::string what = acc.step(c, af, k, conv);
            if (!what.empty())
              bad("acceleration", "scheme " + std::to_string(ci) + " window " + std::to_string(w) + " iteration " + std::to_string(k) + ": " + what);
            R.accelChecked += acc.checked;
            R.boundsChecked += acc.boundsChecked;
            acc.checked = acc.boundsChecked = 0;
            size_t j = 0;
            for (size_t i = 0; i < fl.size(); ++i) {
              Flow &f = fl[i];
              if (ser && f.P != ctl)
                continue;
              auto &a     = af[j++];
              f.prevKnown = conv || a.xnKnown;
              if (!conv && a.xnKnown) {
                f.prev.t = {wend};
                f.prev.v = {a.xn};
              } else
                f.prev = held[i];
              if (conv) {
                f.prev.t = {held[i].t.back()};
                f.prev.v = {held[i].v.back()};
              }
            }
          }
          for (size_t i = 0; i < fl.size(); ++i) {
            Flow &f   = fl[i];
            bool  acc = !conv && c.accel.type == "constant" && (!ser || f.P == ctl);
            if (acc)
              for (size_t q = 1; q < held[i].t.size(); ++q) {
                VD old = f.prev.sample(held[i].t[q], f.degree);
                for (size_t z = 0; z < old.size(); ++z)
                  held[i].v[q][z] = c.accel.relax * held[i].v[q][z] + (1 - c.accel.relax) * old[z];
              }
            if (observe && !(ser && f.P != ctl))
              ; // done above
            else if (conv) {
              f.prev.t = {held[i].t.back()};
              f.prev.v = {held[i].v.back()};
            } else
              f.prev = held[i];
            if (!(ser && f.P == c.first))
              sent[i] = held[i];
          }
        }
        for (size_t i = 0; i < fl.size(); ++i) {
          Flow &f = fl[i];
          // data the controlling participant received is accelerated in place, hence it sees the whole waveform it holds
          Wave x = f.P == ctl || !im ? transmit(f, sent[i]) : sent[i];
          if (conv) {
            f.base = sent[i].v.back();
            f.start = sent[i].v.back();
            f.cur.t = {sent[i].t.back()};
            f.cur.v = {sent[i].v.back()};
          } else
            f.cur = x;
        }
        if (conv) {
          for (auto &f : fl)
            if (!im || true) {
              (void) f;
            }
          break;
        }
        if (k > 200) {
          bad("lockstep", "no end of iterations");
          break;
        }
      }
    }
    // reads after the end of the coupling
    if (modelled && R.problems.empty() && op.values)
      for (auto &f : fl) {
        double scale = dataScale(s, R.traces, f.data);
        for (auto &r : R.traces[size_t(f.Q)].finalReads) {
          if (r.mesh != f.rmesh || r.data != f.data)
            continue;
          VD     want = f.toR.apply(f.cur.v.back(), f.nc), got = f.proj.apply(r.v, f.nc);
          double tol = std::max(f.toX.tol, f.toR.tol) * scale * (f.proj.moments ? 100 : 1);
          R.readsChecked++;
          for (size_t q = 0; q < want.size(); ++q)
            if (q >= got.size() || !(std::isnan(want[q]) || std::fabs(want[q] - got[q]) <= (f.toR.win.empty() && f.toX.win.empty() ? tol : tol * std::max(1.0, std::fabs(want[q]) / scale)))) {
              bad("read", s.parts[size_t(f.Q)].name + " reads " + s.datas[size_t(f.data)].name + " after the end, value " + std::to_string(q) + ": got " + (q < got.size() ? num(got[q]) : "nothing") + ", expected " + num(want[q]));
              break;
            }
        }
      }
  }
  return R;
}
} // namespace model
