// C15: meshes redefined at runtime.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

using namespace spec;
namespace core {
namespace {
typedef std::vector<double> VD;

int windowsOf(const Scheme &c)
{
  int n = c.maxWindows > 0 ? c.maxWindows : 1000000;
  if (c.maxTime > 0)
    n = std::min(n, int(std::ceil(c.maxTime / c.window - 1e-9)));
  return n;
}
int elementKind(const Mesh &m)
{
  return (m.conn[0].edges.empty() ? 0 : 1) + (m.conn[0].tris.empty() ? 0 : 2) + (m.conn[0].tets.empty() ? 0 : 4);
}

// the geometry after an event; kind: which meshes change
bool nextStage(Rng &r, const Spec &cur, Spec &nxt, bool linear, bool elements)
{
  nxt     = cur;
  int dim = cur.meshes[0].dim;
  if (elements) {
    if (!gen::elementGeometry(r, nxt, 16))
      return false;
    for (size_t i = 0; i < cur.meshes.size(); ++i)
      if (elementKind(cur.meshes[i]) != elementKind(nxt.meshes[i]))
        return false;
    return true;
  }
  int k = r.range(1, 3); // bit 0: mesh 0, bit 1: mesh 1
  VD  a = gen::flat(cur.meshes[0]), b = gen::flat(cur.meshes[1]);
  int na = r.range(linear ? (dim == 2 ? 5 : 7) : 1, 12), nb = r.range(linear ? (dim == 2 ? 5 : 7) : 1, 12);
  if (r.flip(0.25))
    na = int(a.size()) / dim;
  if (r.flip(0.25))
    nb = int(b.size()) / dim;
  double keep = r.unit();
  if (keep < 0.15) // only the partition changes
    ;
  else if (linear) {
    if (k == 3)
      gen::linearGeometry(r, nullptr, a, dim, na);
    if (k == 1)
      gen::linearGeometry(r, &b, a, dim, na);
    if (k & 2)
      gen::linearGeometry(r, &a, b, dim, nb);
  } else {
    if (k == 3)
      a = gen::lattice(r, na, dim, 0.18);
    if (k == 1)
      gen::pairGeometry(r, b, a, dim, na);
    if (k & 2)
      gen::pairGeometry(r, a, b, dim, nb);
  }
  if (!gen::uniqueNearest(a, b, dim, 1e-3) || !gen::uniqueNearest(b, a, dim, 1e-3))
    return false;
  if (k & 1)
    nxt.meshes[0].pts = {a};
  if (k & 2)
    nxt.meshes[1].pts = {b};
  for (auto &m : nxt.meshes)
    m.conn.assign(1, {});
  return true;
}

void makeC15(Rng &r, Maker &, Case &c)
{
  for (;;) {
    c.runs.clear();
    c.par.clear();
    gen::Opt o;
    o.serialOnly   = true;
    o.parts        = 2;
    o.composition  = false;
    o.firstMethod  = false;
    o.nnOnly       = r.flip(0.6);
    o.dup          = false;
    o.parallelMaps = true;
    o.minPts       = 1;
    o.maxPts       = 12;
    o.maxWindows   = 5;
    run::In in;
    in.spec = gen::makeSpec(r, o);
    Spec &s = in.spec;
    if (s.parts.size() != 2 || s.schemes.size() != 1)
      continue;
    Scheme &sc = s.schemes[0];
    int     nw = windowsOf(sc);
    if (nw < 2 || nw > 8)
      continue;
    sc.type         = sc.implicit() ? "parallel-implicit" : "parallel-explicit";
    s.experimental  = 1;
    bool rb = false, elements = false, linear = false;
    for (auto &p : s.parts)
      for (auto &m : p.maps)
        rb = rb || m.type.compare(0, 3, "rbf") == 0;
    if (rb) {
      rbfMaps(r, s);
      linear = true;
    } else if (r.flip(0.4) && gen::elementGeometry(r, s, 16)) {
      elements = true;
      for (auto &p : s.parts)
        for (auto &m : p.maps)
          if (m.constraint == "conservative")
            for (int q : {m.from, m.to})
              s.meshes[size_t(q)].conn.assign(1, {});
      richMaps(r, s, false);
      bool any = gen::hasElements(s.meshes[0]) || gen::hasElements(s.meshes[1]);
      if (!any)
        continue;
    }
    for (auto &d : s.datas) // linear fields with many vertices
      linear = linear || d.kind == 1;
    // --- implicit coupling: the same number of iterations with and without the past of the data
    if (sc.implicit()) {
      if (r.flip(0.5)) {
        sc.measures.clear();
        sc.minIter = -1;
        sc.maxIter = r.range(1, 4);
      } else {
        for (auto &d : s.datas) {
          d.iterAmp = 0;
          d.rate    = std::max(d.rate, 0.3);
        }
        for (auto &m : sc.measures) {
          m.kind   = "relative";
          m.limit  = 1e-7;
          m.strict = 0;
        }
        if (sc.measures.empty()) {
          sc.minIter = -1;
          sc.maxIter = r.range(1, 4);
        }
      }
      sc.accel = Accel();
      if (r.flip(0.4) && sc.measures.empty())
        gen::addAccel(r, s, r.flip(0.5) ? 1 : 2);
      // (solvers without any feedback have nothing to decompose, and few independent differences)
      if (sc.accel.type.compare(0, 3, "IQN") == 0) {
        sc.maxIter           = std::min(sc.maxIter, 3);
        sc.accel.maxUsed     = 20;
        sc.accel.reused      = 0;
        sc.accel.filter      = "QR2";
        sc.accel.filterLimit = 1e-2;
      }
      size_t svd = sc.accel.extra.find("RS-SVD");
      if (svd != std::string::npos)
        sc.accel.extra.replace(svd, 6, "RS-0");
      else if (sc.accel.type == "IQN-IMVJ" && sc.accel.extra.empty())
        sc.accel.extra = "<imvj-restart-mode type=\"no-restart\" />";
    }
    for (auto &p : s.parts) {
      p.reactive   = 0;
      p.skipWrites = 0;
      p.api        = p.api == "cpp" || r.flip(0.5) ? "cpp" : p.api;
    }
    // --- what changes when
    int              events = nw > 2 && r.flip(0.4) ? 2 : 1;
    std::vector<int> at;
    while (int(at.size()) < events) {
      int w = r.range(1, nw - 1);
      if (!std::count(at.begin(), at.end(), w))
        at.push_back(w);
    }
    std::sort(at.begin(), at.end());
    for (int e = 0; e < events; ++e)
      c.par["event" + std::to_string(e)] = at[size_t(e)];
    std::vector<Spec> st{s};
    bool              ok = true;
    for (int e = 0; e < events && ok; ++e) {
      Spec n;
      ok = false;
      for (int t = 0; t < 6 && !ok; ++t)
        ok = nextStage(r, st.back(), n, rb, elements);
      st.push_back(n);
    }
    if (!ok)
      continue;
    for (int p = 0; p < 2; ++p) {
      Watch w;
      if (!r.flip(0.4))
        continue;
      w.name     = "w";
      w.mesh     = p;
      w.integral = r.flip(0.4);
      w.scale    = w.integral && r.flip(0.5);
      VD     f = gen::flat(s.meshes[size_t(p)]);
      int    d = s.meshes[size_t(p)].dim;
      size_t v = r.below(f.size() / size_t(d));
      for (int k = 0; k < d; ++k)
        w.at.push_back(f[v * size_t(d) + size_t(k)] + 0.07 * (2 * r.unit() - 1));
      for (auto &q : st)
        ok = ok && (w.integral || gen::uniqueNearest(w.at, gen::flat(q.meshes[size_t(p)]), d, 1e-3) && !gen::hasElements(q.meshes[size_t(p)]));
      if (ok)
        for (auto &q : st)
          q.parts[size_t(p)].watches.push_back(w);
      ok = true;
    }
    // --- a calm simulation per geometry
    Spec part = st[0];
    gen::PartOpt po;
    po.allowEmpty = !rb || r.flip(0.3);
    gen::partition(r, part, po);
    for (size_t p = 0; p < 2; ++p) // (elements of several ranks share vertices and edges)
      if (part.parts[p].size > 1 && elements && !part.parts[p].watches.empty() && part.parts[p].watches[0].integral) {
        part.parts[p].watches.clear();
        for (auto &q : st)
          q.parts[p].watches.clear();
      }
    for (int e = 0; e <= events; ++e) {
      run::In a;
      a.spec = st[size_t(e)];
      for (auto &p : a.spec.parts)
        for (auto &x : p.receives) {
          x.filter = "no-filter";
          x.safety = -1;
        }
      for (auto &m : a.spec.m2ns)
        m.type = "sockets", m.gatherScatter = m.twoLevel = 0;
      a.dir  = e;
      a.seed = r.next();
      c.runs.push_back(a);
    }
    // --- one that goes through them
    run::In b;
    b.spec           = part;
    b.spec.remeshing = 1;
    bool touched     = false;
    for (int m = 0; m < 2; ++m) {
      Mesh &M    = b.spec.meshes[size_t(m)];
      int   size = b.spec.parts[size_t(M.owner)].size;
      bool  last = false;
      for (int e = 0; e < events; ++e) {
        auto &old = st[size_t(e)].meshes[size_t(m)], &now = st[size_t(e + 1)].meshes[size_t(m)];
        bool  same = old.pts == now.pts && old.conn.size() == now.conn.size() && elementKind(old) == elementKind(now);
        if (same && !r.flip(0.4))
          continue;
        Stage g;
        g.window = at[size_t(e)];
        Mesh q   = now;
        if (gen::hasElements(now))
          gen::splitElements(r, q, now, size);
        else
          gen::split(r, q, gen::flat(now), size, po.allowEmpty, int(r.below(2)));
        if (same && r.flip(0.3)) { // nothing but a call
          auto &prev = last ? M.stages.back().pts : M.pts;
          auto &conn = last ? M.stages.back().conn : M.conn;
          q.pts      = prev;
          q.conn     = conn;
        }
        g.pts     = q.pts;
        g.conn    = q.conn;
        g.partial = c.par["partial"] != 0;
        M.stages.push_back(g);
        last    = true;
        touched = true;
        for (auto &x : c.runs)
          x.spec.parts[size_t(M.owner)].full.push_back(g.window);
        b.spec.parts[size_t(M.owner)].full.push_back(g.window);
      }
    }
    if (!touched)
      continue;
    for (auto &p : b.spec.parts)
      for (auto &x : p.receives) {
        if (x.filter == "no-filter")
          continue;
        Spec q = b.spec;
        bool f = true;
        for (int e = 0; e < events; ++e) {
          for (size_t m = 0; m < 2; ++m)
            for (auto &g : b.spec.meshes[m].stages)
              if (g.window == at[size_t(e)])
                q.meshes[m].pts = g.pts, q.meshes[m].conn = g.conn;
          f = f && gen::filterOk(q, p, x, x.safety < 0 ? 0.5 : x.safety);
        }
        if (!f) {
          x.filter = "no-filter";
          x.safety = -1;
          for (auto &m : b.spec.m2ns)
            m.twoLevel = 0;
        }
      }
    for (auto &p : b.spec.parts) {
      p.permute = r.flip(0.5) ? int(1 + r.below(1000)) : 0;
      p.single  = r.flip(0.2);
      p.ownMpi  = r.flip(0.5) ? 0 : r.range(1, 2);
      p.onError = "abort";
    }
    b.dir  = events + 1;
    b.seed = r.next();
    b.env  = gen::makeEnv(r, b.spec.nodes(), r.flip(0.4) ? 0 : 1);
    c.runs.push_back(b);
    return;
  }
}
std::vector<const Ev *> steps(const run::NodeOut &n)
{
  std::vector<const Ev *> v;
  for (auto &e : n.ev)
    if (e.op != "mesh" && e.op != "end" && e.op != "access")
      v.push_back(&e);
  return v;
}
std::vector<VD> rows(const std::string &text)
{
  std::vector<VD>    v;
  std::istringstream in(text);
  std::string        l;
  std::getline(in, l);
  while (std::getline(in, l)) {
    std::istringstream t(l);
    VD                 x;
    std::string        w;
    while (t >> w)
      x.push_back(strtod(w.c_str(), nullptr));
    v.push_back(x);
  }
  return v;
}
Verdict checkC15(const Case &c, const Results &R, Stats &st)
{
  size_t last = c.runs.size() - 1;
  for (size_t i = 0; i <= last; ++i) {
    if (accelGaveUp(R.outs[i])) {
      st.add("acceleration gave up");
      return {};
    }
    Verdict v = mustSucceed(c.runs[i], R.outs[i]);
    if (v.bad())
      return v;
  }
  const Spec &B  = c.runs[last].spec;
  const auto &sc = B.schemes[0];
  // (Aitken on a mesh received by a parallel controller and quasi-Newton methods depend on the partition or on rounding)
  bool        soft = false, accel = sc.accel.type != "", qn = sc.accel.type == "IQN-ILS" || sc.accel.type == "IQN-IMVJ";
  if (sc.accel.type == "aitken")
    for (auto &d : sc.accel.data)
      qn = qn || B.meshes[size_t(d.mesh)].owner != sc.second || gen::hasElements(B.meshes[size_t(d.mesh)]);
  for (auto &p : B.parts)
    for (auto &m : p.maps)
      soft = soft || m.type.compare(0, 3, "rbf") == 0;
  // every geometry has its run, also those without any call
  std::vector<int> ev;
  for (size_t e = 0; e + 1 < last; ++e)
    ev.push_back(int(c.get("event" + std::to_string(e))));
  std::vector<double> scale(B.datas.size(), 1e-12);
  for (size_t i = 0; i < last; ++i)
    for (auto &n : R.outs[i].nodes)
      for (auto &e : n.ev)
        if (e.data >= 0 && (e.op == "read" || e.op == "write"))
          for (size_t k = 1; k < e.x.size(); ++k)
            scale[size_t(e.data)] = std::max(scale[size_t(e.data)], std::fabs(e.x[k]));
  for (size_t p = 0; p < B.parts.size(); ++p) {
    std::vector<std::vector<const Ev *>> ref;
    for (size_t i = 0; i < last; ++i)
      ref.push_back(steps(R.outs[i].nodes[size_t(c.runs[i].spec.nodeOf(int(p), 0))]));
    for (int k = 0; k < B.parts[p].size; ++k) {
      auto       &nb = R.outs[last].nodes[size_t(B.nodeOf(int(p), k))];
      auto        eb = steps(nb);
      std::string nm = B.parts[p].name + " rank " + std::to_string(k) + " of " + std::to_string(B.parts[p].size);
      int         window = 0, iter = 1;
      double      mx = 0;
      bool        ended = false;
      for (size_t i = 0; i < eb.size(); ++i) {
        const Ev &y = *eb[i];
        if (y.op == "step") {
          window = y.i[1];
          iter   = y.i[2];
          mx     = y.x[1];
        }
        if (y.op == "advanced" && !y.i[0])
          ended = true;
        // geometry of the values at this point
        size_t g = 0;
        bool   fresh = false;
        for (size_t e = 0; e < ev.size(); ++e)
          if (ev[e] < window || (ev[e] == window && (iter > 1 || ended))) {
            g     = e + 1;
            fresh = ev[e] == window && !ended;
          }
        bool past = !ev.empty() && (ev[0] < window || (ev[0] == window && (iter > 1 || ended)));
        if (i >= ref[g].size())
          return failed("control-flow-depends-on-remeshing", nm + ": " + std::to_string(eb.size()) + " instead of " + std::to_string(ref[g].size()) + " events");
        const Ev   &x  = *ref[g][i];
        std::string op = nm + " event " + std::to_string(i) + " " + y.op;
        bool        val = x.op == "read" || x.op == "write";
        if (x.op != y.op || x.mesh != y.mesh || x.data != y.data || x.i != y.i || x.s != y.s || (val ? x.x[0] != y.x[0] : x.x != y.x))
          return failed("control-flow-depends-on-remeshing", op + ": other event, flags or times than with these meshes from the beginning (" + x.op + ")");
        if (x.op != "read")
          continue;
        // what came before the change in the same window does not exist on the new meshes
        if (fresh && x.x[0] != mx)
          continue;
        if (accel && (past || qn) && iter > 1 && !ended)
          continue;
        auto &MA = c.runs[g].spec.meshes[size_t(x.mesh)], &MB = B.meshes[size_t(x.mesh)];
        int   dim = MA.dim, nc = B.dims(x.data, x.mesh);
        auto &pa = MA.pts[0];
        const VD *pb = &MB.pts[size_t(k)];
        for (auto &q : MB.stages)
          if (q.window < window || (q.window == window && (iter > 1 || ended)))
            pb = &q.pts[size_t(k)];
        if (y.x.size() != 1 + pb->size() / size_t(dim) * size_t(nc))
          return failed("size", op + ": " + std::to_string(y.x.size()) + " values");
        double tol = (soft ? 1e-5 : 1e-9) * scale[size_t(x.data)];
        for (size_t v = 0; v * size_t(dim) < pb->size(); ++v) {
          size_t w = 0;
          while (memcmp(&pa[w * size_t(dim)], &(*pb)[v * size_t(dim)], sizeof(double) * size_t(dim)))
            ++w;
          st.add(g ? "values compared after a change" : "values compared before a change");
          for (int q = 0; q < nc; ++q) {
            double a = x.x[1 + w * size_t(nc) + size_t(q)], b = y.x[1 + v * size_t(nc) + size_t(q)];
            if (!(std::fabs(a - b) <= tol))
              return failed("values-after-remeshing", op + " data " + B.datas[size_t(x.data)].name + " window " + std::to_string(window) + " iteration " + std::to_string(iter) + " vertex " + std::to_string(v) + ": " + num(b) + ", with these meshes from the beginning " + num(a));
          }
        }
      }
      if (eb.size() != ref.back().size())
        return failed("control-flow-depends-on-remeshing", nm + ": " + std::to_string(eb.size()) + " instead of " + std::to_string(ref.back().size()) + " events");
    }
  }
  // --- what the participants log and watch continues
  double smax = 1;
  for (double x : scale)
    smax = std::max(smax, x);
  for (auto &f : R.snaps[0]) {
    bool watch = f.first.find("-watch") != std::string::npos, iters = f.first.find("-iterations.log") != std::string::npos, conv = f.first.find("-convergence.log") != std::string::npos;
    if (!watch && !iters && !conv)
      continue;
    auto g = R.snaps[last].find(f.first);
    if (g == R.snaps[last].end())
      return failed("outputs-after-remeshing", "no file " + f.first + " with remeshing");
    auto b = rows(g->second);
    std::vector<std::vector<VD>> a;
    for (size_t i = 0; i < last; ++i) {
      auto h = R.snaps[i].find(f.first);
      if (h == R.snaps[i].end())
        return failed("outputs-after-remeshing", "no file " + f.first + " without remeshing");
      a.push_back(rows(h->second));
      if (a.back().size() != b.size())
        return failed("outputs-after-remeshing", f.first + ": " + std::to_string(b.size()) + " rows with remeshing, " + std::to_string(a.back().size()) + " without");
    }
    for (size_t i = 0; i < b.size(); ++i) {
      size_t e = 0;
      for (size_t k = 0; k < ev.size() && watch && !b[i].empty(); ++k)
        if (b[i][0] > (ev[k] + 0.5) * sc.window)
          e = k + 1;
      auto  &x   = a[e][i];
      size_t n   = conv ? 2 : iters ? 4 : x.size();
      double tol = watch ? (soft ? 1e-5 : 1e-6) * smax * 50 : 0;
      for (size_t k = 0; k < n; ++k)
        if (k >= x.size() || k >= b[i].size() || (watch && x.size() != b[i].size()) || !(std::fabs(x[k] - b[i][k]) <= tol))
          return failed("outputs-after-remeshing", f.first + " row " + std::to_string(i) + " column " + std::to_string(k) + " differs from the simulation with these meshes from the beginning");
      st.add(watch ? "watch rows compared" : "log rows compared");
    }
  }
  return {};
}
} // namespace
void addProps9(std::vector<Prop> &p)
{
  p.push_back({"C15", "a coupled simulation whose meshes are redefined once or twice, and one simulation for each of the geometries it goes through", makeC15, checkC15, true, false});
}
} // namespace core
