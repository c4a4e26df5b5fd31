// C12: exported files, watch points and watch integrals.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>

using namespace spec;
namespace core {
typedef std::vector<double> VD;
namespace {
struct Piece { // one exported file
  size_t                     points = 0;
  VD                         coords; // three per point
  std::map<std::string, VD>  data;   // flat
  std::map<std::string, int> comps;
  std::vector<std::vector<int>> cells;
  std::string                problem;
};
bool numbers(const std::string &t, VD &v)
{
  const char *p = t.c_str();
  for (;;) {
    while (*p && isspace((unsigned char) *p))
      ++p;
    if (!*p)
      return true;
    char  *e;
    double d = strtod(p, &e);
    if (e == p)
      return false;
    v.push_back(d);
    p = e;
  }
}
std::string attr(const std::string &tag, const std::string &name)
{
  auto k = tag.find(" " + name + "=\"");
  if (k == std::string::npos)
    return "";
  k += name.size() + 3;
  return tag.substr(k, tag.find('"', k) - k);
}
// well-formedness of the element structure
std::string xmlProblem(const std::string &s)
{
  std::vector<std::string> st;
  size_t                   i = 0;
  while ((i = s.find('<', i)) != std::string::npos) {
    auto e = s.find('>', i);
    if (e == std::string::npos)
      return "unterminated tag";
    std::string t = s.substr(i + 1, e - i - 1);
    i             = e + 1;
    if (t.empty())
      return "empty tag";
    if (t[0] == '?')
      continue;
    std::string name;
    for (size_t k = t[0] == '/'; k < t.size() && !isspace((unsigned char) t[k]) && t[k] != '/'; ++k)
      name += t[k];
    if (t[0] == '/') {
      if (st.empty() || st.back() != name)
        return "unexpected end of " + name;
      st.pop_back();
    } else if (t.back() != '/')
      st.push_back(name);
  }
  return st.empty() ? "" : "truncated inside of " + st.back();
}
Piece parseXml(const std::string &s)
{
  Piece p;
  p.problem = xmlProblem(s);
  if (s.empty())
    p.problem = "empty file";
  if (!p.problem.empty())
    return p;
  size_t      k    = s.find("<Piece ");
  std::string tag  = s.substr(k, s.find('>', k) - k);
  p.points         = size_t(atoi(attr(tag, "NumberOfPoints").c_str()));
  bool        poly = s.find("<PolyData>") != std::string::npos;
  size_t      ncells = poly ? 0 : size_t(atoi(attr(tag, "NumberOfCells").c_str()));
  VD          conn, offs, types;
  std::vector<VD> lists;
  size_t      i = 0;
  while ((i = s.find("<DataArray ", i)) != std::string::npos) {
    auto        e = s.find('>', i);
    std::string t = s.substr(i, e - i), name = attr(t, "Name");
    auto        c = s.find("</DataArray>", e);
    VD          v;
    if (c == std::string::npos || !numbers(s.substr(e + 1, c - e - 1), v)) {
      p.problem = "array " + name + " is not made of numbers";
      return p;
    }
    i = c;
    if (name == "Position")
      p.coords = v;
    else if (name == "connectivity" || name == "offsets" || name == "types")
      lists.push_back(v);
    else {
      p.data[name]  = v;
      p.comps[name] = atoi(attr(t, "NumberOfComponents").c_str());
      if (v.size() != p.points * size_t(p.comps[name]))
        p.problem = "array " + name + " has " + std::to_string(v.size()) + " values for " + std::to_string(p.points) + " points";
    }
  }
  if (p.coords.size() != 3 * p.points)
    p.problem = "wrong number of coordinates";
  auto cells = [&](const VD &c, const VD &o) {
    size_t a = 0;
    for (double x : o) {
      std::vector<int> cell;
      if (x < double(a) || x > double(c.size())) {
        p.problem = "cell offsets are not increasing";
        return;
      }
      for (; double(a) < x; ++a)
        cell.push_back(int(c[a]));
      std::sort(cell.begin(), cell.end());
      if (!cell.empty() && (cell[0] < 0 || cell.back() >= int(p.points)))
        p.problem = "cell uses a vertex which does not exist";
      p.cells.push_back(cell);
    }
    if (a != c.size())
      p.problem = "cell offsets do not cover the connectivity";
  };
  if (poly) {
    if (lists.size() != 4)
      p.problem = "connectivity missing";
    else {
      cells(lists[0], lists[1]);
      cells(lists[2], lists[3]);
      if (lists[1].size() != size_t(atoi(attr(tag, "NumberOfLines").c_str())) || lists[3].size() != size_t(atoi(attr(tag, "NumberOfPolys").c_str())))
        p.problem = "number of cells";
    }
  } else {
    if (lists.size() != 3)
      p.problem = "connectivity missing";
    else {
      cells(lists[0], lists[1]);
      if (lists[1].size() != ncells || lists[2].size() != ncells)
        p.problem = "number of cells";
      for (size_t j = 0; j < p.cells.size() && j < lists[2].size(); ++j)
        if (p.cells[j].size() != (lists[2][j] == 3 ? 2u : lists[2][j] == 5 ? 3u : 4u))
          p.problem = "cell type and size differ";
    }
  }
  std::sort(p.cells.begin(), p.cells.end());
  return p;
}
Piece parseCsv(const std::string &s, int dim)
{
  Piece              p;
  std::istringstream in(s);
  std::string        line, tok;
  if (s.empty() || s.back() != '\n') {
    p.problem = "truncated";
    return p;
  }
  std::getline(in, line);
  std::vector<std::string> head;
  std::istringstream       hs(line);
  while (std::getline(hs, tok, ';'))
    head.push_back(tok);
  std::vector<VD> cols(head.size());
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    size_t             c = 0;
    while (std::getline(ls, tok, ';')) {
      if (c < cols.size())
        cols[c].push_back(strtod(tok.c_str(), nullptr));
      ++c;
    }
    if (c != head.size()) {
      p.problem = "a row has " + std::to_string(c) + " columns instead of " + std::to_string(head.size());
      return p;
    }
    ++p.points;
  }
  const char *names[] = {"PosX", "PosY", "PosZ"};
  if (int(head.size()) < dim + 1) {
    p.problem = "missing columns";
    return p;
  }
  for (size_t v = 0; v < p.points; ++v)
    for (int d = 0; d < 3; ++d)
      p.coords.push_back(d < dim && head[size_t(d)] == names[d] ? cols[size_t(d)][v] : 0);
  for (size_t c = size_t(dim); c < head.size(); ++c) {
    std::string n = head[c];
    if (c + 1 < head.size() && n.back() == 'X' && head[c + 1] == n.substr(0, n.size() - 1) + "Y") {
      n.pop_back();
      p.data[n];
      for (size_t v = 0; v < p.points; ++v)
        for (int d = 0; d < 3; ++d)
          p.data[n].push_back(d < dim ? cols[c + size_t(d)][v] : 0);
      p.comps[n] = 3;
      c += size_t(dim) - 1;
    } else {
      p.data[n]  = cols[c];
      p.comps[n] = 1;
    }
  }
  return p;
}
Piece parseVtk(const std::string &s)
{
  Piece              p;
  std::istringstream in(s);
  std::string        line, w;
  std::getline(in, line);
  if (line != "# vtk DataFile Version 2.0") {
    p.problem = "header";
    return p;
  }
  size_t n = 0;
  while (in >> w) {
    if (w == "POINTS") {
      in >> p.points >> w;
      for (size_t i = 0; i < 3 * p.points; ++i) {
        double d;
        in >> d;
        p.coords.push_back(d);
      }
    } else if (w == "CELLS") {
      size_t c, k;
      in >> c >> k;
      for (size_t i = 0; i < c; ++i) {
        int              m = 0;
        std::vector<int> cell;
        in >> m;
        for (int j = 0; j < m; ++j) {
          int v;
          in >> v;
          cell.push_back(v);
        }
        std::sort(cell.begin(), cell.end());
        p.cells.push_back(cell);
      }
    } else if (w == "CELL_TYPES") {
      size_t c;
      in >> c;
      for (size_t i = 0; i < c; ++i) {
        int t = 0;
        in >> t;
        if (i < p.cells.size() && p.cells[i].size() != (t == 3 ? 2u : t == 5 ? 3u : 4u))
          p.problem = "cell type and size differ";
      }
    } else if (w == "POINT_DATA") {
      in >> n;
      if (n != p.points)
        p.problem = "number of points";
    } else if (w == "SCALARS") {
      std::string name;
      in >> name >> w >> w >> w;
      for (size_t i = 0; i < n; ++i) {
        double d;
        in >> d;
        p.data[name].push_back(d);
      }
      p.comps[name] = 1;
    } else if (w == "VECTORS") {
      std::string name;
      in >> name >> w;
      for (size_t i = 0; i < 3 * n; ++i) {
        double d;
        in >> d;
        p.data[name].push_back(d);
      }
      p.comps[name] = 3;
    }
    if (!in) {
      p.problem = "truncated";
      return p;
    }
  }
  std::sort(p.cells.begin(), p.cells.end());
  return p;
}
bool eq(double a, double b, double tol = 2e-5) { return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }

// the values a rank knows at the times of output
struct Point {
  double                            t = 0;
  bool                              complete = true; // of a time window
  std::map<std::pair<int, int>, VD> writes, end, now; // written, read at the end of the next step, read at its beginning
};
struct Rank {
  std::vector<Point>              at;  // initial, then one per advance that ended a window or iteration
  std::map<int, std::vector<int>> ids; // vertex ids per mesh
};
Rank rankOf(const run::NodeOut &n)
{
  Rank                              r;
  std::map<std::pair<int, int>, VD> wr;
  double                            t = 0, dt = 0, mx = 0, reach = 0;
  Point                            *open = nullptr;
  r.at.reserve(n.ev.size() + 1);
  for (auto &e : n.ev) {
    if (e.op == "mesh")
      r.ids[e.mesh].assign(e.i.begin() + 4, e.i.end());
    else if (e.op == "write")
      wr[{e.mesh, e.data}].assign(e.x.begin() + 1, e.x.end());
    else if (e.op == "initialized") {
      Point p;
      p.writes = wr;
      r.at.push_back(p);
      open = &r.at.back();
    } else if (e.op == "step") {
      t  = e.x[0];
      mx = e.x[1];
      dt = e.x[2];
    } else if (e.op == "read" && open) {
      VD v(e.x.begin() + 1, e.x.end());
      if (e.x[0] == 0)
        open->now[{e.mesh, e.data}] = v;
      if (e.x[0] == mx || (e.x[0] == 0 && open->complete))
        open->end[{e.mesh, e.data}] = v; // the last one read is the one at the end, or the final one
    } else if (e.op == "advanced") {
      reach = t + dt;
      open  = nullptr;
      if (e.i[1] || e.i[2]) {
        Point p;
        p.t        = reach;
        p.complete = e.i[1];
        p.writes   = wr;
        r.at.push_back(p);
        open = &r.at.back();
        mx   = -1;
      }
    }
  }
  return r;
}
std::string rel(const std::string &dir, const std::string &f) { return dir == "." ? f : dir + "/" + f; }
const std::string *file(const Snap &s, const std::string &f)
{
  auto i = s.find(f);
  return i == s.end() ? nullptr : &i->second;
}
std::vector<std::vector<int>> cellsOf(const Mesh &M, int rank, const std::vector<int> &ids, bool &known)
{
  std::vector<std::vector<int>> c;
  known = true;
  if (size_t(rank) >= M.conn.size())
    return c;
  auto &C = M.conn[size_t(rank)];
  if (!C.quads.empty())
    known = false;
  auto add = [&](const std::vector<int> &v, size_t n) {
    for (size_t i = 0; i + n - 1 < v.size(); i += n) {
      std::vector<int> x;
      for (size_t j = 0; j < n; ++j)
        x.push_back(ids[size_t(v[i + j])]);
      std::sort(x.begin(), x.end());
      c.push_back(x);
    }
  };
  add(C.edges, 2);
  add(C.tris, 3);
  add(C.tets, 4);
  std::set<std::vector<int>> all(c.begin(), c.end()); // the edges and faces of the elements belong to the mesh
  std::vector<std::vector<int>> todo(all.begin(), all.end());
  while (!todo.empty()) {
    auto x = todo.back();
    todo.pop_back();
    if (x.size() < 3)
      continue;
    for (size_t k = 0; k < x.size(); ++k) {
      auto y = x;
      y.erase(y.begin() + long(k));
      if (all.insert(y).second)
        todo.push_back(y);
    }
  }
  return {all.begin(), all.end()};
}
} // namespace

static void makeC12(Rng &r, Maker &, Case &c)
{
  gen::Opt o;
  o.nnOnly   = r.flip(0.6);
  o.maxRanks = 3;
  o.maxNodes = 6;
  run::In in;
  in.spec = gen::makeSpec(r, o);
  if (r.flip(0.3))
    gen::addAccel(r, in.spec, r.flip(0.5) ? 1 : 2);
  gen::addOutputs(r, in.spec);
  bool any = false;
  for (auto &p : in.spec.parts) {
    p.skipWrites = 0;
    for (double x : {0., 1.})
      if ((x == 0 || p.ownWindow == 0) && std::find(p.readAt.begin(), p.readAt.end(), x) == p.readAt.end())
        p.readAt.push_back(x);
    std::sort(p.readAt.begin(), p.readAt.end());
    if (p.exports.empty() && r.flip(0.5)) {
      Export e;
      const char *t[] = {"vtu", "vtp", "csv", "vtk"};
      e.type          = t[r.below(p.size > 1 ? 3 : 4)];
      e.dir           = "exp";
      e.every         = r.range(1, 2);
      e.iterations    = r.flip(0.3);
      e.series        = r.flip(0.5);
      p.exports.push_back(e);
    }
    any = any || !p.exports.empty() || !p.watches.empty();
  }
  if (!any)
    return;
  pickEnv(r, in);
  c.kind = "plain";
  if (r.flip(0.25)) { // a failing file system
    c.kind       = "failing";
    in.env.faults.clear();
    for (auto &p : in.spec.parts) {
      p.onError = "abort";
      p.ownMpi  = 0;
    }
    c.runs.push_back(in);
    run::In     b = in;
    sim::Fault  f;
    const char *k[] = {"fs-open", "fs-full", "fs-io", "fs-torn", "fs-mkdir"};
    f.kind          = k[r.below(5)];
    f.node          = -1;
    std::vector<std::string> targets;
    for (size_t i = 0; i < in.spec.parts.size(); ++i) {
      auto &p = in.spec.parts[i];
      for (auto &e : p.exports) {
        targets.push_back(p.name + (p.size > 1 && r.flip(0.5) ? "." : ".dt"));
        targets.push_back("." + e.type);
        if (f.kind == "fs-mkdir" && e.dir != ".")
          targets.push_back(e.dir);
      }
      for (auto &w : p.watches)
        targets.push_back(std::string(w.integral ? "watchintegral-" : "watchpoint-") + w.name);
    }
    f.path       = targets[r.below(targets.size())];
    f.api        = -1;
    b.env.faults = {f};
    b.dir        = 1;
    b.maxSteps   = 400000;
    c.runs.push_back(b);
    return;
  }
  c.runs.push_back(in);
}
// checks all the files of a participant: "" or what is wrong
static std::string outputs(const Spec &s, int part, const run::Out &o, const Snap &snap, Stats &st)
{
  const Part       &P = s.parts[size_t(part)];
  std::vector<Rank> rk;
  for (int r = 0; r < P.size; ++r)
    rk.push_back(rankOf(o.nodes[size_t(s.nodeOf(part, r))]));
  std::map<std::pair<int, int>, int> role; // 1 written, 2 read
  for (auto &w : P.writes)
    role[{w.mesh, w.data}] = 1;
  for (auto &w : P.reads)
    role[{w.mesh, w.data}] = 2;
  size_t points = rk[0].at.size();
  for (auto &q : rk)
    if (q.at.size() != points)
      return ""; // judged elsewhere
  // value of a data at an output: nullptr if it is not known
  auto valueAt = [&](int r, size_t k, int m, int d, bool last) -> const VD * {
    auto it = role.find({m, d});
    if (it == role.end())
      return nullptr;
    const Point &p   = rk[size_t(r)].at[k];
    auto        &map = it->second == 1 ? p.writes : last ? p.end : p.now;
    auto         v   = map.find({m, d});
    return v == map.end() ? nullptr : &v->second;
  };
  // ---- exports
  for (size_t ei = 0; ei < P.exports.size(); ++ei) {
    const Export &E = P.exports[ei];
    for (int m : P.provides) {
      const Mesh &M = s.meshes[size_t(m)];
      std::map<std::string, std::pair<size_t, int>> expect; // piece -> point, rank
      std::vector<std::pair<std::string, double>>   series;
      std::set<std::string>                         primary;
      int win = 0;
      for (size_t k = 0; k < points; ++k) {
        bool        complete = rk[0].at[k].complete;
        std::string idx;
        if (k == 0)
          idx = "init";
        else {
          if (complete)
            ++win;
          if (E.iterations)
            idx = "it"; // numbered by the calls of advance
          else if (complete && win % E.every == 0)
            idx = "dt" + std::to_string(win);
        }
        if (idx.empty())
          continue;
        if (idx == "it") {
          // the n-th call of advance
          int n = 0;
          size_t seen = 0;
          for (auto &e : o.nodes[size_t(s.nodeOf(part, 0))].ev)
            if (e.op == "advanced") {
              ++n;
              if ((e.i[1] || e.i[2]) && ++seen == k)
                break;
            }
          idx += std::to_string(n);
        }
        std::string base = rel(E.dir, M.name + "-" + P.name + ".");
        bool        xml  = E.type == "vtu" || E.type == "vtp";
        if (P.size == 1) {
          expect[base + idx + "." + E.type] = {k, 0};
          series.push_back({M.name + "-" + P.name + "." + idx + "." + E.type, rk[0].at[k].t});
        } else {
          std::set<std::string> pieces;
          for (int r = 0; r < P.size; ++r) {
            bool        empty = M.pts[size_t(r)].empty();
            std::string f     = xml ? idx + "_" + std::to_string(r) : std::to_string(r) + "_" + idx;
            if (!xml || !empty) {
              expect[base + f + "." + E.type] = {k, r};
              pieces.insert(M.name + "-" + P.name + "." + f + "." + E.type);
            }
          }
          if (xml) {
            std::string pf = base + idx + ".p" + E.type;
            series.push_back({M.name + "-" + P.name + "." + idx + ".p" + E.type, rk[0].at[k].t});
            primary.insert(pf);
            auto *t = file(snap, pf);
            if (!t)
              return pf + " is missing";
            auto pr = xmlProblem(*t);
            if (t->empty() || !pr.empty())
              return pf + ": " + (pr.empty() ? "empty" : pr);
            std::set<std::string> got;
            size_t                i = 0;
            while ((i = t->find("<Piece Source=\"", i)) != std::string::npos) {
              i += 15;
              got.insert(t->substr(i, t->find('"', i) - i));
            }
            if (got != pieces)
              return pf + " lists " + std::to_string(got.size()) + " pieces instead of " + std::to_string(pieces.size());
            // the declared arrays are the ones of the pieces
            std::set<std::string> decl;
            i = 0;
            while ((i = t->find("<PDataArray ", i)) != std::string::npos) {
              decl.insert(attr(t->substr(i, t->find('>', i) - i), "Name"));
              ++i;
            }
            for (auto &pc : pieces)
              if (auto *pt = file(snap, rel(E.dir, pc)))
                for (auto &d : parseXml(*pt).data)
                  if (!decl.count(d.first))
                    return pf + " does not declare " + d.first + " of " + pc;
            st.add("parallel exports compared");
          }
        }
      }
      for (auto &x : expect) {
        auto *t = file(snap, x.first);
        if (!t)
          return x.first + " is missing";
        size_t k = x.second.first;
        int    r = x.second.second;
        Piece  p = E.type == "csv" ? parseCsv(*t, M.dim) : E.type == "vtk" ? parseVtk(*t) : parseXml(*t);
        if (!p.problem.empty())
          return x.first + ": " + p.problem;
        auto &ids = rk[size_t(r)].ids[m];
        auto &pts = M.pts[size_t(r)];
        if (p.points != ids.size())
          return x.first + " has " + std::to_string(p.points) + " of " + std::to_string(ids.size()) + " points";
        for (size_t v = 0; v < ids.size(); ++v)
          for (int d = 0; d < 3; ++d) {
            double want = d < M.dim ? pts[v * size_t(M.dim) + size_t(d)] : 0, got = p.coords[size_t(ids[v]) * 3 + size_t(d)];
            if (!eq(got, want))
              return x.first + ": point " + std::to_string(ids[v]) + " is at " + num(got) + " instead of " + num(want);
          }
        if (p.data.count("Rank"))
          for (double q : p.data["Rank"])
            if (int(q) != r)
              return x.first + ": rank " + num(q);
        for (auto &ro : role) {
          if (ro.first.first != m)
            continue;
          int  d  = ro.first.second, nc = s.dims(d, m);
          auto it = p.data.find(s.datas[size_t(d)].name);
          if (it == p.data.end()) {
            if (k > 0)
              return x.first + ": no values of " + s.datas[size_t(d)].name;
            continue;
          }
          if (ro.second == 1 && !rk[size_t(r)].at[k].complete)
            continue; // already reset to the beginning of the window
          const VD *w = valueAt(r, k, m, d, true);
          if (ro.second == 2 && !w)
            continue;
          int pc = p.comps[it->first];
          if (pc != (nc == 1 ? 1 : 3))
            return x.first + ": components of " + it->first;
          for (size_t v = 0; v < ids.size(); ++v)
            for (int q = 0; q < nc; ++q) {
              double got = it->second[size_t(ids[v] * pc + q)], want = w ? (*w)[v * size_t(nc) + size_t(q)] : 0;
              if (!eq(got, want))
                return x.first + ": " + it->first + " of vertex " + std::to_string(ids[v]) + " is " + num(got) + " instead of " + num(want) + " (t=" + num(rk[0].at[k].t) + ")";
            }
          st.add("exported fields compared");
        }
        if (E.type == "vtu" || E.type == "vtk") {
          bool known, required = false;
          for (auto &e : o.nodes[size_t(s.nodeOf(part, r))].ev)
            if (e.op == "mesh" && e.mesh == m)
              required = e.i[1];
          auto want = cellsOf(M, r, ids, known);
          if (required && known) {
            auto got = p.cells;
            if (E.type == "vtk" && M.dim == 2) // the format is limited to edges in 2D
              want.erase(std::remove_if(want.begin(), want.end(), [](auto &x) { return x.size() > 2; }), want.end());
            std::sort(want.begin(), want.end());
            if (got != want)
              return x.first + ": " + std::to_string(got.size()) + " cells instead of " + std::to_string(want.size());
            st.add("exported connectivity compared");
          }
        }
      }
      // nothing else
      std::string base = rel(E.dir, M.name + "-" + P.name + ".");
      for (auto &f : snap)
        if (f.first.compare(0, base.size(), base) == 0 && !expect.count(f.first) && !primary.count(f.first) && f.first.find(".series") == std::string::npos) {
          bool other = false;
          for (auto &E2 : P.exports)
            other = other || (&E2 != &E && E2.dir == E.dir);
          if (!other)
            return f.first + " was not expected";
        }
      if (E.type != "csv" && !E.iterations) {
        std::string sf = base;
        sf.pop_back();
        sf += std::string(".") + (P.size > 1 ? "p" : "") + E.type + ".series";
        auto *t = file(snap, sf);
        if (!t)
          return sf + " is missing";
        std::string want = "{ \"file-series-version\" : \"1.0\", \"files\" : [";
        size_t      pos  = want.size();
        if (t->compare(0, pos, want) || t->size() < 3 || t->substr(t->size() - 3) != "] }")
          return sf + " is damaged";
        size_t i = 0;
        for (auto &x : series) {
          i = t->find("\"name\" : \"", i);
          if (i == std::string::npos)
            return sf + " misses " + x.first;
          i += 10;
          auto n = t->substr(i, t->find('"', i) - i);
          i      = t->find("\"time\" : ", i);
          double tm = strtod(t->c_str() + i + 9, nullptr);
          if (n != x.first || !eq(tm, x.second, 1e-9))
            return sf + ": " + n + " at " + num(tm) + " instead of " + x.first + " at " + num(x.second);
        }
        if (t->find("\"name\" : \"", i) != std::string::npos)
          return sf + " lists too many files";
        st.add("series files compared");
      }
    }
    // received meshes: the files must be sound
    for (auto &rc : P.receives) {
      const Mesh &M    = s.meshes[size_t(rc.mesh)];
      std::string base = rel(E.dir, M.name + "-" + P.name + ".");
      for (auto &f : snap) {
        if (f.first.compare(0, base.size(), base) || f.first.find(".series") != std::string::npos)
          continue;
        auto ext = f.first.substr(f.first.rfind('.') + 1);
        Piece p;
        if (ext == "csv")
          p = parseCsv(f.second, M.dim);
        else if (ext == "vtk")
          p = parseVtk(f.second);
        else if (ext == "vtu" || ext == "vtp")
          p = parseXml(f.second);
        else {
          size_t i = 0;
          while ((i = f.second.find("<Piece Source=\"", i)) != std::string::npos) {
            i += 15;
            auto pc = f.second.substr(i, f.second.find('"', i) - i);
            if (!file(snap, rel(E.dir, pc)))
              return f.first + " lists " + pc + " which does not exist";
          }
          continue;
        }
        if (!p.problem.empty())
          return f.first + ": " + p.problem;
        for (auto &d : p.data)
          for (double x : d.second)
            if (!std::isfinite(x) || std::fabs(x) > 1e30)
              return f.first + ": " + d.first + " has the value " + num(x);
        for (size_t v = 0; v < p.points; ++v) { // every point is one of the mesh
          bool found = false;
          for (auto &q : M.pts)
            for (size_t j = 0; j + size_t(M.dim) <= q.size() && !found; j += size_t(M.dim)) {
              bool same = true;
              for (int d = 0; d < M.dim; ++d)
                same = same && eq(q[j + size_t(d)], p.coords[v * 3 + size_t(d)]);
              found = same;
            }
          if (!found)
            return f.first + ": point " + std::to_string(v) + " is not part of the mesh";
        }
        st.add("exports of received meshes compared");
      }
    }
  }
  // ---- watch points and integrals
  std::vector<size_t> rows;
  for (size_t k = 0; k < points; ++k)
    if (rk[0].at[k].complete)
      rows.push_back(k);
  for (auto &w : P.watches) {
    const Mesh &M = s.meshes[size_t(w.mesh)];
    std::string f = "precice-" + P.name + (w.integral ? "-watchintegral-" : "-watchpoint-") + w.name + ".log";
    auto       *t = file(snap, f);
    if (!t)
      return f + " is missing";
    std::istringstream       in(*t);
    std::string              line, tok;
    std::vector<std::string> head;
    std::getline(in, line);
    std::istringstream hs(line);
    while (hs >> tok)
      head.push_back(tok);
    std::vector<VD> tab;
    while (std::getline(in, line)) {
      VD v;
      if (!numbers(line, v) || v.size() != head.size())
        return f + ": a row with " + std::to_string(v.size()) + " of " + std::to_string(head.size()) + " columns: " + line;
      tab.push_back(v);
    }
    size_t total = 0;
    for (auto &p : M.pts)
      total += p.size();
    if (total == 0)
      continue;
    if (tab.size() != rows.size())
      return f + " has " + std::to_string(tab.size()) + " rows for " + std::to_string(rows.size()) + " time windows";
    // the columns; names of components may coincide with other names, so they are found by their position
    std::map<int, int>       colOf;
    std::vector<std::string> want{"Time"};
    if (!w.integral)
      for (int d = 0; d < M.dim; ++d)
        want.push_back("Coordinate" + std::to_string(d));
    for (int d : M.data) {
      int nc   = s.dims(d, w.mesh);
      colOf[d] = int(want.size());
      for (int q = 0; q < nc; ++q)
        want.push_back(s.datas[size_t(d)].name + (nc > 1 ? std::to_string(q) : ""));
    }
    bool area = head.size() == want.size() + 1 && w.integral && head.back() == "SurfaceArea";
    if (head != want && !(area && std::equal(want.begin(), want.end(), head.begin())))
      return f + ": the columns are not those of the data of the mesh";
    // columns of the data of the mesh
    bool required = false;
    for (auto &e : o.nodes[size_t(s.nodeOf(part, 0))].ev)
      if (e.op == "mesh" && e.mesh == w.mesh)
        required = e.i[1];
    // elements per rank, in local vertices
    std::vector<std::vector<std::vector<int>>> elems;
    bool                                       known = true, connected = false;
    for (int r = 0; r < P.size; ++r) {
      std::vector<int> id(M.pts[size_t(r)].size() / size_t(M.dim));
      for (size_t i = 0; i < id.size(); ++i)
        id[i] = int(i);
      bool k;
      elems.push_back(required ? cellsOf(M, r, id, k) : std::vector<std::vector<int>>());
      known     = known && (!required || k);
      connected = connected || !elems.back().empty();
    }
    for (size_t ri = 0; ri < rows.size(); ++ri) {
      size_t k  = rows[ri];
      VD    &ro = tab[ri];
      if (!eq(ro[0], rk[0].at[k].t, 1e-7))
        return f + ": time " + num(ro[0]) + " instead of " + num(rk[0].at[k].t);
      VD at; // of the watch point
      if (!w.integral) {
        for (int d = 0; d < M.dim; ++d)
          at.push_back(ro[size_t(1 + d)]);
        double got = 0, best = INFINITY;
        for (int d = 0; d < M.dim; ++d)
          got += (at[size_t(d)] - w.at[size_t(d)]) * (at[size_t(d)] - w.at[size_t(d)]);
        for (auto &p : M.pts)
          for (size_t v = 0; v < p.size(); v += size_t(M.dim)) {
            double q = 0;
            for (int d = 0; d < M.dim; ++d)
              q += (p[v + size_t(d)] - w.at[size_t(d)]) * (p[v + size_t(d)] - w.at[size_t(d)]);
            best = std::min(best, q);
          }
        if (std::sqrt(got) > std::sqrt(best) + 1e-6)
          return f + ": the watched point is farther away (" + num(std::sqrt(got)) + ") than the nearest vertex (" + num(std::sqrt(best)) + ")";
      }
      // rank and weights which explain the position
      for (auto &ro2 : role) {
        if (ro2.first.first != w.mesh)
          continue;
        int d = ro2.first.second, nc = s.dims(d, w.mesh);
        if (!colOf.count(d))
          continue;
        int c = colOf[d];
        bool have = true;
        for (int r = 0; r < P.size; ++r)
          if (!M.pts[size_t(r)].empty() && !valueAt(r, k, w.mesh, d, false)) {
            have = false;
            if (ro2.second == 1 && k > 0)
              return ""; // judged elsewhere
          }
        if (!have)
          continue;
        if (w.integral) {
          if (w.scale && required && !known)
            continue;
          VD sum(size_t(nc), 0), mag(size_t(nc), 0);
          for (int r = 0; r < P.size; ++r) {
            const VD *v = M.pts[size_t(r)].empty() ? nullptr : valueAt(r, k, w.mesh, d, false);
            if (!v)
              continue;
            auto &p = M.pts[size_t(r)];
            auto  X = [&](int i, int q) { return p[size_t(i * M.dim + q)]; };
            if (!w.scale || !connected)
              for (size_t i = 0; i < v->size(); ++i)
                sum[i % size_t(nc)] += (*v)[i], mag[i % size_t(nc)] += std::fabs((*v)[i]);
            else
              for (auto &e : elems[size_t(r)]) {
                double size = 0;
                if (M.dim == 2 && e.size() == 2)
                  size = std::hypot(X(e[0], 0) - X(e[1], 0), X(e[0], 1) - X(e[1], 1));
                else if (M.dim == 3 && e.size() == 3) {
                  double a[3], b[3];
                  for (int q = 0; q < 3; ++q)
                    a[q] = X(e[1], q) - X(e[0], q), b[q] = X(e[2], q) - X(e[0], q);
                  size = 0.5 * std::sqrt(std::pow(a[1] * b[2] - a[2] * b[1], 2) + std::pow(a[2] * b[0] - a[0] * b[2], 2) + std::pow(a[0] * b[1] - a[1] * b[0], 2));
                } else
                  continue;
                for (int i : e)
                  for (int q = 0; q < nc; ++q) {
                    double x = size / double(e.size()) * (*v)[size_t(i * nc + q)];
                    sum[size_t(q)] += x, mag[size_t(q)] += std::fabs(x);
                  }
              }
          }
          for (int q = 0; q < nc; ++q)
            if (std::fabs(ro[size_t(c + q)] - sum[size_t(q)]) > 1e-7 * mag[size_t(q)] + 1e-9)
              return f + ": integral of " + s.datas[size_t(d)].name + " is " + num(ro[size_t(c + q)]) + " instead of " + num(sum[size_t(q)]) + " (t=" + num(ro[0]) + ")";
          st.add("integrals compared");
          continue;
        }
        // a watch point: some vertex, edge or triangle explains position and value
        if (required && !known)
          continue;
        bool ok = false;
        for (int r = 0; r < P.size && !ok; ++r) {
          const VD *v = M.pts[size_t(r)].empty() ? nullptr : valueAt(r, k, w.mesh, d, false);
          if (!v)
            continue;
          auto &p  = M.pts[size_t(r)];
          auto  es = elems[size_t(r)];
          for (int i = 0; i < int(p.size()) / M.dim; ++i)
            es.push_back({i});
          for (auto &e : es) {
            size_t n = e.size();
            // barycentric coordinates by least squares (normal equations)
            double A[4][5] = {};
            for (size_t i = 0; i < n; ++i) {
              for (size_t j = 0; j < n; ++j) {
                double q = 1; // sum of the weights is one, strongly
                for (int x = 0; x < M.dim; ++x)
                  q += p[size_t(e[i] * M.dim + x)] * p[size_t(e[j] * M.dim + x)];
                A[i][j] = q;
              }
              A[i][n] = 1;
              for (int x = 0; x < M.dim; ++x)
                A[i][n] += p[size_t(e[i] * M.dim + x)] * at[size_t(x)];
            }
            bool sing = false;
            for (size_t i = 0; i < n && !sing; ++i) {
              size_t pv = i;
              for (size_t j = i + 1; j < n; ++j)
                if (std::fabs(A[j][i]) > std::fabs(A[pv][i]))
                  pv = j;
              std::swap(A[i], A[pv]);
              if (std::fabs(A[i][i]) < 1e-12)
                sing = true;
              else
                for (size_t j = 0; j < n; ++j)
                  if (j != i) {
                    double q = A[j][i] / A[i][i];
                    for (size_t x = i; x <= n; ++x)
                      A[j][x] -= q * A[i][x];
                  }
            }
            if (sing)
              continue;
            VD   l(n);
            bool in = true;
            for (size_t i = 0; i < n; ++i) {
              l[i] = A[i][n] / A[i][i];
              in   = in && l[i] > -1e-5 && l[i] < 1 + 1e-5;
            }
            double miss = 0;
            for (int x = 0; x < M.dim; ++x) {
              double q = -at[size_t(x)];
              for (size_t i = 0; i < n; ++i)
                q += l[i] * p[size_t(e[i] * M.dim + x)];
              miss += std::fabs(q);
            }
            if (!in || miss > 2e-6)
              continue;
            bool same = true;
            for (int q = 0; q < nc; ++q) {
              double x = 0, mag = 0;
              for (size_t i = 0; i < n; ++i)
                x += l[i] * (*v)[size_t(e[i] * nc + q)], mag += std::fabs((*v)[size_t(e[i] * nc + q)]);
              same = same && std::fabs(x - ro[size_t(c + q)]) <= 2e-5 * mag + 1e-9;
            }
            if (same) {
              ok = true;
              break;
            }
          }
        }
        if (!ok)
          return f + ": no element of the mesh explains the value " + num(ro[size_t(c)]) + " of " + s.datas[size_t(d)].name + " at t=" + num(ro[0]);
        st.add("watched values compared");
      }
      if (w.integral && connected && known) {
        if (!area)
          return f + ": no column of the surface area";
        int    c    = int(head.size()) - 1;
        double area = 0;
        for (int r = 0; r < P.size; ++r)
          for (auto &e : elems[size_t(r)]) {
            auto &p = M.pts[size_t(r)];
            auto  X = [&](int i, int q) { return p[size_t(i * M.dim + q)]; };
            if (M.dim == 2 && e.size() == 2)
              area += std::hypot(X(e[0], 0) - X(e[1], 0), X(e[0], 1) - X(e[1], 1));
            else if (M.dim == 3 && e.size() == 3) {
              double a[3], b[3];
              for (int q = 0; q < 3; ++q)
                a[q] = X(e[1], q) - X(e[0], q), b[q] = X(e[2], q) - X(e[0], q);
              area += 0.5 * std::sqrt(std::pow(a[1] * b[2] - a[2] * b[1], 2) + std::pow(a[2] * b[0] - a[0] * b[2], 2) + std::pow(a[0] * b[1] - a[1] * b[0], 2));
            }
          }
        if (!eq(ro[size_t(c)], area, 1e-6))
          return f + ": surface area " + num(ro[size_t(c)]) + " instead of " + num(area);
      }
    }
  }
  return "";
}
static Verdict checkC12(const Case &c, const Results &R, Stats &st)
{
  if (accelGaveUp(R.outs[0]))
    return {};
  auto &s = c.runs[0].spec;
  Verdict v = mustSucceed(c.runs[0], R.outs[0]);
  if (v.bad())
    return v;
  for (size_t p = 0; p < s.parts.size(); ++p) {
    auto d = outputs(s, int(p), R.outs[0], R.snaps[0], st);
    if (!d.empty())
      return failed("output:" + strip(d.substr(d.find(": ") == std::string::npos ? d.find(' ') : d.find(": ")), 50), d);
  }
  if (c.kind == "plain")
    return {};
  auto &o = R.outs[1];
  if (o.status == 1)
    return failed("process-died", o.text);
  if (o.status == 2)
    return failed("spin", o.text);
  if (!o.simErrors.empty())
    return failed("environment-contract:" + strip(o.simErrors[0], 60), o.simErrors[0]);
  bool err = false;
  for (size_t n = 0; n < o.nodes.size(); ++n) {
    auto d = diffNode(o.nodes[n], R.outs[0].nodes[n], true);
    if (!d.empty())
      return failed("wrong-data", d + " (without or with failing files)");
    auto &N = o.nodes[n];
    if (N.dead && (N.kind == "signal" || (N.kind == "abort" && N.text.find("Error") == std::string::npos && s.parts[size_t(N.part)].api == "cpp")))
      return failed("crash:" + N.kind + ":" + strip(N.text, 80), N.name + " died (" + N.kind + "): " + N.text + " | " + (o.log.size() > 400 ? o.log.substr(o.log.size() - 400) : o.log));
    auto out = N.outcome();
    if (!out.empty() && out != "ok" && !N.error())
      return failed("exception:" + strip(out, 80), N.name + ": " + out);
    err = err || N.dead || (!out.empty() && out != "ok");
  }
  if (o.fired.empty()) {
    st.add("failures which did not happen");
    return {};
  }
  if (err) {
    st.add("failures which were reported");
    return {};
  }
  st.add("failures without a report");
  for (size_t p = 0; p < s.parts.size(); ++p) { // nobody reported an error: then all the files are complete
    auto d = outputs(s, int(p), o, R.snaps[1], st);
    if (!d.empty())
      return failed("unreported-loss:" + c.runs[1].env.faults[0].kind + strip(d.substr(d.find(": ") == std::string::npos ? d.find(' ') : d.find(": ")), 50), d + " although every participant finished without an error");
  }
  return {};
}
void addProps5(std::vector<Prop> &p)
{
  p.push_back({"C12", "coupled simulations with exports, watch points and watch integrals; every file is compared with what the solvers wrote and read; a part of the runs meets failing files", makeC12, checkC12, true, true});
}
} // namespace core
