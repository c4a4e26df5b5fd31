// Description of one simulated coupled simulation (configuration + solver behaviour), shared by simulator and driver.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace spec {
#define IO(...)          \
  template <class A>     \
  void io(A &a)          \
  {                      \
    __VA_ARGS__          \
  }
#define F(x) a(#x, x);

struct Data {
  std::string name;
  int         vec = 0, degree = 1;
  // value function
  int    kind = 0;       // 0: free field per vertex; 1: linear in the coordinates; 2: constant in space
  double rate = 1;       // time dependence
  double quad = 0;       // quadratic time dependence
  double iterAmp = 0;    // iteration dependence iterAmp * iterDecay^iteration
  double iterDecay = 0.5;
  double base = 1;       // magnitude
  double lo = -INFINITY, hi = INFINITY; // bounds
  IO(F(name) F(vec) F(degree) F(kind) F(rate) F(quad) F(iterAmp) F(iterDecay) F(base) F(lo) F(hi))
};
struct Conn { // connectivity of one rank, local vertex indices
  std::vector<int> edges, tris, quads, tets;
  IO(F(edges) F(tris) F(quads) F(tets))
};
struct Stage { // the mesh is redefined at the beginning of a time window
  int                              window = 0;
  int                              partial = 0; // ranks without changes do nothing
  std::vector<std::vector<double>> pts;
  std::vector<Conn>                conn;
  IO(F(window) F(partial) F(pts) F(conn))
};
struct Mesh {
  std::string                      name;
  int                              owner = 0, dim = 2;
  std::vector<std::vector<double>> pts;  // per owner rank, flat
  std::vector<Conn>                conn; // per owner rank (may be empty)
  std::vector<int>                 data;
  std::vector<Stage>               stages;
  IO(F(stages) F(name) F(owner) F(dim) F(pts) F(conn) F(data))
};
struct Recv {
  int                              mesh = 0;
  std::string                      filter; // "" : default
  double                           safety = -1;
  int                              access = 0;  // api-access
  std::vector<std::vector<double>> boxes; // per rank access region (empty: not set)
  IO(F(mesh) F(filter) F(safety) F(access) F(boxes))
};
struct RW {
  int mesh = 0, data = 0;
  IO(F(mesh) F(data))
};
struct Map {
  int         write = 0;
  int         from = -1, to = -1; // -1: just-in-time side
  std::string type, constraint, attrs, inner;
  IO(F(write) F(from) F(to) F(type) F(constraint) F(attrs) F(inner))
};
struct Export {
  std::string type, dir;
  int         every = 1, iterations = 0, series = 0;
  IO(F(type) F(dir) F(every) F(iterations) F(series))
};
struct Watch {
  std::string         name;
  int                 mesh = 0, integral = 0, scale = 0;
  std::vector<double> at;
  IO(F(name) F(mesh) F(integral) F(scale) F(at))
};
struct Action {
  std::string      type, timing;
  int              mesh = 0, target = 0;
  std::vector<int> sources;
  IO(F(type) F(timing) F(mesh) F(target) F(sources))
};
struct Jit { // just-in-time access: coordinates per rank
  int                              mesh = 0, data = 0, write = 0;
  std::vector<std::vector<double>> pts;
  IO(F(mesh) F(data) F(write) F(pts))
};
struct Misuse {
  std::string stage; // construct | setup | initialized | loop | ended | finalized
  int         count = 0;  // how many times the stage is passed before it happens
  std::string op;
  int         rank = 0, arg = 0;
  IO(F(stage) F(count) F(op) F(rank) F(arg))
};
struct Part {
  std::string         name;
  int                 size = 1;
  std::string         intra; // "" | mpi | sockets
  std::string         intraAttrs;
  std::string         api = "cpp"; // cpp | c | fortran
  int                 ownMpi = 0;  // 0 preCICE initialises MPI; 1: solver calls MPI_Init; 2: solver passes a communicator
  std::vector<int>    provides;
  std::vector<Recv>   receives;
  std::vector<RW>     writes, reads;
  std::vector<Map>    maps;
  std::vector<Export> exports;
  std::vector<Watch>  watches;
  std::vector<Action> actions;
  std::vector<Jit>    jits;
  std::vector<double> dts{1.0};      // step plan as fractions of the window size, restarted with each window iteration
  std::vector<double> readAt{0, 1};  // relative read times as fractions of the maximal step size
  int                 permute = 0;   // vertex order and chunking of the data access
  int                 single = 0;    // setMeshVertex instead of setMeshVertices
  int                 reactive = 0;  // written values depend on read values
  double              gamma = 0.3;   // contraction factor
  int                 initData = 1;  // obeys requiresInitialData
  int                 sections = 0;  // user profiling sections
  std::string         onError = "abort"; // abort | unwind
  int                 noFinalize = 0;
  double              stepCost = 0;  // simulated compute time per step, ns
  double              ownWindow = 0; // first-participant method: own step as window (absolute); 0: none
  int                 skipWrites = 0; // every n-th step without writing (0: none)
  int                 rotate = 0;     // only every n-th point takes part in a step, another one in each step (0: all)
  std::vector<int>    full;           // windows with a single step in the first iteration
  std::vector<Misuse> misuse;
  IO(F(full) F(rotate) F(name) F(size) F(intra) F(intraAttrs) F(api) F(ownMpi) F(provides) F(receives) F(writes) F(reads) F(maps) F(exports) F(watches) F(actions) F(jits) F(dts)
         F(readAt) F(permute) F(single) F(reactive) F(gamma) F(initData) F(sections) F(onError) F(noFinalize) F(stepCost) F(ownWindow) F(skipWrites) F(misuse))
};
struct M2N {
  std::string type = "sockets"; // sockets | mpi | mpi-multiple-ports
  int         acceptor = 0, connector = 1;
  int         gatherScatter = 0, twoLevel = 0;
  std::string dir = ".";
  std::string attrs;
  IO(F(type) F(acceptor) F(connector) F(gatherScatter) F(twoLevel) F(dir) F(attrs))
};
struct Exch {
  int data = 0, mesh = 0, from = 0, to = 0, init = 0, substeps = 1;
  IO(F(data) F(mesh) F(from) F(to) F(init) F(substeps))
};
struct Measure {
  std::string kind; // absolute | relative | residual-relative | absolute-or-relative
  int         data = 0, mesh = 0, strict = 0, suffices = 0;
  double      limit = 1e-3, limit2 = 1e-3;
  IO(F(kind) F(data) F(mesh) F(strict) F(suffices) F(limit) F(limit2))
};
struct Accel {
  std::string         type; // "" none | constant | aitken | IQN-ILS | IQN-IMVJ
  double              relax = 0.5;
  std::vector<RW>     data;
  std::vector<double> scaling;
  int                 maxUsed = 20, reused = 0;
  std::string         filter, precond, extra, attrs;
  double              filterLimit = 1e-9;
  int                 enforce = 0; // initial relaxation in every time window
  std::string         bounds;      // on-bound-violation
  IO(F(enforce) F(bounds) F(type) F(relax) F(data) F(scaling) F(maxUsed) F(reused) F(filter) F(precond) F(extra) F(attrs) F(filterLimit))
};
struct Scheme {
  std::string          type; // serial-explicit | parallel-explicit | serial-implicit | parallel-implicit | multi
  int                  first = 0, second = 1;
  std::vector<int>     parts; // multi: participants; controller is `first`
  double               maxTime = -1;
  int                  maxWindows = -1;
  double               window = 1;
  std::string          method = "fixed";
  std::vector<Exch>    exchanges;
  std::vector<Measure> measures;
  Accel                accel;
  int                  minIter = -1, maxIter = -1;
  IO(F(type) F(first) F(second) F(parts) F(maxTime) F(maxWindows) F(window) F(method) F(exchanges) F(measures) F(accel) F(minIter) F(maxIter))
  bool implicit() const { return type.find("implicit") != std::string::npos || type == "multi"; }
};
struct Spec {
  std::vector<Data>        datas;
  std::vector<Mesh>        meshes;
  std::vector<Part>        parts;
  std::vector<M2N>         m2ns;
  std::vector<Scheme>      schemes;
  std::string              profiling = "off", profilingAttrs;
  int                      experimental = 0, remeshing = 0, waitInFinalize = 0;
  std::string              log = "<log enabled=\"0\" />";
  std::string              config; // verbatim configuration text instead of the generated one
  int                      seed = 0; // value function salt
  IO(F(datas) F(meshes) F(parts) F(m2ns) F(schemes) F(profiling) F(profilingAttrs) F(experimental) F(remeshing) F(waitInFinalize) F(log) F(config) F(seed))
  double windowOf(int part) const // all schemes of a participant have the same window
  {
    for (auto &c : schemes)
      if (c.first == part || c.second == part || std::find(c.parts.begin(), c.parts.end(), part) != c.parts.end())
        return c.window;
    return schemes[0].window;
  }
  int nodes() const
  {
    int n = 0;
    for (auto &p : parts)
      n += p.size;
    return n;
  }
  int nodeOf(int part, int rank) const
  {
    int n = 0;
    for (int i = 0; i < part; ++i)
      n += parts[size_t(i)].size;
    return n + rank;
  }
  int dims(int data, int mesh) const { return datas[size_t(data)].vec ? meshes[size_t(mesh)].dim : 1; }
};
#undef F

// --------------------------------------------------------------- what the driver records
struct Ev {
  std::string         op;
  int                 mesh = -1, data = -1;
  std::vector<double> x;
  std::vector<int>    i;
  std::string         s;
  int64_t             t    = 0;
  uint64_t            step = 0;
  template <class A>
  void io(A &a)
  {
    a("op", op); a("mesh", mesh); a("data", data); a("x", x); a("i", i); a("s", s); a("t", t); a("step", step);
  }
};
struct Svc { // simulator services for the driver
  virtual void apiBegin(const char *name) = 0;
  virtual void apiEnd()                   = 0;
  virtual void compute(double ns)         = 0; // simulated solver work
  virtual void record(Ev &&e)             = 0;
  virtual void crashSelf(const char *why) = 0;
};
struct Ctx {
  const Spec *spec;
  int         part, rank;
  Svc        *svc;
  std::string config;
};

// --------------------------------------------------------------- value function of the solvers
inline uint64_t h64(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline double hu(uint64_t h) { return double(h >> 11) * (2.0 / 9007199254740992.0) - 1.0; } // [-1,1)
inline uint64_t hpt(const double *x, int dim)
{
  uint64_t h = 77;
  for (int d = 0; d < dim; ++d) {
    uint64_t b;
    memcpy(&b, x + d, 8);
    h = h64(h, b);
  }
  return h;
}
// deterministic value a solver writes for component c of a data at point x, time t, iteration k
inline double value(const Spec &s, int data, int c, const double *x, int dim, double t, int k)
{
  const Data &d  = s.datas[size_t(data)];
  uint64_t    id = h64(h64(uint64_t(s.seed), uint64_t(data)), uint64_t(c) + 11);
  double      a0, a1, a2, ai;
  if (d.kind == 0) {
    uint64_t p = h64(id, hpt(x, dim));
    a0         = hu(h64(p, 1));
    a1         = hu(h64(p, 2));
    a2         = hu(h64(p, 3));
    ai         = hu(h64(p, 4));
  } else {
    auto lin = [&](uint64_t k) {
      double v = hu(h64(id, k * 10));
      if (d.kind == 1)
        for (int j = 0; j < dim; ++j)
          v += hu(h64(id, k * 10 + uint64_t(j) + 1)) * x[j];
      return v;
    };
    a0 = lin(1);
    a1 = lin(2);
    a2 = lin(3);
    ai = lin(4);
  }
  double v = d.base * (a0 + d.rate * t * (0.5 + 0.5 * a1) + d.quad * t * t * a2);
  if (d.iterAmp != 0) {
    double e = d.iterAmp;
    for (int i = 0; i < k; ++i)
      e *= d.iterDecay;
    v += e * ai;
  }
  return v;
}
} // namespace spec
