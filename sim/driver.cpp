// The simulated solver: one adapter loop over the public API of preCICE (C++, C or Fortran bindings), driven by a Spec.
// Compiled together with all preCICE sources into libnode.so; runs as the main thread of a simulated process.
#include "spec.hpp"
#include <algorithm>
#include <exception>
#include <map>
#include <memory>
#include <mpi.h>
#include <set>
#include <numeric>
#include <precice/precice.hpp>
#include <precice/Exceptions.hpp>
extern "C" {
#include <precice/preciceC.h>
}
#include <precice/preciceFortran.hpp>

using namespace spec;
typedef std::vector<double> VD;
typedef std::vector<int>    VI;
typedef const std::string  &CS;

namespace {
VD nd(int n) { return VD(static_cast<size_t>(n)); }
struct Api {
  virtual ~Api() {}
  virtual void   initialize()                     = 0;
  virtual void   advance(double)                  = 0;
  virtual void   finalize()                       = 0;
  virtual bool   reqW()                           = 0;
  virtual bool   reqR()                           = 0;
  virtual bool   reqInit()                        = 0;
  virtual int    meshDim(CS m)                    = 0;
  virtual int    dataDim(CS m, CS d)              = 0;
  virtual bool   ongoing()                        = 0;
  virtual bool   twc()                            = 0;
  virtual double maxdt()                          = 0;
  virtual bool   reqConn(CS m)                    = 0;
  virtual bool   reqGrad(CS m, CS d)              = 0;
  virtual void   reset(CS m)                      = 0;
  virtual int    vertex(CS m, const double *x, int dim)     = 0;
  virtual int    meshSize(CS m)                             = 0;
  virtual void   vertices(CS m, VD x, VI &ids)              = 0;
  virtual void   edge(CS m, int a, int b)                   = 0;
  virtual void   edges(CS m, const VI &v)                   = 0;
  virtual void   tri(CS m, int a, int b, int c)             = 0;
  virtual void   tris(CS m, const VI &v)                    = 0;
  virtual void   quad(CS m, int a, int b, int c, int d)     = 0;
  virtual void   quads(CS m, const VI &v)                   = 0;
  virtual void   tet(CS m, int a, int b, int c, int d)      = 0;
  virtual void   tets(CS m, const VI &v)                    = 0;
  virtual void   write(CS m, CS d, VI ids, VD v)            = 0;
  virtual void   read(CS m, CS d, VI ids, double rt, VD &v) = 0;
  virtual void   writeMap(CS m, CS d, VD x, VD v)           = 0;
  virtual void   readMap(CS m, CS d, VD x, double rt, VD &v) = 0;
  virtual void   region(CS m, VD b)                         = 0;
  virtual void   getVerts(CS m, VI &ids, VD &x)             = 0;
  virtual void   grad(CS m, CS d, VI ids, VD g)             = 0;
  virtual void   secStart(CS n)                             = 0;
  virtual void   secStop()                                  = 0;
};

struct CppApi final : Api {
  precice::Participant p;
  CppApi(CS n, CS c, int r, int s) : p(n, c, r, s) {}
  CppApi(CS n, CS c, int r, int s, void *comm) : p(n, c, r, s, comm) {}
  void   initialize() override { p.initialize(); }
  void   advance(double d) override { p.advance(d); }
  void   finalize() override { p.finalize(); }
  bool   reqW() override { return p.requiresWritingCheckpoint(); }
  bool   reqR() override { return p.requiresReadingCheckpoint(); }
  bool   reqInit() override { return p.requiresInitialData(); }
  int    meshDim(CS m) override { return p.getMeshDimensions(m); }
  int    dataDim(CS m, CS d) override { return p.getDataDimensions(m, d); }
  bool   ongoing() override { return p.isCouplingOngoing(); }
  bool   twc() override { return p.isTimeWindowComplete(); }
  double maxdt() override { return p.getMaxTimeStepSize(); }
  bool   reqConn(CS m) override { return p.requiresMeshConnectivityFor(m); }
  bool   reqGrad(CS m, CS d) override { return p.requiresGradientDataFor(m, d); }
  void   reset(CS m) override { p.resetMesh(m); }
  int    vertex(CS m, const double *x, int dim) override { return p.setMeshVertex(m, precice::span<const double>(x, size_t(dim))); }
  int    meshSize(CS m) override { return p.getMeshVertexSize(m); }
  void   vertices(CS m, VD x, VI &ids) override { p.setMeshVertices(m, x, ids); }
  void   edge(CS m, int a, int b) override { p.setMeshEdge(m, a, b); }
  void   edges(CS m, const VI &v) override { p.setMeshEdges(m, v); }
  void   tri(CS m, int a, int b, int c) override { p.setMeshTriangle(m, a, b, c); }
  void   tris(CS m, const VI &v) override { p.setMeshTriangles(m, v); }
  void   quad(CS m, int a, int b, int c, int d) override { p.setMeshQuad(m, a, b, c, d); }
  void   quads(CS m, const VI &v) override { p.setMeshQuads(m, v); }
  void   tet(CS m, int a, int b, int c, int d) override { p.setMeshTetrahedron(m, a, b, c, d); }
  void   tets(CS m, const VI &v) override { p.setMeshTetrahedra(m, v); }
  void   write(CS m, CS d, VI ids, VD v) override { p.writeData(m, d, ids, v); }
  void   read(CS m, CS d, VI ids, double rt, VD &v) override { p.readData(m, d, ids, rt, v); }
  void   writeMap(CS m, CS d, VD x, VD v) override { p.writeAndMapData(m, d, x, v); }
  void   readMap(CS m, CS d, VD x, double rt, VD &v) override { p.mapAndReadData(m, d, x, rt, v); }
  void   region(CS m, VD b) override { p.setMeshAccessRegion(m, b); }
  void   getVerts(CS m, VI &ids, VD &x) override { p.getMeshVertexIDsAndCoordinates(m, ids, x); }
  void   grad(CS m, CS d, VI ids, VD g) override { p.writeGradientData(m, d, ids, g); }
  void   secStart(CS n) override { p.startProfilingSection(n); }
  void   secStop() override { p.stopLastProfilingSection(); }
};
struct CApi final : Api {
  CApi(CS n, CS c, int r, int s) { precicec_createParticipant(n.c_str(), c.c_str(), r, s); }
  CApi(CS n, CS c, int r, int s, void *comm) { precicec_createParticipant_withCommunicator(n.c_str(), c.c_str(), r, s, comm); }
  void   initialize() override { precicec_initialize(); }
  void   advance(double d) override { precicec_advance(d); }
  void   finalize() override { precicec_finalize(); }
  bool   reqW() override { return precicec_requiresWritingCheckpoint(); }
  bool   reqR() override { return precicec_requiresReadingCheckpoint(); }
  bool   reqInit() override { return precicec_requiresInitialData(); }
  int    meshDim(CS m) override { return precicec_getMeshDimensions(m.c_str()); }
  int    dataDim(CS m, CS d) override { return precicec_getDataDimensions(m.c_str(), d.c_str()); }
  bool   ongoing() override { return precicec_isCouplingOngoing(); }
  bool   twc() override { return precicec_isTimeWindowComplete(); }
  double maxdt() override { return precicec_getMaxTimeStepSize(); }
  bool   reqConn(CS m) override { return precicec_requiresMeshConnectivityFor(m.c_str()); }
  bool   reqGrad(CS m, CS d) override { return precicec_requiresGradientDataFor(m.c_str(), d.c_str()); }
  void   reset(CS m) override { precicec_resetMesh(m.c_str()); }
  int    vertex(CS m, const double *x, int) override { return precicec_setMeshVertex(m.c_str(), x); }
  int    meshSize(CS m) override { return precicec_getMeshVertexSize(m.c_str()); }
  void   vertices(CS m, VD x, VI &ids) override { precicec_setMeshVertices(m.c_str(), int(ids.size()), x.data(), ids.data()); }
  void   edge(CS m, int a, int b) override { precicec_setMeshEdge(m.c_str(), a, b); }
  void   edges(CS m, const VI &v) override { precicec_setMeshEdges(m.c_str(), int(v.size() / 2), v.data()); }
  void   tri(CS m, int a, int b, int c) override { precicec_setMeshTriangle(m.c_str(), a, b, c); }
  void   tris(CS m, const VI &v) override { precicec_setMeshTriangles(m.c_str(), int(v.size() / 3), v.data()); }
  void   quad(CS m, int a, int b, int c, int d) override { precicec_setMeshQuad(m.c_str(), a, b, c, d); }
  void   quads(CS m, const VI &v) override { precicec_setMeshQuads(m.c_str(), int(v.size() / 4), v.data()); }
  void   tet(CS m, int a, int b, int c, int d) override { precicec_setMeshTetrahedron(m.c_str(), a, b, c, d); }
  void   tets(CS m, const VI &v) override { precicec_setMeshTetrahedra(m.c_str(), int(v.size() / 4), v.data()); }
  void   write(CS m, CS d, VI ids, VD v) override { precicec_writeData(m.c_str(), d.c_str(), int(ids.size()), ids.data(), v.data()); }
  void   read(CS m, CS d, VI ids, double rt, VD &v) override { precicec_readData(m.c_str(), d.c_str(), int(ids.size()), ids.data(), rt, v.data()); }
  void   writeMap(CS m, CS d, VD x, VD v) override { precicec_writeAndMapData(m.c_str(), d.c_str(), int(x.size()) / meshDim(m), x.data(), v.data()); }
  void   readMap(CS m, CS d, VD x, double rt, VD &v) override { precicec_mapAndReadData(m.c_str(), d.c_str(), int(x.size()) / meshDim(m), x.data(), rt, v.data()); }
  void   region(CS m, VD b) override { precicec_setMeshAccessRegion(m.c_str(), b.data()); }
  void   getVerts(CS m, VI &ids, VD &x) override { precicec_getMeshVertexIDsAndCoordinates(m.c_str(), int(ids.size()), ids.data(), x.data()); }
  void   grad(CS m, CS d, VI ids, VD g) override { precicec_writeGradientData(m.c_str(), d.c_str(), int(ids.size()), ids.data(), g.data()); }
  void   secStart(CS n) override { precicec_startProfilingSection(n.c_str()); }
  void   secStop() override { precicec_stopLastProfilingSection(); }
};
struct FApi final : Api {
  // Fortran passes blank-padded names with their length
  static std::string pad(CS s) { return s + "   "; }
#define N_(m) pad(m).c_str()
#define L_(m) int(pad(m).size())
  FApi(CS n, CS c, int r, int s) { precicef_create_(N_(n), N_(c), &r, &s, L_(n), L_(c)); }
  FApi(CS n, CS c, int r, int s, void *comm)
  {
    int f = MPI_Comm_c2f(*static_cast<MPI_Comm *>(comm));
    precicef_create_with_communicator_(N_(n), N_(c), &r, &s, &f, L_(n), L_(c));
  }
  void initialize() override { precicef_initialize_(); }
  void advance(double d) override { precicef_advance_(&d); }
  void finalize() override { precicef_finalize_(); }
  bool reqW() override
  {
    int i = -7;
    precicef_requires_writing_checkpoint_(&i);
    return i;
  }
  bool reqR() override
  {
    int i = -7;
    precicef_requires_reading_checkpoint_(&i);
    return i;
  }
  bool reqInit() override
  {
    int i = -7;
    precicef_requires_initial_data_(&i);
    return i;
  }
  int meshDim(CS m) override
  {
    int i = -7;
    precicef_get_mesh_dimensions_(N_(m), &i, L_(m));
    return i;
  }
  int dataDim(CS m, CS d) override
  {
    int i = -7;
    precicef_get_data_dimensions_(N_(m), N_(d), &i, L_(m), L_(d));
    return i;
  }
  bool ongoing() override
  {
    int i = -7;
    precicef_is_coupling_ongoing_(&i);
    return i;
  }
  bool twc() override
  {
    int i = -7;
    precicef_is_time_window_complete_(&i);
    return i;
  }
  double maxdt() override
  {
    double d = NAN;
    precicef_get_max_time_step_size_(&d);
    return d;
  }
  bool reqConn(CS m) override
  {
    int i = -7;
    precicef_requires_mesh_connectivity_for_(N_(m), &i, L_(m));
    return i;
  }
  bool reqGrad(CS m, CS d) override
  {
    int i = -7;
    precicef_requires_gradient_data_for_(N_(m), N_(d), &i, L_(m), L_(d));
    return i;
  }
  void reset(CS m) override { precicef_reset_mesh_(N_(m), L_(m)); }
  int  vertex(CS m, const double *x, int) override
  {
    int i = -7;
    precicef_set_mesh_vertex_(N_(m), x, &i, L_(m));
    return i;
  }
  int meshSize(CS m) override
  {
    int i = -7;
    precicef_get_mesh_vertex_size_(N_(m), &i, L_(m));
    return i;
  }
  void vertices(CS m, VD x, VI &ids) override
  {
    int n = int(ids.size());
    precicef_set_mesh_vertices_(N_(m), &n, x.data(), ids.data(), L_(m));
  }
  void edge(CS m, int a, int b) override { precicef_set_mesh_edge_(N_(m), &a, &b, L_(m)); }
  void edges(CS m, const VI &v) override
  {
    int n = int(v.size() / 2);
    precicef_set_mesh_edges_(N_(m), &n, v.data(), L_(m));
  }
  void tri(CS m, int a, int b, int c) override { precicef_set_mesh_triangle_(N_(m), &a, &b, &c, L_(m)); }
  void tris(CS m, const VI &v) override
  {
    int n = int(v.size() / 3);
    precicef_set_mesh_triangles_(N_(m), &n, v.data(), L_(m));
  }
  void quad(CS m, int a, int b, int c, int d) override { precicef_set_mesh_quad_(N_(m), &a, &b, &c, &d, L_(m)); }
  void quads(CS m, const VI &v) override
  {
    int n = int(v.size() / 4);
    precicef_set_mesh_quads_(N_(m), &n, v.data(), L_(m));
  }
  void tet(CS m, int a, int b, int c, int d) override { precicef_set_mesh_tetrahedron_(N_(m), &a, &b, &c, &d, L_(m)); }
  void tets(CS m, const VI &v) override
  {
    int n = int(v.size() / 4);
    precicef_set_mesh_tetrahedra_(N_(m), &n, v.data(), L_(m));
  }
  void write(CS m, CS d, VI ids, VD v) override
  {
    int n = int(ids.size());
    precicef_write_data_(N_(m), N_(d), &n, ids.data(), v.data(), L_(m), L_(d));
  }
  void read(CS m, CS d, VI ids, double rt, VD &v) override
  {
    int n = int(ids.size());
    precicef_read_data_(N_(m), N_(d), &n, ids.data(), &rt, v.data(), L_(m), L_(d));
  }
  void writeMap(CS m, CS d, VD x, VD v) override
  {
    int n = int(x.size()) / meshDim(m);
    precicef_write_and_map_data_(N_(m), N_(d), &n, x.data(), v.data(), L_(m), L_(d));
  }
  void readMap(CS m, CS d, VD x, double rt, VD &v) override
  {
    int n = int(x.size()) / meshDim(m);
    precicef_map_and_read_data_(N_(m), N_(d), &n, x.data(), &rt, v.data(), L_(m), L_(d));
  }
  void region(CS m, VD b) override { precicef_set_mesh_access_region_(N_(m), b.data(), L_(m)); }
  void getVerts(CS m, VI &ids, VD &x) override
  {
    int n = int(ids.size());
    precicef_get_mesh_vertex_ids_and_coordinates_(N_(m), &n, ids.data(), x.data(), L_(m));
  }
  void grad(CS m, CS d, VI ids, VD g) override
  {
    int n = int(ids.size());
    precicef_write_gradient_data_(N_(m), N_(d), &n, ids.data(), g.data(), L_(m), L_(d));
  }
  void secStart(CS n) override { precicef_start_profiling_section_(N_(n), L_(n)); }
  void secStop() override { precicef_stop_last_profiling_section_(); }
};

struct Local {
  VI  ids;
  VD  pts;
  int dim = 2;
};

struct Driver {
  const Ctx                  &cx;
  const Spec                 &s;
  const Part                 &me;
  Svc                        *svc;
  std::unique_ptr<Api>        api;
  std::vector<Local>          loc;
  MPI_Comm                    comm = MPI_COMM_NULL;
  std::string                 cur;
  std::map<std::string, int>  stageCount;
  double                      t = 0;
  int                         window = 0, iter = 1, stepNo = 0;
  VD                          lastRead; // reactive: comp 0 of the first read data
  explicit Driver(const Ctx &c) : cx(c), s(*c.spec), me(c.spec->parts[size_t(c.part)]), svc(c.svc) {}

  struct Call { // brackets an API call for the simulator
    Driver &d;
    Call(Driver &d, const char *n) : d(d)
    {
      d.cur = n;
      d.svc->apiBegin(n);
    }
    ~Call() { d.svc->apiEnd(); }
  };
#define CALL(name, expr)   \
  [&] {                    \
    Call call_(*this, name); \
    return expr;           \
  }()

  void rec(Ev e) { svc->record(std::move(e)); }
  CS   mn(int m) const { return s.meshes[size_t(m)].name; }
  CS   dn(int d) const { return s.datas[size_t(d)].name; }

  void construct()
  {
    auto make = [&]() -> Api * {
      if (me.ownMpi == 2) {
        if (me.api == "c")
          return new CApi(me.name, cx.config, cx.rank, me.size, &comm);
        if (me.api == "fortran")
          return new FApi(me.name, cx.config, cx.rank, me.size, &comm);
        return new CppApi(me.name, cx.config, cx.rank, me.size, &comm);
      }
      if (me.api == "c")
        return new CApi(me.name, cx.config, cx.rank, me.size);
      if (me.api == "fortran")
        return new FApi(me.name, cx.config, cx.rank, me.size);
      return new CppApi(me.name, cx.config, cx.rank, me.size);
    };
    Call call(*this, "construct");
    api.reset(make());
  }

  void setMesh(int m) { setMesh(m, s.meshes[size_t(m)].pts, s.meshes[size_t(m)].conn); }
  void setMesh(int m, const std::vector<VD> &pts, const std::vector<Conn> &conns)
  {
    const Mesh &M = s.meshes[size_t(m)];
    const VD   &P = pts[size_t(cx.rank)];
    Local      &L = loc[size_t(m)];
    L.dim         = M.dim;
    L.pts         = P;
    int n         = int(P.size()) / M.dim;
    L.ids.assign(size_t(n), -1);
    int dim = CALL("getMeshDimensions", api->meshDim(M.name));
    if (me.single) {
      for (int v = 0; v < n; ++v)
        L.ids[size_t(v)] = CALL("setMeshVertex", api->vertex(M.name, &P[size_t(v * M.dim)], M.dim));
    } else {
      int cut = me.permute && n > 2 ? int(h64(uint64_t(s.seed), uint64_t(m)) % uint64_t(n)) : 0;
      if (cut) { // in two calls
        VI a(size_t(cut), -1), b(size_t(n - cut), -1);
        VD pa(P.begin(), P.begin() + cut * M.dim), pb(P.begin() + cut * M.dim, P.end());
        CALL("setMeshVertices", api->vertices(M.name, pa, a));
        CALL("setMeshVertices", api->vertices(M.name, pb, b));
        std::copy(a.begin(), a.end(), L.ids.begin());
        std::copy(b.begin(), b.end(), L.ids.begin() + cut);
      } else
        CALL("setMeshVertices", api->vertices(M.name, P, L.ids));
    }
    bool conn = CALL("requiresMeshConnectivityFor", api->reqConn(M.name));
    if (size_t(cx.rank) < conns.size()) {
      const Conn &C  = conns[size_t(cx.rank)];
      auto        id = [&](const VI &v) {
        VI r;
        for (int x : v)
          r.push_back(L.ids[size_t(x)]);
        return r;
      };
      VI e = id(C.edges), tr = id(C.tris), q = id(C.quads), te = id(C.tets);
      if (me.single) {
        for (size_t i = 0; i + 1 < e.size(); i += 2)
          CALL("setMeshEdge", api->edge(M.name, e[i], e[i + 1]));
        for (size_t i = 0; i + 2 < tr.size(); i += 3)
          CALL("setMeshTriangle", api->tri(M.name, tr[i], tr[i + 1], tr[i + 2]));
        for (size_t i = 0; i + 3 < q.size(); i += 4)
          CALL("setMeshQuad", api->quad(M.name, q[i], q[i + 1], q[i + 2], q[i + 3]));
        for (size_t i = 0; i + 3 < te.size(); i += 4)
          CALL("setMeshTetrahedron", api->tet(M.name, te[i], te[i + 1], te[i + 2], te[i + 3]));
      } else {
        if (!e.empty())
          CALL("setMeshEdges", api->edges(M.name, e));
        if (!tr.empty())
          CALL("setMeshTriangles", api->tris(M.name, tr));
        if (!q.empty())
          CALL("setMeshQuads", api->quads(M.name, q));
        if (!te.empty())
          CALL("setMeshTetrahedra", api->tets(M.name, te));
      }
    }
    Ev e;
    e.op   = "mesh";
    e.mesh = m;
    e.i    = {dim, int(conn), CALL("getMeshVertexSize", api->meshSize(M.name)), n};
    e.i.insert(e.i.end(), L.ids.begin(), L.ids.end());
    rec(e);
  }

  // access order of n vertices and the sizes of the chunks
  VI order(int n, int salt)
  {
    VI o(static_cast<size_t>(n));
    std::iota(o.begin(), o.end(), 0);
    if (me.permute)
      for (int i = n - 1; i > 0; --i)
        std::swap(o[size_t(i)], o[h64(uint64_t(me.permute * 1000 + salt), uint64_t(i)) % uint64_t(i + 1)]);
    return o;
  }
  std::vector<std::pair<int, int>> chunks(int n, int salt)
  {
    if (!me.permute || n < 2)
      return {{0, n}};
    int c = 1 + int(h64(uint64_t(me.permute * 77 + salt), 5) % uint64_t(n - 1));
    return {{0, c}, {c, n}};
  }

  // initial data is written for the data of a coupling scheme and direction with an initial exchange
  bool initDirection(int data) const
  {
    for (auto &c : s.schemes)
      for (auto &e : c.exchanges)
        if (e.data == data && e.from == cx.part)
          for (auto &f : c.exchanges)
            if (f.init && f.from == e.from && f.to == e.to)
              return true;
    return false;
  }
  bool active(int i) const { return !me.rotate || (i + stepNo) % me.rotate == 0; }
  void remember(const VD &v, int n, int nc)
  {
    lastRead.resize(size_t(n), 0);
    for (int i = 0; i < n; ++i)
      if (active(i))
        lastRead[size_t(i)] = v[size_t(i * nc)];
  }
  // indices [ch.first, ch.second) that take part in this step
  VD pick(const VD &P, std::pair<int, int> ch, int k)
  {
    VD o;
    for (int i = ch.first; i < ch.second; ++i)
      if (active(i))
        o.insert(o.end(), P.begin() + i * k, P.begin() + (i + 1) * k);
    return o;
  }
  void writeAll(double tw, int k)
  {
    for (size_t w = 0; w < me.writes.size(); ++w) {
      const RW    &rw = me.writes[w];
      if (k == 0 && !initDirection(rw.data))
        continue;
      const Local &L  = loc[size_t(rw.mesh)];
      int          nc = s.dims(rw.data, rw.mesh), n = int(L.ids.size());
      VD           v(size_t(n * nc));
      for (int i = 0; i < n; ++i)
        for (int c = 0; c < nc; ++c) {
          double y = value(s, rw.data, c, &L.pts[size_t(i * L.dim)], L.dim, tw, k);
          if (me.reactive && size_t(i) < lastRead.size())
            y += me.gamma * (me.reactive == 2 ? 0.6 + 0.4 * hu(hpt(&L.pts[size_t(i * L.dim)], L.dim)) : 1) * lastRead[size_t(i)];
          v[size_t(i * nc + c)] = active(i) ? y : 0;
        }
      VI o = order(n, int(w) * 31 + stepNo);
      for (auto ch : chunks(n, int(w) * 17 + stepNo)) {
        VI ids;
        VD x;
        for (int j = ch.first; j < ch.second; ++j) {
          ids.push_back(L.ids[size_t(o[size_t(j)])]);
          for (int c = 0; c < nc; ++c)
            x.push_back(v[size_t(o[size_t(j)] * nc + c)]);
        }
        CALL("writeData", api->write(mn(rw.mesh), dn(rw.data), ids, x));
      }
      if (CALL("requiresGradientDataFor", api->reqGrad(mn(rw.mesh), dn(rw.data)))) {
        VD g;
        double hh = 0.5; // exact for fields linear in the coordinates
        for (int i = 0; i < n; ++i)
          for (int c = 0; c < nc; ++c)
            for (int d = 0; d < L.dim; ++d) {
              VD p(L.pts.begin() + i * L.dim, L.pts.begin() + (i + 1) * L.dim), q = p;
              p[size_t(d)] += hh;
              q[size_t(d)] -= hh;
              g.push_back((value(s, rw.data, c, p.data(), L.dim, tw, k) - value(s, rw.data, c, q.data(), L.dim, tw, k)) / (2 * hh));
            }
        // the gradient of vertex i holds for each component the derivatives in all directions
        CALL("writeGradientData", api->grad(mn(rw.mesh), dn(rw.data), L.ids, g));
      }
      Ev e;
      e.op   = "write";
      e.mesh = rw.mesh;
      e.data = rw.data;
      e.x    = {tw};
      e.i    = {k};
      e.x.insert(e.x.end(), v.begin(), v.end());
      rec(e);
    }
    for (size_t w = 0; w < me.jits.size(); ++w) {
      const Jit &j = me.jits[w];
      if (!j.write || (k == 0 && !initDirection(j.data)))
        continue;
      const VD &P  = j.pts[size_t(cx.rank)];
      int       dm = s.meshes[size_t(j.mesh)].dim, nc = s.dims(j.data, j.mesh), n = int(P.size()) / dm;
      VD        v;
      for (int i = 0; i < n; ++i)
        for (int c = 0; c < nc; ++c)
          v.push_back(!active(i) ? 0 : value(s, j.data, c, &P[size_t(i * dm)], dm, tw, k) +
                      (me.reactive && size_t(i) < lastRead.size() ? me.gamma * (me.reactive == 2 ? 0.6 + 0.4 * hu(hpt(&P[size_t(i * dm)], dm)) : 1) * lastRead[size_t(i)] : 0));
      for (auto ch : chunks(n, int(w) * 17 + stepNo)) {
        VD x = pick(P, ch, dm), y = pick(v, ch, nc);
        if (x.empty())
          continue;
        CALL("writeAndMapData", api->writeMap(mn(j.mesh), dn(j.data), x, y));
      }
      Ev e;
      e.op   = "jitwrite";
      e.mesh = j.mesh;
      e.data = j.data;
      e.x    = {tw};
      e.i    = {k, int(w)};
      e.x.insert(e.x.end(), v.begin(), v.end());
      rec(e);
    }
  }
  void readAll(double mx, bool last)
  {
    for (size_t w = 0; w < me.reads.size(); ++w) {
      const RW    &rw = me.reads[w];
      const Local &L  = loc[size_t(rw.mesh)];
      int          nc = s.dims(rw.data, rw.mesh), n = int(L.ids.size());
      for (size_t ri = 0; ri < (last ? 1 : me.readAt.size()); ++ri) {
        double rt = last ? 0 : me.readAt[ri] * mx;
        VD     v(size_t(n * nc), NAN);
        VI     o = order(n, int(w) * 13 + stepNo);
        for (auto ch : chunks(n, int(w) * 7 + stepNo)) {
          VI ids;
          for (int j = ch.first; j < ch.second; ++j)
            ids.push_back(L.ids[size_t(o[size_t(j)])]);
          VD x(ids.size() * size_t(nc), NAN);
          CALL("readData", api->read(mn(rw.mesh), dn(rw.data), ids, rt, x));
          for (int j = ch.first; j < ch.second; ++j)
            for (int c = 0; c < nc; ++c)
              v[size_t(o[size_t(j)] * nc + c)] = x[size_t((j - ch.first) * nc + c)];
        }
        if (w == 0 && (last ? ri == 0 : ri + 1 == me.readAt.size())) {
          remember(v, n, nc);
        }
        Ev e;
        e.op   = "read";
        e.mesh = rw.mesh;
        e.data = rw.data;
        e.x    = {rt};
        e.i    = {window, iter};
        e.x.insert(e.x.end(), v.begin(), v.end());
        rec(e);
      }
    }
    size_t firstRead = 0;
    while (firstRead + 1 < me.jits.size() && me.jits[firstRead].write)
      firstRead++;
    for (size_t w = 0; w < me.jits.size(); ++w) {
      const Jit &j = me.jits[w], &firstJit = me.jits[firstRead];
      if (j.write)
        continue;
      const VD &P  = j.pts[size_t(cx.rank)];
      int       dm = s.meshes[size_t(j.mesh)].dim, nc = s.dims(j.data, j.mesh), n = int(P.size()) / dm;
      for (size_t ri = 0; ri < (last ? 1 : me.readAt.size()); ++ri) {
        double rt = last ? 0 : me.readAt[ri] * mx;
        VD     v(size_t(n * nc), 7e77);
        for (auto ch : chunks(n, int(w) * 17 + stepNo)) {
          VD x = pick(P, ch, dm), y(x.size() / size_t(dm) * size_t(nc), NAN);
          if (x.empty())
            continue;
          CALL("mapAndReadData", api->readMap(mn(j.mesh), dn(j.data), x, rt, y));
          size_t o = 0;
          for (int i = ch.first; i < ch.second; ++i)
            if (active(i)) {
              std::copy_n(y.begin() + long(o), nc, v.begin() + i * nc);
              o += size_t(nc);
            }
        }
        if (me.reads.empty() && &j == &firstJit && (last ? ri == 0 : ri + 1 == me.readAt.size())) {
          remember(v, n, nc);
        }
        Ev e;
        e.op   = "jitread";
        e.mesh = j.mesh;
        e.data = j.data;
        e.x    = {rt};
        e.i    = {window, iter, int(w)};
        e.x.insert(e.x.end(), v.begin(), v.end());
        rec(e);
      }
    }
  }

  // ------------------------------------------------------------ API misuse
  void misuseOp(const Misuse &m)
  {
    CS          op    = m.op;
    std::string mesh  = me.provides.empty() ? (me.receives.empty() ? std::string("NoMesh") : mn(me.receives[0].mesh)) : mn(me.provides[0]);
    int         mi    = me.provides.empty() ? (me.receives.empty() ? 0 : me.receives[0].mesh) : me.provides[0];
    int         dim   = s.meshes[size_t(mi)].dim;
    std::string wdata = me.writes.empty() ? std::string("NoData") : dn(me.writes[0].data);
    std::string wmesh = me.writes.empty() ? mesh : mn(me.writes[0].mesh);
    int         wnc   = me.writes.empty() ? 1 : s.dims(me.writes[0].data, me.writes[0].mesh);
    std::string rdata = me.reads.empty() ? std::string("NoData") : dn(me.reads[0].data);
    std::string rmesh = me.reads.empty() ? mesh : mn(me.reads[0].mesh);
    int         rnc   = me.reads.empty() ? 1 : s.dims(me.reads[0].data, me.reads[0].mesh);
    std::string recv;
    for (auto &r : me.receives)
      recv = mn(r.mesh);
    VD buf(64, 1.5);
    VI ids{0};
    int big[] = {1000000, -1, -1000000, 2147483647};
    int bad   = big[m.arg & 3];
    int last  = 0;
    if (op.size() > 4 && op.compare(op.size() - 4, 4, "-rep") == 0 && !me.provides.empty() && m.stage != "finalized")
      last = std::max(0, api->meshSize(mesh) - 1);
    if (op.compare(0, 5, "skip-") == 0 || op == "dt-mismatch") { // acts at the next call
      skip.insert(op);
      return;
    }
    Call c(*this, ("misuse " + op).c_str());
    if (op == "initialize") api->initialize();
    else if (op == "advance") api->advance(0.1);
    else if (op == "advance0") api->advance(0.0);
    else if (op == "advance-neg") api->advance(-0.5);
    else if (op == "advance-nan") api->advance(NAN);
    else if (op == "advance-inf") api->advance(INFINITY);
    else if (op == "advance-toolarge") api->advance(api->maxdt() * 1.5 + 1e-3);
    else if (op == "finalize") api->finalize();
    else if (op == "reqW") api->reqW();
    else if (op == "reqR") api->reqR();
    else if (op == "reqInit") api->reqInit();
    else if (op == "ongoing") api->ongoing();
    else if (op == "twc") api->twc();
    else if (op == "maxdt") api->maxdt();
    else if (op == "meshDim-unknown") api->meshDim("NoSuchMesh");
    else if (op == "dataDim-unknown") api->dataDim(mesh, "NoSuchData");
    else if (op == "dataDim-unknownmesh") api->dataDim("NoSuchMesh", "NoSuchData");
    else if (op == "reqConn-unknown") api->reqConn("NoSuchMesh");
    else if (op == "vertex-unknown") api->vertex("NoSuchMesh", buf.data(), dim);
    else if (op == "vertex") api->vertex(mesh, buf.data(), dim);
    else if (op == "vertex-dim") api->vertex(mesh, buf.data(), dim + 1);
    else if (op == "vertex-received") api->vertex(recv.empty() ? std::string("NoSuchMesh") : recv, buf.data(), dim);
    else if (op == "vertices-size") { VI i2(3, -1); api->vertices(mesh, VD(size_t(2 * dim), 0.0), i2); }
    else if (op == "edge-bad") api->edge(mesh, 0, bad);
    else if (op == "edges-odd") api->edges(mesh, VI{0, 0, 0});
    else if (op == "edges-bad") api->edges(mesh, VI{0, bad});
    else if (op == "tri-rep") api->tri(mesh, 0, last, last);
    else if (op == "tris-rep") api->tris(mesh, VI{0, last, 0});
    else if (op == "quad-rep") api->quad(mesh, 0, last, last, 0);
    else if (op == "quads-rep") api->quads(mesh, VI{0, last, 0, 0});
    else if (op == "tet-rep") api->tet(mesh, 0, last, 0, last);
    else if (op == "tets-rep") api->tets(mesh, VI{0, last, last, 0});
    else if (op == "tri-bad") api->tri(mesh, 0, bad, bad);
    else if (op == "tris-bad") api->tris(mesh, VI{0, 0, bad});
    else if (op == "quad-bad") api->quad(mesh, 0, 0, bad, bad);
    else if (op == "quads-bad") api->quads(mesh, VI{bad, 0, 0, 0});
    else if (op == "tet-bad") api->tet(mesh, 0, 0, 0, bad);
    else if (op == "tets-bad") api->tets(mesh, VI{0, 0, 0, bad});
    else if (op == "meshSize-unknown") api->meshSize("NoSuchMesh");
    else if (op == "meshSize-received") api->meshSize(recv.empty() ? std::string("NoSuchMesh") : recv);
    else if (op == "write-unknown") api->write("NoSuchMesh", wdata, ids, VD(size_t(wnc), 1.0));
    else if (op == "write-unknowndata") api->write(wmesh, "NoSuchData", ids, VD(size_t(wnc), 1.0));
    else if (op == "write-badid") api->write(wmesh, wdata, VI{bad}, VD(size_t(wnc), 1.0));
    else if (op == "write-size") api->write(wmesh, wdata, ids, VD(size_t(wnc + 1), 1.0));
    else if (op == "write-nan") api->write(wmesh, wdata, ids, VD(size_t(wnc), m.arg ? NAN : INFINITY));
    else if (op == "write-readdata") api->write(rmesh, rdata, ids, VD(size_t(rnc), 1.0));
    else if (op == "read-unknown") { VD x = nd(rnc); api->read("NoSuchMesh", rdata, ids, 0, x); }
    else if (op == "read-unknowndata") { VD x = nd(rnc); api->read(rmesh, "NoSuchData", ids, 0, x); }
    else if (op == "read-badid") { VD x = nd(rnc); api->read(rmesh, rdata, VI{bad}, 0, x); }
    else if (op == "read-size") { VD x = nd(rnc + 1); api->read(rmesh, rdata, ids, 0, x); }
    else if (op == "read-neg") { VD x = nd(rnc); api->read(rmesh, rdata, ids, -0.5, x); }
    else if (op == "read-toolarge") { VD x = nd(rnc); api->read(rmesh, rdata, ids, api->maxdt() + 1.0, x); }
    else if (op == "read-nan") { VD x = nd(rnc); api->read(rmesh, rdata, ids, NAN, x); }
    else if (op == "read-writedata") { VD x = nd(wnc); api->read(wmesh, wdata, ids, 0, x); }
    else if (op == "read") { VD x = nd(rnc); api->read(rmesh, rdata, ids, 0, x); }
    else if (op == "write") api->write(wmesh, wdata, ids, VD(size_t(wnc), 1.0));
    else if (op == "writeMap") api->writeMap(wmesh, wdata, VD(size_t(dim), 0.1), VD(size_t(wnc), 1.0));
    else if (op == "readMap") { VD x = nd(rnc); api->readMap(rmesh, rdata, VD(size_t(dim), 0.1), 0, x); }
    else if (op == "region") api->region(recv.empty() ? mesh : recv, VD(size_t(2 * dim), 0.0));
    else if (op == "region-provided") api->region(mesh, VD(size_t(2 * dim), 0.0));
    else if (op == "region-size") api->region(recv.empty() ? mesh : recv, VD(size_t(2 * dim + 1), 0.0));
    else if (op == "region-inverted") { VD b; for (int d = 0; d < dim; ++d) { b.push_back(1); b.push_back(-1); } api->region(recv.empty() ? mesh : recv, b); }
    else if (op == "getVerts") { VI i2(1); VD x(static_cast<size_t>(dim)); api->getVerts(recv.empty() ? mesh : recv, i2, x); }
    else if (op == "getVerts-provided") { VI i2(1); VD x(static_cast<size_t>(dim)); api->getVerts(mesh, i2, x); }
    else if (op == "grad") api->grad(wmesh, wdata, ids, VD(size_t(wnc * dim), 1.0));
    else if (op == "reset") api->reset(mesh);
    else if (op == "reset-unknown") api->reset("NoSuchMesh");
    else if (op == "secStop") api->secStop();
    else if (op == "secStart") api->secStart("a/b");
    else if (op == "construct-rank") CppApi(me.name, cx.config, bad, me.size);
    else if (op == "construct-size") CppApi(me.name, cx.config, 0, 0 - (m.arg & 1));
    else if (op == "construct-name") CppApi("NoSuchParticipant", cx.config, 0, 1);
    else if (op == "construct-config") CppApi(me.name, "no-such-config.xml", 0, 1);
    else if (op == "construct-null") CppApi(me.name, cx.config, cx.rank, me.size, nullptr);
  }
  std::set<std::string> skip;
  bool skipped(const char *op) { return skip.erase(op) > 0; }
  void stage(const char *st)
  {
    int n = stageCount[st]++;
    for (auto &m : me.misuse) {
      if (m.stage != st || m.count != n || m.rank != cx.rank)
        continue;
      Ev e;
      e.op = "misuse";
      e.s  = m.op;
      try {
        misuseOp(m);
        e.i = {skip.count(m.op) ? 2 : 0};
        rec(e);
      } catch (const precice::Error &x) {
        e.i = {1};
        e.s += std::string("\n") + x.what();
        rec(e);
        throw;
      }
    }
  }

  int main()
  {
    loc.resize(s.meshes.size());
    if (me.ownMpi) {
      MPI_Init(nullptr, nullptr);
      if (me.ownMpi == 2)
        MPI_Comm_split(MPI_COMM_WORLD, 0, cx.rank, &comm);
    }
    stage("construct");
    construct();
    stage("constructed");
    for (int m : me.provides)
      setMesh(m);
    for (auto &r : me.receives)
      if (r.access && size_t(cx.rank) < r.boxes.size() && !r.boxes[size_t(cx.rank)].empty())
        CALL("setMeshAccessRegion", api->region(mn(r.mesh), r.boxes[size_t(cx.rank)]));
    stage("setup");
    bool ri = skipped("skip-reqInit") ? false : CALL("requiresInitialData", api->reqInit());
    {
      Ev e;
      e.op = "reqInit";
      e.i  = {int(ri)};
      rec(e);
    }
    if (ri && me.initData)
      writeAll(0, 0);
    CALL("initialize", api->initialize());
    {
      Ev e;
      e.op = "initialized";
      e.i  = {int(CALL("isCouplingOngoing", api->ongoing())), int(CALL("isTimeWindowComplete", api->twc()))};
      e.x  = {CALL("getMaxTimeStepSize", api->maxdt())};
      rec(e);
    }
    for (auto &r : me.receives) {
      if (!r.access)
        continue;
      Local &L = loc[size_t(r.mesh)];
      L.dim    = s.meshes[size_t(r.mesh)].dim;
      int n    = CALL("getMeshVertexSize", api->meshSize(mn(r.mesh)));
      L.ids.assign(size_t(n), -1);
      L.pts.assign(size_t(n * L.dim), NAN);
      CALL("getMeshVertexIDsAndCoordinates", api->getVerts(mn(r.mesh), L.ids, L.pts));
      Ev e;
      e.op   = "access";
      e.mesh = r.mesh;
      e.i    = L.ids;
      e.x    = L.pts;
      rec(e);
      // in the order of the coordinates from here on
      VI o(static_cast<size_t>(n));
      std::iota(o.begin(), o.end(), 0);
      std::sort(o.begin(), o.end(), [&](int a, int b) { return std::lexicographical_compare(L.pts.data() + a * L.dim, L.pts.data() + (a + 1) * L.dim, L.pts.data() + b * L.dim, L.pts.data() + (b + 1) * L.dim); });
      Local q = L;
      for (int i = 0; i < n; ++i) {
        L.ids[size_t(i)] = q.ids[size_t(o[size_t(i)])];
        std::copy_n(q.pts.begin() + o[size_t(i)] * L.dim, L.dim, L.pts.begin() + i * L.dim);
      }
    }
    stage("initialized");
    double tSaved = 0;
    int    plan   = 0;
    while (CALL("isCouplingOngoing", api->ongoing())) {
      stage("loop");
      bool rw = skipped("skip-reqW") ? false : CALL("requiresWritingCheckpoint", api->reqW());
      if (rw)
        tSaved = t;
      double mx = CALL("getMaxTimeStepSize", api->maxdt());
      double dt;
      if (me.ownWindow > 0)
        dt = me.ownWindow * me.dts[size_t(window) % me.dts.size()];
      else
        dt = s.windowOf(cx.part) * me.dts[size_t(plan) % me.dts.size()];
      bool first = plan == 0 && iter == 1;
      plan++;
      dt = std::min(dt, mx);
      if (iter == 1 && std::count(me.full.begin(), me.full.end(), window))
        dt = mx;
      {
        Ev e;
        e.op = "step";
        e.i  = {int(rw), window, iter};
        e.x  = {t, mx, dt};
        rec(e);
      }
      readAll(mx, false);
      for (int m : me.provides)
        for (size_t k = 0; k < s.meshes[size_t(m)].stages.size() && first; ++k) {
          auto &g = s.meshes[size_t(m)].stages[k];
          if (g.window != window)
            continue;
          auto &b = k ? s.meshes[size_t(m)].stages[k - 1].pts : s.meshes[size_t(m)].pts;
          auto &c = k ? s.meshes[size_t(m)].stages[k - 1].conn : s.meshes[size_t(m)].conn;
          size_t q = size_t(cx.rank);
          if (g.partial && b[q] == g.pts[q] && c[q].edges == g.conn[q].edges && c[q].tris == g.conn[q].tris && c[q].tets == g.conn[q].tets)
            continue;
          CALL("resetMesh", api->reset(mn(m)));
          setMesh(m, g.pts, g.conn);
        }
      if (me.sections)
        CALL("startProfilingSection", api->secStart("solve"));
      svc->compute(me.stepCost);
      if (me.sections)
        CALL("stopLastProfilingSection", api->secStop());
      stepNo++;
      if (!(me.skipWrites && stepNo % me.skipWrites == 0))
        writeAll(t + dt, iter);
      stage("written");
      CALL("advance", api->advance(skipped("dt-mismatch") ? dt * 0.5 : dt));
      t += dt;
      bool on  = CALL("isCouplingOngoing", api->ongoing());
      bool twc = CALL("isTimeWindowComplete", api->twc());
      bool rr  = skipped("skip-reqR") ? false : CALL("requiresReadingCheckpoint", api->reqR());
      {
        Ev e;
        e.op = "advanced";
        e.i  = {int(on), int(twc), int(rr)};
        e.x  = {CALL("getMaxTimeStepSize", api->maxdt())};
        rec(e);
      }
      if (rr) {
        t = tSaved;
        iter++;
        plan = 0;
      }
      if (twc) {
        window++;
        iter = 1;
        plan = 0;
      }
    }
    readAll(0, true);
    stage("ended");
    if (!me.noFinalize)
      CALL("finalize", api->finalize());
    Ev e;
    e.op = "finalized";
    rec(e);
    stage("finalized");
    CALL("destroy", api.reset());
    if (me.ownMpi == 2)
      MPI_Comm_free(&comm);
    if (me.ownMpi)
      MPI_Finalize();
    return 0;
  }
};
} // namespace

extern "C" int dst_node_main(void *p)
{
  Ctx   &cx = *static_cast<Ctx *>(p);
  Driver d(cx);
  Ev     e;
  e.op = "end";
  try {
    d.main();
    e.s = "ok";
    cx.svc->record(std::move(e));
    return 0;
  } catch (const precice::Error &x) {
    e.s = std::string("error in ") + d.cur + ": " + x.what();
    e.i = {1};
  } catch (const std::exception &x) {
    e.s = std::string("exception in ") + d.cur + ": " + typeid(x).name() + ": " + x.what();
    e.i = {2};
  } catch (...) {
    e.s = std::string("unknown exception in ") + d.cur;
    e.i = {3};
  }
  int kind = e.i[0];
  cx.svc->record(std::move(e));
  if (d.me.onError == "abort")
    cx.svc->crashSelf(kind == 1 ? "solver stops after a preCICE error" : "uncaught exception");
  d.api.reset();
  return 1;
}
extern "C" bool __wrap__ZN7precice5utils12isKebabStyleESt17basic_string_viewIcSt11char_traitsIcEE(size_t, const char *) { return true; }
extern "C" int dst_node_info(void *) { return 1; }
