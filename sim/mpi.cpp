// Simulated MPI (see include/mpi.h): point-to-point, collectives, ports.
#include "sim.hpp"
#include "include/mpi.h"
#include <algorithm>
#include <cstdio>

using namespace sim;

struct SimMpiComm {
  int                id;
  std::vector<int>   members;  // node ids, index = local rank
  std::vector<int>   remote;   // intercommunicator: remote node ids (empty: intracommunicator)
  int                ownerNode = -1; // intercomm handles are per side
  SimMpiComm        *other     = nullptr;
  std::map<int, int> collSeq; // node -> next collective sequence number
  std::set<int>      freedBy; // nodes that disconnected
};
namespace {
struct Msg {
  int               src, tag;
  std::vector<char> d;
  bool              matched = false;
  bool              arrived = false;
  const void       *lazy = nullptr; // buffer of the sender, read when the message is matched
  int               from = -1;
};
typedef std::shared_ptr<Msg> PMsg;
struct Posted;
}
struct SimMpiReq {
  bool       done = false;
  void      *buf  = nullptr;
  size_t     cap  = 0;
  int        src = 0, tag = 0; // recv matching
  MPI_Status status{};
  bool       isRecv = false;
  SimMpiComm *comm  = nullptr;
  int         node  = -1;
  PMsg        msg;
};
namespace {
struct Box { // per (comm, receiving node)
  std::deque<PMsg>        unexpected;
  std::deque<SimMpiReq *> posted;
};
std::map<std::pair<int, int>, Box>      g_box;
std::map<std::tuple<int, int, int>, int64_t> g_last; // (comm, src, dst) -> last arrival
std::map<int, SimMpiComm *>             g_world, g_selfc;
int                                     g_id = 1;
struct Coll {
  std::string                      op;
  int                              root = -2, count = -1;
  std::map<int, std::vector<char>> in; // local rank -> contribution
  std::map<int, int64_t>           t;
  int                              gone = 0;
};
std::map<std::pair<int, int>, Coll> g_coll; // (comm, seq)
struct Join { // one side of MPI_Comm_accept / MPI_Comm_connect
  std::vector<int> members;
  size_t           entered = 0;
  Join            *peer    = nullptr;
  SimMpiComm      *result  = nullptr;
  bool             ready() const { return peer && entered == members.size() && peer->entered == peer->members.size(); }
};
std::map<std::pair<int, int>, Join> g_join; // (comm, seq)
struct Port {
  std::deque<Join *> q;
  bool               open = true;
  int                node;
};
std::map<std::string, Port> g_ports;
int                         g_portNo = 0;

std::vector<SimMpiComm *>   g_comms;
SimMpiComm                 *newComm(std::vector<int> m)
{
  auto *c    = new SimMpiComm;
  g_comms.push_back(c);
  c->id      = g_id++;
  c->members = std::move(m);
  return c;
}
SimMpiComm *resolve(MPI_Comm c)
{
  Node *n = self->node;
  if (c == MPI_COMM_WORLD) {
    auto &w = g_world[n->group];
    if (!w) {
      std::vector<int> m(size_t(n->size), -1);
      for (auto *x : K.nodes)
        if (x->group == n->group)
          m[size_t(x->rank)] = x->id;
      w = newComm(m);
      g_comms.pop_back();
    }
    return w;
  }
  if (c == MPI_COMM_SELF) {
    auto &w = g_selfc[n->id];
    if (!w)
{
      w = newComm({n->id});
      g_comms.pop_back();
    }
    return w;
  }
  if (!c || c->freedBy.count(n->id)) {
    simError("MPI call on an invalid communicator");
    killNode(n, "abort", "MPI call on an invalid communicator");
    parkForever();
  }
  return c;
}
void mpiAbort(const std::string &why)
{
  simError("MPI error: " + why);
  killNode(self->node, "abort", "MPI error: " + why);
  parkForever();
}
int rankIn(SimMpiComm *c, int node)
{
  for (size_t i = 0; i < c->members.size(); ++i)
    if (c->members[i] == node)
      return int(i);
  return -1;
}
int peerNode(SimMpiComm *c, int rank)
{
  auto &v = c->remote.empty() ? c->members : c->remote;
  if (rank < 0 || size_t(rank) >= v.size())
    mpiAbort("invalid rank " + std::to_string(rank) + " in communicator of size " + std::to_string(v.size()));
  return v[size_t(rank)];
}
size_t bytes(int count, MPI_Datatype t)
{
  if (count < 0)
    mpiAbort("negative count");
  return size_t(count) * size_t(t & 0xff);
}
bool matches(int wantSrc, int wantTag, const Msg &m) { return (wantSrc == MPI_ANY_SOURCE || wantSrc == m.src) && (wantTag == MPI_ANY_TAG || wantTag == m.tag); }
void complete(SimMpiReq *r, const PMsg &m)
{
  m->matched = true;
  // rendezvous: the buffer of the sender is read now
  if (m->lazy && m->from >= 0 && !K.nodes[size_t(m->from)]->dead && !m->d.empty()) {
    if (memcmp(m->d.data(), m->lazy, m->d.size()))
      K.fired("mpi-buffer-changed");
    memcpy(m->d.data(), m->lazy, m->d.size());
  }
  r->msg     = m;
  r->done    = true;
  r->status  = MPI_Status{m->src, m->tag, 0, int(m->d.size())};
  if (m->d.size() <= r->cap && !m->d.empty())
    memcpy(r->buf, m->d.data(), m->d.size());
}
void checkTrunc(SimMpiReq *r)
{
  if (r->isRecv && r->done && r->msg && r->msg->d.size() > r->cap)
    mpiAbort("message truncated: " + std::to_string(r->msg->d.size()) + " bytes into a buffer of " + std::to_string(r->cap));
}
void deliver(int commId, int dstNode, const PMsg &m)
{
  auto &b = g_box[{commId, dstNode}];
  m->arrived = true;
  for (auto it = b.posted.begin(); it != b.posted.end(); ++it)
    if (matches((*it)->src, (*it)->tag, *m)) {
      auto *r = *it;
      b.posted.erase(it);
      complete(r, m);
      return;
    }
  b.unexpected.push_back(m);
}
PMsg startSend(const void *buf, size_t n, int dest, int tag, SimMpiComm *c)
{
  int dst = peerNode(c, dest);
  int me  = self->node->id;
  auto m  = std::make_shared<Msg>();
  m->src  = rankIn(c, me);
  m->tag  = tag;
  m->d.assign((const char *) buf, (const char *) buf + n);
  int64_t &last = g_last[{c->id, me, dst}];
  int64_t  t    = std::max(K.now + delaySample(), last + 1);
  last          = t;
  int id        = c->id;
  K.note(0x3B1, n);
  K.at(t, [id, dst, m] { deliver(id, dst, m); });
  return m;
}
SimMpiReq *startRecv(void *buf, size_t cap, int src, int tag, SimMpiComm *c)
{
  auto *r   = new SimMpiReq;
  r->buf    = buf;
  r->cap    = cap;
  r->src    = src;
  r->tag    = tag;
  r->isRecv = true;
  r->comm   = c;
  r->node   = self->node->id;
  if (src != MPI_ANY_SOURCE)
    peerNode(c, src);
  auto &b = g_box[{c->id, r->node}];
  for (auto it = b.unexpected.begin(); it != b.unexpected.end(); ++it)
    if (matches(src, tag, **it)) {
      auto m = *it;
      b.unexpected.erase(it);
      complete(r, m);
      return r;
    }
  b.posted.push_back(r);
  return r;
}
void reduceInto(char *acc, const char *x, int count, MPI_Datatype t, MPI_Op op)
{
  auto doit = [&](auto *a, auto *b) {
    for (int i = 0; i < count; ++i)
      switch (op) {
      case MPI_SUM: a[i] = a[i] + b[i]; break;
      case MPI_PROD: a[i] = a[i] * b[i]; break;
      case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
      case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
      case MPI_LAND: a[i] = a[i] && b[i]; break;
      case MPI_LOR: a[i] = a[i] || b[i]; break;
      default: simError("unsupported MPI_Op");
      }
  };
  switch (t) {
  case MPI_INT: doit((int *) acc, (const int *) x); break;
  case MPI_DOUBLE: doit((double *) acc, (const double *) x); break;
  case MPI_UNSIGNED_LONG: doit((unsigned long *) acc, (const unsigned long *) x); break;
  case MPI_LONG: case MPI_LONG_LONG: doit((long *) acc, (const long *) x); break;
  case MPI_UNSIGNED: doit((unsigned *) acc, (const unsigned *) x); break;
  case MPI_FLOAT: doit((float *) acc, (const float *) x); break;
  default: doit((unsigned char *) acc, (const unsigned char *) x);
  }
}
// every rank contributes and `needs` says whose contributions this rank waits for
Coll &enter(const char *op, SimMpiComm *c, int root, int count, const void *buf, size_t n, int &rank, int &seq)
{
  rank = rankIn(c, self->node->id);
  if (rank < 0 || !c->remote.empty())
    mpiAbort("collective on a communicator this process is not a member of");
  seq      = c->collSeq[self->node->id]++;
  auto &co = g_coll[{c->id, seq}];
  if (co.op.empty()) {
    co.op    = op;
    co.root  = root;
    co.count = count;
  } else if (co.op != op || co.root != root || co.count != count)
    mpiAbort(std::string("collective mismatch: ") + op + " root " + std::to_string(root) + " count " + std::to_string(count) + " against " + co.op + " root " + std::to_string(co.root) + " count " + std::to_string(co.count));
  if (buf)
    co.in[rank].assign((const char *) buf, (const char *) buf + n);
  else
    co.in[rank];
  co.t[rank] = K.now + delaySample();
  K.at(co.t[rank], [] {});
  return co;
}
void leave(SimMpiComm *c, int seq)
{
  auto it = g_coll.find({c->id, seq});
  if (it != g_coll.end() && ++it->second.gone == int(c->members.size()))
    g_coll.erase(it);
}
void waitAll(SimMpiComm *c, int seq, const char *what)
{
  size_t size = c->members.size();
  int    id   = c->id;
  block(what, [id, seq, size] {
    auto &co = g_coll[{id, seq}];
    if (co.in.size() < size)
      return false;
    for (auto &t : co.t)
      if (t.second > K.now)
        return false;
    return true;
  });
}
} // namespace

namespace sim {
void mpiReset() {}
void mpiLeft(Node *n, std::vector<std::string> &v)
{
  for (auto &p : g_ports)
    if (p.second.node == n->id && p.second.open)
      v.push_back("MPI port");
  if (n->mpiInit && !n->mpiFini)
    v.push_back("MPI not finalized");
  for (auto *c : g_comms)
    if (std::count(c->members.begin(), c->members.end(), n->id) && !c->freedBy.count(n->id))
      v.push_back(c->remote.empty() ? "MPI communicator" : "MPI intercommunicator");
}
void mpiNodeDied(Node *n)
{
  // an MPI job dies as a whole: the launcher kills the other ranks a little later
  if (n->size > 1 && n->mpiInit && !n->mpiFini) {
    int     g = n->group, id = n->id;
    int64_t d = 1000000 + int64_t(K.uniform(16)) * 3000000;
    K.at(K.now + d, [g, id] {
      for (auto *x : K.nodes)
        if (x->group == g && x->id != id && !x->dead && !x->done) {
          K.fired("mpi-job-kill");
          killNode(x, "jobkill", "MPI job killed because rank failed");
        }
    });
  }
}
} // namespace sim

extern "C" {
int MPI_Init(int *, char ***)
{
  if (self->node->mpiInit)
    mpiAbort("MPI_Init called twice");
  self->node->mpiInit = true;
  point("MPI_Init");
  return 0;
}
int MPI_Init_thread(int *a, char ***b, int req, int *prov)
{
  *prov = req;
  return MPI_Init(a, b);
}
int MPI_Initialized(int *f)
{
  *f = self->node->mpiInit;
  return 0;
}
int MPI_Finalized(int *f)
{
  *f = self->node->mpiFini;
  return 0;
}
int MPI_Barrier(MPI_Comm cc)
{
  auto *c = resolve(cc);
  int   rank, seq;
  enter("Barrier", c, -1, 0, nullptr, 0, rank, seq);
  waitAll(c, seq, "MPI_Barrier");
  leave(c, seq);
  return 0;
}
int MPI_Finalize()
{
  // Finalize is collective over connected processes; we model a barrier over the job
  MPI_Barrier(MPI_COMM_WORLD);
  self->node->mpiFini = true;
  return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r)
{
  *r = rankIn(resolve(c), self->node->id);
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int *s)
{
  *s = int(resolve(c)->members.size());
  return 0;
}
int MPI_Comm_remote_size(MPI_Comm c, int *s)
{
  *s = int(resolve(c)->remote.size());
  return 0;
}
int MPI_Comm_split(MPI_Comm cc, int color, int key, MPI_Comm *out)
{
  auto *c = resolve(cc);
  int   rank, seq;
  int   kv[2] = {color, key};
  enter("Split", c, -1, 0, kv, sizeof kv, rank, seq);
  waitAll(c, seq, "MPI_Comm_split");
  auto                                       &co = g_coll[{c->id, seq}];
  std::vector<std::pair<int, int>>            mem;
  for (auto &i : co.in) {
    int v[2];
    memcpy(v, i.second.data(), sizeof v);
    if (v[0] == color)
      mem.push_back({v[1], i.first});
  }
  std::sort(mem.begin(), mem.end());
  static std::map<std::tuple<int, int, int>, SimMpiComm *> made;
  *out = MPI_COMM_NULL;
  if (color != MPI_UNDEFINED) {
    auto &m = made[{c->id, seq, color}];
    if (!m) {
      std::vector<int> nodes;
      for (auto &x : mem)
        nodes.push_back(c->members[size_t(x.second)]);
      m = newComm(nodes);
    }
    *out = m;
  }
  leave(c, seq);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return MPI_Comm_split(c, 0, 0, out); }
int MPI_Comm_free(MPI_Comm *c)
{
  auto *x = resolve(*c);
  point("MPI_Comm_free");
  x->freedBy.insert(self->node->id);
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_disconnect(MPI_Comm *cc)
{
  auto *c = resolve(*cc);
  point("MPI_Comm_disconnect");
  // collective over both groups; processes that are gone do not count
  c->freedBy.insert(self->node->id);
  auto all = [](SimMpiComm *x) {
    for (int m : x->members) {
      auto *n = K.nodes[size_t(m)];
      if (!x->freedBy.count(m) && !n->done && !n->dead)
        return false;
    }
    return true;
  };
  if (c->other) {
    auto *o = c->other;
    block("MPI_Comm_disconnect", [o, c, all] { return all(c) && all(o); });
  }
  *cc = MPI_COMM_NULL;
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  point("MPI_Send");
  auto m = startSend(b, by, dest, tag, c);
  if (int(by) > K.env.eager) {
    K.fired("mpi-rendezvous");
    block("MPI_Send-rendezvous", [m] { return m->matched; });
  }
  return 0;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st)
{
  SimMpiReq *r = *q;
  if (!r)
    return 0;
  auto ready = [r] { return r->isRecv ? r->done : (r->done || r->msg->matched); };
  block("MPI_Wait", ready);
  checkTrunc(r);
  if (st)
    *st = r->status;
  *q = MPI_REQUEST_NULL;
  delete r;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st)
{
  for (int i = 0; i < n; ++i)
    MPI_Wait(q + i, st ? st + i : nullptr);
  return 0;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st)
{
  point("MPI_Test");
  SimMpiReq *r = *q;
  *flag        = 1;
  if (!r)
    return 0;
  bool ok = r->isRecv ? r->done : (r->done || r->msg->matched);
  *flag   = ok;
  if (ok) {
    checkTrunc(r);
    if (st)
      *st = r->status;
    *q = MPI_REQUEST_NULL;
    delete r;
  }
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm cc, MPI_Status *st)
{
  auto *c = resolve(cc);
  point("MPI_Recv");
  MPI_Request r = startRecv(b, bytes(n, t), src, tag, c);
  return MPI_Wait(&r, st);
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm cc, MPI_Request *q)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  point("MPI_Isend");
  auto *r = new SimMpiReq;
  r->comm = c;
  r->node = self->node->id;
  r->msg  = startSend(b, by, dest, tag, c);
  r->done = int(by) <= K.env.eager;
  r->buf  = const_cast<void *>(b);
  r->cap  = by;
  *q      = r;
  if (!r->done) {
    K.fired("mpi-rendezvous");
    // rendezvous: the user buffer is read when the receiver matches
    r->msg->lazy = r->msg->matched ? nullptr : b;
    r->msg->from = self->node->id;
  }
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm cc, MPI_Request *q)
{
  auto *c = resolve(cc);
  point("MPI_Irecv");
  *q = startRecv(b, bytes(n, t), src, tag, c);
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm cc, MPI_Status *st)
{
  auto *c  = resolve(cc);
  int   id = c->id, me = self->node->id;
  PMsg  found;
  block("MPI_Probe", [&, id, me] {
    for (auto &m : g_box[{id, me}].unexpected)
      if (matches(src, tag, *m)) {
        found = m;
        return true;
      }
    return false;
  });
  if (st)
    *st = MPI_Status{found->src, found->tag, 0, int(found->d.size())};
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n)
{
  *n = st->bytes / (t & 0xff);
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  int    rank, seq;
  point("MPI_Bcast");
  bool amRoot = rankIn(c, self->node->id) == root;
  enter("Bcast", c, root, n * (t & 0xff), amRoot ? b : nullptr, amRoot ? by : 0, rank, seq);
  int id = c->id;
  if (!amRoot) {
    block("MPI_Bcast", [id, seq, root] {
      auto &co = g_coll[{id, seq}];
      return co.in.count(root) && co.t[root] <= K.now;
    });
    auto &d = g_coll[{id, seq}].in[root];
    if (by)
      memcpy(b, d.data(), by);
  } else if (int(by) > K.env.eager)
    waitAll(c, seq, "MPI_Bcast-rendezvous");
  leave(c, seq);
  return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  int    rank, seq;
  point("MPI_Reduce");
  enter("Reduce", c, root, n * (t & 0xff), s, by, rank, seq);
  if (rank == root) {
    waitAll(c, seq, "MPI_Reduce");
    auto &co  = g_coll[{c->id, seq}];
    auto  acc = co.in.begin()->second;
    for (auto it = std::next(co.in.begin()); it != co.in.end(); ++it)
      reduceInto(acc.data(), it->second.data(), n, t, op);
    if (by)
      memcpy(r, acc.data(), by);
  } else if (int(by) > K.env.eager) {
    waitAll(c, seq, "MPI_Reduce-rendezvous");
  }
  leave(c, seq);
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  int    rank, seq;
  point("MPI_Allreduce");
  enter("Allreduce", c, -1, n * (t & 0xff), s, by, rank, seq);
  waitAll(c, seq, "MPI_Allreduce");
  auto &co  = g_coll[{c->id, seq}];
  auto  acc = co.in.begin()->second;
  for (auto it = std::next(co.in.begin()); it != co.in.end(); ++it)
    reduceInto(acc.data(), it->second.data(), n, t, op);
  if (by)
    memcpy(r, acc.data(), by);
  leave(c, seq);
  return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  int    rank, seq;
  enter("Allgather", c, -1, n * (t & 0xff), s, by, rank, seq);
  waitAll(c, seq, "MPI_Allgather");
  auto &co = g_coll[{c->id, seq}];
  for (auto &i : co.in)
    if (by)
      memcpy((char *) r + size_t(i.first) * by, i.second.data(), by);
  leave(c, seq);
  return 0;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype, int root, MPI_Comm cc)
{
  auto  *c  = resolve(cc);
  size_t by = bytes(n, t);
  int    rank, seq;
  enter("Gather", c, root, n * (t & 0xff), s, by, rank, seq);
  if (rank == root) {
    waitAll(c, seq, "MPI_Gather");
    auto &co = g_coll[{c->id, seq}];
    for (auto &i : co.in)
      if (by)
        memcpy((char *) r + size_t(i.first) * by, i.second.data(), by);
  }
  leave(c, seq);
  return 0;
}
int MPI_Open_port(MPI_Info, char *name)
{
  snprintf(name, MPI_MAX_PORT_NAME, "simport-%d", g_portNo++);
  g_ports[name].node = self->node->id;
  point("MPI_Open_port");
  return 0;
}
int MPI_Close_port(const char *name)
{
  auto it = g_ports.find(name);
  if (it == g_ports.end() || !it->second.open)
    return MPI_ERR_OTHER;
  it->second.open = false;
  point("MPI_Close_port");
  return 0;
}
int MPI_Comm_accept(const char *name, MPI_Info, int root, MPI_Comm cc, MPI_Comm *out)
{
  // collective over the communicators of both sides; completes when all their processes take part (as in MPICH and Open MPI)
  auto *c    = resolve(cc);
  int   rank = rankIn(c, self->node->id);
  int   seq  = c->collSeq[self->node->id]++;
  point("MPI_Comm_accept");
  auto *j    = &g_join[{c->id, seq}];
  j->members = c->members;
  j->entered++;
  if (rank == root) {
    auto it = g_ports.find(name);
    if (it == g_ports.end())
      return MPI_ERR_OTHER;
    auto *p = &it->second;
    block("MPI_Comm_accept", [p] { return !p->q.empty(); });
    size_t i  = p->q.size() > 1 ? K.uniform(p->q.size()) : 0;
    Join  *o  = p->q[i];
    p->q.erase(p->q.begin() + long(i));
    auto *a = newComm(c->members), *b = newComm(o->members);
    b->id     = a->id; // same context
    a->remote = o->members;
    b->remote = c->members;
    a->other  = b;
    b->other  = a;
    j->peer   = o;
    o->peer   = j;
    j->result = a;
    o->result = b;
  }
  block("MPI_Comm_accept", [j] { return j->ready(); });
  *out = j->result;
  return 0;
}
int MPI_Comm_connect(const char *name, MPI_Info, int root, MPI_Comm cc, MPI_Comm *out)
{
  auto *c    = resolve(cc);
  int   rank = rankIn(c, self->node->id);
  int   seq  = c->collSeq[self->node->id]++;
  point("MPI_Comm_connect");
  auto *j = &g_join[{c->id, seq}];
  j->members = c->members;
  j->entered++;
  if (rank == root) {
    auto it = g_ports.find(name);
    if (it == g_ports.end() || !it->second.open)
      return MPI_ERR_OTHER;
    it->second.q.push_back(j);
  }
  block("MPI_Comm_connect", [j] { return j->ready(); });
  *out = j->result;
  return 0;
}
int MPI_Error_string(int, char *s, int *n)
{
  *n = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error");
  return 0;
}
int MPI_Abort(MPI_Comm, int rc)
{
  killNode(self->node, "abort", "MPI_Abort(" + std::to_string(rc) + ")");
  parkForever();
}
double MPI_Wtime() { return double(K.now) * 1e-9; }
static std::vector<MPI_Comm> g_fortran; // handles
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f >= 0 && size_t(f) < g_fortran.size() ? g_fortran[size_t(f)] : MPI_COMM_NULL; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c)
{
  g_fortran.push_back(c);
  return MPI_Fint(g_fortran.size() - 1);
}
}
