// Simulated TCP, epoll, eventfd, timerfd for simulated threads.
#include "sim.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <net/if.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = (ret(*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

namespace {
enum class FK { Sock, Epoll, Event, Timer };
const int FDBASE = 100000;

struct Chunk {
  std::vector<char> d;
  size_t            off = 0;
};
struct Obj {
  FK       kind;
  int      fd   = -1;
  Node    *node = nullptr;
  bool     nonblock = false;
  uint64_t gen  = 1; // state changes, for edge-triggered epoll
  virtual ~Obj() {}
  virtual uint32_t mask() const = 0;
};
typedef std::shared_ptr<Obj> PObj;
struct Sock : Obj {
  enum St { New, Bound, Listen, Connecting, Conn, Refused } st = New;
  uint32_t ip = 0;
  uint16_t port = 0;
  uint32_t pip = 0;
  uint16_t pport = 0;
  bool     reuse = false;
  std::deque<std::weak_ptr<Sock>>   dummy;
  std::deque<std::shared_ptr<Sock>> acceptQ;
  int                               backlog = 0, inQueue = 0;
  std::shared_ptr<Sock>             peer; // other end while both alive
  std::deque<Chunk>                 in;   // arrived data
  size_t                            inBytes = 0;
  size_t                            flight  = 0; // bytes sent by us, not yet read by the peer
  int64_t                           lastArrival = 0;
  bool                              finIn = false; // peer sent FIN (arrived)
  bool                              rstIn = false, rstSeen = false;
  bool                              wrShut = false, rdShut = false;
  bool                              peerGone = false; // peer process closed: our next send provokes RST
  int                               soerr = 0;
  size_t                            sndcap() const { return size_t(K.env.sndbuf); }
  uint32_t                          mask() const override
  {
    uint32_t m = 0;
    if (st == Listen)
      return acceptQ.empty() ? 0 : uint32_t(EPOLLIN);
    if (st == Connecting)
      return 0;
    if (st == Refused)
      return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
    if (st != Conn)
      return EPOLLOUT | EPOLLHUP;
    if (inBytes || finIn || rstIn || rdShut)
      m |= EPOLLIN;
    if (finIn || rdShut)
      m |= EPOLLRDHUP;
    if (rstIn)
      m |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    if (finIn && wrShut)
      m |= EPOLLHUP;
    if (flight < sndcap() || wrShut)
      m |= EPOLLOUT;
    return m;
  }
};
struct EpItem {
  uint32_t     ev;
  epoll_data_t data;
  uint64_t     seen;
  bool         oneshotDone;
  std::weak_ptr<Obj> o;
};
struct Ep : Obj {
  std::map<int, EpItem> items;
  uint32_t              mask() const override;
};
struct Evfd : Obj {
  uint64_t v = 0;
  bool     sema = false;
  uint32_t mask() const override { return (v ? EPOLLIN : 0) | EPOLLOUT; }
};
struct Tmfd : Obj {
  int64_t  next = -1, interval = 0;
  uint64_t expirations = 0, arm = 0;
  uint32_t mask() const override { return expirations ? EPOLLIN : 0; }
};
uint32_t itemReady(const EpItem &it)
{
  if (it.oneshotDone)
    return 0;
  auto o = it.o.lock();
  if (!o)
    return 0;
  if ((it.ev & EPOLLET) && it.seen == o->gen)
    return 0;
  return o->mask() & (it.ev | EPOLLERR | EPOLLHUP);
}
uint32_t Ep::mask() const
{
  for (auto &i : items)
    if (itemReady(i.second))
      return EPOLLIN;
  return 0;
}

std::map<int, PObj>                                      g_fds;
int                                                      g_next = FDBASE;
std::map<std::pair<uint32_t, uint16_t>, std::weak_ptr<Sock>> g_listen;
uint16_t                                                 g_eph = 0;

template <class T>
std::shared_ptr<T> mk(FK k)
{
  auto o  = std::make_shared<T>();
  o->kind = k;
  o->fd   = g_next++;
  o->node = self->node;
  g_fds[o->fd] = o;
  self->node->fds.insert(o->fd);
  return o;
}
template <class T>
T *as(int fd)
{
  auto it = g_fds.find(fd);
  return it == g_fds.end() ? nullptr : dynamic_cast<T *>(it->second.get());
}
std::shared_ptr<Sock> sockOf(int fd)
{
  auto it = g_fds.find(fd);
  if (it == g_fds.end())
    return nullptr;
  return std::dynamic_pointer_cast<Sock>(it->second);
}
int err(int e)
{
  errno = e;
  return -1;
}
// Boost.Asio retries an interrupted epoll_wait, but reports an interrupted synchronous operation to its caller
bool eintr(bool sync)
{
  if (K.flip(sync ? K.env.psigsync : K.env.peintr)) {
    K.fired(sync ? "eintr-sync" : "eintr");
    return true;
  }
  return false;
}
// Delivers a RST to s
void reset(const std::shared_ptr<Sock> &s, int64_t when)
{
  std::weak_ptr<Sock> w = s;
  K.at(when, [w] {
    if (auto s = w.lock()) {
      s->rstIn = true;
      if (!s->soerr)
        s->soerr = ECONNRESET;
      s->gen++;
      tracef("reset of connection %d of node %d", s->fd, s->node ? s->node->id : -1);
      K.fired("conn-reset");
    }
  });
}
int64_t arrival(Sock *from, Sock *to)
{
  int64_t t       = std::max(K.now + delaySample(), from->lastArrival + 1);
  from->lastArrival = t;
  return t;
}
void sendFin(Sock *s)
{
  auto p = s->peer;
  if (!p || s->wrShut)
    return;
  s->wrShut             = true;
  std::weak_ptr<Sock> w = p;
  K.at(arrival(s, p.get()), [w] {
    if (auto p = w.lock()) {
      p->finIn = true;
      p->gen++;
    }
  });
}
void closeSock(std::shared_ptr<Sock> s)
{
  if (s->st == Sock::Listen) {
    g_listen.erase({s->ip, s->port});
    for (auto &q : s->acceptQ) // never accepted: reset
      if (q->peer) {
        q->peer->peerGone = true;
        reset(q->peer, K.now + delaySample());
        q->peer->peer.reset();
        q->peer.reset();
      }
    s->acceptQ.clear();
    return;
  }
  if (s->st == Sock::Conn && s->peer) {
    auto p = s->peer;
    if (s->inBytes > 0) {
      reset(p, arrival(s.get(), p.get()));
    } else {
      sendFin(s.get());
      if (p->flight > 0) // data on the way to a closed endpoint
        reset(p, K.now + 2 * delaySample());
    }
    // data sent to a closed endpoint provokes a reset
    std::weak_ptr<Sock> w = p;
    p->peerGone           = true;
    p->gen++;
    s->peer.reset();
  }
}
void closeFd(int fd)
{
  auto it = g_fds.find(fd);
  if (it == g_fds.end())
    return;
  PObj o = it->second;
  g_fds.erase(it);
  if (o->node)
    o->node->fds.erase(fd);
  for (auto &e : g_fds)
    if (e.second->kind == FK::Epoll)
      static_cast<Ep *>(e.second.get())->items.erase(fd);
  if (o->kind == FK::Sock)
    closeSock(std::static_pointer_cast<Sock>(o));
}
void armTimer(std::shared_ptr<Tmfd> t)
{
  uint64_t            arm = ++t->arm;
  std::weak_ptr<Tmfd> w   = t;
  if (t->next < 0)
    return;
  K.at(t->next, [w, arm] {
    auto t = w.lock();
    if (!t || t->arm != arm)
      return;
    t->expirations++;
    t->gen++;
    if (t->interval > 0) {
      t->next += t->interval;
      armTimer(t);
    } else
      t->next = -1;
  });
}

ssize_t doSend(int fd, const iovec *iov, size_t n, int flags)
{
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  point("send");
  if (eintr(true))
    return err(EINTR);
  size_t total = 0;
  for (size_t i = 0; i < n; ++i)
    total += iov[i].iov_len;
  for (;;) {
    if (s->st != Sock::Conn)
      return err(ENOTCONN);
    if (s->soerr) {
      int e    = s->soerr;
      s->soerr = 0;
      s->rstSeen = true;
      tracef("send fails");
      return err(e == ECONNRESET && s->rstIn ? ECONNRESET : e);
    }
    if (s->wrShut || s->rstIn)
      return err(EPIPE);
    if (total == 0)
      return 0;
    if (s->peerGone || !s->peer) {
      // the peer's kernel answers with a reset some time later
      tracef("sent %zu bytes to a closed peer", total);
      reset(s, K.now + 2 * delaySample());
      return ssize_t(total);
    }
    if (s->flight < s->sndcap())
      break;
    if (s->nonblock || (flags & MSG_DONTWAIT)) {
      K.fired("send-would-block");
      return err(EAGAIN);
    }
    K.fired("send-blocked");
    block("send-full", [s] { return s->flight < s->sndcap() || s->rstIn || s->wrShut || s->soerr || s->peerGone; });
  }
  size_t room = s->sndcap() - s->flight;
  size_t len  = std::min(total, room);
  if (len > 1 && K.flip(K.env.pshort)) {
    len = 1 + K.uniform(len - 1);
    K.fired("short-write");
  }
  if (len < total)
    K.fired("partial-send");
  Chunk c;
  c.d.reserve(len);
  for (size_t i = 0; i < n && c.d.size() < len; ++i) {
    size_t k = std::min(iov[i].iov_len, len - c.d.size());
    c.d.insert(c.d.end(), (const char *) iov[i].iov_base, (const char *) iov[i].iov_base + k);
  }
  s->flight += len;
  tracef("sent %zu of %zu bytes to node %d, %zu in flight", len, total, s->peer->node ? s->peer->node->id : -1, s->flight);
  auto                p  = s->peer;
  std::weak_ptr<Sock> w  = p;
  auto                cp = std::make_shared<Chunk>(std::move(c));
  K.note(0x5E2D, len);
  K.at(arrival(s.get(), p.get()), [w, cp] {
    if (auto p = w.lock()) {
      if (p->rstIn)
        return;
      p->inBytes += cp->d.size();
      p->in.push_back(std::move(*cp));
      p->gen++;
    }
  });
  return ssize_t(len);
}
ssize_t doRecv(int fd, const iovec *iov, size_t n, int flags)
{
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  point("recv");
  if (eintr(true))
    return err(EINTR);
  size_t total = 0;
  for (size_t i = 0; i < n; ++i)
    total += iov[i].iov_len;
  for (;;) {
    if (s->st != Sock::Conn)
      return err(ENOTCONN);
    if (s->inBytes)
      break;
    if (s->rstIn) {
      if (s->soerr) {
        int e    = s->soerr;
        s->soerr = 0;
        return err(e);
      }
      return 0;
    }
    if (s->finIn || s->rdShut)
      return 0;
    if (total == 0)
      return 0;
    if (s->nonblock || (flags & MSG_DONTWAIT))
      return err(EAGAIN);
    block("recv-wait", [s] { return s->inBytes || s->finIn || s->rstIn || s->rdShut; });
  }
  size_t len = std::min(total, s->inBytes);
  if (len > 1 && K.flip(K.env.pshort)) {
    len = 1 + K.uniform(len - 1);
    K.fired("short-read");
  }
  if (len < total)
    K.fired("partial-recv");
  size_t done = 0, oi = 0, oo = 0;
  while (done < len) {
    while (oo == iov[oi].iov_len) {
      oi++;
      oo = 0;
    }
    Chunk &c = s->in.front();
    size_t k = std::min({iov[oi].iov_len - oo, c.d.size() - c.off, len - done});
    memcpy((char *) iov[oi].iov_base + oo, c.d.data() + c.off, k);
    if (!(flags & MSG_PEEK)) {
      c.off += k;
      if (c.off == c.d.size())
        s->in.pop_front();
    } else if (k < len - done)
      break;
    oo += k;
    done += k;
  }
  if (!(flags & MSG_PEEK)) {
    s->inBytes -= done;
    if (s->peer) {
      s->peer->flight -= done;
      s->peer->gen++;
    }
  }
  K.note(0x2ECF, done);
  return ssize_t(done);
}
} // namespace

namespace sim {
void netLeft(Node *n, std::vector<std::string> &v)
{
  for (int fd : n->fds) {
    auto it = g_fds.find(fd);
    if (it == g_fds.end())
      continue;
    auto *s = dynamic_cast<Sock *>(it->second.get());
    v.push_back(s && s->st == Sock::Listen ? "listening socket" : s ? "socket" : "event descriptor");
  }
}
// breaks one established connection of the node to another node
bool netReset(Node *n)
{
  std::vector<std::shared_ptr<Sock>> v;
  for (int fd : n->fds) {
    auto s = sockOf(fd);
    if (s && s->st == Sock::Conn && s->peer && s->peer->node && s->peer->node != n)
      v.push_back(s);
  }
  if (v.empty())
    return false;
  auto s = v[K.uniform(v.size())], p = s->peer;
  tracef("connection to node %d breaks", p->node->id);
  s->peerGone = p->peerGone = true;
  int64_t t = K.now + delaySample();
  reset(s, t);
  reset(p, t);
  s->peer.reset();
  p->peer.reset();
  s->gen++;
  p->gen++;
  return true;
}
void netSeed(uint64_t s) { g_eph = uint16_t(s % 27000); }
void netNodeDied(Node *n)
{
  auto fds = n->fds;
  for (int fd : fds)
    closeFd(fd);
}
bool isSimFd(int fd) { return fd >= FDBASE; }
void netNodeExit(Node *n) { netNodeDied(n); }
} // namespace sim

extern "C" {
int socket(int dom, int type, int proto) noexcept
{
  if (!self) {
    REAL(int, "socket", int, int, int);
    return r(dom, type, proto);
  }
  if (dom != AF_INET && dom != AF_INET6)
    return err(EAFNOSUPPORT);
  auto s      = mk<Sock>(FK::Sock);
  s->nonblock = type & SOCK_NONBLOCK;
  point("socket");
  return s->fd;
}
int bind(int fd, const sockaddr *a, socklen_t len) noexcept
{
  if (!self) {
    REAL(int, "bind", int, const sockaddr *, socklen_t);
    return r(fd, a, len);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  auto *in  = (const sockaddr_in *) a;
  s->ip     = in->sin_addr.s_addr;
  s->port   = ntohs(in->sin_port);
  uint32_t nip = inet_addr(self->node->ip.c_str());
  if (s->ip == INADDR_ANY)
    s->ip = K.env.multihost ? nip : inet_addr("127.0.0.1");
  if (s->port == 0)
    s->port = uint16_t(32768 + (g_eph++ % 28000));
  else if (g_listen.count({s->ip, s->port}) && !g_listen[{s->ip, s->port}].expired())
    return err(EADDRINUSE);
  s->st = Sock::Bound;
  point("bind");
  return 0;
}
int listen(int fd, int backlog) noexcept
{
  if (!self) {
    REAL(int, "listen", int, int);
    return r(fd, backlog);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  if (g_listen.count({s->ip, s->port}) && !g_listen[{s->ip, s->port}].expired())
    return err(EADDRINUSE);
  s->backlog = std::max(1, std::min(backlog, K.env.backlog));
  s->st      = Sock::Listen;
  g_listen[{s->ip, s->port}] = s;
  point("listen");
  return 0;
}
static int doAccept(int fd, sockaddr *a, socklen_t *len, int flags)
{
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  point("accept");
  if (eintr(true))
    return err(EINTR);
  if (s->st != Sock::Listen)
    return err(EINVAL);
  if (s->acceptQ.empty()) {
    if (s->nonblock)
      return err(EAGAIN);
    block("accept-wait", [s] { return !s->acceptQ.empty(); });
  }
  size_t i = 0;
  if (s->acceptQ.size() > 1)
    K.fired("accept-queue>1");
  auto c = s->acceptQ[i];
  s->acceptQ.erase(s->acceptQ.begin() + i);
  s->inQueue--;
  c->fd       = g_next++;
  c->node     = self->node;
  c->nonblock = flags & SOCK_NONBLOCK;
  g_fds[c->fd] = c;
  self->node->fds.insert(c->fd);
  if (a && len) {
    sockaddr_in in{};
    in.sin_family      = AF_INET;
    in.sin_addr.s_addr = c->pip;
    in.sin_port        = htons(c->pport);
    memcpy(a, &in, std::min<size_t>(*len, sizeof in));
    *len = sizeof in;
  }
  return c->fd;
}
int accept(int fd, sockaddr *a, socklen_t *len)
{
  if (!self) {
    REAL(int, "accept", int, sockaddr *, socklen_t *);
    return r(fd, a, len);
  }
  return doAccept(fd, a, len, 0);
}
int accept4(int fd, sockaddr *a, socklen_t *len, int flags)
{
  if (!self) {
    REAL(int, "accept4", int, sockaddr *, socklen_t *, int);
    return r(fd, a, len, flags);
  }
  return doAccept(fd, a, len, flags);
}
int connect(int fd, const sockaddr *a, socklen_t len)
{
  if (!self) {
    REAL(int, "connect", int, const sockaddr *, socklen_t);
    return r(fd, a, len);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  point("connect");
  if (s->st == Sock::Conn)
    return err(EISCONN);
  auto    *in   = (const sockaddr_in *) a;
  uint32_t ip   = in->sin_addr.s_addr;
  uint16_t port = ntohs(in->sin_port);
  // one-way trip of the SYN
  s->st        = Sock::Connecting;
  s->pip       = ip;
  s->pport     = port;
  if (!s->port) {
    s->port = uint16_t(32768 + (g_eph++ % 28000));
    s->ip   = inet_addr(self->node->ip.c_str());
  }
  auto                   done = std::make_shared<int>(-1);
  auto                   tries = std::make_shared<int>(0);
  std::shared_ptr<std::function<void()>> syn = std::make_shared<std::function<void()>>();
  std::weak_ptr<std::function<void()>>   wsyn = syn;
  *syn = [s, ip, port, done, tries, wsyn] {
    auto it = g_listen.find({ip, port});
    auto l  = it == g_listen.end() ? nullptr : it->second.lock();
    if (l && l->inQueue >= l->backlog && *tries < 50) { // SYN dropped: retransmit later
      ++*tries;
      K.fired("backlog-full");
      if (auto self2 = wsyn.lock())
        K.at(K.now + 1000000, [self2] { (*self2)(); });
      return;
    }
    if (!l || l->st != Sock::Listen) {
      K.fired("connection-refused");
      *done    = ECONNREFUSED;
      s->st    = Sock::Refused;
      s->soerr = ECONNREFUSED;
      s->gen++;
      return;
    }
    auto c   = std::make_shared<Sock>();
    c->kind  = FK::Sock;
    c->st    = Sock::Conn;
    c->ip    = l->ip;
    c->port  = l->port;
    c->pip   = s->ip;
    c->pport = s->port;
    c->peer  = s;
    s->peer  = c;
    s->st    = Sock::Conn;
    s->gen++;
    l->inQueue++;
    *done = 0;
    // appears in the accept queue a little later
    std::weak_ptr<Sock> wl = l;
    K.at(K.now + 1, [wl, c] {
      auto l = wl.lock();
      if (!l || l->st != Sock::Listen) {
        if (c->peer) {
          c->peer->peerGone = true;
          reset(c->peer, K.now + delaySample());
          c->peer->peer.reset();
          c->peer.reset();
        }
        return;
      }
      l->acceptQ.push_back(c);
      l->gen++;
    });
  };
  K.at(K.now + delaySample(), [syn] { (*syn)(); });
  if (s->nonblock)
    return err(EINPROGRESS);
  block("connect-wait", [done] { return *done >= 0; });
  if (*done > 0) {
    s->soerr = 0;
    s->st    = Sock::New;
    return err(*done);
  }
  return 0;
}
int getsockname(int fd, sockaddr *a, socklen_t *len) noexcept
{
  if (!self) {
    REAL(int, "getsockname", int, sockaddr *, socklen_t *);
    return r(fd, a, len);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  sockaddr_in in{};
  in.sin_family      = AF_INET;
  in.sin_addr.s_addr = s->ip;
  in.sin_port        = htons(s->port);
  memcpy(a, &in, std::min<size_t>(*len, sizeof in));
  *len = sizeof in;
  return 0;
}
int getpeername(int fd, sockaddr *a, socklen_t *len) noexcept
{
  if (!self) {
    REAL(int, "getpeername", int, sockaddr *, socklen_t *);
    return r(fd, a, len);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  if (s->st != Sock::Conn)
    return err(ENOTCONN);
  sockaddr_in in{};
  in.sin_family      = AF_INET;
  in.sin_addr.s_addr = s->pip;
  in.sin_port        = htons(s->pport);
  memcpy(a, &in, std::min<size_t>(*len, sizeof in));
  *len = sizeof in;
  return 0;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept
{
  if (!self || fd < FDBASE) {
    REAL(int, "setsockopt", int, int, int, const void *, socklen_t);
    return r(fd, l, o, v, n);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  return 0;
}
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) noexcept
{
  if (!self || fd < FDBASE) {
    REAL(int, "getsockopt", int, int, int, void *, socklen_t *);
    return r(fd, l, o, v, n);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  int val = 0;
  if (l == SOL_SOCKET && o == SO_ERROR) {
    val      = s->soerr;
    s->soerr = 0;
    if (s->st == Sock::Refused)
      s->st = Sock::New;
  } else if (l == SOL_SOCKET && o == SO_TYPE)
    val = SOCK_STREAM;
  memcpy(v, &val, std::min<size_t>(*n, sizeof val));
  *n = sizeof val;
  return 0;
}
int shutdown(int fd, int how) noexcept
{
  if (!self) {
    REAL(int, "shutdown", int, int);
    return r(fd, how);
  }
  auto s = sockOf(fd);
  if (!s)
    return err(EBADF);
  point("shutdown");
  if (s->st != Sock::Conn)
    return err(ENOTCONN);
  if (how == SHUT_WR || how == SHUT_RDWR)
    sendFin(s.get());
  if (how == SHUT_RD || how == SHUT_RDWR)
    s->rdShut = true;
  s->gen++;
  return 0;
}
int close(int fd)
{
  if (!self || fd < FDBASE) {
    REAL(int, "close", int);
    if (self)
      fsClosed(fd);
    return r(fd);
  }
  if (!g_fds.count(fd))
    return err(EBADF);
  if (g_fds[fd]->node != self->node)
    simError("close of another process' descriptor");
  closeFd(fd);
  point("close");
  return 0;
}
ssize_t sendmsg(int fd, const msghdr *m, int flags)
{
  if (!self) {
    REAL(ssize_t, "sendmsg", int, const msghdr *, int);
    return r(fd, m, flags);
  }
  return doSend(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t recvmsg(int fd, msghdr *m, int flags)
{
  if (!self) {
    REAL(ssize_t, "recvmsg", int, msghdr *, int);
    return r(fd, m, flags);
  }
  m->msg_flags = 0;
  return doRecv(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
  if (!self) {
    REAL(ssize_t, "send", int, const void *, size_t, int);
    return r(fd, b, n, flags);
  }
  iovec v{const_cast<void *>(b), n};
  return doSend(fd, &v, 1, flags);
}
ssize_t recv(int fd, void *b, size_t n, int flags)
{
  if (!self) {
    REAL(ssize_t, "recv", int, void *, size_t, int);
    return r(fd, b, n, flags);
  }
  iovec v{b, n};
  return doRecv(fd, &v, 1, flags);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (self && fd >= FDBASE) {
    auto it = g_fds.find(fd);
    if (it == g_fds.end())
      return err(EBADF);
    if (req == FIONBIO) {
      it->second->nonblock = *(int *) arg != 0;
      return 0;
    }
    if (req == FIONREAD) {
      auto s       = sockOf(fd);
      *(int *) arg = s ? int(s->inBytes) : 0;
      return 0;
    }
    if (req == SIOCGIFADDR) {
      auto *ifr = (ifreq *) arg;
      std::string name(ifr->ifr_name);
      sockaddr_in in{};
      in.sin_family = AF_INET;
      if (name == "lo")
        in.sin_addr.s_addr = inet_addr("127.0.0.1");
      else if (name == "eth0" && K.env.multihost)
        in.sin_addr.s_addr = inet_addr(self->node->ip.c_str());
      else
        return err(ENODEV);
      memcpy(&ifr->ifr_addr, &in, sizeof in);
      return 0;
    }
    simError("unsimulated ioctl");
    return err(EINVAL);
  }
  REAL(int, "ioctl", int, unsigned long, void *);
  return r(fd, req, arg);
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (self && fd >= FDBASE) {
    auto it = g_fds.find(fd);
    if (it == g_fds.end())
      return err(EBADF);
    if (cmd == F_GETFL)
      return it->second->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    if (cmd == F_SETFL) {
      it->second->nonblock = (long) arg & O_NONBLOCK;
      return 0;
    }
    return 0;
  }
  REAL(int, "fcntl", int, int, void *);
  return r(fd, cmd, arg);
}
struct if_nameindex *if_nameindex() noexcept
{
  if (!self) {
    REAL(struct if_nameindex *, "if_nameindex");
    return r();
  }
  auto *v       = (struct if_nameindex *) malloc(3 * sizeof(struct if_nameindex));
  v[0].if_index = 1;
  v[0].if_name  = strdup("lo");
  int k         = 1;
  if (K.env.multihost) {
    v[1].if_index = 2;
    v[1].if_name  = strdup("eth0");
    k             = 2;
  }
  v[k].if_index = 0;
  v[k].if_name  = nullptr;
  return v;
}
void if_freenameindex(struct if_nameindex *p) noexcept
{
  if (!self) {
    REAL(void, "if_freenameindex", struct if_nameindex *);
    return r(p);
  }
  for (auto *i = p; i->if_name; ++i)
    free(i->if_name);
  free(p);
}
int getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res)
{
  if (!self) {
    REAL(int, "getaddrinfo", const char *, const char *, const addrinfo *, addrinfo **);
    return r(node, service, hints, res);
  }
  in_addr ia;
  if (!node || !inet_aton(node, &ia))
    return EAI_NONAME;
  auto *ai = (addrinfo *) calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  auto *in = (sockaddr_in *) (ai + 1);
  in->sin_family  = AF_INET;
  in->sin_addr    = ia;
  in->sin_port    = htons(uint16_t(service ? atoi(service) : 0));
  ai->ai_family   = AF_INET;
  ai->ai_socktype = SOCK_STREAM;
  ai->ai_protocol = IPPROTO_TCP;
  ai->ai_addr     = (sockaddr *) in;
  ai->ai_addrlen  = sizeof *in;
  *res            = ai;
  return 0;
}
void freeaddrinfo(addrinfo *ai) noexcept
{
  if (!self) {
    REAL(void, "freeaddrinfo", addrinfo *);
    return r(ai);
  }
  free(ai);
}
// ---------------------------------------------------------------- poll, epoll
int poll(pollfd *p, nfds_t n, int timeout)
{
  if (!self) {
    REAL(int, "poll", pollfd *, nfds_t, int);
    return r(p, n, timeout);
  }
  auto scan = [p, n] {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      auto it      = g_fds.find(p[i].fd);
      if (it == g_fds.end()) {
        p[i].revents = POLLNVAL;
        c++;
        continue;
      }
      uint32_t m   = it->second->mask();
      p[i].revents = short((m & 0x1f) & (p[i].events | POLLERR | POLLHUP));
      if (p[i].revents)
        c++;
    }
    return c;
  };
  if (eintr(true))
    return err(EINTR);
  if (timeout == 0) {
    point("poll");
    return scan();
  }
  block("poll", [&scan] { return scan() > 0; }, timeout < 0 ? -1 : K.now + int64_t(timeout) * 1000000);
  return scan();
}
int epoll_create1(int) noexcept
{
  if (!self) {
    REAL(int, "epoll_create1", int);
    return r(0);
  }
  return mk<Ep>(FK::Epoll)->fd;
}
int epoll_create(int n) noexcept
{
  if (!self) {
    REAL(int, "epoll_create", int);
    return r(n);
  }
  return mk<Ep>(FK::Epoll)->fd;
}
int epoll_ctl(int ep, int op, int fd, epoll_event *ev) noexcept
{
  if (!self) {
    REAL(int, "epoll_ctl", int, int, int, epoll_event *);
    return r(ep, op, fd, ev);
  }
  auto *e = as<Ep>(ep);
  auto  o = g_fds.find(fd);
  if (!e || o == g_fds.end())
    return err(EBADF);
  if (op == EPOLL_CTL_DEL) {
    if (!e->items.erase(fd))
      return err(ENOENT);
    return 0;
  }
  if (op == EPOLL_CTL_ADD && e->items.count(fd))
    return err(EEXIST);
  if (op == EPOLL_CTL_MOD && !e->items.count(fd))
    return err(ENOENT);
  EpItem it{ev->events, ev->data, 0, false, o->second};
  it.seen       = o->second->gen - 1;
  e->items[fd] = it;
  e->gen++;
  point("epoll_ctl");
  return 0;
}
int epoll_wait(int ep, epoll_event *ev, int maxev, int timeout)
{
  if (!self) {
    REAL(int, "epoll_wait", int, epoll_event *, int, int);
    return r(ep, ev, maxev, timeout);
  }
  auto it = g_fds.find(ep);
  if (it == g_fds.end() || it->second->kind != FK::Epoll)
    return err(EBADF);
  auto e = std::static_pointer_cast<Ep>(it->second);
  if (eintr(false))
    return err(EINTR);
  if (timeout == 0)
    point("epoll_wait");
  else
    block("epoll_wait", [e] { return e->mask() != 0; }, timeout < 0 ? -1 : K.now + int64_t(timeout) * 1000000);
  std::vector<std::pair<EpItem *, uint32_t>> ready;
  for (auto &i : e->items)
    if (uint32_t m = itemReady(i.second))
      ready.push_back({&i.second, m});
  int n = 0;
  while (!ready.empty() && n < maxev) {
    size_t i = ready.size() > 1 ? K.uniform(ready.size()) : 0;
    auto  *x = ready[i].first;
    ev[n].events = ready[i].second;
    ev[n].data   = x->data;
    if (auto o = x->o.lock())
      x->seen = o->gen;
    if (x->ev & EPOLLONESHOT)
      x->oneshotDone = true;
    ready.erase(ready.begin() + i);
    n++;
  }
  return n;
}
int epoll_pwait(int ep, epoll_event *ev, int maxev, int timeout, const sigset_t *s)
{
  if (!self) {
    REAL(int, "epoll_pwait", int, epoll_event *, int, int, const sigset_t *);
    return r(ep, ev, maxev, timeout, s);
  }
  return epoll_wait(ep, ev, maxev, timeout);
}
int eventfd(unsigned init, int flags) noexcept
{
  if (!self) {
    REAL(int, "eventfd", unsigned, int);
    return r(init, flags);
  }
  auto e      = mk<Evfd>(FK::Event);
  e->v        = init;
  e->nonblock = flags & EFD_NONBLOCK;
  e->sema     = flags & EFD_SEMAPHORE;
  return e->fd;
}
int timerfd_create(clockid_t c, int flags) noexcept
{
  if (!self) {
    REAL(int, "timerfd_create", clockid_t, int);
    return r(c, flags);
  }
  return mk<Tmfd>(FK::Timer)->fd;
}
int timerfd_settime(int fd, int flags, const itimerspec *n, itimerspec *old) noexcept
{
  if (!self) {
    REAL(int, "timerfd_settime", int, int, const itimerspec *, itimerspec *);
    return r(fd, flags, n, old);
  }
  auto t = std::dynamic_pointer_cast<Tmfd>(g_fds.count(fd) ? g_fds[fd] : nullptr);
  if (!t)
    return err(EBADF);
  int64_t v      = int64_t(n->it_value.tv_sec) * 1000000000ll + n->it_value.tv_nsec;
  t->interval    = int64_t(n->it_interval.tv_sec) * 1000000000ll + n->it_interval.tv_nsec;
  t->expirations = 0;
  if (v == 0)
    t->next = -1;
  else if (flags & TFD_TIMER_ABSTIME)
    t->next = v - 1000000000ll * 5000;
  else
    t->next = K.now + v;
  armTimer(t);
  return 0;
}
} // extern "C"

namespace sim {
// read/write on simulated descriptors (called by fs.cpp); returns false if fd is not simulated
bool netRead(int fd, void *b, size_t n, ssize_t &ret)
{
  if (fd < FDBASE)
    return false;
  if (auto *e = as<Evfd>(fd)) {
    point("eventfd-read");
    if (!e->v) {
      if (e->nonblock) {
        ret = err(EAGAIN);
        return true;
      }
      auto o = g_fds[fd];
      block("eventfd", [e] { return e->v != 0; });
    }
    uint64_t v = e->sema ? 1 : e->v;
    e->v -= v;
    memcpy(b, &v, 8);
    e->gen++;
    ret = 8;
    return true;
  }
  if (auto *t = as<Tmfd>(fd)) {
    point("timerfd-read");
    if (!t->expirations) {
      ret = err(EAGAIN);
      return true;
    }
    uint64_t v = t->expirations;
    memcpy(b, &v, 8);
    t->expirations = 0;
    ret            = 8;
    return true;
  }
  iovec v{b, n};
  ret = doRecv(fd, &v, 1, 0);
  return true;
}
bool netWrite(int fd, const void *b, size_t n, ssize_t &ret)
{
  if (fd < FDBASE)
    return false;
  if (auto *e = as<Evfd>(fd)) {
    uint64_t v;
    memcpy(&v, b, 8);
    e->v += v;
    e->gen++;
    point("eventfd-write");
    ret = 8;
    return true;
  }
  iovec v{const_cast<void *>(b), n};
  ret = doSend(fd, &v, 1, 0);
  return true;
}
bool netWritev(int fd, const iovec *v, int n, ssize_t &ret)
{
  if (fd < FDBASE)
    return false;
  ret = doSend(fd, v, size_t(n), 0);
  return true;
}
} // namespace sim
