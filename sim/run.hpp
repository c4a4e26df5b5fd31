// One simulated run in a forked child; input and output are serialised.
#pragma once
#include "archive.hpp"
#include "sim.hpp"
#include "spec.hpp"

namespace run {
struct In {
  spec::Spec spec;
  sim::Env   env;
  uint64_t   seed     = 1;
  uint64_t   maxSteps = 600000;
  double     maxTime  = 3600e9; // ns of simulated time
  int        dir      = 0;      // scratch directory of the case (runs with the same number share it)
  template <class A>
  void io(A &a)
  {
    a("spec", spec); a("env", env); a("seed", seed); a("maxSteps", maxSteps); a("maxTime", maxTime); a("dir", dir);
  }
};
struct NodeOut {
  std::string           name;
  int                   part = 0, rank = 0;
  int                   dead = 0, done = 0;
  std::string           kind, text; // of the death
  std::vector<spec::Ev> ev;
  uint64_t              points = 0;
  int                   apiCalls = 0;
  std::vector<std::string> apis; // names of the API calls started, in order
  int64_t               tEnd = 0;
  std::vector<std::string> left; // resources still held at the end: threads, descriptors, ports, communicators, MPI
  template <class A>
  void io(A &a)
  {
    a("left", left);
    a("name", name); a("part", part); a("rank", rank); a("dead", dead); a("done", done); a("kind", kind); a("text", text); a("ev", ev);
    a("points", points); a("apiCalls", apiCalls); a("apis", apis); a("tEnd", tEnd);
  }
  const std::string &outcome() const
  {
    static const std::string none;
    return !ev.empty() && ev.back().op == "end" ? ev.back().s : none;
  }
  bool ok() const { return done && !dead && outcome() == "ok"; }
  bool error() const { return !ev.empty() && ev.back().op == "end" && !ev.back().i.empty() && ev.back().i[0] == 1; }
};
struct Out {
  int                             status = 0; // 0 simulated to an end; 1 process died; 2 real time limit; 3 harness problem
  std::string                     text;
  std::string                     end; // done | deadlock | steps | time
  std::string                     endText;
  int64_t                         now   = 0;
  uint64_t                        steps = 0, switches = 0, hash = 0, schedHash = 0, ndec = 0;
  std::map<std::string, uint64_t> fired;
  std::vector<std::string>        simErrors;
  std::vector<NodeOut>            nodes;
  std::string                     log; // tail of stdout/stderr
  template <class A>
  void io(A &a)
  {
    a("status", status); a("text", text); a("end", end); a("endText", endText); a("now", now); a("steps", steps); a("switches", switches);
    a("hash", hash); a("schedHash", schedHash); a("ndec", ndec); a("fired", fired); a("simErrors", simErrors); a("nodes", nodes); a("log", log);
  }
  bool allOk() const
  {
    if (status || end != "done" || !simErrors.empty())
      return false;
    for (auto &n : nodes)
      if (!n.ok())
        return false;
    return true;
  }
  std::string brief() const;
};

// --- zygote protocol (see zygote.cpp)
void loadNodes(const char *dir, int n); // before anything else allocates
int  startZygote();                     // returns a socket
struct Opts {
  const std::vector<uint32_t> *replay   = nullptr;
  std::vector<uint32_t>       *decisions = nullptr; // receives the decisions of the run
  int                          traceFd  = -1;
};
// runs `in` with scratch directory `dir` (exists, writable for the unprivileged user)
Out         exec(int zygote, const In &in, const std::string &dir, const Opts &o = Opts());
std::string makeXml(const spec::Spec &s);
} // namespace run
