// Cases (one or more simulated runs), property interface, statistics.
#pragma once
#include "gen.hpp"
#include "model.hpp"
#include "run.hpp"
#include <functional>
#include <set>

namespace core {
using sim::Rng;
struct File { // exists before run `before`
  int         dir = 0, before = 0;
  std::string path, content;
  template <class A>
  void io(A &a)
  {
    a("dir", dir); a("before", before); a("path", path); a("content", content);
  }
};
struct Case {
  std::string                   prop, kind;
  uint64_t                      seed = 0;
  std::vector<run::In>          runs;
  std::map<std::string, double> par;
  std::vector<File>             files;
  std::string                   note;
  template <class A>
  void io(A &a)
  {
    a("prop", prop); a("kind", kind); a("seed", seed); a("runs", runs); a("par", par); a("files", files); a("note", note);
  }
  double get(const std::string &k, double d = 0) const
  {
    auto i = par.find(k);
    return i == par.end() ? d : i->second;
  }
};
typedef std::map<std::string, std::string> Snap; // path -> content
struct Results {
  std::vector<run::Out> outs;
  std::vector<Snap>     snaps; // directory of the run after each run
};
struct Verdict {
  std::string sig, text; // sig empty: the property held
  bool        bad() const { return !sig.empty(); }
  template <class A>
  void io(A &a)
  {
    a("sig", sig); a("text", text);
  }
};
struct Stats {
  std::map<std::string, uint64_t> n;
  void add(const std::string &k, uint64_t v = 1) { n[k] += v; }
};
struct Maker { // services for the construction of a case
  std::string                                   tier;
  std::function<run::Out(const run::In &, Snap *)> pilot; // a run in a directory of its own
};
struct Prop {
  const char *id;
  const char *rule; // how cases are made and what makes one non-trivial
  void (*make)(Rng &, Maker &, Case &);
  Verdict (*check)(const Case &, const Results &, Stats &);
  bool        snaps;   // needs the files left by the runs
  bool        faulty;  // injects faults that may end a run: no decision dropping to a fault-free run
};
const std::vector<Prop> &props();
const Prop              *find(const std::string &id);

// ------------------------------------------------------------------ helpers for the oracles
std::string strip(const std::string &s, size_t n = 90); // digits and addresses removed, for signatures
Verdict     failed(const std::string &sig, const std::string &text);
// a run without disturbing faults must complete
Verdict mustSucceed(const run::In &in, const run::Out &o);
double  scaleOf(const std::vector<double> &v);
std::string num(double v);
void        setMultihost(run::In &in);
void        pickEnv(Rng &r, run::In &in, bool hostile = true);
bool        accelGaveUp(const run::Out &o);
Verdict     checkModel(const Case &c, const Results &R, Stats &st, const std::vector<std::string> &cats, bool values);
void        addProps2(std::vector<Prop> &);
void        addProps4(std::vector<Prop> &);
void        addProps5(std::vector<Prop> &);
Verdict     survivors(const spec::Spec &s, const run::Out &o, const run::Out &ref, Stats &st);
void        addProps6(std::vector<Prop> &);
void        addProps7(std::vector<Prop> &);
void        addProps8(std::vector<Prop> &);
void        addProps9(std::vector<Prop> &);
void        addProps10(std::vector<Prop> &);
std::string diffNode(const run::NodeOut &a, const run::NodeOut &b, bool prefix);
std::string diffSnap(const Snap &a, const Snap &b);
void        reactive(Rng &r, spec::Spec &s);
void        addProps3(std::vector<Prop> &);
void        richMaps(Rng &r, spec::Spec &s, bool conservativeToo);
void        rbfMaps(Rng &r, spec::Spec &s);
} // namespace core
