// Executable reference model of the coupling semantics. It is driven by what the solvers of a run wrote and when, and
// computes what every solver must read and which control flags it must see.
#pragma once
#include "run.hpp"
#include <map>
#include <optional>

namespace model {
typedef std::vector<double> VD;
struct Read {
  int    mesh, data;
  double rt;
  VD     v; // all ranks concatenated
};
struct Step {
  int    w = 0, k = 1, reqW = 0;
  double t = 0, mx = 0, dt = 0;
  int    on = 0, twc = 0, rr = 0;
  double mxAfter = 0;
  bool   advanced = false;
  std::vector<Read>               reads;
  std::vector<Read>               jitReads; // mesh = index of the access
  std::map<std::pair<int, int>, VD> writes; // (mesh, data)
  std::map<int, VD>               jitWrites; // index of the access
};
struct Trace {
  int  reqInit = 0, initOn = 0, initTwc = 0;
  double initMx = 0;
  bool initialized = false, finalized = false;
  std::map<std::pair<int, int>, VD> initWrites;
  std::map<int, VD>               initJitWrites;
  std::vector<Step>               steps;
  std::vector<Read>               finalReads, finalJitReads;
};
struct Problem {
  std::string cat; // trace | read | time | flags | lockstep | convergence
  std::string text;
};
struct Wave {
  VD              t;
  std::vector<VD> v;
  VD  sample(double at, int degree) const;
  bool ambiguous(double at, int degree) const; // at the edge of a jump of piecewise constant interpolation
};
// linear operator between vertex fields (acts on each component), rows of the output
struct Op {
  int             nin = 0, nout = 0;
  bool            identity = false;
  bool            moments  = false; // output is (sum, first moments) instead of vertex values
  std::vector<VD> m;
  double          tol = 1e-9;
  VD              win, wout; // weights of the integrals over the input and output meshes, which scaling makes equal
  VD              apply(const VD &in, int nc) const;
};
struct SchemeResult {
  std::vector<int>             iterations;  // per window
  std::vector<int>             converged;   // per window, by the measures (-1: undecided by rounding)
  std::vector<std::vector<std::vector<int>>> status; // [window][iteration] per measure: 0 not converged, 1 converged, 2 unknown
  std::vector<std::vector<VD>> residuals;   // [window][iteration] one norm per measure (NaN: not modelled)
};
struct Result {
  std::vector<Problem>      problems;
  std::vector<Trace>        traces; // per participant
  std::vector<SchemeResult> schemes;
  uint64_t                  readsChecked = 0, flagsChecked = 0, skipped = 0, accelChecked = 0, boundsChecked = 0;
  bool                      has(const std::string &cat) const
  {
    for (auto &p : problems)
      if (p.cat == cat)
        return true;
    return false;
  }
  std::string first(const std::vector<std::string> &cats) const
  {
    for (auto &p : problems)
      for (auto &c : cats)
        if (p.cat == c)
          return p.cat + ": " + p.text;
    return "";
  }
};
struct Opts {
  bool values = true;   // compare the values read
  bool fixedPointOnly = false; // quasi-Newton acceleration: values inside the iterations are not modelled
};
Trace  mergeTrace(const spec::Spec &s, int part, const run::Out &o, std::vector<Problem> &pr);
Op     meshOp(const spec::Spec &s, const spec::Map &m);
bool   clearProjection(const spec::Mesh &M, const double *x, int nt, int ne, bool filtered);
Result check(const spec::Spec &s, const run::Out &o, const Opts &op = Opts());
double windowEnd(const spec::Scheme &c, int w);
int    expectedWindows(const spec::Scheme &c);
double dataScale(const spec::Spec &s, const std::vector<Trace> &tr, int data);
} // namespace model
