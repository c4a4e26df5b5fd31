// Random valid coupled simulations and environments.
#pragma once
#include "run.hpp"

namespace gen {
using sim::Rng;
struct Opt {
  int  maxRanks   = 3;    // per participant
  int  maxNodes   = 7;
  int  parts      = 0;    // 0: random 2..3
  int  minPts = 1, maxPts = 9;
  int  maxWindows = 4;
  int  implicit   = -1;   // -1 random
  bool serialOnly = false;
  bool nnOnly     = true; // otherwise mappings that are exact for linear fields, too
  bool accel      = false;
  bool measures   = true;
  bool firstMethod = true;
  bool composition = true;
  bool socketsOnly = false;
  bool bindings   = true;
  bool allowEmptyRank = true;
  bool dup        = true;
  bool pairExchangeBoth = false; // both directions carry data
  bool subcycling = true;
  bool longSteps  = false;
  bool parallelMaps = false; // only mappings a parallel participant may use
};
spec::Spec makeSpec(Rng &r, const Opt &o);
void addAccel(Rng &r, spec::Spec &s, int types); // 1: constant relaxation only, 2: all
void addConnectivity(Rng &r, spec::Spec &s, double chance);
void addOutputs(Rng &r, spec::Spec &s); // exports, watch points, watch integrals
sim::Env   makeEnv(Rng &r, int nodes, int level); // 0 calm, 1 swarm, 2 hostile
// geometry helpers
bool uniqueNearest(const std::vector<double> &out, const std::vector<double> &in, int dim, double margin);
std::vector<double> flat(const spec::Mesh &m);
void split(Rng &r, spec::Mesh &m, const std::vector<double> &pts, int ranks, bool allowEmpty, int style);
bool filterSafe(const spec::Mesh &own, const spec::Mesh &recv, double safety, bool ownIsOutput);
std::vector<double> lattice(Rng &r, int n, int dim, double jitter);
void pairGeometry(Rng &r, const std::vector<double> &a, std::vector<double> &b, int dim, int nb);
void linearGeometry(Rng &r, const std::vector<double> *a, std::vector<double> &b, int dim, int nb);
// gen2.cpp
bool filterOk(const spec::Spec &s, const spec::Part &p, const spec::Recv &x, double safety);
struct PartOpt {
  int    maxRanks = 4, maxNodes = 8;
  double serial   = 0.2;
  bool   allowEmpty = true, socketsOnly = false;
  bool   twoLevel = false; // two-level initialization where possible
};
void gridMesh(Rng &r, spec::Mesh &m, int kind, int n);
bool hasElements(const spec::Mesh &m);
void splitElements(Rng &r, spec::Mesh &m, const spec::Mesh &g, int ranks);
bool elementGeometry(Rng &r, spec::Spec &s, int maxPts);
void partition(Rng &r, spec::Spec &s, const PartOpt &o);
void filters(Rng &r, spec::Spec &s, bool twoLevel = false);
void links(Rng &r, spec::Spec &s, bool socketsOnly, bool twoLevel = false);
} // namespace gen
