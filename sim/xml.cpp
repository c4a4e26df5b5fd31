// Configuration text for a Spec.
#include "run.hpp"
#include <sstream>

namespace run {
static std::string num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::string makeXml(const spec::Spec &s)
{
  if (!s.config.empty())
    return s.config;
  std::ostringstream o;
  o << "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<precice-configuration";
  if (s.experimental)
    o << " experimental=\"true\"";
  if (s.remeshing)
    o << " allow-remeshing=\"true\"";
  if (s.waitInFinalize)
    o << " wait-in-finalize=\"true\"";
  o << ">\n  " << s.log << "\n";
  o << "  <profiling mode=\"" << s.profiling << "\" " << s.profilingAttrs << "/>\n";
  for (auto &d : s.datas) {
    o << "  <data:" << (d.vec ? "vector" : "scalar") << " name=\"" << d.name << "\" waveform-degree=\"" << d.degree << "\"";
    if (!d.vec && std::isfinite(d.lo))
      o << " lower-bound=\"" << num(d.lo) << "\"";
    if (!d.vec && std::isfinite(d.hi))
      o << " upper-bound=\"" << num(d.hi) << "\"";
    o << " />\n";
  }
  for (auto &m : s.meshes) {
    if (m.owner < 0)
      continue;
    o << "  <mesh name=\"" << m.name << "\" dimensions=\"" << m.dim << "\">";
    for (int d : m.data)
      o << "<use-data name=\"" << s.datas[size_t(d)].name << "\" />";
    o << "</mesh>\n";
  }
  for (auto &m : s.m2ns) {
    o << "  <m2n:" << m.type << " acceptor=\"" << s.parts[size_t(m.acceptor)].name << "\" connector=\"" << s.parts[size_t(m.connector)].name << "\" exchange-directory=\"" << m.dir << "\"";
    if (m.gatherScatter)
      o << " enforce-gather-scatter=\"true\"";
    if (m.twoLevel)
      o << " use-two-level-initialization=\"true\"";
    o << " " << m.attrs << "/>\n";
  }
  auto mn = [&](int i) { return s.meshes[size_t(i)].name; };
  auto dn = [&](int i) { return s.datas[size_t(i)].name; };
  auto pn = [&](int i) { return s.parts[size_t(i)].name; };
  for (auto &p : s.parts) {
    o << "  <participant name=\"" << p.name << "\">\n";
    if (!p.intra.empty())
      o << "    <intra-comm:" << p.intra << " " << p.intraAttrs << "/>\n";
    for (int m : p.provides)
      o << "    <provide-mesh name=\"" << mn(m) << "\" />\n";
    for (auto &r : p.receives) {
      o << "    <receive-mesh name=\"" << mn(r.mesh) << "\" from=\"" << pn(s.meshes[size_t(r.mesh)].owner) << "\"";
      if (!r.filter.empty())
        o << " geometric-filter=\"" << r.filter << "\"";
      if (r.safety >= 0)
        o << " safety-factor=\"" << num(r.safety) << "\"";
      if (r.access)
        o << " api-access=\"true\"";
      o << " />\n";
    }
    for (auto &w : p.writes)
      o << "    <write-data name=\"" << dn(w.data) << "\" mesh=\"" << mn(w.mesh) << "\" />\n";
    for (auto &j : p.jits)
      if (j.write)
        o << "    <write-data name=\"" << dn(j.data) << "\" mesh=\"" << mn(j.mesh) << "\" />\n";
    for (auto &w : p.reads)
      o << "    <read-data name=\"" << dn(w.data) << "\" mesh=\"" << mn(w.mesh) << "\" />\n";
    for (auto &j : p.jits)
      if (!j.write)
        o << "    <read-data name=\"" << dn(j.data) << "\" mesh=\"" << mn(j.mesh) << "\" />\n";
    for (auto &m : p.maps) {
      o << "    <mapping:" << m.type << " direction=\"" << (m.write ? "write" : "read") << "\" constraint=\"" << m.constraint << "\"";
      if (m.from >= 0)
        o << " from=\"" << mn(m.from) << "\"";
      if (m.to >= 0)
        o << " to=\"" << mn(m.to) << "\"";
      o << " " << m.attrs;
      if (m.inner.empty())
        o << " />\n";
      else
        o << ">" << m.inner << "</mapping:" << m.type << ">\n";
    }
    for (auto &a : p.actions) {
      o << "    <action:" << a.type << " mesh=\"" << mn(a.mesh) << "\" timing=\"" << a.timing << "\">";
      for (int d : a.sources)
        o << "<source-data name=\"" << dn(d) << "\" />";
      o << "<target-data name=\"" << dn(a.target) << "\" /></action:" << a.type << ">\n";
    }
    for (auto &e : p.exports)
      o << "    <export:" << e.type << " directory=\"" << e.dir << "\" every-n-time-windows=\"" << e.every << "\" every-iteration=\"" << (e.iterations ? "true" : "false") << "\" update-series=\""
        << (e.series ? "true" : "false") << "\" />\n";
    for (auto &w : p.watches) {
      if (w.integral)
        o << "    <watch-integral name=\"" << w.name << "\" mesh=\"" << mn(w.mesh) << "\" scale-with-connectivity=\"" << (w.scale ? "true" : "false") << "\" />\n";
      else {
        o << "    <watch-point name=\"" << w.name << "\" mesh=\"" << mn(w.mesh) << "\" coordinate=\"";
        for (size_t i = 0; i < w.at.size(); ++i)
          o << (i ? ";" : "") << num(w.at[i]);
        o << "\" />\n";
      }
    }
    o << "  </participant>\n";
  }
  for (auto &c : s.schemes) {
    o << "  <coupling-scheme:" << c.type << ">\n";
    if (c.type == "multi") {
      for (int p : c.parts)
        o << "    <participant name=\"" << pn(p) << "\"" << (p == c.first ? " control=\"true\"" : "") << " />\n";
    } else
      o << "    <participants first=\"" << pn(c.first) << "\" second=\"" << pn(c.second) << "\" />\n";
    if (c.maxTime > 0)
      o << "    <max-time value=\"" << num(c.maxTime) << "\" />\n";
    if (c.maxWindows > 0)
      o << "    <max-time-windows value=\"" << c.maxWindows << "\" />\n";
    if (c.method == "first-participant")
      o << "    <time-window-size method=\"first-participant\" />\n";
    else
      o << "    <time-window-size value=\"" << num(c.window) << "\" />\n";
    for (auto &e : c.exchanges)
      o << "    <exchange data=\"" << dn(e.data) << "\" mesh=\"" << mn(e.mesh) << "\" from=\"" << pn(e.from) << "\" to=\"" << pn(e.to) << "\" initialize=\"" << (e.init ? "true" : "false")
        << "\" substeps=\"" << (e.substeps ? "true" : "false") << "\" />\n";
    for (auto &m : c.measures) {
      o << "    <" << m.kind << "-convergence-measure data=\"" << dn(m.data) << "\" mesh=\"" << mn(m.mesh) << "\"";
      if (m.kind == "absolute-or-relative")
        o << " abs-limit=\"" << num(m.limit) << "\" rel-limit=\"" << num(m.limit2) << "\"";
      else
        o << " limit=\"" << num(m.limit) << "\"";
      if (m.strict)
        o << " strict=\"true\"";
      if (m.suffices)
        o << " suffices=\"true\"";
      o << " />\n";
    }
    if (c.implicit()) {
      if (c.minIter > 0)
        o << "    <min-iterations value=\"" << c.minIter << "\" />\n";
      if (c.maxIter > 0)
        o << "    <max-iterations value=\"" << c.maxIter << "\" />\n";
    }
    auto &a = c.accel;
    if (!a.type.empty()) {
      o << "    <acceleration:" << a.type << " " << a.attrs;
      if (!a.bounds.empty())
        o << " on-bound-violation=\"" << a.bounds << "\"";
      o << ">";
      if (a.type == "constant")
        o << "<relaxation value=\"" << num(a.relax) << "\" />";
      else {
        for (size_t i = 0; i < a.data.size(); ++i)
          o << "<data name=\"" << dn(a.data[i].data) << "\" mesh=\"" << mn(a.data[i].mesh) << "\"" << (i < a.scaling.size() ? " scaling=\"" + num(a.scaling[i]) + "\"" : std::string()) << " />";
        if (!a.precond.empty())
          o << "<preconditioner type=\"" << a.precond << "\" />";
        if (!a.filter.empty())
          o << "<filter type=\"" << a.filter << "\" limit=\"" << num(a.filterLimit) << "\" />";
        o << "<initial-relaxation value=\"" << num(a.relax) << "\"" << (a.enforce ? " enforce=\"true\"" : "") << " />";
        if (a.type != "aitken")
          o << "<max-used-iterations value=\"" << a.maxUsed << "\" /><time-windows-reused value=\"" << a.reused << "\" />";
        o << a.extra;
      }
      o << "</acceleration:" << a.type << ">\n";
    }
    o << "  </coupling-scheme:" << c.type << ">\n";
  }
  o << "</precice-configuration>\n";
  return o.str();
}
} // namespace run
