#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None),
                  _t=tech, _n=note))

prop("C01", "Every value read is the value the coupling rules prescribe",
  "Every value a solver reads, at every relative read time it may ask for, equals what the configured exchanges, initial data, mappings, time interpolation, coupling-scheme order and constant under-relaxation prescribe for the values the solvers wrote. This holds for every arrangement of participants, ranks, time steps, windows and iterations, through every language binding, however the processes are scheduled and however slow or fragmented the communication is.",
  ["configurations", "schedules", "inputs", "histories"],
  "all valid coupled simulations (participants, ranks, meshes, mappings, schemes, step plans, waveform degrees) and all schedules, delays and fragmentations of the communication",
  "The integration tests fix one configuration and one set of written values each and run under whatever schedule the machine happens to produce; they compare a handful of reads.",
  ["src/precice/impl/ParticipantImpl.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/time/Waveform.cpp", "src/math/Bspline.cpp", "src/m2n/PointToPointCommunication.cpp", "src/precice/impl/WriteDataContext.cpp", "src/precice/impl/ReadDataContext.cpp", "src/mapping/NearestNeighborMapping.cpp", "extras/bindings/fortran/src/preciceFortran.cpp"],
  [("write buffers are mapped and stored with their time stamp", "ParticipantImpl::advance, mapWrittenData"), ("samples are exchanged with their time stamps", "BaseCouplingScheme::sendData, receiveData"), ("piecewise interpolation of the stored samples", "time::Storage::sample"), ("vertices of different ranks are matched by the communication map", "PointToPointCommunication")],
  [("stamples", "time-stamped samples of the current window", "time::Storage"), ("write buffer", "values written since the last advance", "WriteDataContext")],
  ["readData", "mapAndReadData"],
  "deterministic simulation, reference model of the coupling semantics",
  "Seeded search: whole coupled simulations run in one process under a simulated scheduler, network, MPI, clock and file system; every read is compared with an executable model. Values inside quasi-Newton iterations are only checked at convergence. Trusts the simulated MPI and kernel sockets.")

prop("C02", "Windows, steps, checkpoints and iterations follow the coupling rules",
  "The participants of a coupled simulation always agree on which time window and which iteration they are in; the maximal step size, the end of windows and of the simulation, and the requests to write and read checkpoints are those of the configured scheme for the steps the solvers took. A window ends exactly when every participant reached its end and, for implicit coupling, the convergence criteria or the iteration limit say so; the last window is truncated to the configured end, and no step can overrun a window.",
  ["configurations", "schedules", "histories"],
  "all coupling schemes and compositions, window sizes, step plans, iteration limits and convergence histories, under all schedules",
  "Tests use a few hand-picked step sizes and iteration counts; accumulated rounding, truncated last windows, compositions and different sub-cycling of the participants combine beyond them.",
  ["src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/SerialCouplingScheme.cpp", "src/cplscheme/ParallelCouplingScheme.cpp", "src/cplscheme/CompositionalCouplingScheme.cpp", "src/cplscheme/MultiCouplingScheme.cpp", "src/time/TimeGrids.cpp", "src/utils/DoubleAggregator.hpp", "src/precice/impl/ParticipantImpl.cpp"],
  [("window and iteration counters with checkpoint actions", "BaseCouplingScheme::secondExchange, requireAction"), ("compensated summation of the solver steps", "BaseCouplingScheme::addComputedTime"), ("participants waiting for the others in a composition are put on hold", "CompositionalCouplingScheme"), ("convergence is decided by one participant and sent to the others", "BaseCouplingScheme::doImplicitStep, sendConvergence")],
  [("time windows", "completed time windows", "BaseCouplingScheme"), ("iterations", "iterations of the current window", "BaseCouplingScheme")],
  ["getMaxTimeStepSize", "isCouplingOngoing", "isTimeWindowComplete", "requiresWritingCheckpoint", "requiresReadingCheckpoint"],
  "deterministic simulation, reference model of windows and iterations",
  "Seeded search over configurations, step plans and schedules; every flag and step size of every participant is compared with the model, iteration counts with the modelled convergence measures (decisions within rounding of the limit are left open).")
exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

NA = []
done = sys.argv[1].split(",") if len(sys.argv) > 1 else open(os.path.join(V, "tools", "claimed")).read().split()
claimed = [p for p in P if p["id"] in done]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in claimed:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none", enable="no hooks in /repo: the checks compile /repo's unchanged sources against a simulated MPI and interpose libc and pthread functions", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"], technique=p["_t"], level="exploration", level_note=p["_n"]) for p in claimed],
  not_applicable=NA,
  notes="One simulator decides all properties; see DESIGN.md. Replay a violation with: build/b/dst replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
