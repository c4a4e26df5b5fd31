SIM = "deterministic simulation with fault injection"
TRUST = " Trusts the simulated MPI and kernel sockets."
prop("C03", "Results do not depend on the number of ranks or the partition of meshes",
  "Running a participant on any number of ranks, with its meshes distributed over them in any way (including empty ranks, duplicated boundary vertices and any vertex order), gives the same values at the same vertices, the same step sizes, flags and iteration counts, and the same watch-point output as running it on one rank. The choice of geometric filter, safety factor, communication between and inside participants does not change them either.",
  ["configurations", "schedules", "inputs"],
  "all partitions of the meshes over ranks, all filters and communication layers, with mappings (nearest neighbour with and without gradients, projection, cell interpolation, global radial basis functions) valid in parallel",
  "Parallel integration tests use two to four ranks with one fixed partition each and compare with hand-computed values of small meshes; no test compares a partitioned run with a serial one.",
  ["src/partition/ProvidedPartition.cpp", "src/partition/ReceivedPartition.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/mesh/Mesh.cpp", "src/mesh/Filter.hpp", "src/mapping/RadialBasisFctMapping.hpp", "src/com/CommunicateMesh.cpp", "src/com/SerializedStamples.cpp", "src/acceleration/AitkenAcceleration.cpp", "src/cplscheme/BaseCouplingScheme.cpp"],
  [("received meshes are filtered per rank by bounding boxes and by the mappings", "ReceivedPartition::compute, filterByBoundingBox"), ("owner flags decide which rank counts a vertex", "ReceivedPartition::createOwnerInformation"), ("vertex distributions define who sends what to whom", "m2n::buildCommunicationMap")],
  [("vertex distribution", "global indices per rank", "mesh::Mesh"), ("owner flags", "one owner per vertex", "mesh::Vertex")],
  ["readData", "getMaxTimeStepSize and the flags", "watch-point files"],
  SIM + ": every partitioned run is compared with the serial run of the same specification",
  "Seeded search over specifications, partitions, filters, communication layers and schedules. Left out: partition-of-unity mappings, and measures and Aitken acceleration over meshes with duplicated vertices, whose definition depends on the partition." + TRUST)
prop("C04", "Results do not depend on timing, scheduling or message delays",
  "A coupled simulation of deterministic solvers yields bit for bit the same values, step sizes, flags and written files on every run, whatever the speed and interleaving of the processes and threads and whatever the delay and fragmentation of messages. In particular no data of another iteration, window, participant or rank is ever delivered.",
  ["schedules", "configurations", "histories"],
  "all pairs of schedules, delays and fragmentations of the communication of a coupled simulation, including acceleration, waveform iteration, parallel participants and exports",
  "The test suite executes one uncontrolled schedule per run on a fast loopback; two schedules of the same simulation are never compared.",
  ["src/com/SocketCommunication.cpp", "src/com/SocketSendQueue.cpp", "src/com/MPIPortsCommunication.cpp", "src/com/Communication.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/utils/IntraComm.cpp", "src/acceleration/impl/ParallelMatrixOperations.cpp", "src/cplscheme/MultiCouplingScheme.cpp"],
  [("asynchronous sends are queued per connection", "SocketSendQueue::process"), ("buffers live until their requests complete", "PointToPointCommunication::checkBufferedRequests"), ("reductions gather in rank order", "com::Communication::reduceSum, allreduceSum")],
  [("send queue", "messages not yet handed to the system", "SocketSendQueue"), ("buffered requests", "asynchronous sends in flight", "PointToPointCommunication")],
  ["the recorded API history of every process", "files written by the participants"],
  SIM + ": the same simulation under several seeded schedules, histories compared",
  "Seeded search over pairs and triples of schedules and environments per random configuration; histories and files are compared bit for bit." + TRUST)
prop("C05", "Every coupled simulation runs to its end and releases what it took",
  "When all participants follow the protocol and every process and message makes progress, every call returns: no deadlock, livelock, crash or spurious error occurs, however processes are scheduled or delayed, in whatever order they start, and however the system fragments, interrupts or back-pressures communication. Afterwards every thread has ended, every connection, port and MPI object is released, and no connection file is left behind.",
  ["schedules", "configurations", "faults"],
  "all valid configurations (communication layers, participants, ranks, schemes), all start orders, schedules, delays, short reads and writes, interrupted system calls and full send buffers",
  "A hang or leak needs an order of events that a test on an idle machine rarely produces; tests use small messages that never fill a buffer.",
  ["src/m2n/PointToPointCommunication.cpp", "src/m2n/M2N.cpp", "src/com/SocketCommunication.cpp", "src/com/MPIPortsCommunication.cpp", "src/com/MPISinglePortsCommunication.cpp", "src/com/ConnectionInfoPublisher.cpp", "src/utils/Parallel.cpp", "src/utils/IntraComm.cpp", "src/precice/impl/ParticipantImpl.cpp", "src/partition/ReceivedPartition.cpp"],
  [("participants connect in an order given by acceptor and requester roles", "ParticipantImpl::initialize, M2N"), ("connection information is exchanged through files", "ConnectionInfoPublisher"), ("finalize closes the communication in order", "ParticipantImpl::finalize")],
  [("MPI initialisation", "whether preCICE initialised MPI", "utils::Parallel"), ("connections", "open connections per participant pair", "M2N")],
  ["return of every API call", "threads, sockets, MPI objects and files left at the end of a process"],
  SIM + ": progress within a step bound, resource accounting at exit",
  "Seeded search over configurations and hostile environments; the simulator detects deadlock, exceeded step bounds, spinning, crashes and left resources." + TRUST)
prop("C06", "A lost process or connection never causes wrong data or a silent hang",
  "When a process dies or a connection breaks at any point, no surviving process ever reads data that differs from what it would have read without the failure, and none crashes. Once participants are connected, every survivor either finishes with correct results or reports an error; it never waits forever, and a call that needed the lost data never returns as if it had arrived.",
  ["faults", "schedules", "crash points"],
  "all points of process death and connection loss in coupled simulations over sockets, all schedules",
  "No test kills a process or breaks a connection in the middle of a coupled simulation.",
  ["src/com/SocketCommunication.cpp", "src/com/SocketRequest.cpp", "src/com/SocketSendQueue.cpp", "src/m2n/PointToPointCommunication.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/precice/impl/ParticipantImpl.cpp"],
  [("failed system calls are turned into errors", "SocketCommunication send and receive"), ("asynchronous requests carry their error to the waiting caller", "SocketRequest::wait")],
  [("requests", "state of asynchronous receives", "SocketRequest")],
  ["readData", "advance", "finalize", "errors reported by every call"],
  SIM + ": process crashes and connection resets at seeded points, compared with the run without the fault",
  "Seeded search over crash and reset points of one and two faults per run. Participants of parallel size end on an error as a solver without error handling would; waiting for a participant that never connects is allowed.")
prop("C07", "Processes connect to their counterparts, whatever happens to the files used",
  "Whatever the order and delays in which participants and ranks start, and however many coupled simulations run in the same directory, every process connects to exactly its intended counterparts, never to another one or by means of incomplete connection information, and repeated runs in one directory work. If a connection file left by a killed run or a failing file system prevents this, an affected process reports an error, none crashes, and no process ever reads wrong data.",
  ["schedules", "configurations", "faults", "crash points"],
  "all start orders and delays, all points at which a previous run was killed, all single failures of the file operations on connection files (open, write, torn write, rename, create directory), for all communication layers",
  "Tests start all participants at once in a clean directory on a working file system.",
  ["src/com/ConnectionInfoPublisher.cpp", "src/com/SocketCommunication.cpp", "src/com/MPIPortsCommunication.cpp", "src/com/MPISinglePortsCommunication.cpp", "src/m2n/M2N.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/precice/impl/ParticipantImpl.cpp"],
  [("connection information is written to a temporary file and published by a rename", "ConnectionInfoWriter::write"), ("the requester waits for the file of its acceptor, named after both, the tag and the rank", "ConnectionInfoReader::read"), ("the acceptor learns the rank of each requester", "SocketCommunication::acceptConnection")],
  [("connection files", "addresses of waiting acceptors", "precice-run")],
  ["initialize", "values read after it", "errors reported"],
  SIM + ": start orders, kills and file faults at seeded points, compared with the undisturbed run",
  "Seeded search. A process that waits for a counterpart that reported an error is allowed; leftovers of a killed run may make the next run fail, never make it wrong." + TRUST)
prop("C12", "Exports, watch points and watch integrals are complete and correct",
  "Every configured export file, series file, watch-point row and watch-integral row is present for exactly the configured time windows or iterations, well-formed, complete, and holds the coordinates, connectivity and values the solvers wrote or read at that time, however the mesh is partitioned. If the file system fails (full disk, I/O error, missing directory, torn write), an affected process reports an error; output is never lost or truncated silently, nothing crashes, and coupling data stays correct.",
  ["configurations", "schedules", "faults", "partitions"],
  "all coupling schemes, export formats, frequencies, partitions and meshes with or without connectivity; all single failures of the file operations on output files",
  "Tests export single hand-made meshes to a working disk and mostly never read the files back.",
  ["src/io/ExportVTK.cpp", "src/io/ExportXML.cpp", "src/io/ExportVTU.cpp", "src/io/ExportVTP.cpp", "src/io/ExportCSV.cpp", "src/io/Export.cpp", "src/io/TXTTableWriter.cpp", "src/precice/impl/WatchPoint.cpp", "src/precice/impl/WatchIntegral.cpp", "src/precice/impl/ParticipantState.cpp", "src/precice/impl/ParticipantImpl.cpp"],
  [("files are written at the end of initialize and advance", "ParticipantImpl::handleExports, ParticipantState::exportIntermediate"), ("the rank closest to the watch point writes its log", "WatchPoint::initialize"), ("integrals are reduced over the ranks", "WatchIntegral::exportIntegralData")],
  [("series", "files written so far", "Export::recordExport"), ("tables", "rows written", "TXTTableWriter")],
  ["the files in the export directory", "precice-*-watchpoint-*.log, precice-*-watchintegral-*.log", "errors reported"],
  SIM + ": every output file compared with the recorded writes and reads; failing file operations at seeded points",
  "Seeded search. Values of written data in exports of unfinished iterations are not judged, their mesh and layout are.")
prop("C11", "Wrong API calls are rejected and never crash, hang or pass silently",
  "A call that violates the API contract (in the wrong state; with an unknown mesh, data or section name, invalid vertex ids, array sizes, values, step sizes, rank or communicator; a required action omitted; steps that differ between ranks) raises a precice::Error, at that call or, where only the next one can know, there; it never crashes, hangs or is silently accepted. A rejected call leaves no effect: other processes never read wrong data because of it and never wait forever. Queries and repeated calls that are allowed change nothing.",
  ["inputs", "histories", "schedules", "configurations"],
  "all states of a participant (constructed, mesh set up, initialized, inside the loop, ended, finalized) times all API calls with all kinds of wrong arguments, on any rank, at any point of any valid coupled simulation",
  "Tests try some wrong calls on a serial participant in one state; wrong calls during a coupled simulation, in rare states or on one of several ranks are not tested.",
  ["src/precice/impl/ParticipantImpl.cpp", "src/precice/impl/ValidationMacros.hpp", "src/precice/Participant.cpp", "src/precice/impl/WriteDataContext.cpp", "src/precice/impl/ReadDataContext.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/mesh/Mesh.cpp"],
  [("calls validate the state, names and sizes of their arguments before they act", "ParticipantImpl, PRECICE_REQUIRE_* and PRECICE_VALIDATE_* macros"), ("required actions are tracked and checked in initialize and advance", "BaseCouplingScheme::checkCompletenessRequiredActions"), ("ranks compare their step sizes", "ParticipantImpl::advance")],
  [("state", "Constructed, Initialized, Finalized", "ParticipantImpl"), ("required actions", "actions not yet fulfilled", "BaseCouplingScheme")],
  ["precice::Error of each call", "values read, flags and steps afterwards", "the end of other processes"],
  SIM + ": one wrong call is injected at a seeded point of a coupled simulation, compared with the run without it",
  "Seeded search over valid simulations times wrong calls. Calls whose outcome the documentation leaves open are only required not to crash or hang.")
prop("C09", "Acceleration follows its method, bounds and convergence logs",
  "In an implicit coupling scheme, Aitken under-relaxation applies one factor to all data that follows Aitken's formula from the observed residuals, and IQN-ILS performs the initial (or enforced) relaxation and afterwards exactly the least-squares quasi-Newton update of the observed iterates. Accelerated values respect the configured bounds of the data at every point in time whenever the solver's values do. precice-<name>-iterations.log and -convergence.log hold one row for every window respectively iteration the solvers went through, with the right totals, convergence flags and residuals.",
  ["inputs", "histories", "configurations", "schedules"],
  "all implicit schemes (serial, parallel, multi, within compositions), participants with or without substeps and with several ranks, preconditioners, filters, reuse and bounds settings, with solvers that react to what they read",
  "Tests compare a few hand-computed accelerated vectors of one data set, with one sample per window and without bounds; logs are not read back.",
  ["src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/AitkenAcceleration.cpp", "src/acceleration/IQNILSAcceleration.cpp", "src/acceleration/IQNIMVJAcceleration.cpp", "src/acceleration/impl/QRFactorization.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/impl/RelativeConvergenceMeasure.cpp", "src/cplscheme/impl/ResidualRelativeConvergenceMeasure.cpp"],
  [("difference columns are kept per window and reused", "BaseQNAcceleration::updateDifferenceMatrices, iterationsConverged"), ("bounds are enforced after the update", "BaseQNAcceleration::applyQNUpdateToCouplingData"), ("logs are written at the end of each iteration and window", "BaseCouplingScheme::measureConvergence, advanceTXTWriters")],
  [("V, W", "difference columns", "BaseQNAcceleration"), ("omega", "relaxation factor and old residuals", "AitkenAcceleration"), ("iterates", "previous iteration of coupling data", "CouplingData")],
  ["values read in each iteration", "precice-*-iterations.log, precice-*-convergence.log"],
  SIM + ": the iterates observed by the solvers are compared with a reference implementation of Aitken and IQN-ILS, logs with the recorded history",
  "Seeded search. Updates are recomputed exactly where the input is observable: one set of primary data per acceleration, identity read mapping, nothing reused from earlier windows, well-conditioned columns; IQN-IMVJ is judged by bounds, initial relaxation, fixed points and logs.")
prop("C14", "Direct and just-in-time access to received meshes equals an own mesh",
  "A participant with API access to a received mesh sees on each rank exactly the vertices inside its access region, with their true coordinates and distinct ids; it reads there the owner's data at the requested time, and what it writes arrives at the owner at these vertices (sums over the ranks, zero elsewhere). Just-in-time mappings give the values which the configured mapping gives for a provided mesh with the same points, at every read time, in every iteration and window, also for points which change from step to step. Everything else in the coupled simulation (other participants' values, iterations, steps, flags) is the same as with a provided mesh.",
  ["inputs", "histories", "configurations", "partitions", "schedules"],
  "all schemes, iterations, substeps and waveform degrees, access regions per rank (disjoint, overlapping, empty, faces through vertices), moving points, mixtures of direct, just-in-time and ordinary mappings, both sides of a pair accessing each other",
  "Tests try about thirty hand-made regions and points with fixed values, mostly serial and with one step per window.",
  ["src/precice/impl/ParticipantImpl.cpp", "src/precice/impl/ReceivedMeshContext.cpp", "src/precice/impl/ReadDataContext.cpp", "src/precice/impl/WriteDataContext.cpp", "src/mapping/impl/MappingDataCache.hpp", "src/mapping/NearestNeighborMapping.cpp", "src/mapping/PartitionOfUnityMapping.hpp", "src/partition/ReceivedPartition.cpp"],
  [("vertices are filtered to the access region", "ReceivedMeshContext::filterVerticesToLocalAccessRegion"), ("sampled data are cached per read time and invalidated when data change", "ReadDataContext::mapAndReadValues, ParticipantImpl::handleDataAfterAdvance"), ("the region decides about the partition", "ReceivedPartition::prepareBoundingBox, tagMeshFirstRound")],
  [("mapping cache", "data at the last read time; contributions written so far", "MappingDataCache"), ("write buffer", "values of the current step", "WriteDataContext")],
  ["getMeshVertexIDsAndCoordinates, getMeshVertexSize", "readData, mapAndReadData of all participants", "flags and steps"],
  SIM + ": the same simulation with provided meshes and with direct or just-in-time access, histories compared",
  "Seeded search. Nearest-neighbor is compared value by value, partition of unity by linear fields, sums and first moments. Initial data cannot be written with API access (an error by design).")
prop("C15", "Meshes redefined at runtime continue the simulation as if always so",
  "When participants reset and redefine provided meshes at the end of time windows (any subset of the meshes, any vertices, connectivity, number of ranks and distribution, repeatedly), all participants agree to reinitialize, and the coupled simulation goes on without deadlock, crash or error. From then on every value read, step size, flag and iteration count is the one of a simulation that had the new meshes from the beginning, whether a mesh has changed or only its distribution over the ranks. Watch points, watch integrals and the logs of iterations and convergence continue, and keep what was written before.",
  ["inputs", "histories", "configurations", "partitions", "schedules"],
  "one or two redefinitions at seeded windows of parallel-explicit and parallel-implicit couplings of two participants with one to several ranks, each mesh, all mappings, accelerations, m2n types (including gather-scatter and two-level) and schedules",
  "Tests redefine a mesh once, with one or two ranks, mostly with nearest-neighbor mapping and without acceleration, watch points or logs.",
  ["src/precice/impl/ParticipantImpl.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/partition/ReceivedPartition.cpp", "src/partition/ProvidedPartition.cpp", "src/acceleration/BaseQNAcceleration.cpp", "src/precice/impl/WatchPoint.cpp"],
  [("all participants learn about changed meshes before the next exchange", "ParticipantImpl::getTotalMeshChanges, reinitHandshake"), ("partitions, connections and mappings are set up again", "ParticipantImpl::reinitialize, setupCommunication"), ("data and acceleration restart on the new mesh", "CouplingData::reinitialize, BaseCouplingScheme::reinitialize")],
  [("changed meshes", "meshes reset in this step", "MeshLock, ParticipantImpl"), ("partition", "vertex distribution, offsets, connected ranks", "Mesh"), ("iterates", "previous iteration", "CouplingData")],
  ["values read at every time", "steps and flags", "watch-point, watch-integral, iterations and convergence files"],
  SIM + ": one simulation that redefines meshes, compared with simulations that have each geometry from the beginning",
  "Seeded search. Redefinition is allowed by preCICE at the end of time windows with parallel schemes of two participants only. What accelerated iterates inherit from before a change is not judged, nor samples inside the window of the change.")
prop("C08", "Mappings keep what their constraint promises on every partition",
  "Whatever the vertices, their order, the connectivity, the partition and filter, the schedule and the participant that computes it, a consistent mapping reproduces constant fields and, where its type is exact for them, linear fields or the interpolant on the nearest element; a conservative mapping is its transpose and preserves sums (and first moments, where its consistent form is exact for linear fields); a scaled-consistent mapping preserves the integral over the surface or volume of the mesh. Nearest-neighbor, nearest-projection, linear-cell, multiscale and area-scaling operations give the documented value of each vertex. This holds for every sample of the data, in every time window, with any number of vertices down to one, including meshes without connectivity and ranks without vertices.",
  ["inputs", "configurations", "partitions", "schedules"],
  "all mapping types but Ginkgo/PETSc ones, all constraints, both directions, random point clouds and meshes with edges, triangles or tetrahedra, one to several ranks with any filter, vector and scalar data, steps and waveforms",
  "Unit tests map a few fields over a few fixed meshes with an isolated mapping object; the operator that a simulation applies results from filtering, partitioning, tagging, connectivity exchange and communication.",
  ["src/mapping/NearestNeighborBaseMapping.cpp", "src/mapping/NearestProjectionMapping.cpp", "src/mapping/LinearCellInterpolationMapping.cpp", "src/mapping/BarycentricBaseMapping.cpp", "src/mapping/Mapping.cpp", "src/mapping/RadialBasisFctMapping.hpp", "src/mapping/PartitionOfUnityMapping.hpp", "src/mapping/RadialGeoMultiscaleMapping.cpp", "src/mapping/AxialGeoMultiscaleMapping.cpp", "src/partition/ReceivedPartition.cpp", "src/action/ScaleByAreaAction.cpp"],
  [("a received mesh holds every vertex and element the mapping needs", "ReceivedPartition::compute, Mapping::tagMeshFirstRound"), ("weights sum to one", "mapping::Polation, PartitionOfUnityMapping::computeMapping"), ("integrals are gathered over all ranks and scaled per component", "Mapping::scaleConsistentMapping")],
  [("operator", "weights of the vertices and elements for each vertex", "Mapping"), ("ownership", "the rank which counts a shared vertex", "mesh::Vertex")],
  ["values read at every time on every rank"],
  SIM + ": an independent model of each mapping as an operator (or as the quantities which it preserves), applied to the recorded writes",
  "Seeded search. Types which are exact for linear fields only approximately (RBF with polynomial) are judged on constants, linear fields, sums and moments; ill-conditioned geometry by its error message.")
