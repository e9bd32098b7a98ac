#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 spec/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
DFG="src/fullgrid/DistributedFullGrid.hpp"; HIER="src/hierarchization/DistributedHierarchization.hpp"
DSG="src/sparsegrid/DistributedSparseGridUniform.hpp"; CC="src/combicom/CombiCom.hpp"
SCH="src/combischeme/CombiMinMaxScheme.hpp"; SCHC="src/combischeme/CombiMinMaxScheme.cpp"
LSU="src/utils/LevelSetUtils.hpp"; LSUC="src/utils/LevelSetUtils.cpp"
ANY="src/sparsegrid/AnyDistributedSparseGrid.cpp"; SGW="src/manager/SparseGridWorker.hpp"

prop("C01","Dehierarchization inverts hierarchization on every grid and decomposition",
 "For every component grid (dimensionality, level vector, boundary kind per dimension), every hierarchical basis offered for that boundary kind, every minimum hierarchization level, every choice of dimensions to hierarchize and every distribution of the grid over processes, hierarchizing arbitrary grid data and then dehierarchizing it gives back the data that was there before.",
 ["inputs","configurations"],"all grid values x level vectors x boundary kinds x bases x lowest levels x process decompositions",
 "Tests use a few analytic functions on a few grids with tolerance; the identity must hold for every data vector, anisotropic level, uneven decomposition and lowest level.",
 [HIER],[("per-pole kernels and remote data exchange",HIER+": hierarchizeWithBoundary, hierarchizeNoBoundary, dehierarchize*")],observe=["DistributedFullGrid::getData after dehierarchize"])

prop("C02","Hierarchical coefficients match their definition, however the grid is split",
 "The coefficients produced by hierarchizing a distributed grid are exactly those of the chosen basis applied dimension by dimension (hat: value minus mean of the two hierarchical neighbours; full weighting and biorthogonal: that surplus plus the corresponding update of the coarser points), so they do not depend on how many processes hold the grid or where the partition boundaries are.",
 ["inputs","configurations"],"all grid values x level vectors x boundary kinds x bases x decompositions",
 "Tests compare a handful of functions against analytic surpluses on fixed decompositions; wrong neighbours or a missed remote value can cancel for smooth functions.",
 [HIER,DFG],[("exchange of remote slices and hierarchical neighbour lookup",HIER+": exchangeData1d, exchangeAllData1d; "+DFG+": getLeftPredecessor/getRightPredecessor")])

prop("C03","Every grid point has exactly one owner and index conversions are consistent",
 "For every grid and every valid decomposition, each global grid point lies in the partition of exactly one process, every query for the owner of a point (whole-domain, one-dimensional neighbour, or partition coordinates) names that process, and the global/local, linear/vector index conversions and coordinate queries are mutually inverse and agree with the point's position.",
 ["inputs","configurations"],"all level vectors, boundary kinds, decompositions, ranks and point indices",
 "Tests walk a few grids with the default decomposition; off-by-one errors at partition borders need particular splits and indices.",
 [DFG,"src/fullgrid/Tensor.hpp","src/mpi/MPICartesianUtils.hpp","src/utils/DecompositionUtils.hpp"],
 [("bounds and index arithmetic",DFG+": getLowerBounds/getUpperBounds/getGlobalLinearIndex/getLocalLinearIndex/getPartitionCoords/getNeighbor1dFromAxisIndex"),("decomposition",'src/utils/DecompositionUtils.hpp: getDefaultDecomposition')])

prop("C04","Hierarchical subspaces partition the points of every grid on every process",
 "On every process the local points of a component grid are split without gap or overlap into the hierarchical subspaces whose level is at most the grid's level, each point going to the subspace of its hierarchical level (boundary points to level one); the reported number of points per subspace equals the number of points listed.",
 ["inputs","configurations"],"all level vectors, boundary kinds, decompositions, ranks, subspace levels",
 "Tests check a few level/partition pairs; stride and start arithmetic can be wrong only for particular partition borders.",
 [DFG,LSU],[("stride/start arithmetic",DFG+": get1dIndicesLocal, getStrideForThisLevel, getLocalStartForThisLevel, getNumPointsOnThisPartition, getFGPointsOfSubspace")])

prop("C05","Combination schemes count every covered subspace exactly once",
 "For every minimum and maximum level (including dimensions that are not refined), the generated classical and adaptive combination schemes list distinct component grids between the minimum and maximum level whose coefficients sum to one over the grids containing any given subspace covered by the scheme, and the maximal grids in each coordinate direction allowed by the minimum refinement depth are reached; adding fault-tolerance grids leaves these sums unchanged.",
 ["inputs"],"all dimensionalities, minimum and maximum level vectors",
 "Tests check grid counts for a few isotropic levels; unrefined dimensions, uneven level differences and many grids are never reached.",
 [SCHC,SCH,LSUC],[("scheme generation",SCHC+": createClassicalCombischeme, createAdaptiveCombischeme, makeFaultTolerant"),("truncated level set",LSUC+": createTruncatedHierarchicalLevelsRec")])

prop("C06","Level sets and degree-of-freedom counts are exact",
 "Generated level sets are exactly the sets they stand for: the down set of a level contains every level vector between one and it once and in lexicographic order (also when produced one by one), the truncated set is downward closed, sorted and contains every subspace of every component grid of the scheme, k-of-d selections are complete, and grid and subspace point counts equal the number of points with that level and boundary kind and add up over partitions.",
 ["inputs"],"all level vectors, boundary kinds and dimension selections",
 "Tests compare sizes for a few level vectors, mostly isotropic.",
 [LSU,LSUC,SCH],[("enumeration",LSUC+": getDownSet, getAllKOutOfDDimensions, createTruncatedHierarchicalLevels"),("generator",LSU+": HypercubeDownSetGenerator"),("counts",LSU+": getNumDofNodal, getNumDofHierarchical; "+SCH+": getPartitionedNumDOFSG, getCombiDegreesOfFreedom")])

prop("C07","Moving data between component grids and the sparse grid loses nothing",
 "Adding a component grid to a sparse grid adds coefficient times each of its hierarchical values to exactly that point's entry and nothing else, and extracting writes back, for every subspace held by the sparse grid, exactly the stored values to the right points and leaves other points untouched; this also holds when only part of the subspaces is currently allocated and for any order of grids added.",
 ["inputs","configurations","histories"],"all grid values, coefficients, level vectors, decompositions, subsets of allocated subspaces",
 "Tests use constant or analytic data where misplaced entries can coincide.",
 [DSG,DFG],[("add/extract",DSG+": addDistributedFullGrid, registerDistributedFullGrid; "+DFG+": extractFromUniformSG"),("allocation",DSG+": allocateDifferentSubspaces, createSubspaceData")])

prop("C08","All combination variants compute the same, correct combined solution",
 "After the distributed combination step, every component grid on every process holds for each of its hierarchical subspaces covered by the sparse grid the coefficient-weighted sum of that coefficient over all component grids containing it, whichever combination variant is used (sparse grid, subspace, outgroup, chunked), however the grids are assigned to process groups, and for every chunk size.",
 ["inputs","configurations","schedules"],"all grid values x assignments of grids to groups x variants x chunk sizes",
 "Tests compare constants and a paraboloid on one or two group layouts.",
 [SGW,CC,ANY,DSG],[("global reduction",CC+": distributedGlobalSparseGridReduce, distributedGlobalSubspaceReduce, getChunkedSubspaces"),("communicators and sizes",ANY+": setSubspaceCommunicators, setOutgroupCommunicator"),("worker",SGW+": reduceLocalAndGlobal, collectReduceDistribute, distributeCombinedSolutionToTasks")])

prop("C09","Combination preserves common functions and is idempotent",
 "If all component grids represent the same function from the sparse grid space, combining leaves every grid unchanged, and combining a second time without solving in between never changes anything.",
 ["inputs","histories"],"all sparse grid functions; all histories of repeated combinations",
 "Tests sample constants and one paraboloid.",
 [SGW,HIER,SCHC],[("hierarchize-combine-dehierarchize",'src/manager/ProcessGroupWorker.cpp: combineAtOnce; '+SGW)])

prop("C10","Mass-conserving bases conserve the integral",
 "With the full weighting and biorthogonal bases, the integral of the grid function equals the integral of the part stored on the coarsest hierarchical level after hierarchization, so combining component grids that carry the same mass yields grids with that mass.",
 ["inputs","configurations"],"all grid values, levels, periodic and non-periodic boundaries, decompositions",
 "The momentum test uses fixed functions and tolerance.",
 [HIER],[("update of coarse points",HIER+": hierarchize_full_weighting_boundary_kernel, hierarchize_biorthogonal_boundary_kernel")])

prop("C11","Interpolation of a distributed grid is the multilinear interpolant",
 "Evaluating a distributed grid at any coordinate of the unit cube gives the multilinear interpolant of its nodal values (zero at missing boundary points, periodic continuation with one-sided boundaries), in particular the nodal value at a grid point, independent of the decomposition; interpolating the combined solution gives the sum of these values over all component grids, weighted with the combination coefficients, on every process.",
 ["inputs","configurations"],"all coordinates, nodal values, levels, boundary kinds, decompositions",
 "Tests evaluate smooth functions at random points with tolerance.",
 [DFG],[("evaluation",DFG+": evalLocal, evalIndexAndAllUpperNeighbors, getInterpolatedValues"),("combined","src/manager/InterpolationWorker.hpp: interpolateValues")])

prop("C12","Grid-wide operations agree with the gathered grid",
 "Gathering a distributed grid, its discrete norms, corner values, ghost layer exchange, lower-to-upper boundary copy, its binary plot file and the smallest and largest coefficients recorded per subspace of a sparse grid give exactly what the same operation on the undistributed grid would give, on every process.",
 ["inputs","configurations"],"all grid values, levels, boundary kinds, decompositions, roots",
 "Tests sample a few partitions and functions.",
 [DFG],[("collectives and subarray types",DFG+": gatherFullGrid, getLpNorm, getCornersValues, exchangeGhostLayerUpward, writeLowerBoundaryToUpperBoundary, writePlotFile; src/sparsegrid/DistributedSparseGridUniform.hpp: accumulateMinMaxCoefficients")])

prop("C13","Every component grid is assigned exactly once",
 "However component grids are distributed (round robin or load balanced over process groups, or by fractions over systems), each grid of the scheme is assigned to exactly one group or system, together with its own coefficient and task number, and load balancing never leaves one group heavier than another by more than one grid.",
 ["inputs","configurations"],"all schemes, coefficient vectors, numbers of groups/systems, fractions",
 "Tests use one or two schemes with two groups.",
 [SCH,"src/combischeme/CombiThirdLevelScheme.cpp"],[("assignment",SCH+": getRoundRobinLevels, getLoadBalancedLevels; src/combischeme/CombiThirdLevelScheme.cpp: decomposeScheme")])

prop("C14","The process group layout partitions the machine consistently",
 "For every number of process groups, processes per group and with or without a manager, initialising the system puts each worker in exactly one process group, and the local, global-reduce, global and output communicators contain exactly the processes with the same group, the same position in the group, the group masters (and manager), or the same output role, with ranks ordered consistently on all processes.",
 ["configurations"],"all group counts, group sizes, manager or worker-only set-ups",
 "The tests cover only layouts that fit in nine processes of one run.",
 ["src/mpi/MPISystem.cpp"],[("communicator set-up","src/mpi/MPISystem.cpp: init*, init*Comm")])

prop("C15","Chunked reductions cover all data exactly once within the limit",
 "Splitting the sparse grid data into chunks for communication covers every subspace assigned to the reduction exactly once and in the same order on all processes, no chunk exceeds the permitted size unless a single subspace does, and the result of reducing or broadcasting in chunks equals the result without chunks for every permitted size.",
 ["inputs","configurations"],"all subspace size vectors and chunk limits",
 "Tests use a single default chunk size larger than all data.",
 [CC],[("chunking",CC+": getChunkedSubspaces, getGlobalReduceChunkSize, asyncBcast*, distributedGlobalSparseGridReduce")])

prop("C16","Sparse grid files round-trip",
 "Writing a distributed sparse grid and reading it back restores every value in every process; reading and reducing adds exactly the stored values to the present ones for every read chunk size; subspace size files round-trip likewise, and a file of the wrong size is reported.",
 ["inputs","configurations"],"all data, sizes per process, chunk sizes, numbers of files",
 "Tests write a few values with one chunk size.",
 ["src/sparsegrid/DistributedSparseGridIO.hpp","src/io/MPIInputOutput.hpp"],[("MPI-IO with exclusive-scan offsets","src/io/MPIInputOutput.hpp: writeValuesConsecutive, readValuesConsecutive, readReduceValuesConsecutive")])

prop("C17","Socket transfers deliver exactly the sent data for every fragmentation",
 "Whatever pieces the operating system delivers, receiving (plain, length-prefixed, binary, binary with reduction, forwarding) yields exactly the bytes or numbers sent, converting byte order when sender and receiver differ, and a connection that ends early is reported as failure.",
 ["inputs","schedules","fault_sequences"],"all payloads, all fragmentations of the stream, all chunk sizes, both byte orders",
 "Tests run over loopback where messages arrive whole and byte order matches.",
 ["src/third_level/NetworkUtils.hpp","src/third_level/NetworkUtils.cpp"],[("stream reassembly","src/third_level/NetworkUtils.hpp: recvallBinaryAndCorrectInPlace, recvallBinaryAndReduceInPlace, reverseEndianness; NetworkUtils.cpp: sendall, recvall, forward")])

prop("C18","Rescheduling only proposes valid, improving moves from correct averages",
 "The rescheduler proposes each known task at most once and only to an existing process group, and applying its proposals never increases the predicted load of the slowest group; the load model it uses returns the average of the last N recorded durations, or the fallback model's value if none is recorded.",
 ["inputs","histories"],"all assignments, durations and histories of recorded durations",
 "Tests use three hand-made cases with small durations.",
 ["src/rescheduler/RebalancingTaskRescheduler.cpp","src/loadmodel/AverageOfLastNLoadModel.cpp","src/loadmodel/LinearLoadModel.cpp"],[("greedy moves","src/rescheduler/RebalancingTaskRescheduler.cpp: eval"),("sliding window","src/loadmodel/AverageOfLastNLoadModel.cpp")])

prop("C19","All grids place a shared point on the same process",
 "For every reference decomposition, the decompositions derived for coarser levels put each grid point that exists on the coarse level on the same process as on the reference level, are monotone and start at the first point, so that subspaces common to several grids have identical local sizes and points.",
 ["inputs","configurations"],"all reference levels, coarser levels, boundary kinds and reference decompositions",
 "Tests check a few fixed decompositions.",
 ["src/utils/DecompositionUtils.hpp"],[("rounding","src/utils/DecompositionUtils.hpp: downsampleDecomposition, getDefaultDecomposition, getStandardDecomposition")])

prop("C20","The serial full grid is consistent with the distributed one",
 "The serial full grid's index conversions are mutually inverse, its coordinates and level/index notation describe the same points, and evaluating it at any coordinate gives the multilinear interpolant of its values.",
 ["inputs","configurations"],"all levels, boundary flags, indices and coordinates",
 "Tests sample a few grids.",
 ["src/fullgrid/FullGrid.hpp"],[("index arithmetic and evaluation","src/fullgrid/FullGrid.hpp: getLinearIndex, getVectorIndex, getLI, eval")])

prop("C21","Combining across systems through files gives the same result as one system",
 "When several systems, each with its own component grids, exchange their sparse grids through files, every component grid of every system ends up with the values a single system holding all grids would give, for every distribution of the grids over systems and groups, every partition into file parts, and every relative timing of the systems; a token file exists only when the data it announces is completely written, tokens are removed after use, and data files are kept or removed as requested.",
 ["inputs","schedules","configurations","histories"],"all grid values, assignments of grids to systems and groups, combination variants, file parts, delays between systems, repetitions",
 "Tests run one or two small cases with one timing, where the files are always complete before they are read.",
 ["src/manager/ProcessGroupWorker.cpp","src/manager/SparseGridWorker.hpp","src/sparsegrid/DistributedSparseGridIO.hpp"],[("write, wait for token, read and reduce, distribute","src/manager/ProcessGroupWorker.cpp: combineSystemWideAndWrite, combineReadDistributeSystemWide, reduceExtraSubspaceSizesFileBased; src/manager/SparseGridWorker.hpp: writeDSGsToDisk, readDSGsFromDiskAndReduce")])

prop("C22","Every task runs on exactly one group and manager commands take effect whatever order the groups finish in",
 "The manager gives every task to exactly one process group and knows which, and every group gets one if there are enough; every task runs exactly once per run command; and each command (run, combine, interpolate, norms, evaluate to a file, change parameters, move tasks, diagnostics, minimum and maximum coefficients, exchange through files) reaches all groups concerned, has its defined effect on the grids before it is reported done, and leaves no message behind, for every order and timing in which groups finish and every sequence of commands; no sequence deadlocks.",
 ["inputs","schedules","histories","configurations"],"all grid values, costs, task durations, orders of completion, command sequences, message timings",
 "Tests run one command sequence with one timing and eager message delivery.",
 ["src/manager/ProcessManager.cpp","src/manager/ProcessManager.hpp","src/manager/ProcessGroupManager.cpp","src/manager/ProcessGroupWorker.cpp","src/task/Task.hpp"],[("task distribution, commands, waiting for groups","src/manager/ProcessManager.cpp: runfirst, runnext, parallelEval, reschedule; src/manager/ProcessManager.hpp: combine, interpolateValues, getLpNorms; src/manager/ProcessGroupManager.cpp: sendSignalToProcessGroup, recvStatus, waitStatus"),("command loop","src/manager/ProcessGroupWorker.cpp: wait")])

prop("C23","After the loss of component grids the remaining ones form a valid and best possible combination",
 "For every set of lost component grids the recomputed coefficients represent every hierarchical subspace once or not at all and the coarsest one once, use a lost grid only if it is listed to be recomputed, keep as much of the combination as the remaining grids allow, and every lost grid is listed exactly once, either to be recomputed or to be handed out again; restoring the scheme gives back the original coefficients.",
 ["inputs","fault_sequences","configurations"],"all sets and orders of lost grids, all equal-difference schemes, all optimal solutions of the optimizer",
 "Tests check a few hand-picked faults.",
 ["src/fault_tolerance/LPOptimizationInterpolation.cpp","src/fault_tolerance/FTUtils.cpp","src/manager/ProcessManager.hpp","src/manager/ProcessManager.cpp"],[("optimization problem and recovery of coefficients","src/fault_tolerance/LPOptimizationInterpolation.cpp; src/fault_tolerance/FTUtils.cpp"),("manager side","src/manager/ProcessManager.hpp: recomputeOptimumCoefficients; src/manager/ProcessManager.cpp: restoreCombischeme")])

prop("C24","Systems that exchange through the third level manager hold the combination of all their grids",
 "When two systems, each with its own manager and process groups, exchange their sparse grids over the network through the third level manager, every component grid of both systems ends up with the values one system holding all grids would give, both report the same number of exchanged values, points agreed upon and values evaluated there are the same on both sides and sums over all grids; whichever system connects or is ready first, for any sequence of exchanges and local steps, neither the systems nor the third level manager deadlock or fail, and all of them finish.",
 ["inputs","schedules","histories","configurations"],"all grid values, assignments of grids to systems and groups, orders of arrival, delays, command sequences",
 "Tests run one distribution with one timing and one group layout, and the broker itself has no tests of its statistics or of other command sequences.",
 ["third_level_manager/thirdLevelManager.cpp","third_level_manager/System.cpp","src/third_level/ThirdLevelUtils.cpp","src/third_level/ThirdLevelUtils.hpp","src/manager/ProcessGroupManager.cpp","src/manager/ProcessGroupWorker.cpp","src/manager/ProcessManager.cpp"],[("broker protocol","third_level_manager/thirdLevelManager.cpp: runtimeLoop, processMessage, processCombination, processUnifySubspaceSizes, processAnyData, forwardData"),("system side","src/manager/ProcessManager.hpp: combineThirdLevel, unifySubspaceSizesThirdLevel; ProcessManager.cpp: monteCarloThirdLevel; src/manager/ProcessGroupManager.cpp: exchangeDsgus, reduceLocalAndRemoteSubspaceSizes, collectSubspaceSizes, distributeSubspaceSizes; src/manager/ProcessGroupWorker.cpp: combineThirdLevel, reduceSubspaceSizesThirdLevel, waitForThirdLevelCombiResult")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
