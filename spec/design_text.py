HOW = {
'C01': 'builds an arbitrary distributed grid with symbolic data, hierarchizes and dehierarchizes it with every basis and asserts equality with the input at every point. The oracle is the input itself.',
'C02': 'the same runs compared after hierarchization with an independent definition of the coefficients (written pointwise on the gathered grid in the harness: surplus from the two hierarchical neighbours, then the lifting update of full weighting / biorthogonal).',
'C03': 'compares every index, owner, neighbour and coordinate query with a few lines of arithmetic on the decomposition; indices are symbolic where marked.',
'C04': 'collects the points listed per subspace and compares with the hierarchical level computed from the trailing zeros of the point position.',
'C05': 'generates the scheme and asserts for a symbolic subspace below a grid of the scheme that the coefficients of all grids above it sum to one; distinctness, bounds, corner grids.',
'C06': 'enumerations compared with membership predicates for a symbolic level vector; counts compared with 2^l formulas and with the sum over processes.',
'C07': 'two component grids with symbolic values are registered with and added to a sparse grid with an arbitrary set of allocated subspaces; extracted data compared with the weighted sums kept per point.',
'C08': 'runs the real ProcessGroupWorker, SparseGridWorker and CombiCom code of several groups on the MPI model: grids with symbolic hierarchical coefficients, every assignment to groups, every variant; afterwards each coefficient on each grid is compared with the weighted sum computed from the input symbols. The oracle is written per hierarchical point from the levels alone.',
'C09': 'the same machinery with hierarchization and dehierarchization: grids sampled from one symbolic sparse grid function have to come back unchanged; with arbitrary symbolic values a second combination must leave the result of the first unchanged.',
'C10': 'integral before hierarchization (sum of symbolic values times integrals of nodal basis functions) compared with the integral of the coarsest level afterwards, and with the integral after arbitrary changes of the finer coefficients; for the whole combination, the mass of every grid afterwards compared with the weighted sum of the masses.',
'C11': 'evaluates at symbolic coordinates (any point of any cell, or exactly on a node, both ends included) and compares the sum over the processes with the hat function interpolant of the symbolic values; combined interpolation compared with the weighted sum over all grids.',
'C12': 'runs each operation on the MPI model with symbolic values and compares with the value kept per global index; norms with their formula on the undistributed grid; plot files byte by byte through the file model.',
'C13': 'symbolic levels/coefficients/fractions; the union of all assignments compared with the scheme.',
'C14': 'initialises the system on n model processes for every layout and asserts membership and order of every communicator (via group translation and an actual all-gather), ranks, masters, output group, third level communicators.',
'C15': 'chunking with symbolic sizes and limits; reductions and broadcasts executed on the MPI model (derived datatypes, user-defined operation) with symbolic data and compared with the sum over the groups holding a subspace.',
'C17': 'socket, connect, send, recv and close are replaced by two in-memory byte streams (in the model and in the native replay); how many bytes each recv and send moves is chosen by the solver, so all fragmentations within the bounds are explored with symbolic payload bytes.',
'C21': 'S systems of G groups with P processes run as one set of cooperating processes over the modelled MPI, each system with its own communicators and sparse grids, exchanging data through a modelled file system in which names, tokens and contents are separate, and writing and reading are preceded by a change of process. The harness runs initialisation, extension of the subspace sizes through files, combineSystemWideAndWrite and combineReadDistributeSystemWide, and asserts for every grid of every system that its hierarchical values equal the weighted sum over all grids of all systems, that a token never announces incomplete data (the reader would find a file too short, or the old values), that tokens are gone and data files are kept or gone as requested. With three systems the harness gives each system its own copy of the files of the others: the first reader removes the tokens (and the data on request), so a directory shared by three systems is not the intended use (a first version of the harness did so and raised a false alarm).',
'C16': 'symbolic values written and read back (raw and LZ4 compressed) on the in-memory MPI file model, with any number of values per rank and any buffer size; wrong sizes must raise an exception. LZ4 is modelled (frames that store their content, a decompressor that fills the destination); the 4 MiB stream buffer is scaled down through LZ4_compressBound, in the model and in the native replay.',
'C22': 'one manager process running ProcessManager and G groups running the real command loop (ProcessGroupWorker::wait) over the MPI model. The harness defines a Task whose values are symbolic; each choice of history, delays, costs and moved task is made by the solver-guided exploration. After every command every group compares its grids with a state kept per point in the harness; the manager compares interpolated values, norms and the contents of written files, and at the end who has which task, how often it ran and that no message is left. The timing of messages is varied by delays inside tasks and by delaying the delivery of single messages (`lag`), synchronous sends by `sendmode`. Serialized objects travel through a model of the boost archives.',
'C23': 'the scheme is made fault tolerant, a set of grids (chosen by the exploration) is declared lost, recomputeOptimumCoefficients builds its optimization problem, a model of GLPK (exact branch and bound over the constraints it was given, which then returns any of the optimal solutions) solves it, and the coefficients as received by a group are compared with the definition: subspaces represented 0 or 1 times, value equal to an optimum computed independently by recursion over the lost grids.',
'C24': 'both systems (managers, groups running the real command loop) and the broker (ThirdLevelManager of third_level_manager, without its command line) run as processes of one world over the MPI model; sockets are replaced by messages of a separate communicator (in the model, and with the linker\'s --wrap in the native replay). Every grid is compared with a state kept per point in the harness after every command, the evaluated values with the interpolants of all grids.',
'C18': 'symbolic durations; proposals applied and loads compared before and after; load model compared with the sum over the last N values.',
'C19': 'symbolic partition bounds and points; owner on the derived level compared with the owner on the reference level.',
'C20': 'index and level conversions inverse to each other; evaluation at a symbolic coordinate compared with the multilinear interpolant written per cell; hierarchization with the definition.',
}
COST = {'C24': '50 s', 'C22': '100 s', 'C23': '60 s', 'C21': '55 s', 'C01': '65 s', 'C02': '220 s', 'C03': '40 s', 'C04': '25 s', 'C05': '60 s', 'C06': '60 s', 'C07': '100 s', 'C08': '65 s', 'C09': '40 s', 'C10': '40 s', 'C11': '80 s', 'C12': '35 s', 'C13': '40 s', 'C14': '15 s', 'C15': '70 s', 'C16': '15 s', 'C17': '10 s', 'C18': '30 s', 'C19': '30 s', 'C20': '25 s'}
CAUGHT = {'s01_systems': 'C13 job sys', 's02_kofd': 'C06 job kofd_hist (added because the first version of the check asked for one selection per run and missed it)', 's05_coeff': 'C05 jobs ad_4d_deep, ad_5d_deep (added because level differences up to 2 in four dimensions missed it)', 's06_avg': 'C18 job average'}
EXTRA = '''
Limits noted while building C22/C23 (no findings): boost archives are modelled (raw bytes, a registry for polymorphic pointers), native replays use the real ones; with the outgroup and chunked variants a group lacks the subspaces of the other groups (or the data is deallocated), so rescheduling, parallelEval and minimum/maximum are exercised for sparseGridReduce only; `runfirst` with fewer tasks than groups throws, as the code says; the file based third level without extra sparse grid writes `f_0` but reads `f_0.part0` (the harness copies the file); the evaluation order of function arguments is clang's in the encoding and gcc's in the native conformance runs; C24 only for sparseGridReduce (with the other variants the exchanging group lacks subspaces of the other groups); sizes per worker are summed in an int by ProcessGroupManager (2^31 values per process are outside every bound here, noted only); C23 only for equal level differences, as `check_input_levels` demands.

False alarms met while building and what was done: (a) `isGlobalLinearIndexOnBoundary` treats a one-sided boundary as boundary on the stored side only: the property says nothing else, assertion dropped;
(b) `allocateDifferentSubspaces({})` means "all subspaces": harness adapted; (c) C06 "truncated set contains every subspace of every component grid" was too strong for adaptive schemes with unequal level differences, which are not built from this set: claimed for classical schemes and equal differences;
(d) C18 "no load rises" holds only if the forecast equals the measured duration, because the rescheduler decides on measurements scaled by forecasts: stated so; (e) `getChunkedSubspaces` compares strictly with the limit: accepted.
'''
SEEDNOTES = ''
