# Job tables: per property, the harness runs that decide it.
COMMON_ASSUMPTIONS = [
 'compiled with clang-18 -O1 IR of the current /repo sources (NDEBUG as in the shipped Release build, OpenMP pragmas off)',
 'MPI is the model in /verif/model/vmpi.cpp (MPI-3.1 semantics of the calls used; sends may be synchronous; messages are ordered per pair)',
 'double data are exact reals unless counted as modelled; comparisons of data allow 1e-7 absolute difference',
 'libstdc++ containers are executed from their headers; out-of-line parts are modelled in /verif/model/vflib.cpp']
def H(name, harness, n=1, cfg=None, **k):
    d = dict(name=name, harness=harness, n=n, cfg=cfg or {}); d.update(k); return d
PROPS = {}
def prop(pid, jobs, bounds, outside, **k): PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, **k)

# ------------------------------------------------------------------ C01 / C02
def hier(defn):
    c = ['C02 compared'] if defn else ['C01 compared']; pre = 'd' if defn else 'r'
    b = {'def': 1} if defn else {}
    f = lambda name, n, cfg, **k: H(pre + name, 'c01_hier.cpp', n, dict(b, **cfg), covers=c, **k)
    return [
      f('1d_n1', 1, {'l00': 5}), f('1d_n2', 2, {'p00': 2, 'l00': 4}), f('1d_n3', 3, {'p00': 3, 'l00': 4}, cost=9), f('1d_n4', 4, {'p00': 4, 'l00': 3}, cost=5),
      f('1d_n2_cplx', 2, {'p00': 2, 'l00': 3, 'cplx': 1}),
      f('2d_n1', 1, {'dim': 2, 'l00': 2, 'l01': 2}, cost=4),
      f('2d_n2x', 2, {'dim': 2, 'p00': 2, 'l00': 2, 'l01': 2}, cost=5), f('2d_n2y', 2, {'dim': 2, 'p01': 2, 'l00': 2, 'l01': 2}, cost=5),
    ] + [f('2d_n4_b%d' % b0, 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2, 'b00': b0}, cost=9) for b0 in (0, 1, 2)] + [
      f('3d_n2_hat', 2, {'dim': 3, 'p01': 2, 'l00': 2, 'l01': 2, 'l02': 2, 'basis00': 0, 'basis01': 0, 'basis02': 0, 'lm00': 0, 'lm01': 0, 'lm02': 0, 'use': 0}, cost=4),
      f('1d_n5', 5, {'p00': 5, 'l00': 4}, tier='thorough'), f('1d_n2_l6', 2, {'p00': 2, 'l00': 6}, tier='thorough'), f('1d_n3_l5', 3, {'p00': 3, 'l00': 5}, tier='thorough'),
      f('2d_n4_l3', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 3, 'l01': 2, 'use': 0}, tier='thorough'), f('2d_n3', 3, {'dim': 2, 'p00': 3, 'l00': 3, 'l01': 2}, tier='thorough'),
      f('3d_n4', 4, {'dim': 3, 'p00': 2, 'p02': 2, 'l00': 2, 'l01': 1, 'l02': 2, 'lm00': 0, 'lm01': 0, 'lm02': 0, 'use': 0}, tier='thorough'),
    ]
_hb = '1-D: all levels 1..5 (1 rank), 1..4 (2,3 ranks), 1..3 (4 ranks); 2-D: all level pairs up to (2,2) on 1, 2x1, 1x2, 2x2 ranks; 3-D: hat, levels up to 2 on 2 ranks; every boundary flag 0/1/2, every admissible basis per dimension, every lower level lmin, every subset of hierarchized dimensions containing the first, every decomposition into non-empty intervals; real and complex data: every grid value is symbolic'
prop('C01', hier(0), _hb, 'higher levels, more than 4 ranks or 3 dimensions; rounding of doubles on data that is not exactly representable')
prop('C02', hier(1), _hb, 'higher levels, more than 4 ranks or 3 dimensions')

# ------------------------------------------------------------------ C03
def c03():
    c = ['C03 local', 'C03 global']
    f = lambda name, n, cfg, **k: H(name, 'c03_index.cpp', n, cfg, covers=c, **k)
    return [f('1d_n1', 1, {'l00': 6, 'sym': 1}), f('1d_n2', 2, {'p00': 2, 'l00': 4, 'sym': 1}), f('1d_n3', 3, {'p00': 3, 'l00': 3, 'sym': 1}), f('1d_n4', 4, {'p00': 4, 'l00': 3}),
      f('2d_n1', 1, {'dim': 2, 'l00': 3, 'l01': 3}), f('2d_n1_s', 1, {'dim': 2, 'l00': 2, 'l01': 2, 'sym': 1}), f('2d_n2', 2, {'dim': 2, 'p00': 2, 'l00': 2, 'l01': 2}), f('2d_n4', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2}),
      f('2d_n6', 6, {'dim': 2, 'p00': 3, 'p01': 2, 'l00': 2, 'l01': 2, 'b00': 2}),
      f('3d_n4', 4, {'dim': 3, 'p00': 2, 'p02': 2, 'l00': 2, 'l01': 1, 'l02': 2, 'dec': 0}),
      f('1d_n3_def', 3, {'p00': 3, 'l00': 5, 'dec': 0}), f('1d_n5_fwd', 5, {'p00': 5, 'l00': 5, 'dec': 2}), f('2d_n4_def', 4, {'dim': 2, 'p00': 4, 'l00': 4, 'l01': 1, 'dec': 0}),
      f('2d_n6_t', 6, {'dim': 2, 'p00': 2, 'p01': 3, 'l00': 3, 'l01': 2}, tier='thorough'), f('3d_n8_t', 8, {'dim': 3, 'p00': 2, 'p01': 2, 'p02': 2, 'l00': 2, 'l01': 2, 'l02': 2}, tier='thorough'),
      f('1d_n8_t', 8, {'p00': 8, 'l00': 4, 'dec': 0}, tier='thorough'), f('1d_n4_t', 4, {'p00': 4, 'l00': 4}, tier='thorough')]
prop('C03', c03(), '1-D levels 1..6, up to 5 ranks; 2-D levels up to 3 per dimension, up to 6 ranks; 3-D levels (2,1,2) on 4 ranks; every boundary flag, every decomposition into non-empty intervals (and the default ones, forward and backward); every local and global index', 'larger levels and process grids')

# ------------------------------------------------------------------ C04
def c04():
    f = lambda name, n, cfg, **k: H(name, 'c04_subspaces.cpp', n, cfg, covers=['C04 done'], **k)
    return [f('1d_n1', 1, {'l00': 7}), f('1d_n2', 2, {'p00': 2, 'l00': 5}), f('1d_n3', 3, {'p00': 3, 'l00': 4}), f('1d_n4', 4, {'p00': 4, 'l00': 3}),
      f('2d_n1', 1, {'dim': 2, 'l00': 3, 'l01': 3}), f('2d_n2x', 2, {'dim': 2, 'p00': 2, 'l00': 3, 'l01': 2}), f('2d_n4', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2}),
      f('3d_n2', 2, {'dim': 3, 'p01': 2, 'l00': 2, 'l01': 2, 'l02': 2}),
      f('2d_n4_t', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 3, 'l01': 3}, tier='thorough'), f('3d_n8_t', 8, {'dim': 3, 'p00': 2, 'p01': 2, 'p02': 2, 'l00': 2, 'l01': 2, 'l02': 2}, tier='thorough'),
      f('1d_n4_t', 4, {'p00': 4, 'l00': 5}, tier='thorough'), f('4d_t', 1, {'dim': 4, 'l00': 2, 'l01': 2, 'l02': 2, 'l03': 2}, tier='thorough')]
prop('C04', c04(), '1-D levels up to 7 (1 rank), 5 (2), 4 (3), 3 (4 ranks); 2-D levels up to (3,3) on 1 rank, (3,2) on 2x1, (2,2) on 2x2; 3-D up to (2,2,2) on 2 ranks; every boundary flag and decomposition, every subspace level up to one above the grid', 'larger levels and process grids')

# ------------------------------------------------------------------ C07
SG_SRCS = ['src/sparsegrid/AnyDistributedSparseGrid.cpp', 'src/utils/LevelSetUtils.cpp']
def c07():
    f = lambda name, n, cfg, **k: H(name, 'c07_transfer.cpp', n, cfg, covers=['C07 done'], srcs=SG_SRCS, **k)
    j = [f('1d_n1', 1, {'l00': 3}), f('1d_n2', 2, {'p00': 2, 'l00': 3}), f('1d_n1_part', 1, {'l00': 3, 'partial': 1, 'sg': 1}), f('1d_n2_part', 2, {'p00': 2, 'l00': 3, 'partial': 1}),
      f('2d_n1', 1, {'dim': 2, 'l00': 2, 'l01': 2}), f('2d_n1_part', 1, {'dim': 2, 'l00': 2, 'l01': 2, 'partial': 1}), f('2d_n1_sub', 1, {'dim': 2, 'l00': 2, 'l01': 2, 'sg': 1, 'b00': 2}),
      f('2d_n2', 2, {'dim': 2, 'p01': 2, 'l00': 2, 'l01': 2, 'b01': 2}), f('1d_cplx', 1, {'l00': 2, 'type': 1, 'partial': 1}), f('1d_float', 1, {'l00': 3, 'type': 2, 'partial': 1})]
    j += [f('2d_n4_t', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2}, tier='thorough'), f('1d_n3_t', 3, {'p00': 3, 'l00': 4}, tier='thorough'), f('2d_n2_part_t', 2, {'dim': 2, 'p00': 2, 'l00': 2, 'l01': 2, 'partial': 1}, tier='thorough'), f('2d_n1_l3_t', 1, {'dim': 2, 'l00': 3, 'l01': 2}, tier='thorough')]
    for t in (0, 1, 2): j.append(H('kahan%d' % t, 'c07_transfer.cpp', 1, {'kahan': 1, 'type': t}, covers=['C07 kahan'], srcs=SG_SRCS))
    return j
prop('C07', c07(), 'two component grids of any levels up to 3 (1-D; 1 and 2 ranks) and (2,2) (2-D; 1 and 2 ranks), every boundary flag and decomposition; sparse grids: every truncated set, every set of levels; every subset of allocated subspaces; both orders of addition; coefficients 1,-2 and 3; double, complex and float; all grid values symbolic (double, complex)', 'more than two grids, larger levels; the rounding of the compensated summation beyond the reset scenario')

# ------------------------------------------------------------------ C05
SCHEME_SRCS = ['src/combischeme/CombiMinMaxScheme.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp']
def c05():
    f = lambda name, cfg, **k: H(name, 'c05_scheme.cpp', 1, cfg, covers=['C05 done'], srcs=SCHEME_SRCS, **k)
    j = []
    for kind, nm in ((0, 'cl'), (1, 'ad')):
        j += [f(nm + '_1d', {'dim': 1, 'kind': kind, 'diffhi': 6, 'lminhi': 4, 'ft': 1}), f(nm + '_2d', {'dim': 2, 'kind': kind, 'diffhi': 4, 'lminhi': 3, 'ft': 1}), f(nm + '_3d', {'dim': 3, 'kind': kind, 'diffhi': 3, 'ft': 1}, cost=5),
              f(nm + '_4d', {'dim': 4, 'kind': kind, 'diffhi': 2, 'lminhi': 1}, cost=5), f(nm + '_5d', {'dim': 5, 'kind': kind, 'diffhi': 1, 'lminhi': 1}),
              f(nm + '_4d_deep', {'dim': 4, 'kind': kind, 'difflo': 3 if kind else 4, 'diffhi': 5, 'lminhi': 1}, cost=5), f(nm + '_5d_deep', {'dim': 5, 'kind': kind, 'difflo': 5 if kind else 3, 'diffhi': 5 if kind else 3, 'lminhi': 1}, cost=5), f(nm + '_6d', {'dim': 6, 'kind': kind, 'difflo': 2, 'diffhi': 2, 'lminhi': 1}, cost=3),
              f(nm + '_big', {'dim': 3, 'kind': kind, 'lminhi': 1, 'equal': 1, 'difflo': 13, 'diffhi': 13}, cost=5),
              f(nm + '_4d_t', {'dim': 4, 'kind': kind, 'diffhi': 3, 'lminhi': 2}, tier='thorough'), f(nm + '_2d_t', {'dim': 2, 'kind': kind, 'diffhi': 8, 'lminhi': 4, 'ft': 1}, tier='thorough'), f(nm + '_5d_t', {'dim': 5, 'kind': kind, 'diffhi': 2, 'lminhi': 1}, tier='thorough')]
    return j
prop('C05', c05(), '1-D: minimum level 1..4, up to 6 above; 2-D: 1..3, up to 4 above; 3-D: 1..2, up to 3 above; 4-D: 1, up to 2 (and 3 to 5) above; 5-D: 1, up to 1 (and 3 or 5 in all dimensions) above; 6-D: 1, 2 above; independently per dimension unless noted (0: not refined); one scheme with 274 (classical) grids; with and without the fault tolerance extension', 'higher dimensions and level differences; schemes read from files')

# ------------------------------------------------------------------ C06
def c06():
    f = lambda name, what, cfg, **k: H(name, 'c06_levels.cpp', 1, dict(cfg, what=what), covers=['C06 ' + ['downset', 'truncated', 'kofd', 'counts', 'partitioned'][what]], srcs=SCHEME_SRCS, **k)
    return [f('down_1d', 0, {'dim': 1, 'hi': 12}), f('down_2d', 0, {'dim': 2, 'hi': 5}), f('down_3d', 0, {'dim': 3, 'hi': 3}), f('down_4d', 0, {'dim': 4, 'hi': 2}),
      f('trunc_1d', 1, {'dim': 1, 'diffhi': 6, 'lminhi': 4}), f('trunc_2d', 1, {'dim': 2, 'diffhi': 4, 'lminhi': 3}), f('trunc_3d', 1, {'dim': 3, 'diffhi': 3, 'lminhi': 1}), f('trunc_4d', 1, {'dim': 4, 'diffhi': 2, 'lminhi': 1}),
      f('kofd', 2, {'dhi': 10}), f('kofd_hist', 2, {'dhi': 9, 'hist': 1}), f('counts_1d', 3, {'dim': 1}), f('counts_2d', 3, {'dim': 2, 'hi': 12}), f('counts_3d', 3, {'dim': 3, 'hi': 5}),
      f('part_1d', 4, {'dim': 1, 'p00': 1, 'hi': 7}), f('part_1d_2', 4, {'dim': 1, 'p00': 2, 'hi': 5}), f('part_1d_3', 4, {'dim': 1, 'p00': 3, 'hi': 4}), f('part_2d_4', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'hi': 2}), f('part_2d_6', 4, {'dim': 2, 'p00': 3, 'p01': 2, 'hi': 2}), f('part_3d', 4, {'dim': 3, 'p00': 2, 'p02': 2, 'hi': 2}),
      f('trunc_3d_t', 1, {'dim': 3, 'diffhi': 4, 'lminhi': 2}, tier='thorough'), f('down_3d_t', 0, {'dim': 3, 'hi': 5}, tier='thorough'), f('part_2d_4_t', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'hi': 3}, tier='thorough'), f('kofd_t', 2, {'dhi': 12}, tier='thorough')]
prop('C06', c06(), 'down sets: levels up to 12 (1-D), 5 (2-D), 3 (3-D), 2 (4-D), membership of any level vector symbolic; truncated sets: minimum level up to 4/3/1/1, differences up to 6/4/3/2 in 1-4 dimensions; selections of k of up to 10 dimensions; counts: level 1..28 and boundary symbolic in 1-D, up to 12 (2-D) and 5 (3-D); partitions: reference level up to 7 (1 process), 5 (2), 4 (3), (2,2) on 2x2 and 3x2, 3-D on 4 processes, every decomposition', 'larger levels; counts that exceed the index type; per-process counts for grids without both boundaries (not supported by the code)')

# ------------------------------------------------------------------ C19
prop('C19', [H('down_1d', 'c19_decomp.cpp', 1, {'what': 0, 'hi': 8, 'p00': 3}, covers=['C19 down']), H('down_1d_5', 'c19_decomp.cpp', 1, {'what': 0, 'hi': 5, 'p00': 5}, covers=['C19 down']), H('down_2d', 'c19_decomp.cpp', 1, {'what': 0, 'dim': 2, 'hi': 3, 'p00': 2, 'p01': 3}, covers=['C19 down']),
  H('default', 'c19_decomp.cpp', 1, {'what': 1, 'N': 1 << 13}, covers=['C19 default']), H('toomany', 'c19_decomp.cpp', 1, {'what': 2}, covers=['C19 toomany']), H('standard', 'c19_decomp.cpp', 1, {'what': 3}, covers=['C19 standard']),
  H('down_1d_t', 'c19_decomp.cpp', 1, {'what': 0, 'hi': 16, 'p00': 4}, covers=['C19 down'], tier='thorough'), H('default_t', 'c19_decomp.cpp', 1, {'what': 1, 'P': 16, 'N': 1 << 17}, covers=['C19 default'], tier='thorough'), H('down_3d_t', 'c19_decomp.cpp', 1, {'what': 0, 'dim': 3, 'hi': 3, 'p00': 2, 'p01': 2, 'p02': 2}, covers=['C19 down'], tier='thorough')],
  'derived decompositions: reference level up to 8 (3 processes), 5 (5 processes), (3,3) in 2-D, every coarser level and boundary kind; the partition bounds and the point are symbolic; default decompositions: 1..8 processes, number of points symbolic up to 2^13; standard decompositions: 1..4 processes, levels 1..12 with both boundaries', 'more processes and higher levels; rounding of the division for more than 2^31 points')

# ------------------------------------------------------------------ C13
C13S = SCHEME_SRCS + ['src/combischeme/CombiThirdLevelScheme.cpp']
prop('C13', [H('rr', 'c13_assign.cpp', 1, {'n': 6, 'g': 4}, covers=['C13 groups'], srcs=C13S), H('lb_1d', 'c13_assign.cpp', 1, {'lb': 1, 'n': 4, 'g': 3}, covers=['C13 groups'], srcs=C13S), H('lb_2d', 'c13_assign.cpp', 1, {'lb': 1, 'n': 4, 'g': 3, 'dim': 2, 'hi': 2, 'split': 1}, covers=['C13 groups'], srcs=C13S),
  H('sys', 'c13_assign.cpp', 1, {'what': 1}, covers=['C13 systems'], srcs=C13S), H('lb_t', 'c13_assign.cpp', 1, {'lb': 1, 'n': 5, 'g': 3, 'hi': 4, 'b00': 1}, covers=['C13 groups'], srcs=C13S, tier='thorough')],
  'round robin: up to 6 grids on up to 4 groups; load balanced: up to 4 grids (1-D) and 3 grids (2-D) on up to 3 groups; systems: up to 6 grids on up to 3 systems with any fractions; levels, coefficients and fractions symbolic', 'more grids and groups; assignments read from files')

# ------------------------------------------------------------------ C18
C18S = ['src/rescheduler/RebalancingTaskRescheduler.cpp', 'src/loadmodel/AverageOfLastNLoadModel.cpp', 'src/loadmodel/LinearLoadModel.cpp', 'src/utils/LevelVector.cpp']
def c18():
    f = lambda name, what, cfg, **k: H(name, 'c18_resched.cpp', 1, dict(cfg, what=what), covers=['C18 ' + ['moves', 'average', 'linear'][what]], srcs=C18S, **k)
    return [f('moves', 0, {'g': 2, 'hi': 63}), f('moves3', 0, {'g': 3, 'hi': 31, 'it': 1}), f('moves_other', 0, {'other': 1, 'g': 2, 'hi': 15}), f('average', 1, {}), f('linear', 2, {}), f('moves4', 0, {'n': 4, 'g': 2, 'hi': 15, 'it': 1}),
      f('moves_t', 0, {'n': 4, 'g': 3, 'hi': 31, 'it': 3}, tier='thorough', t=3000), f('moves3_t', 0, {'g': 3, 'hi': 1023, 'it': 2}, tier='thorough', t=3000), f('average_t', 1, {'N': 5, 'k': 8}, tier='thorough', t=3000)]
prop('C18', c18(), 'rescheduler: up to 3 tasks on 2 and 3 groups (4 tasks for one iteration), any assignment, up to 2 iterations, symbolic durations up to 63 microseconds (31 with 3 groups, 15 with a forecast that differs from the measurement or 4 tasks), minimum imbalance 0, 0.75, 1.5; load model: up to 5 recorded symbolic durations below 2^44 microseconds, N up to 3; linear model: up to 4 dimensions, levels up to 7', 'longer durations and more tasks in the rescheduler; that no load rises is claimed when the forecast equals the measured duration; AnisotropyLoadModel (reads exactly four dimensions) and AveragingLoadModel (reads measurement files)')

# ------------------------------------------------------------------ C20
def c20():
    f = lambda name, what, cfg, **k: H(name, 'c20_fullgrid.cpp', 1, dict(cfg, what=what), covers=['C20 ' + ['indices', 'eval', 'add', 'hier', 'norms'][what]], **k)
    return [f('idx_1d', 0, {'l00': 7}), f('idx_2d', 0, {'dim': 2, 'l00': 3, 'l01': 3}), f('idx_3d', 0, {'dim': 3, 'l00': 2, 'l01': 2, 'l02': 2}), f('idx_4d', 0, {'dim': 4, 'l00': 2, 'l01': 1, 'l02': 1, 'l03': 2, 'b01': 2}),
      f('eval_1d', 1, {'l00': 4}), f('eval_2d', 1, {'dim': 2, 'l00': 2, 'l01': 2}), f('eval_3d', 1, {'dim': 3, 'l00': 1, 'l01': 2, 'l02': 1, 'b01': 2}),
      f('add_1d', 2, {'l00': 3}), f('add_2d', 2, {'dim': 2, 'l00': 2, 'l01': 1}), f('hier_1d', 3, {'l00': 5}), f('hier_2d', 3, {'dim': 2, 'l00': 3, 'l01': 3}), f('hier_3d', 3, {'dim': 3, 'l00': 2, 'l01': 2, 'l02': 2}), f('norm_1d', 4, {'l00': 2}), f('eval_1d_6', 1, {'l00': 6, 'lmin': 5}), f('eval_3d_all', 1, {'dim': 3, 'l00': 1, 'l01': 1, 'l02': 1}), f('hier_1d_7', 3, {'l00': 7, 'lmin': 6}),
      f('eval_2d_t', 1, {'dim': 2, 'l00': 3, 'l01': 3}, tier='thorough'), f('add_2d_t', 2, {'dim': 2, 'l00': 3, 'l01': 2}, tier='thorough'), f('hier_4d_t', 3, {'dim': 4, 'l00': 2, 'l01': 2, 'l02': 2, 'l03': 2}, tier='thorough'), f('eval_4d_t', 1, {'dim': 4, 'l00': 1, 'l01': 2, 'l02': 1, 'l03': 1}, tier='thorough')]
prop('C20', c20(), 'index conversions, coordinates, level/index notation: all levels up to 7 (1-D), 3 (2-D), 2 (3-D, 4-D); evaluation: levels up to 6 (1-D), 2 (2-D), (1,2,1) (3-D), coordinates and all values symbolic; addition of grids of any two levels up to 3 (1-D) and (2,1) (2-D); hierarchization: levels up to 7, (3,3), (2,2,2); every boundary flag; l1 and maximum norm up to level 2', 'serial hierarchization of one-sided boundaries (not supported by the code), gridEval, addGENE and construction from a sparse grid (do not compile when used), files')

# ------------------------------------------------------------------ C14
MPIS = ['src/mpi/MPISystem.cpp', 'src/mpi/OpenMPUtils.cpp', 'src/utils/Stats.cpp']
def c14():
    f = lambda name, n, cfg, **k: H(name, 'c14_layout.cpp', n, cfg, covers=['C14 done'], srcs=MPIS, **k)
    return [f('reuse_%d' % n, n, {'how': 0}) for n in range(1, 10)] + [f('init_%d' % n, n, {'how': 1}, native=n < 10) for n in range(1, 19)] + [f('lcomm_%d' % n, n, {'how': 2}, native=n < 10) for n in range(2, 13)] + [f('reuse_%d_t' % n, n, {'how': 0}, tier='thorough', native=False) for n in (10, 11, 12, 13, 16)] + [f('init_%d_t' % n, n, {'how': 1}, tier='thorough', native=False) for n in range(19, 34)]
prop('C14', c14(), 'every factorisation into groups and processes per group, with and without a manager, of 1 to 9 processes (initWorldReusable, twice with any two layouts, with any two numbers of output file parts that divide the group size), 1 to 18 processes (init), 2 to 12 (init with a given local communicator)', 'more processes; fault tolerant communicators (ENABLE_FT is off in the shipped build); file parts that do not divide the group size')

# ------------------------------------------------------------------ C15
C15S = MPIS + SG_SRCS
def c15():
    f = lambda name, n, what, cfg, **k: H(name, 'c15_chunks.cpp', n, dict(cfg, what=what), covers=['C15 ' + ['chunks', 'limits', 'reduce'][what]], srcs=C15S, **k)
    return [f('chunks', 1, 0, {}), f('chunks5', 1, 0, {'n': 5, 'hi': 1 << 16}, tier='thorough', t=3000), f('mib', 1, 1, {}), f('mib_c', 1, 1, {'type': 1}), f('mib_f', 1, 1, {'type': 2}),
      f('sg_n2', 2, 2, {'how': 0}), f('sg_n3', 3, 2, {'how': 0, 'ns': 2}), f('sub_n2', 2, 2, {'how': 1}), f('sub_n3', 3, 2, {'how': 1, 'ns': 2}), f('out_n2', 2, 2, {'how': 2}), f('out_n3', 3, 2, {'how': 2, 'ns': 2}), f('chk_n2', 2, 2, {'how': 3}), f('chk_n3', 3, 2, {'how': 3, 'ns': 2}),
      f('sg_c', 2, 2, {'how': 0, 'type': 1, 'ns': 2}), f('sub_c', 2, 2, {'how': 1, 'type': 1, 'ns': 2}),
      f('sg_big', 2, 2, {'how': 0, 'big': 1, 'ns': 2}, cost=9), f('sub_big', 2, 2, {'how': 1, 'big': 1, 'ns': 2, 'hlo': 3}, cost=9), f('out_big', 2, 2, {'how': 2, 'big': 1, 'ns': 2, 'hlo': 3}, cost=9), f('chk_big', 2, 2, {'how': 3, 'big': 1, 'ns': 2, 'hlo': 3}, cost=9)]
prop('C15', c15(), 'chunking: up to 4 subspaces with any sizes up to 2^31-1 and any limit (symbolic), every subset; MiB limits: all 2^32 values for double, float, complex; reductions (whole sparse grid, per subspace communicator, outgroup, outgroup chunk by chunk) and the broadcasts of 2 and 3 process groups, up to 3 subspaces held by any subset of the groups, all values symbolic, reduction to all or to any one group; the same with two subspaces of 1, C-1, C, C+1 elements around the chunk of one MiB (C = 131072 doubles; the first, middle and last element of each subspace symbolic)', 'more groups; more than two chunks per communicator with real data; OpenMP threads')

# ------------------------------------------------------------------ C08 / C09
C08S = MPIS + SG_SRCS + SCHEME_SRCS[:1] + SCHEME_SRCS[2:] + ['src/manager/ProcessGroupWorker.cpp', 'src/fault_tolerance/StaticFaults.cpp', 'src/fault_tolerance/FaultCriterion.cpp', 'src/io/FileInputOutput.cpp', 'src/utils/MonteCarlo.cpp']
def c08():
    f = lambda name, n, cfg, **k: H(name, 'c08_combine.cpp', n, cfg, covers=['C08 combined'], srcs=C08S, **k)
    return [f('1d_g2', 2, {'tasks': 3, 'lmax00': 3}), f('1d_g3', 3, {'G': 3, 'tasks': 3, 'lmax00': 3}), f('1d_g2p2', 4, {'p00': 2, 'tasks': 2, 'lmax00': 3}), f('1d_red', 2, {'tasks': 2, 'lmax00': 4, 'red': 2}), f('1d_twice', 2, {'tasks': 2, 'lmax00': 3, 'rounds': 2}), f('1d_split', 2, {'tasks': 2, 'lmax00': 3, 'rounds': 2, 'split': 1, 'b00': 2}),
      f('2d_g2', 2, {'dim': 2, 'tasks': 2, 'lmax00': 2, 'lmax01': 2}), f('2d_scheme', 2, {'dim': 2, 'lmax00': 3, 'lmax01': 3, 'b00': 2, 'b01': 1}), f('2d_g2p2', 4, {'dim': 2, 'p01': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 2}), f('2d_g3', 3, {'dim': 2, 'G': 3, 'lmax00': 2, 'lmax01': 2}), f('2d_split', 4, {'dim': 2, 'p00': 2, 'lmax00': 2, 'lmax01': 2, 'split': 1, 'red': 1, 'b00': 2, 'b01': 2, 'assign': 0}), f('2d_g1', 2, {'dim': 2, 'G': 1, 'p00': 2, 'lmax00': 2, 'lmax01': 2}), f('3d_scheme', 2, {'dim': 3, 'lmax00': 2, 'lmax01': 2, 'lmax02': 2, 'b00': 2, 'b01': 0, 'b02': 1}),
      f('1d_g2_4', 2, {'tasks': 4, 'lmax00': 4}, tier='thorough'), f('1d_g3p2', 6, {'G': 3, 'p00': 2, 'tasks': 3, 'lmax00': 3}, tier='thorough'), f('2d_g4', 4, {'dim': 2, 'G': 4, 'lmax00': 3, 'lmax01': 3, 'b00': 2, 'b01': 2}, tier='thorough'), f('2d_any3', 3, {'dim': 2, 'G': 3, 'tasks': 3, 'lmax00': 2, 'lmax01': 2, 'b00': 2}, tier='thorough'), f('2d_g2p4', 8, {'dim': 2, 'p00': 2, 'p01': 2, 'lmax00': 2, 'lmax01': 3, 'b00': 2, 'b01': 2, 'assign': 0}, tier='thorough')]
prop('C08', c08(), '2 and 3 process groups of 1 and 2 processes (one group of 2), every assignment of the grids that leaves no group empty; 2 or 3 component grids of any levels up to 4 (1-D) and (2,2) (2-D) with coefficients 1, -2, 3, and the schemes with maximum level (3,3), (2,2) and (2,2,2); every boundary flag (fixed in the larger cases) and decomposition; every combination variant; combination in one go and as reduce and distribute, once and twice; maximum level reduced by up to 2; hierarchical coefficients all symbolic', 'more groups, larger grids; several chunks in one combination (chunking itself: C15); more than one grid per task; groups without a grid; the exchange between systems')
def c09():
    f = lambda name, what, n, cfg, **k: H(name, 'c08_combine.cpp', n, dict(cfg, what=what), covers=['C09 ' + ['', 'common', 'again'][what]], srcs=C08S, **k)
    j = []
    for w, p in ((1, 'c'), (2, 'i')):
        j += [f(p + '_1d_g1', w, 2, {'G': 1, 'p00': 2, 'lmax00': 3}), f(p + '_2d_g2', w, 2, {'dim': 2, 'lmax00': 2, 'lmax01': 2}), f(p + '_2d_g2p2', w, 4, {'dim': 2, 'p00': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 2}, cost=5), f(p + '_2d_33', w, 2, {'dim': 2, 'lmax00': 3, 'lmax01': 3, 'assign': 0, 'b00': 2, 'red': 1}, cost=5), f(p + '_2d_43', w, 2, {'dim': 2, 'lmax00': 4, 'lmax01': 3, 'lmin00': 2, 'assign': 0, 'b01': 2}, cost=5), f(p + '_2d_g3', w, 3, {'dim': 2, 'G': 3, 'lmax00': 2, 'lmax01': 2, 'b00': 1, 'rounds': 2}), f(p + '_3d', w, 2, {'dim': 3, 'lmax00': 2, 'lmax01': 2, 'lmax02': 2, 'assign': 0, 'b00': 2, 'b01': 2, 'b02': 2}, cost=5),
          f(p + '_2d_g2p4', w, 8, {'dim': 2, 'p00': 2, 'p01': 2, 'lmax00': 3, 'lmax01': 2, 'assign': 0, 'b00': 2, 'b01': 2}, tier='thorough'), f(p + '_2d_44', w, 2, {'dim': 2, 'lmax00': 4, 'lmax01': 4, 'assign': 0, 'b00': 2}, tier='thorough')]
    j += [f('i_2d_split', 2, 2, {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'split': 1})]
    return j
prop('C09', c09(), 'adaptive schemes with maximum level 3 (1-D), (2,2), (3,3), (4,3) with minimum (2,1), (2,2,2); 1 to 3 process groups of 1 and 2 processes, every assignment of the grids to groups for (2,2), alternating otherwise; every boundary flag (fixed in the larger cases), every admissible basis per dimension, every decomposition, every combination variant, maximum level reduced by up to 1; all values (idempotence) or all common hierarchical coefficients symbolic', 'larger schemes and more processes; combination across systems')

# ------------------------------------------------------------------ C10
def c10():
    f = lambda name, n, cfg, **k: H(name, 'c01_hier.cpp', n, dict(cfg, mass=1, use=0), covers=['C10 mass'], **k)
    g = lambda name, n, cfg, **k: H(name, 'c08_combine.cpp', n, dict(cfg, what=3), covers=['C10 combined'], srcs=C08S, **k)
    return [f('1d_n1', 1, {'l00': 5}), f('1d_n2', 2, {'p00': 2, 'l00': 4}), f('1d_n3', 3, {'p00': 3, 'l00': 3}), f('2d_n1', 1, {'dim': 2, 'l00': 3, 'l01': 2}), f('2d_n2', 2, {'dim': 2, 'p00': 2, 'l00': 2, 'l01': 2}), f('2d_n4', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2, 'b00': 2}), f('3d_n1', 1, {'dim': 3, 'l00': 2, 'l01': 1, 'l02': 2}), f('1d_cplx', 2, {'p00': 2, 'l00': 3, 'cplx': 1}),
      g('c_1d', 2, {'G': 1, 'p00': 2, 'lmax00': 3}), g('c_2d_g2', 2, {'dim': 2, 'lmax00': 2, 'lmax01': 2}), g('c_2d_33', 2, {'dim': 2, 'lmax00': 3, 'lmax01': 3, 'assign': 0, 'b00': 2}), g('c_2d_g2p2', 4, {'dim': 2, 'p01': 2, 'lmax00': 2, 'lmax01': 2, 'b01': 2, 'assign': 0}), g('c_3d', 2, {'dim': 3, 'lmax00': 2, 'lmax01': 2, 'lmax02': 2, 'assign': 0, 'b00': 2, 'b01': 2, 'b02': 1, 'variant': 0}),
      f('2d_n4_t', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 3, 'l01': 3, 'b00': 2, 'b01': 1}, tier='thorough'), f('3d_n2_t', 2, {'dim': 3, 'p01': 2, 'l00': 2, 'l01': 2, 'l02': 2}, tier='thorough'), f('1d_n4_t', 4, {'p00': 4, 'l00': 5}, tier='thorough'), g('c_2d_44_t', 2, {'dim': 2, 'lmax00': 4, 'lmax01': 4, 'assign': 0}, tier='thorough')]
prop('C10', c10(), 'hierarchization: levels up to 5 (1-D), (3,2) (2-D), (2,1,2) (3-D) on up to 4 processes, every coarsest level, one- and two-sided boundaries, full weighting and biorthogonal bases (periodic or not), every decomposition; combination: adaptive schemes with maximum level 3 (1-D), (2,2), (3,3), (2,2,2) on 1 and 2 groups of 1 and 2 processes; all values symbolic', 'higher levels; the hat bases, which do not conserve mass; rounding')

# ------------------------------------------------------------------ C11 / C12
def c11():
    f = lambda name, n, cfg, **k: H(name, 'c11_grid.cpp', n, dict(cfg, what=0), covers=['C11 eval'], **k)
    g = lambda name, n, cfg, **k: H(name, 'c08_combine.cpp', n, dict(cfg, what=4, variant=0), covers=['C11 combined'], srcs=C08S, **k)
    return [f('1d_n1', 1, {'l00': 4}), f('1d_n2', 2, {'p00': 2, 'l00': 3}), f('1d_n3', 3, {'p00': 3, 'l00': 3, 'lmin': 2}), f('1d_two', 2, {'p00': 2, 'l00': 2, 'coords': 2}), f('2d_n1', 1, {'dim': 2, 'l00': 2, 'l01': 2}), f('2d_n2', 2, {'dim': 2, 'p00': 2, 'l00': 2, 'l01': 1}), f('2d_n4', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 1, 'l01': 1}), f('3d_n1', 1, {'dim': 3, 'l00': 1, 'l01': 1, 'l02': 1, 'b00': 2}, cost=5),
      g('c_1d', 2, {'G': 1, 'p00': 2, 'lmax00': 3, 'coords': 2}), g('c_2d_g2', 2, {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 2}, cost=6), g('c_2d_g2p2', 4, {'dim': 2, 'p00': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 1, 'assign': 0}),
      f('1d_n4_t', 4, {'p00': 4, 'l00': 4, 'lmin': 3}, tier='thorough'), f('2d_n4_t', 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2, 'lmin': 2}, tier='thorough'), f('3d_n2_t', 2, {'dim': 3, 'p02': 2, 'l00': 1, 'l01': 1, 'l02': 2, 'b00': 2}, tier='thorough')]
prop('C11', c11(), 'distributed grids with levels up to 4 (1-D), (2,2) (2-D), (1,1,1) (3-D) on up to 4 processes, every boundary flag and decomposition; one or two coordinates, each anywhere in any cell (symbolic) or exactly on a multiple of the mesh width including 0 and 1; interpolation of the combined solution: schemes with maximum level 3 (1-D) and (2,2) on 1 and 2 groups of 1 and 2 processes; all values symbolic', 'higher levels and dimensions; writing interpolated values to HDF5 files; rounding of coordinates within one unit of a cell boundary')
def c12():
    f = lambda name, what, n, cfg, **k: H(name, 'c11_grid.cpp', n, dict(cfg, what=what), covers=[['', 'C12 collect', 'C12 norms', 'C12 ghost', 'C12 plot'][what]], **k)
    j = []
    for w, nme in ((1, 'coll'), (3, 'ghost'), (4, 'plot')):
        j += [f(nme + '_1d_n3', w, 3, {'p00': 3, 'l00': 3}), f(nme + '_2d_n1', w, 1, {'dim': 2, 'l00': 2, 'l01': 2}), f(nme + '_2d_n2', w, 2, {'dim': 2, 'p01': 2, 'l00': 2, 'l01': 2}), f(nme + '_2d_n4', w, 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 2, 'l01': 2}), f(nme + '_2d_n6', w, 6, {'dim': 2, 'p00': 2, 'p01': 3, 'l00': 2, 'l01': 2, 'b00': 2 if w != 3 else 1}), f(nme + '_3d_n4', w, 4, {'dim': 3, 'p00': 2, 'p02': 2, 'l00': 1, 'l01': 2, 'l02': 1, 'lmin': 1}),
              f(nme + '_2d_n4_t', w, 4, {'dim': 2, 'p00': 2, 'p01': 2, 'l00': 3, 'l01': 3}, tier='thorough'), f(nme + '_3d_n8_t', w, 8, {'dim': 3, 'p00': 2, 'p01': 2, 'p02': 2, 'l00': 2, 'l01': 2, 'l02': 2, 'lmin': 2}, tier='thorough')]
    j += [f('norm_1d_n2', 2, 2, {'p00': 2, 'l00': 2}, cost=5), f('norm_1d_n3', 2, 3, {'p00': 3, 'l00': 2, 'b00': 2}, cost=5), f('norm_2d_n2', 2, 2, {'dim': 2, 'p01': 2, 'l00': 1, 'l01': 1, 'pn': 1}, cost=4), f('norm_2d_max', 2, 2, {'dim': 2, 'p01': 2, 'l00': 1, 'l01': 1, 'pn': 0, 'b01': 1}, cost=4)]
    mm = lambda name, n, cfg, **k: H('minmax_' + name, 'c12_minmax.cpp', n, cfg, covers=['C12 minmax'], srcs=SG_SRCS, **k)
    j += [mm('1d', 1, {'l00': 3}), mm('1d_n2', 2, {'p00': 2, 'l00': 3, 'rounds': 1}), mm('partial', 1, {'l00': 3, 'partial': 1, 'b00': 1}, cost=4), mm('clear', 1, {'l00': 2, 'clear': 1}), mm('cplx', 1, {'l00': 2, 'cplx': 1}), mm('2d', 1, {'dim': 2, 'l00': 2, 'l01': 2, 'lmin': 2, 'b00': 1, 'b01': 0, 'rounds': 1})]
    return j
prop('C12', c12(), 'levels up to 3 (1-D, 3 processes), (2,2) (2-D, up to 6 processes), (1,2,1) (3-D, 4 processes), every boundary flag (fixed in the larger cases) and decomposition, every root; ghost layers and boundary copy in every direction; norms (p = 0, 1, 2) up to level 2 (1-D), p = 0, 1 at level (1,1) (2-D) with one value of any sign and the others of fixed sign; binary plot files; smallest and largest coefficient of every subspace (one subspace symbolic, the others negative and positive numbers), accumulated twice with every subset allocated; all values symbolic', 'larger grids; the text file of the smallest and largest coefficients; grids with one-sided boundary in some but not all dimensions for the ghost exchange (the communicator is periodic in all dimensions or none); VTK and HDF5 output, .raw headers')

# ------------------------------------------------------------------ C16
C16S = MPIS + SG_SRCS
def c16():
    f = lambda name, what, n, cfg, **k: H(name, 'c16_io.cpp', n, dict(cfg, what=what), covers=['C16 ' + ['values', 'values'][what]], srcs=C16S, msrcs=['vlz4.cpp'], **k)
    return [f('raw_n1', 0, 1, {'nhi': 4}), f('raw_n2', 0, 2, {}), f('raw_n3', 0, 3, {'nhi': 2}), f('raw_c', 0, 2, {'type': 1, 'nhi': 2}),
      f('lz4_n1', 1, 1, {'nhi': 4}), f('lz4_n2', 1, 2, {}), f('lz4_n3', 1, 3, {'nhi': 2}), f('lz4_sink', 1, 2, {'nhi': 4, 'sink': 8}), f('lz4_c', 1, 2, {'type': 1, 'nhi': 3, 'sink': 16})]
prop('C16', c16(), 'up to 4 values on 1 rank, 3 on each of 2 ranks, 2 on each of 3 ranks, independently per rank; every buffer size from 1; raw and LZ4 compressed; reading, reading and adding, reading two files and combining them, replacing an existing longer file, expecting one value more or less on any rank; stream buffer of 16 and 24 bytes for compressed reading; double and complex; all values symbolic', 'compression itself (LZ4 is modelled); more than 2^31 bytes per rank; file systems that fail')

# ------------------------------------------------------------------ C17
def c17():
    f = lambda name, what, cfg, **k: H(name, 'c17_socket.cpp', 1, dict(cfg, what=what), covers=['C17 ' + ['plain', 'prefixed', 'lengths', 'binary', 'forward', 'early', 'send'][what]], srcs=['src/third_level/NetworkUtils.cpp'], **k)
    return [f('plain', 0, {'nhi': 5}), f('prefixed', 1, {'nhi': 3}), f('prefixed_12', 1, {'lo': 11, 'nhi': 12, 'sends': 1}), f('lengths', 2, {}), f('bin_16', 3, {'type': 0, 'nhi': 3, 'sends': 1}), f('bin_32', 3, {'type': 1, 'sends': 1, 'pieces': 5}), f('bin_64', 3, {'type': 2, 'sends': 1, 'pieces': 3, 'chunk': 100}), f('bin_d', 3, {'type': 3, 'sends': 1, 'pieces': 3, 'chunk': 13, 'red': 0}), f('bin_c', 3, {'type': 4, 'sends': 1, 'pieces': 2, 'chunk': 100, 'red': 0, 'unit': 8}),
      f('forward', 4, {}), f('early', 5, {'sends': 1}), f('send', 6, {})]
prop('C17', c17(), 'messages up to 5 (plain), 3 and 12 bytes (length-prefixed, followed by a second message), announced lengths up to 2^40; binary transfers of up to 3 numbers of 16, 2 of 32, 64 bits, double and complex, both byte orders, receiving and adding, every chunk size (fixed for the wider types); every way the stream is cut into pieces (the first 2 to 5 pieces for the wider types, then the rest in one piece), for sending in up to 2 pieces; forwarding of up to 4 bytes with every chunk size; connections that end or fail after any number of bytes; all bytes symbolic', 'longer messages and more pieces; recvallBinaryToFile (C++ file streams are not modelled; its over-read was repaired from reading the code); connection setup, select, strings other than numbers as announced length')

# ------------------------------------------------------------------ C21
C21S = C08S
def c21():
    f = lambda name, n, cfg, **k: H(name, 'c21_systems.cpp', n, cfg, covers=['C21 systems'], srcs=C21S, msrcs=['vlz4.cpp', 'vfs.cpp'], **k)
    return [f('1d_s2', 2, {'tasks': 2, 'lmax00': 3}), f('1d_s2_3', 2, {'tasks': 3, 'lmax00': 2, 'late': 0}), f('1d_s2g2', 4, {'G': 2, 'tasks': 4, 'lmax00': 2, 'late': 0, 'b00': 2}), f('1d_s2p2', 4, {'p00': 2, 'tasks': 2, 'lmax00': 3, 'late': 0}), f('1d_s2p2_parts', 4, {'p00': 2, 'parts': 2, 'tasks': 2, 'lmax00': 2, 'rounds': 2}), f('1d_s2g2p2', 8, {'G': 2, 'p00': 2, 'tasks': 4, 'lmax00': 2, 'late': 0, 'b00': 2, 'assign': 0}), f('1d_s2_twice', 2, {'tasks': 2, 'lmax00': 3, 'rounds': 2, 'b00': 2}),
      f('1d_s3', 3, {'S': 3, 'tasks': 3, 'lmax00': 2, 'b00': 2}), f('1d_s1', 2, {'S': 1, 'G': 2, 'tasks': 2, 'lmax00': 3, 'rounds': 2, 'late': 0}), f('1d_s1p2', 4, {'S': 1, 'G': 2, 'p00': 2, 'parts': 2, 'tasks': 2, 'lmax00': 2, 'rounds': 2, 'late': 0}), f('1d_red', 2, {'tasks': 2, 'lmax00': 4, 'red': 2, 'late': 0}),
      f('2d_s2', 2, {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'late': 0}), f('2d_s2g2', 4, {'dim': 2, 'G': 2, 'lmax00': 3, 'lmax01': 3, 'b00': 2, 'b01': 1, 'late': 0, 'assign': 0}), f('2d_s2p2', 4, {'dim': 2, 'p01': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 2, 'late': 0}), f('2d_any', 2, {'dim': 2, 'tasks': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 2, 'b01': 2})]
prop('C21', c21(), '1-D up to level 4 and 2-D up to level 3, up to 4 component grids, up to 3 systems x 2 groups x 2 processes per group (at most 8 processes), all boundary kinds, all assignments of the grids to systems and groups (fixed in the two largest jobs), the two combination variants supported across systems, one and two file parts, one or two combinations in sequence, files kept or removed; the other system late or not (every process also yields before and after each file operation); grid values symbolic', 'more processes, dimensions and levels; real file system delays such as files that become visible in part although the writing call returned; several readers in one directory; the third-level manager and its sockets')

# ------------------------------------------------------------------ C22
C22S = C08S + ['src/fault_tolerance/LPOptimizationInterpolation.cpp', 'src/fault_tolerance/WeibullFaults.cpp', 'src/fault_tolerance/FTUtils.cpp', 'src/manager/ProcessManager.cpp', 'src/manager/ProcessGroupManager.cpp', 'src/third_level/ThirdLevelUtils.cpp', 'src/third_level/NetworkUtils.cpp']
def c22():
    f = lambda name, n, cfg, **k: H(name, 'c22_manager.cpp', n, cfg, covers=['C22 manager'], srcs=C22S, msrcs=['vlz4.cpp', 'vfs.cpp', 'vser.cpp'], defs=['@ser'], **k)
    l2 = {'tasks': 2, 'lmax00': 2}
    return [f('one command', 3, {**l2, 'steps': 1, 'delays': 1}),
            f('three commands', 3, {**l2, 'b00': 2, 'steps': 3, 'delays': 0}, cost=60),
            f('three commands periodic', 3, {**l2, 'b00': 1, 'steps': 3, 'op00': 1, 'delays': 0}),
            f('combination and a command, order of the groups', 3, {'tasks': 3, 'lmax00': 3, 'b00': 2, 'steps': 2, 'op00': 1, 'delays': 1}, cost=30),
            f('run and a command, order of the groups', 3, {**l2, 'b00': 2, 'steps': 2, 'op00': 0, 'delays': 2}),
            f('costs', 3, {'tasks': 3, 'lmax00': 3, 'b00': 1, 'costs': 2, 'steps': 1, 'op00': 1, 'delays': 1}),
            f('three groups', 4, {'G': 3, 'tasks': 3, 'lmax00': 3, 'b00': 1, 'steps': 2, 'op00': 1, 'delays': 0}),
            f('two processes per group', 5, {**l2, 'p00': 2, 'b00': 2, 'steps': 3, 'op00': 1, 'delays': 0}, cost=20),
            f('2d scheme', 3, {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'b00': 1, 'b01': 2, 'steps': 2, 'op00': 1, 'nonorm': 1, 'coordlo': 6, 'delays': 0}),
            f('outgroup reduce', 3, {**l2, 'b00': 2, 'steps': 2, 'op00': 1, 'variant': 2, 'delays': 0}),
            f('chunked reduce', 3, {**l2, 'b00': 2, 'steps': 2, 'op00': 1, 'variant': 3, 'delays': 0}),
            f('synchronous sends', 3, {**l2, 'b00': 1, 'steps': 2, 'delays': 0, 'sendmode': 1}),
            f('late status', 3, {**l2, 'b00': 2, 'steps': 4, 'op00': 1, 'op01': 2, 'op02': 2, 'op03': 4, 'coordlo': 8, 'lag': 9, 'early': 1, 'delays': 0}, cost=40),
            f('late status, any command', 3, {**l2, 'b00': 1, 'steps': 2, 'op00': 1, 'coordlo': 8, 'lag': 4, 'early': 1, 'delays': 0}, cost=40),
            f('across systems', 2, {**l2, 'G': 1, 'b00': 2, 'steps': 2, 'op00': 9, 'delays': 0}),
            f('four commands', 3, {**l2, 'b00': 1, 'steps': 4, 'op00': 1, 'delays': 0}, tier='thorough'),
            f('2d scheme three commands', 5, {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'p00': 2, 'b00': 1, 'b01': 2, 'steps': 3, 'op00': 1, 'nonorm': 1, 'coordlo': 7, 'delays': 0}, tier='thorough')]
prop('C22', c22(), 'one manager with 2 groups (3 in one job, 1 for the combination across systems) of 1 and 2 processes; 2 or 3 one-dimensional grids up to level 3 or the 2-D scheme up to level 2; every history of up to 3 commands (4 in the late-status job and in the thorough tier) after the first run; every combination of delays of the tasks, every order of costs, every boundary kind, moved task, group that evaluates, coordinate in eighths; the status of one group arriving after the next command in the late-status jobs; synchronous (unbuffered) sends in one job; symbolic grid values', 'commands over sockets to a third-level manager; HDF5 output; reading grids or schemes from files; more groups and longer histories; the encoding inside boost archives (modelled as raw bytes; real boost in the native conformance runs); reschedule, parallelEval and minimum/maximum output other than directly after a combination with sparseGridReduce')

def c23():
    f = lambda name, cfg, **k: H(name, 'c23_faults.cpp', 2, cfg, covers=['C23 faults'], srcs=C22S, msrcs=['vlz4.cpp', 'vfs.cpp', 'vser.cpp', 'vglpk.cpp'], defs=['@ser'], **k)
    return [f('2d l3 all', {'dim': 2, 'lmax00': 3, 'lmax01': 3, 'flo': 1, 'fhi': 6}),
            f('2d l3 any order', {'dim': 2, 'lmax00': 3, 'lmax01': 3, 'fhi': 3, 'anyorder': 1}),
            f('2d l4', {'dim': 2, 'lmax00': 4, 'lmax01': 4, 'fhi': 5}),
            f('2d l2', {'dim': 2, 'lmax00': 2, 'lmax01': 2, 'fhi': 2}),
            f('2d l6', {'dim': 2, 'lmax00': 6, 'lmax01': 6, 'lmin00': 2, 'lmin01': 2, 'fhi': 2}),
            f('2d shifted', {'dim': 2, 'lmin00': 3, 'lmax00': 6, 'lmin01': 2, 'lmax01': 5, 'fhi': 3}),
            f('3d one fixed', {'dim': 3, 'lmin00': 2, 'lmax00': 2, 'lmax01': 4, 'lmax02': 4, 'fhi': 3}),
            f('3d last fixed', {'dim': 3, 'lmin02': 3, 'lmax02': 3, 'lmax01': 4, 'lmax00': 4, 'fhi': 3}),
            f('3d l3', {'dim': 3, 'fhi': 3}),
            f('3d l4', {'dim': 3, 'lmax00': 4, 'lmax01': 4, 'lmax02': 4, 'fhi': 2}),
            f('3d l4 three', {'dim': 3, 'lmax00': 4, 'lmax01': 4, 'lmax02': 4, 'flo': 3, 'fhi': 3}, cost=60),
            f('3d l4 triangle', {'dim': 3, 'lmax00': 4, 'lmax01': 4, 'lmax02': 4, 'fhi': 6, 'flo': 6, 'special': 1, 'anyorder': 1}),
            f('4d l3', {'dim': 4, 'fhi': 2}),
            f('2d l5 four', {'dim': 2, 'lmax00': 5, 'lmax01': 5, 'flo': 3, 'fhi': 4}, tier='thorough'),
            f('3d l4 four', {'dim': 3, 'lmax00': 4, 'lmax01': 4, 'lmax02': 4, 'flo': 4, 'fhi': 4}, tier='thorough')]
prop('C23', c23(), 'schemes with equal level differences per refined dimension: 2-D with 2 to 5 levels, 3-D with 3 and 4 levels and with one fixed dimension, 4-D with 3 levels; every set of up to 6 lost grids (2-D, 3 levels), 5 (2-D, 4 levels), 3 (3-D), 2 (4-D) and one set of 6 in 3-D; any optimal solution GLPK may return (up to 8 per problem)', 'GLPK itself (modelled: any optimal solution of the integer program it is given); schemes with different level differences; the loss of every grid; more lost grids; the faults themselves (FaultCriterion, simulated failures, respawn of process groups)')

# ------------------------------------------------------------------ C24
def c24():
    f = lambda name, n, cfg, **k: H(name, 'c24_thirdlevel.cpp', n, cfg, covers=['C24 exchange'], srcs=C22S + ['~c24_broker.cpp', 'third_level_manager/System.cpp', 'third_level_manager/Stats.cpp'], msrcs=['vlz4.cpp', 'vfs.cpp', 'vser.cpp'], defs=['@ser', '@net'], **k)
    return [f('one command', 5, {}),
            f('three commands', 5, {'b00': 2, 'steps': 3, 'assign': 0, 'delays': 0}),
            f('two exchanges', 5, {'b00': 1, 'steps': 2, 'op00': 0, 'op01': 0, 'delays': 2}),
            f('two groups', 7, {'G': 2, 'tasks': 4, 'b00': 1, 'op00': 0, 'delays': 0}),
            f('extra two groups', 7, {'G': 2, 'tasks': 4, 'extra': 1, 'b00': 1, 'op00': 0, 'delays': 0}),
            f('extra two groups of two', 11, {'G': 2, 'p00': 2, 'tasks': 4, 'lmin00': 2, 'extra': 1, 'b00': 1, 'op00': 0, 'assign': 0, 'delays': 0}),
            f('two processes', 7, {'p00': 2, 'b00': 2, 'steps': 2, 'delays': 0}),
            f('extra', 5, {'extra': 1, 'b00': 1, 'steps': 2, 'delays': 0}),
            f('2d', 5, {'dim': 2, 'b00': 1, 'b01': 2, 'assign': 0, 'delays': 0}),
            f('chunks', 5, {'b00': 2, 'chunk': 8, 'assign': 0, 'op00': 0, 'delays': 0}),
            f('synchronous', 5, {'b00': 1, 'steps': 2, 'delays': 0, 'sendmode': 1})]
prop('C24', c24(), 'two systems of 1 and 2 groups of 1 and 2 processes, each with its manager, and the broker; 2 to 4 grids of any level up to 2 (1-D) or in the 2-D sparse grid of level 2, every distribution over the systems, every boundary kind (1-D), every order in which the systems connect, every group that exchanges, any delay of either system in the first steps; after the unification of the sizes (with and without extra sparse grid) up to 3 commands out of exchange, run, combination within the systems, evaluation at common points; symbolic grid values; broker chunks of 8 and 4096 bytes; synchronous sends in one job', 'fragmentation of the stream inside a send (C17); more than two systems (the broker supports two); the exchange of files through the broker (the worker side is C21); combination variants other than sparseGridReduce (a group then lacks the subspaces of the others); broken connections; the broker command line')
