#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
F = []
def fixed(p, c, w): F.append(dict(property=p, status='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, w)))
def known(p, match, w): F.append(dict(property=p, status='known', match=match, what=w))
fixed('C02', 'a842de0', 'non-periodic BiorthogonalBasisFunction was transformed with the full weighting kernels (boundary 2, level 1, biorthogonal)')
fixed('C03', '1c309da', 'getLocalLinearIndex(global linear index) is wrong on more than one rank (2x2 ranks, no boundary, level (2,2), cut 1)')
fixed('C07', '660a470', 'createKahanBuffer cleared sizeof(pointer) per element: stale compensation terms for complex data, heap overflow for float')
fixed('C07', 'fc3b4bc', 'getIndexInRange read before levels_ after a level that is not in the sparse grid (1-D, sparse grid {2}, grid level 2)')
fixed('C05', '24e623c', 'adaptive schemes for different level differences per dimension were not created (2-D, lmin (1,1), lmax (3,2))')
fixed('C05', '1cbb44d', 'the classical scheme with lmin == lmax contained no grid')
fixed('C05', '0cf58d2', 'dimensions that are not refined were re-inserted with the level of another dimension')
fixed('C05', 'b9bc446', 'classical schemes with more than 255 grids got coefficients from a loop with an 8 bit counter (endless loop)')
fixed('C06', '55b7da1', 'HypercubeDownSetGenerator stopped when a level vector had a dimension of level one at its end')
fixed('C06', '987fab6', 'points of level one at a partition bound were counted on the neighbouring process')
fixed('C18', '6115876', 'AverageOfLastNLoadModel::evalSpecificUOT converted NaN to an integer without recorded durations')
fixed('C18', '9102015', 'AverageOfLastNLoadModel::evalSpecificUOT summed durations in an int: wrong forecast above 2^31 microseconds')
fixed('C18', 'f61377d', 'RebalancingTaskRescheduler divided by zero when the measured durations sum up to less than the number of tasks')
fixed('C20', 'b824ce3', 'FullGrid::eval at coordinates above one half with one point in a dimension and more than one dimension (missing parentheses)')
fixed('C15', '6861643', 'getGlobalReduceChunkSize overflowed int: 16384 MiB of doubles gave a negative chunk size, 32768 MiB zero')
fixed('C11', '3c89220', 'evaluation of a grid with one-sided boundary at a coordinate of exactly 1 gave 0 instead of the periodic value')
fixed('C12', '8630815', 'writePlotFile wrote the dimension as one byte and always six resolutions (read past the end of a vector of size dim), so the header did not match the data offset')
fixed('C16', '0521288', 'readReduceValuesConsecutive and readMultipleReduceValuesConsecutive called the collective read a different number of times per rank when the ranks hold different numbers of values (0 and 1 value, buffer 1)')
fixed('C16', 'e130251', 'compressed files: a rank without values could not be read (1 rounds), a file with more or fewer values than expected was not reported (or written past the end of the buffer), decompression errors were not detected, the stream buffer overflowed for complex data above 4 MiB')
fixed('C17', 'd5035a3', 'recvallBinaryAndCorrectInPlace/AndReduceInPlace lost bytes when an element tail arrives in several pieces; reverseEndianness swapped one byte too few and complex numbers wrongly; message lengths from 2^31 on; recvallBinaryToFile read past the end of the message')
fixed('C23', '7ed3663', 'coefficients taken from the LP relaxation instead of the integer solution (3-D, lmax 4, lost (3,1,1),(2,2,1),(2,1,2),(4,1,1),(2,3,1),(2,1,3): fractional coefficients)')
fixed('C23', '214da2f', 'grids lost only on lower diagonals were neither recomputed nor handed out again (2-D, lmax 3, grid 5)')
fixed('C22', '4cafc7f', 'writeSparseGridMinMaxCoefficients signalled only the last group: no file, unmatched reduction')
fixed('C12', '77ee18b', 'maximum coefficient started at numeric_limits::min(): wrong for subspaces with only negative coefficients')
fixed('C22', 'd518517', 'arguments received in unspecified evaluation order: file and token names swapped (gcc), parallelEval deadlock under synchronous sends')
fixed('C22', '620fc32', 'doDiagnostics left the status of the group unreceived')
fixed('C22', '29e6225', 'a pending status was overwritten after two interpolateValues; parallelEval returned before the file existed')
fixed('C24', 'cdc3645', 'the broker divided by zero when writing its statistics after a run without combination')
fixed('C24', '15a3752', 'extra sparse grid on a third level group that is not in the output group: operation on MPI_COMM_NULL (2 groups of 1 process, third level group 1)')
fixed('C22', '753361a', 'runfirst gave a second task to a fast group while another one was still busy with the parameters and got none (integration/test_1 failed in 1 of 6 runs of the original tree)')
json.dump(dict(findings=F), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
