"""The registry of checks: targets to build, commands to run, non-triviality rule."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def cpp(ident, rule, flavor='opt', extra_targets=(), assumptions=()):
    t = '%s/%s' % (flavor, ident)
    return dict(targets=[t] + list(extra_targets), runs=lambda b: [([b.path(t)], None)], rule=rule, assumptions=list(assumptions))
def py(ident, rule, targets=('opt/vvflow',), assumptions=()):
    return dict(targets=list(targets), runs=lambda b: [(['python3-vt', os.path.join(V, 'harness', ident + '.py')], None)], rule=rule, assumptions=list(assumptions))
CHECKS = {}
CHECKS['C05'] = cpp('C05', 'random simple polygons (regular, rectangle, ellipse, star; both orientations; shifted, rotated) and motions; non-trivial: more than 3 corners, or more than one motion step')
NA = {}
CHECKS['C06'] = cpp('C06', 'random simple polygons, both orientations, moved or not, and query points in the box, near edges, exactly level with corners, on edge lines; non-trivial: at least one point off the outline was asked')
CHECKS['C03'] = cpp('C03', 'fractions with small, decimal, prime and extreme denominators, step sequences, decimals of up to nine digits; non-trivial: different denominators / several steps / non-zero / not a whole number')
CHECKS['C09'] = cpp('C09', 'expressions printed from random syntax trees with random spacing and parentheses, malformed texts, copies, random evaluation orders and threads; non-trivial: more than one evaluation in the history')
CHECKS['C01'] = cpp('C01', 'spaces with every saved member set (special floats, long and odd texts, linked bodies, up to 700 particles per list and 1000 bodies), loaded into fresh and used spaces; non-trivial: holds bodies or vortices / replaces another problem / is illegal')
CHECKS['C10'] = cpp('C10', 'particle clouds (uniform, clustered, collinear, lattice, multi-scale, coincident) over six orders of size, bodies, tree parameters, repeated builds; non-trivial: the tree has more than one leaf')
CHECKS['C11'] = cpp('C11', 'vortices, sinks, moving bodies with slip segments, incoming flow; points at, near and far from particles and surfaces; one-leaf and multi-leaf trees; non-trivial: at least one point with a finite error bound, and more than one leaf for the fast method')
CHECKS['C27'] = cpp('C27', 'random well-conditioned systems (dense, permutation, dominant, sparse; scaled), histories over sizes, entries, places of the unknowns, direct and inverse solving; singular and empty systems; non-trivial: more than one solve in the history')
CHECKS['C13'] = cpp('C13', 'particle clouds with close pairs of equal and opposite sign, bodies near and far, tree parameters; non-trivial: a core size was compared / at least one merger happened')
CHECKS['C12'] = cpp('C12', 'particle clouds near, on and away from surfaces, computed and arbitrary core sizes, Reynolds and Prandtl numbers, tree parameters; lone and coincident particles; non-trivial: some particle has a neighbour or a surface within reach')
CHECKS['C14'] = cpp('C14', 'particles of three kinds with velocities toward and away from bodies, bodies of both orientations, moving, linked; slip and tiny segments; schedules as fractions; several steps of heat under every heat condition; non-trivial: something was absorbed / shed / due / a chain of three / more than one step')
CHECKS['C15'] = cpp('C15', 'bodies of every shape (also thin, with sides of different fineness), moving, sprung, linked, with stops; vortices, sinks, incoming flow; trees; repeated solving with changing vortices and motion; non-trivial: several bodies or free vortices / more than two solves')
CHECKS['C17'] = cpp('C17', 'one to four bodies of every shape, density, stiffness, damping, links, prescribed motions, histories, stops and gravities; ellipses with known added mass; collisions; histories of whole steps; non-trivial: springs are in force / several steps')
CHECKS['C04'] = py('C04', 'one to four sessions (new, again, continued from a snapshot by the command line or a script, several runs in one script) with start times, steps, schedules and finish times as random fractions and decimals; sensors; captions; non-trivial: at least two steps, and several sessions or a snapshot', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C02'] = py('C02', 'random problems (bodies fixed, moving, sprung, linked; viscous or not; vortices, sinks, streak sources), stopped at a random snapshot and continued by the command line, by a script, from the snapshot alone, twice; runs killed at a random file write or solution; non-trivial: bodies or vortices, and steps after the snapshot', targets=('opt/vvflow', 'opt/h5json', 'so/faults'))
CHECKS['C18'] = py('C18', 'runs of random problems of up to four (or about a hundred) bodies that save every step, with and without profiles, fresh or over the files of another problem; non-trivial: bodies and more than one step', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C16'] = py('C16', 'random problems (irregular bodies with springs, links, motion, slip; vortices; sinks; viscous or not) run as they are and shifted, turned, scaled, mirrored, seen from a moving frame; non-trivial: more than one snapshot compared', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C07'] = py('C07', 'parameters of all eight generators with N or segment lengths from coarse to fine; refusals: one parameter missing, superfluous, ill-typed, not positive, out of its range, or far too coarse; non-trivial: every case', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C08'] = py('C08', 'random scripts of up to sixty operations on the space, its lists, bodies, vectors, expressions and handles, one in six of them ill-typed or illegal; every value read is compared with a plain model, and so is the snapshot saved at the end; non-trivial: more than five operations', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C20'] = cpp('C20', 'grids of 2 to 200 columns and rows with dyadic, small and far-off origins; values generic, tied, mostly zero, infinite, of any size, any bit pattern; damaged field files; non-trivial: more than four nodes / every damaged file')
CHECKS['C21'] = cpp('C21', 'grids of random values, planes, saddles, cones and few-valued fields with one or many levels, without exact coincidences; non-trivial: more than two edges are crossed')
CHECKS['C22'] = cpp('C22', 'vortices, sinks, fixed and moving bodies with slip segments and strengths, incoming flow, grids crossing bodies, every reference frame, smoothing factors, numbers of threads, sub-grids; non-trivial: holds bodies or vortices')
CHECKS['C19'] = py('C19', 'snapshots saved by scripts or runs of random problems with odd texts and extreme numbers, and step histories; every requested table, the list of tables, the summary; missing tables, groups, damaged and missing files, bad options; non-trivial: every case', targets=('opt/vvflow', 'opt/vvxtract', 'opt/h5json'))
CHECKS['C29'] = py('C29', 'text and binary files of random rows (decimal, hexadecimal, exponents, infinities, tabs, long gaps, line ends, things that are no number, trailing bytes) read into lists that hold something; body files with, without and with some slip columns; missing and unreadable files; non-trivial: more than one row', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C30'] = py('C30', 'argument lists of odd words, options before, between and after -- ; failing scripts, ill-posed problems, missing, damaged and binary inputs, places that are taken, with and without earlier results; random problems simulated from the script and from its snapshot; non-trivial: at least one argument / every failure / bodies and more than one step', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C31'] = py('C31', 'files of the binary format 1.3 with sections in any order and place, every list and condition; snapshots whose body conditions are rewritten in the earlier notation; snapshots without the attributes earlier versions did not write; each is loaded, saved, compared with what it holds, and continued beside the present form of the same problem; non-trivial: there is a body (v13, hdf) or something is missing', targets=('opt/vvflow', 'opt/vvplot', 'opt/vvxtract', 'opt/h5json', 'opt/h5damage', 'so/faults'))
CHECKS['C32'] = py('C32', 'runs of random problems with an ink source in every sensor, sensors in any spelling; the ink that leaves a source tells the velocity there; non-trivial: the velocity of some sensor at some step is compared', targets=('opt/vvflow', 'opt/h5json'))
CHECKS['C24'] = py('C24', 'snapshots of random problems (bodies with equal, reserved and odd labels; particles; nothing at all) and random options in any order, as archive, as picture with a stand-in for gnuplot that records what it is given, and as real picture read back pixel by pixel; bad options, inputs, targets and fields; non-trivial: something is drawn / every refusal', targets=('opt/vvflow', 'opt/vvplot', 'opt/h5json', 'opt/vvfields'))
CHECKS['C23'] = py('C23', 'snapshots of both formats, archives, fields, lists, body files, scripts and expressions with bytes changed, cut, inserted; snapshots whose attributes, tables, links and types are replaced by others (any type, rank, size); each damaged snapshot is read by a sanitized build, followed by a good one which is saved over it; writes that fail at any point; non-trivial: every case', targets=('opt/vvflow', 'opt/vvplot', 'asan/vvflow', 'asan/vvxtract', 'asan/vvplot', 'opt/h5json', 'opt/h5damage', 'so/faults'))
CHECKS['C25'] = py('C25', 'random tables (waves, ties, constants, offsets, values of very different size) with headers and comments anywhere, spelled in different formats and spacing, as one file, two files or standard input; columns, limits (also of zero), spans, divisors; non-trivial: more than two rows', targets=())
CHECKS['C26'] = py('C26', 'random options in any order, tables with and without headers, names with blanks, quotes and other odd characters; pictures of the real gnuplot compared with those of an independent script; stand-ins that record how gnuplot, exiv2 and ffmpeg are called; bad invocations; non-trivial: every case', targets=())
CHECKS['C28'] = py('C28', 'runs of random problems (bodies of up to 150 segments, crowds of up to 900 vortices) and their four kinds of fields with 2 to 16 threads under schedules perturbed by a preloaded library (other chunk sizes, threads held up at their start, chunks, barriers and critical sections), compared with one thread; repeated exactly with one thread; non-trivial: every run and field', targets=('opt/vvflow', 'opt/vvfields', 'opt/h5json', 'so/omp'))
CHECKS['C33'] = py('C33', 'runs of random problems (bodies with springs, links, motion, stops and heat; crowds of close vortices; sinks, ink), every saved snapshot compared with that of the stated sequence of stages; non-trivial: a snapshot after the first step is compared, and there are bodies or vortices', targets=('opt/vvflow', 'opt/vvstep', 'opt/h5json'))
