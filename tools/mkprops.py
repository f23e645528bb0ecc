#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
L='libvvhd/src/'; H='libvvhd/headers/'; U='utils/vvflow/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','A snapshot holds the whole state: load(save(S)) is S',
  'Saving a problem to a snapshot file and loading it back, into a fresh space or into one that already holds something else, restores exactly the saved problem: all scalar settings, exact time variables, expressions, gravity, every body (its corners, per-corner flags, links, mechanical and accumulated state, in order) and every particle list in order. Nothing the space held before the load survives it. Saving the loaded space again writes the same data.',
  ['inputs','histories'],'every space a user can compose or a simulation can reach, and every earlier content of the space it is loaded into',
  'The tests load two small snapshots made by the tool itself and look at a few values; they never compare a whole reloaded state, nor load over a populated space.',
  [L+'TSpace_save_hdf.cpp',L+'TSpace_load_hdf.cpp',L+'TSpace.cpp',L+'vvhdf.cpp',L+'vvhdf_h5t.cpp'],
  [('save to HDF5',L+'TSpace_save_hdf.cpp: Space::save'),('load from HDF5',L+'TSpace_load_hdf.cpp: Space::load_hdf'),('format dispatch and clearing',L+'TSpace.cpp: Space::load')],
  ['Space::save / Space::load; S:save and S:load in Lua'])
p('C02','Continuing from a snapshot reproduces the uninterrupted run',
  'A simulation stopped or killed at any saved moment and continued from that snapshot ends in the same state, and leaves the same snapshots and the same step history, as the run that was never stopped. Continuing twice from the same snapshot gives the same result.',
  ['crash_points','histories','configurations'],'every problem that a script can state, with moving, sprung and linked bodies, without zero-thickness bodies, and every moment at which the run may stop or be killed',
  'The tests continue no run; whether all state needed to continue is in the snapshot can only be seen by running on from it.',
  [L+'TSpace_save_hdf.cpp',L+'TSpace_load_hdf.cpp',L+'MStepdata.cpp',U+'vvflow.cpp',L+'MFlowmove.cpp'],
  [('all step-to-step state is in the snapshot',L+'TSpace_save_hdf.cpp'),('snapshot taken at the point of the step where the loop can be re-entered',U+'vvflow.cpp: simulate'),('step history cut at the restart time',L+'MStepdata.cpp')],
  ['results_<caption>/*.h5, stepdata_<caption>.h5'])
p('C03','Simulation time is exact rational arithmetic',
  'Times and time steps given as fractions or decimals are held as exact fractions: their sums, and the question whether one is a whole multiple of another, agree with exact arithmetic whenever the values fit the 32-bit numerator and denominator. A value set from a decimal number of up to nine digits is exactly that decimal, never a neighbouring fraction; a number of steps and schedules given as decimals or fractions agree; and a value printed as text reads back as the same fraction.',
  ['inputs','histories'],'all representable times, steps and schedules, and all sequences of additions',
  'The tests use three or four round decimal values; the arithmetic goes wrong only for particular numerators and denominators.',
  [H+'TTime.hpp',U+'getset.cpp'],
  [('fraction reduction, lcm, add, compare, divisibility',H+'TTime.hpp'),('setting from Lua numbers and strings',U+'getset.cpp')],
  ['TTime public operations; S.dt, S.time, S.finish in Lua'])
p('C04','Output schedule: the right files at the right times',
  'A run advances the time by exactly dt per step, up to the step nearest the finish time (every step with time before finish + dt/2), and writes a snapshot exactly at every non-negative step time that is a whole multiple of dt_save, named by its index time/dt and holding that time. The step history has exactly one row per step with that step time (the sensor file gets one more line in every step of every run), whatever the start time, restart or earlier files; rows from an abandoned later part of an earlier run are dropped and earlier rows kept.',
  ['configurations','histories'],'all combinations of start time, dt, dt_save, dt_profile, finish time, restarts',
  'The tests run two fixed schedules; off-by-one and divisibility errors depend on the combination of times.',
  [U+'vvflow.cpp',L+'MStepdata.cpp',H+'TTime.hpp',U+'sensors.cpp'],
  [('main loop and snapshot condition',U+'vvflow.cpp: simulate'),('step history open/append/truncate',L+'MStepdata.cpp'),('sensor rows',U+'sensors.cpp')],
  ['names and time attributes of results_*/…h5, rows of stepdata_*.h5, velocity_* files'])
p('C05','Body geometry and rigid motion agree with the corner polygon',
  'Surface length, signed area, centre of mass, moments of inertia, segment vectors, mid points and bounds of a body are those of the closed polygon through its corners, also far from the origin. Moving a body by a displacement and an angle moves every corner as a rigid motion about the body axis: it keeps lengths, area and moments, carries the centre of mass and axis along, and consecutive moves compose.',
  ['inputs','histories'],'all simple polygons, thin and open-slip bodies, all motions and sequences of motions, all linked bodies',
  'The tests check the area and centre of mass of one square and one circle.',
  [L+'TBody.cpp',H+'TBody.hpp'],
  [('derived properties',L+'TBody.cpp: doFillProperties, doUpdateSegments'),('rigid motion',L+'TBody.cpp: move')],
  ['TBody public getters; body getters in Lua'])
p('C06','Point-inside-body test agrees with the polygon',
  'A point is reported to be inside a body exactly when it is inside the polygon of its corners (for an inside-out body: exactly when it is outside), for every point that is not on the boundary itself. The answer does not depend on earlier queries or motions of the body, and moves with the body; the heat layer of a body holds exactly the points near its surface; what is found is charged to the segment nearest to it.',
  ['inputs','histories'],'all polygons (convex, concave, reversed), all points off the boundary, all motions in between',
  'The tests query one square and one circle at a few points.',
  [L+'TBody.cpp'],
  [('point-in-polygon with bounding box shortcut',L+'TBody.cpp: isPointInvalid'),('heat layer test',L+'TBody.cpp: isPointInHeatLayer')],
  ['TBody::isPointInvalid'])
p('C07','Shape generators build the documented shape',
  'Every body generator returns a closed outline of the documented shape and orientation with the documented dimensions, the requested number of segments or segments no longer than the requested length allows for each piece of the outline, nearly uniform segments, and slip flags only where documented. Missing, superfluous, ill-typed or out-of-range parameters, and numbers of segments too small for the shape, are refused with an error instead of yielding a body. The table of parameters stays as it was given.',
  ['inputs'],'all parameter combinations accepted by each generator, and all refusals',
  'The tests build one cylinder, one plate and compare nothing but counts.',
  [U+'gen_body.cpp',U+'gen_cylinder.cpp',U+'gen_ellipse.cpp',U+'gen_parallelogram.cpp',U+'gen_plate.cpp',U+'gen_gis.cpp',U+'gen_box.cpp',U+'gen_savonius.cpp'],
  [('parameter extraction and refusal',U+'gen_body.cpp'),('shape construction',U+'gen_*.cpp')],
  ['gen_* functions in Lua scripts'])
p('C08','The Lua object model behaves like plain typed containers',
  'Within a script, every settable member of the space, bodies, vectors, particles and lists reads back the value last written to it, and nothing else changes; lists and bodies behave like sequences under insertion, append, erase, clear, indexing, iteration and length; objects are shared by reference where they are elements (as long as these exist) and copied where they are values. A wrongly typed, unknown or out-of-range assignment or access raises an error naming the problem and leaves the state unchanged (an append with a bad item appends nothing), and a problem that cannot be saved is refused without writing anything.',
  ['programs','histories'],'all sequences of script operations on the exposed objects, legal and illegal',
  'The one scripted test walks a fixed list of operations once each.',
  [U+'getset.cpp',U+'lua_space.cpp',U+'lua_tbody.cpp',U+'lua_tobj.cpp',U+'lua_tvec.cpp',U+'lua_tvec3d.cpp',U+'lua_teval.cpp',U+'lua_objlist.cpp',U+'lua_bodylist.cpp'],
  [('member access by name and type',U+'getset.cpp'),('containers',U+'lua_objlist.cpp, '+U+'lua_bodylist.cpp, '+U+'lua_tbody.cpp')],
  ['Lua scripts run by vvflow'])
p('C09','Time-dependent expressions evaluate to their mathematical value',
  'An expression of time evaluates, for every time and in any order of evaluation, to the value of the formula as written under the usual precedence, independent of other expressions and of previous evaluations, and copies evaluate alike. Text that is not a valid expression is refused and leaves the previous expression in force, and the text of an expression reads back as it was given.',
  ['inputs','histories'],'all expressions in the documented grammar and malformed texts, all times, all interleavings of several expressions, copies and threads',
  'The tests evaluate three expressions at one time each.',
  [L+'TEval.cpp',H+'TEval.hpp'],
  [('compilation, evaluation and caching',L+'TEval.cpp')],
  ['TEval; S.inf_vx, body.speed_x… in Lua'])
p('C10','The spatial tree partitions space and covers every interaction once',
  'After the tree is built, every element it was asked to take belongs to exactly one leaf, no element is lost or duplicated or altered, each node encloses its elements, and its aggregate strengths and centres are those of the elements below it. For every leaf the near and far lists together cover every other leaf exactly once, a far node is separated by the requested criterion, and looking up the position of an element returns the leaf that holds it.',
  ['inputs','histories'],'all particle clouds (clustered, collinear, coincident, huge) and bodies, all tree parameters, repeated build and destroy',
  'No test builds a tree on its own.',
  [L+'TSortedTree.cpp',H+'TSortedTree.hpp'],
  [('splitting and node limits',L+'TSortedTree.cpp: DistributeObjects'),('near/far classification',L+'TSortedTree.cpp: FindNearNodes'),('aggregates',L+'TSortedTree.cpp: CalculateCMass')],
  ['stree public interface'])
p('C11','Fast velocity equals the direct vortex sum',
  'The velocity the fast method gives at any point or particle equals the direct sum of the induced velocities of all vortices, sinks, body surfaces and the incoming flow, up to the error of replacing each group the tree calls far by its two centres, for any particle distribution and tree parameters. When nothing is far it equals the direct sum to rounding, and the total of per-part contributions is the whole.',
  ['inputs','configurations'],'all particle clouds, sinks, bodies with any motion and slip flags, incoming flows, tree parameters and evaluation points',
  'The tests compare no velocities with a direct sum.',
  [L+'MConvectiveFast.cpp',L+'TSortedTree.cpp',H+'elementary.h'],
  [('near sum, far clusters, Taylor expansion in a leaf, bodies, sinks',L+'MConvectiveFast.cpp')],
  ['MConvectiveFast velocity and process functions'])
p('C12','Diffusive velocity equals its defining sums',
  'With viscosity, the diffusive velocity of each vortex and heat particle and the friction and heat flow at each body segment equal the sums that define them, over the particles and segments of the near leaves and cut at eight core sizes, for any neighbour configuration including same-sign, opposite-sign and zero strengths; friction at the segments adds up to the friction and the moment about its axis of each body. Nothing becomes infinite or not a number. An inert particle gets none and disturbs none.',
  ['inputs'],'all particle clouds near and away from bodies, all Reynolds and Prandtl numbers and tree parameters',
  'The tests look at no diffusive velocity.',
  [L+'MDiffusiveFast.cpp',L+'TSortedTree.cpp'],
  [('pairwise sums and surface terms',L+'MDiffusiveFast.cpp')],
  ['MDiffusiveFast, particle velocities, segment friction'])
p('C13','Particle core sizes follow neighbours; merging conserves circulation',
  'The core size of each particle follows the distance to its neighbours in the near leaves with the lower bound set by the nearest body surface. Merging never changes the total circulation, combines only particles of the same sign that are close together by the stated rule, puts the merged particle at their strength-weighted centre, and loses no other particle.',
  ['inputs'],'all particle clouds with and without bodies, with same-sign and opposite-sign pairs, all tree parameters',
  'The tests check no core size and no conservation.',
  [L+'MEpsilonFast.cpp'],
  [('two nearest neighbours search and merging criteria',L+'MEpsilonFast.cpp')],
  ['MEpsilonFast results on vortex and heat lists'])
p('C14','Moving, absorbing and shedding particles balance exactly',
  'In one step each particle moves by its velocity times dt (plus any body correction), and is removed only if it entered a body, left the heat layer or carries nothing; what is removed inside a body is credited to that body, so that the total circulation and the body accounts balance, with all survivors untouched. Shedding creates exactly one particle per no-slip segment of non-zero strength, just outside it and with that strength; heated surfaces shed heat by their condition; and every streak source emits exactly at its schedule.',
  ['inputs','histories'],'all particle lists, bodies, motions, slip flags and schedules',
  'The tests check no particle balance.',
  [L+'MFlowmove.cpp'],
  [('move and remove',L+'MFlowmove.cpp: move_and_clean'),('shedding',L+'MFlowmove.cpp: vortex_shed, heat_shed, streak_shed')],
  ['particle lists before and after a step'])
p('C15','Surface circulations satisfy the boundary conditions',
  'The segment circulations computed each step make the flow satisfy the boundary condition of each body at every segment: no flow through the segment relative to the body own motion, the prescribed circulation balance, zero circulation on slip segments and the chosen special-segment condition. The shortcut that reuses an inverted matrix gives the same result as solving directly, whatever was solved before.',
  ['inputs','histories','configurations'],'all bodies, flows, motions, particle clouds, and histories of solving with changing geometry',
  'The tests never evaluate the flow at a surface.',
  [L+'MConvectiveFast.cpp',L+'TMatrix.cpp'],
  [('equations and right-hand side',L+'MConvectiveFast.cpp: calc_circulation, fill_matrix'),('solution with cached inverse',L+'TMatrix.cpp')],
  ['body segment strengths after the circulation step'])
p('C16','Whole runs respect the symmetries of the flow equations',
  'Running the same problem shifted, rotated by a right angle, mirrored, or seen from a frame moving with constant speed gives the same run shifted, rotated, mirrored or moved, in particles, forces and step history, up to rounding and growth of it. Scaling all lengths and speeds consistently scales the results.',
  ['inputs','configurations'],'all problems with bodies, viscous or inviscid, over short runs',
  'One test compares two frames of reference for one fixed body and checks the sum of forces.',
  [L+'MConvectiveFast.cpp',L+'MFlowmove.cpp',L+'MDiffusiveFast.cpp',L+'MEpsilonFast.cpp',L+'TSortedTree.cpp',L+'TBody.cpp',L+'TSpace.cpp'],
  [('every step of the time loop',U+'vvflow.cpp: simulate')],
  ['snapshots and step history of vvflow runs'])
p('C17','Bodies move by Newton and Hooke laws under the computed forces',
  'A body with a prescribed motion follows it exactly; a body on springs or linked to another body moves so that in every step mass times acceleration equals the sum of fluid, gravity, spring (-stiffness times offset), damping (-damping times relative speed) and link forces, for translation and rotation alike, and the link force acts oppositely on its root. Positions advance by the solved velocities, and a body driven into its stop never passes it and leaves it with its bounce.',
  ['inputs','histories','configurations'],'all densities, stiffnesses, dampings, gravities, links, prescribed motions and stops',
  'The tests use bodies with prescribed motion only.',
  [L+'MConvectiveFast.cpp',L+'MFlowmove.cpp',L+'TSpace.cpp',L+'TBody.cpp'],
  [('Newton, Hooke, Hydro and Speed equations',L+'MConvectiveFast.cpp'),('collision time step',L+'MFlowmove.cpp'),('forces',L+'TSpace.cpp: calc_forces')],
  ['body positions, speeds and forces in snapshots and step history'])
p('C18','The step history records the state of each step faithfully',
  'Every row of the step history holds, under the name of each quantity and body, the values that the corresponding snapshot state yields at that step: time, body positions, speeds, spring offsets, forces and friction. Profile datasets hold the surface pressure (the running sum of what the segments shed, over dt) and the surface friction, one value per segment, and columns of different bodies are never mixed. A history left by another problem is replaced.',
  ['configurations','histories'],'all numbers of bodies, names, motions, profile schedules and run lengths',
  'The tests read two force columns of one run.',
  [L+'MStepdata.cpp',L+'TSpace.cpp'],
  [('datasets and columns',L+'MStepdata.cpp')],
  ['stepdata_<caption>.h5 against snapshots'])
p('C19','vvxtract prints exactly what the snapshot holds',
  'For any snapshot, vvxtract prints each requested list, body, member and the summary with the values the snapshot holds, one line per item and in order, tables to seven significant digits and the summary to six. Requests for anything absent and unreadable files are reported with a failure status.',
  ['inputs','configurations'],'all snapshots and all request options',
  'No test compares the output of vvxtract with the contents of a snapshot.',
  ['utils/vvxtract/vvxtract.cpp','utils/vvxtract/optparse.cpp'],
  [('printing',"utils/vvxtract/vvxtract.cpp")],
  ['stdout and exit status of vvxtract'])
p('C20','Fields: sampling, statistics and file round trip are exact',
  'A sampled field holds at each grid node the value of the sampled formula, reports its true extremes and percentiles (the value below which the given share of the nodes lies), and reads back bit for bit from the file it was written to. A file that is no field is refused.',
  ['inputs'],'all grids, values including infinities and NaN, all expressions of fields',
  'The tests evaluate one formula on one grid.',
  [L+'XField.cpp',H+'XField.hpp'],
  [('field storage, percentiles, map and file format',L+'XField.cpp')],
  ['XField public operations, vvplot field files'])
p('C21','Isolines are the level sets of the field',
  'The lines drawn for a level pass between neighbouring grid nodes exactly where linear interpolation reaches that level, cover every grid edge that the level crosses, and cross no other edge. Lines are connected, end only on the grid boundary or close on themselves, and do not depend on the other requested levels. A node whose value is exactly the level counts as lying above it. Where the field has a cut (a sink), the cells above it use the values with the jump added, and lines may end at the cut.',
  ['inputs'],'all fields, levels and grids',
  'The tests only compare that pictures can be drawn.',
  [L+'XIsoline.cpp',H+'XIsoline.hpp'],
  [('segments and chaining',L+'XIsoline.cpp')],
  ['isoline output'])
p('C22','Derived fields agree with the flow they are computed from',
  'Velocity, streamfunction, pressure and vorticity fields computed from a snapshot (with the vortices about to leave the surfaces) equal, at every grid node outside bodies, their defining sums over the particles, bodies and incoming flow of that snapshot in the requested reference frame, and are mutually consistent: the streamfunction differs between nodes by the flux of the velocity, both up to the error of replacing far groups by their centres. They do not depend on the rest of the grid, and computing a field leaves the problem unchanged.',
  ['inputs','configurations'],'all snapshots, grids and reference frames',
  'The tests draw two pictures and compare nothing with a reference.',
  [L+'XVelocity.cpp',L+'XStreamfunction.cpp',L+'XPressure.cpp',L+'XVorticity.cpp'],
  [('evaluation on the grid',L+'X*.cpp: evaluate')],
  ['XField values of the derived fields'])
p('C23','Unreadable or damaged input is refused, never crashes or corrupts',
  'Whatever bytes a snapshot, field, list, body file, archive or script contains - truncated, damaged, of another format, of unexpected shape or size - reading it either succeeds or is refused with an error; the program never crashes, hangs, reads or writes outside its memory, or ends without a message (faults inside the HDF5 library itself excepted). A refused file leaves nothing of it in the problem and can be replaced, a write that fails is reported, and after a refusal the program can go on to load a good file.',
  ['inputs','fault_sequences'],'all byte sequences offered as any supported input file, and failing writes',
  'The tests only offer good files.',
  [L+'TSpace.cpp',L+'TSpace_load_hdf.cpp',L+'TSpace_load_v13.cpp',L+'XField.cpp',L+'TEval.cpp'],
  [('format checks and error reports',L+'TSpace.cpp, '+L+'TSpace_load_*.cpp, '+L+'XField.cpp')],
  ['exit status and messages, sanitizer reports'])
p('C24','vvplot draws the data of the snapshot it is given',
  'For every snapshot and set of options vvplot plots precisely the requested data: the requested rectangle and grid, the bodies, particles, fields and isolines of that snapshot, in the requested reference frame, ranges and colours; fields it stored before in an archive are used as given and draw the same picture as the snapshot. Invalid options and missing inputs end with a message and a failure status and leave no output.',
  ['configurations','inputs'],'all option combinations and snapshots',
  'The tests draw two pictures with a handful of options and check that files appear.',
  ['utils/vvplot/vvplot.cpp','utils/vvplot/optparse.cpp','utils/vvplot/gnuplotter.cpp'],
  [('option parsing',"utils/vvplot/optparse.cpp"),('data preparation and gnuplot script',"utils/vvplot/vvplot.cpp")],
  ['gnuplot commands and data produced by vvplot, exit status'])
p('C25','Table tools compute the stated statistics',
  'The vvawk tools compute, for any numeric table and the selected column, limits and span, the average, standard deviation, amplitude, derivative, moving average and zero crossings as stated in their usage texts, within rounding. Lines beginning with # are never taken for data; the derivative and the moving average pass them on. Results do not depend on how numbers are spelled, on the column being the default, or on the table coming from a file or a pipe.',
  ['inputs','configurations'],'all numeric tables, column selections and intervals',
  'No test runs these tools.',
  ['utils/scripts/vvawk.ampl','utils/scripts/vvawk.avg','utils/scripts/vvawk.drv','utils/scripts/vvawk.mavg','utils/scripts/vvawk.sd','utils/scripts/vvawk.zeros'],
  [('awk programs',"utils/scripts/vvawk.*")],
  ['stdout of the scripts'])
p('C26','gpquick and vvencode pass on exactly what was asked',
  'gpquick turns its arguments into a gnuplot script that plots exactly its standard input with the requested columns, ranges, style, grid and size into the named file, or prints that script; vvencode encodes exactly the frames of the given mask into the named file with the comment of the first frame. The status of gnuplot and ffmpeg is passed on, for names with blanks, quotes and other odd characters as well. Bad invocations end with a message and a failure status, without producing output.',
  ['configurations'],'all argument lists',
  'No test runs these scripts.',
  ['utils/scripts/gpquick','utils/scripts/vvencode'],
  [('argument handling',"utils/scripts/gpquick, utils/scripts/vvencode")],
  ['the generated gnuplot script and ffmpeg command'])
p('C27','The linear solver solves the system it was filled with',
  'For every well-conditioned system the solver returns the solution of exactly the equations it was given, whether it solves directly, reuses an earlier factorisation or an earlier inverse, and whatever was solved before with other sizes or entries. A singular or empty system is reported and does not crash.',
  ['inputs','histories'],'all well-conditioned systems and sequences of fills, resizes, reuse and solves',
  'No test uses the solver on its own.',
  [L+'TMatrix.cpp',H+'TMatrix.hpp'],
  [('hash-guarded reuse and LAPACK calls',L+'TMatrix.cpp')],
  ['Matrix public interface'])
p('C28','Results do not depend on the number of threads',
  'Every run, field and extracted quantity is the same for every number of threads and every schedule of them, up to rounding of sums taken in a different order, and repeating a run with one thread reproduces it exactly.',
  ['schedules','configurations'],'all problems and thread counts',
  'The tests run with one thread.',
  [L+'MConvectiveFast.cpp',L+'MDiffusiveFast.cpp',L+'MEpsilonFast.cpp',L+'MFlowmove.cpp',L+'TSortedTree.cpp',L+'XPressure.cpp',L+'XVelocity.cpp',L+'XVorticity.cpp',L+'TEval.cpp'],
  [('parallel loops over leaves',L+'M*.cpp'),('evaluation lock',L+'TEval.cpp')],
  ['snapshots and fields at different OMP_NUM_THREADS'])
p('C29','Text and binary particle and body files load what they contain',
  'A list or body file written by the tools, or any table in the documented text or binary layout, loads as exactly those particles or corners in order, appended to what the list held; slip and boundary columns are honoured and default when absent. A text list is read up to the first thing that is no number and a binary list up to its last whole record; a body file with a malformed line, and any file that cannot be read, is reported and adds nothing.',
  ['inputs'],'all lists, tables and number spellings',
  'The tests load no list or body file.',
  [L+'TSpace.cpp',U+'lua_objlist.cpp',U+'lua_tbody.cpp',U+'lua_space.cpp'],
  [('text and binary readers and writers',L+'TSpace.cpp: load_list_*, load_body_txt')],
  ['list:load / save methods and load_body in Lua'])
p('C30','vvflow run contract: arguments, errors and exit status',
  'vvflow runs the given script or snapshot and hands it the arguments that follow it (everything after -- and words that are no options), makes failures of a script or a simulation visible as a message and a failure status, and succeeds silently otherwise. An ill-posed problem - no positive dt or re, links that form a loop or leave the list, bodies without segments, a special segment out of range - is refused before anything is overwritten, and a problem simulated directly from its snapshot gives the same files as one simulated from its script.',
  ['programs','configurations'],'all command lines and scripts',
  'The tests run three scripts and one argument list.',
  [U+'vvflow.cpp',U+'optparse.cpp'],
  [('option parsing',U+'optparse.cpp'),('script execution and exit status',U+'vvflow.cpp')],
  ['exit status, stdout, stderr and files of vvflow'])
p('C31','Files of earlier formats open as the problem they hold',
  'A file of the binary format 1.3 opens as the problem it holds: times, parameters, expressions, lists, and bodies with their segments, slip, special segment, heat condition, springs (negative constants: rigid) and forces, wherever its sections stand in the file. A snapshot in the earlier notation of body conditions, and one without attributes that earlier versions did not write (these have their defaults), is the same problem as its present form: saved again it gives the same snapshot, continued it gives the same files, and the tools show the same.',
  ['inputs'],'all files of the earlier formats',
  'The tests open no file of an earlier format.',
  [L+'TSpace_load_v13.cpp',L+'TSpace_load_hdf.cpp'],
  [('format 1.3',L+'TSpace_load_v13.cpp'),('earlier attributes and defaults',L+'TSpace_load_hdf.cpp')],
  ['snapshots saved by vvflow after S:load of such a file; output of vvplot and vvxtract'])
p('C32','Sensors record the velocity of the flow',
  'With -s FILE every step of a simulation appends one line to velocity_CAPTION: the time and, for each point of the file in its order, the velocity of the flow there - the velocity with which a particle without circulation at that point is carried in that step.',
  ['inputs','histories'],'all flows, points and steps',
  'The tests use no sensors.',
  [U+'sensors.cpp',U+'vvflow.cpp',L+'MConvectiveFast.cpp'],
  [('sensor file and output',U+'sensors.cpp'),('place in the step',U+'vvflow.cpp'),('velocity at a point',L+'MConvectiveFast.cpp')],
  ['velocity_CAPTION against the ink in the snapshots'])
p('C33','A run is the documented sequence of stages, each once in every step',
  'Every step of a simulation does the following and nothing else, each once and in this order: if there are bodies, core sizes are computed for the present particles (nothing is merged) and the surface strengths solved with them (twice in the step after a body has run into its stop); heated surfaces give off heat; the snapshot is saved when due; surfaces shed, then ink sources; forces are formed and recorded, accounts of the step cleared; core sizes are computed anew, merging close vortices in a viscous flow only; all velocities are computed; in a viscous flow diffusion of vorticity and heat is added; bodies and particles move for dt, what enters bodies is absorbed, and heat beyond the limit downstream is dropped; time advances by dt. Each saved snapshot is the one this sequence gives from the initial problem.',
  ['histories'],'all problems (viscous or not, with heat, stops, links, ink) and all steps',
  'The tests run two problems and look at forces with a coarse tolerance; no test has heat, stops or merging.',
  [U+'vvflow.cpp',L+'MFlowmove.cpp',L+'MEpsilonFast.cpp',L+'MConvectiveFast.cpp',L+'MDiffusiveFast.cpp'],
  [('the time loop',U+'vvflow.cpp: simulate_space'),('stages',L+'MFlowmove.cpp, MEpsilonFast.cpp, MConvectiveFast.cpp, MDiffusiveFast.cpp')],
  ['snapshots of a run against those of the stages called one by one'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
