#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", hook=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  technique=technique, note=note, level=level, hook=hook, observe=list(observe)))


T = "libvvhd/src/"
H = "VVFLOW_MONITOR"

p("C01", "Snapshots are lossless",
  "Saving a space to an HDF5 file and loading that file back gives the same space: every scalar, time fraction, expression, gravity, "
  "per-body setting, contour point, slip flag, root link and every vortex, sink, streak and streak source keeps its exact value, and bodies "
  "and list elements keep their order. Loading replaces everything the space held before. Saving the loaded space again produces the same content.",
  "inputs histories", "Every space a script can build (any number of bodies, any lists, infinities and NaN limits) and any sequence of loads into one space.",
  "Tests round-trip one hand-written space and compare a few fields; nothing compares the whole content over arbitrary spaces or repeated loads.",
  "libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/TSpace_save_hdf.cpp libvvhd/src/TSpace.cpp libvvhd/src/vvhdf.cpp libvvhd/src/vvhdf_h5t.cpp utils/vvflow/lua_space.cpp",
  [("attributes and datasets of a snapshot", "Space::save_hdf/load_hdf"), ("loading clears all lists", "Space::load")],
  "round-trip monitor: independent HDF5 reader over random scripts",
  "Random spaces are written by a script, read back by an independent HDF5 reader and compared with what the script set, then loaded and saved again and compared bit for bit. Trusts libhdf5.")

p("C02", "A resumed simulation continues as if it was never interrupted",
  "Resuming a simulation from any snapshot it saved, or continuing it by calling simulate() again, gives the same later snapshots and the same step log as the uninterrupted run: nothing that "
  "influences later steps is lost, re-initialised or applied twice.",
  "histories inputs crash_points", "Every scenario (free, sprung, forced, attached and colliding bodies, viscous or not, heat off) and every snapshot of its run as the resume point.",
  "The only restart test checks that the program exits; it never compares the continuation with the uninterrupted run.",
  "utils/vvflow/vvflow.cpp libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/TSpace_save_hdf.cpp libvvhd/src/MStepdata.cpp",
  [("complete dynamic state in the snapshot", "Space::save_hdf"), ("resume through the same loop", "simulate()")],
  "differential trace monitor: uninterrupted vs resumed run",
  "Every later snapshot and all step-log rows of the resumed run are compared with the uninterrupted run (1e-6 of each column; chaotic growth of rounding over the 8-18 steps stays far below). Includes runs continued by a second simulate() in the same script.")

p("C03", "A killed or failing run leaves only complete snapshots, and they can be resumed",
  "If the simulation is killed, or a write to one of its output files fails, at any moment, every file under a snapshot's name is the complete snapshot of its step (one that is being replaced stays as it was until its successor is complete), no snapshot due before that moment is missing, "
  "and resuming from the last one gives the snapshots and the further step-log rows of the uninterrupted run (a step log the interruption left unreadable may be refused with an error; then it has to be removed first, and rows logged before may be lost). After a kill at a moment when nothing is being written, the step log holds every step before the last snapshot. "
  "A run or a save that could not write its snapshots or step log ends with an error message and a failing exit code (not by a crash), a write cut short by the system is completed, and a script's failed S:save leaves the file that was there.",
  "crash_points fault_sequences", "A kill at every phase of every step, at every write system call of the run (before, halfway and after), and write errors (disk full, I/O error, short write) at every write.",
  "No test kills the program or fails a write.",
  "utils/vvflow/vvflow.cpp libvvhd/src/TSpace.cpp libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/TSpace_save_hdf.cpp libvvhd/src/MStepdata.cpp",
  [("a snapshot gets its name when it is complete", "Space::save"), ("write errors are fatal", "Space::save, Stepdata::flush, Stepdata::append")],
  "fault injection (kill and failing writes at enumerated points) with recovery monitor",
  "Random scenarios are run under an LD_PRELOAD shim that kills the process or fails the write at the n-th write to an output file, or under the monitor that kills it at a phase of a step; every file left behind is compared bit for bit (but for time stamps) with the uninterrupted run's, and the run resumed in place from the last snapshot is compared with it. "
  "A process kill, not a power failure, is modelled; points are sampled in quick runs and enumerated in thorough ones.",
  level="fault_enumeration", hook=H)

p("C04", "Time advances exactly and snapshots are saved exactly when due",
  "Simulation time is an exact fraction that grows by dt every step, the run performs exactly the steps with time < finish + dt/2, and a snapshot is written at those and only those steps with time >= 0 "
  "whose time is a multiple of dt_save; its name is the step number time/dt with six digits in results_CAPTION, and it holds the state of that step.",
  "inputs configurations", "Every rational dt, dt_save, start time, finish and caption, including negative start times and non-terminating decimals.",
  "Tests run one or two schedules with terminating decimals.",
  "utils/vvflow/vvflow.cpp libvvhd/headers/TTime.hpp libvvhd/src/TSpace.cpp",
  [("rational addition and divisibility", "TTime::add, TTime::divisibleBy"), ("loop bound and save condition", "simulate()")],
  "trace and file-system monitor against exact rational arithmetic",
  "Schedules are predicted with exact fractions and compared with the trace, the set of files and the time stored in each.", hook=H)

p("C05", "The step log is complete, ordered and agrees with the simulation",
  "The step log has exactly one row per performed step, in time order, in every dataset; each row holds that step's time and, for every body, its forces, holder position, displacement and speed; with --profile also the pressure and friction profiles (rows of steps run without it are empty, NaN, or missing at the end); "
  "no row of another step or body appears. After a resume from an earlier snapshot, rows from that time on are replaced and earlier ones are kept unchanged. Times are those of the log: single precision.",
  "histories inputs", "Every scenario, with and without profiles, and every sequence of interrupted and resumed runs over the same log.",
  "No test reads the step log.",
  "libvvhd/src/MStepdata.cpp utils/vvflow/vvflow.cpp",
  [("append per step", "Stepdata::write/append"), ("truncation on resume", "Stepdata::Stepdata")],
  "log/trace agreement monitor", "Every row of every dataset is compared with the traced state (float32 accuracy); resume histories are replayed from random snapshots.", hook=H)

p("C06", "Total circulation is conserved",
  "With steady boundary conditions on every body, the circulation of all free vortices plus that bound in the bodies (2*area*angular velocity, and the strength of slip segments) stays equal to minus the given circulation at infinity right after vortices are shed, at every step: shedding, merging, movement and "
  "absorption by bodies neither create nor destroy circulation, except that a vortex weaker than the removal threshold may be dropped.",
  "histories inputs", "Every scenario: bodies moved, rotated, sprung or attached, vortices absorbed, merged, slip segments, circulation at infinity.",
  "No test sums circulations.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/MFlowmove.cpp libvvhd/src/MEpsilonFast.cpp",
  [("circulation equations", "fillInfSteadyEquationForSegment, fillSteadyEquationForSegment"), ("merging adds circulations", "MEpsilonFast::MergeVortexes"), ("absorbed circulation is returned", "MFlowmove::move_and_clean")],
  "conservation monitor over traces", "Balance checked per phase (merge, move, shed, solve) to 1e-9 of the total absolute circulation.", hook=H)

p("C07", "Surface vortices satisfy the no-through-flow condition on every segment",
  "The vortex strengths found at each step make the flow through (equivalently the tangential flow condition on) every body segment vanish, given the free vortices with their core sizes, sinks, the flow at infinity and the motion of all bodies; "
  "the remaining equation of each body is its circulation condition (steady) or a zero strength at the chosen segment (Kutta). Reusing a cached inverse gives the same strengths as solving anew.",
  "histories inputs", "Every scenario and step: several bodies, any motion, sinks, cached and fresh matrices, free vortices near and far.",
  "Tests compare one cylinder and one plate with stored values.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/TMatrix.cpp",
  [("slip equations", "MConvectiveFast::fillSlipEquationForSegment"), ("linear solver and cached inverse", "TMatrix::solveUsingInverseMatrix")],
  "residual monitor: direct evaluation of the boundary equations over traces", "All slip, steady and Kutta equations are evaluated by an independent implementation (direct sums, no tree); residual bounded by solver round-off plus the far-field approximation bound.", hook=H)

p("C08", "Vortices and streaks are convected with the full induced velocity",
  "The convective velocity given to every free vortex and streak particle at each step is the flow at infinity plus the velocities induced by all free vortices with their core sizes, by all sinks, by the motion of the bodies and by slip segments; distant clusters, as formed before merging, may be approximated within the accuracy of the clustering criterion, near ones are summed exactly. Every particle "
  "belongs to exactly one cluster cell.",
  "histories inputs", "Every scenario and particle set, including thousands of vortices, coincident ones and deep trees.",
  "No test looks at velocities of vortices.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/TSortedTree.cpp",
  [("near sums and far expansions", "MConvectiveFast::process_all_lists"), ("space partition", "TSortedTree")],
  "differential monitor: direct summation over traces", "Velocity increments of the convective phase are compared with a direct sum; when the tree has no far nodes agreement is to round-off, otherwise within a bound derived from the far criterion.", hook=H)

p("C09", "Viscous diffusion moves vortices by the documented diffusion velocity",
  "In a viscous flow each vortex additionally gets the diffusion velocity of the vortex-domains method, built from neighbouring vortices of its own sign and from the nearby body surface with exponential kernels of its core size, and the friction on each surface segment is the matching sum; in an inviscid flow there is neither.",
  "histories inputs", "Every scenario, Reynolds number and particle configuration, including vortices at the wall and isolated ones.",
  "Tests never observe the diffusion velocity.",
  "libvvhd/src/MDiffusiveFast.cpp utils/vvflow/vvflow.cpp",
  [("vortex and segment influence", "MDiffusiveFast::process_vort_list")],
  "differential monitor: direct evaluation over traces", "Velocity and friction increments of the diffusion phase are recomputed directly for runs whose interactions are all near; tolerance 1e-7.", hook=H)

p("C10", "Core sizes and merging follow the neighbour rule",
  "Every vortex gets as core size the distance to its second nearest other vortex (nearest if there is only one), but at least a third of the local segment length. In a viscous flow a vortex is merged with its nearest neighbour only if the two are too close or its two nearest neighbours have the opposite sign; merging keeps the total circulation, puts a same-sign pair at its centre of circulation and an opposite pair at the stronger one, and the absorbed vortex disappears. Inviscid flows never merge.",
  "histories inputs", "Every particle configuration and processing order, including ties, clusters and mixed signs.",
  "No test checks core sizes or merging.",
  "libvvhd/src/MEpsilonFast.cpp",
  [("two nearest neighbours", "MEpsilonFast::epsv"), ("merge", "MEpsilonFast::MergeVortexes")],
  "trace monitor with an executable reference of the merge pass", "The merge pass is replayed on the traced particle list; particles and core sizes must agree (1e-9).", hook=H)

p("C11", "Shedding releases exactly the surface circulation and the due streaks",
  "At each step every non-slip segment with a non-negligible strength releases exactly one vortex of that strength at its start point, a hair off the surface into the flow, slip and negligible segments release none, and no existing vortex changes. "
  "Streak sources each release one streak particle with their position and strength exactly at the steps whose time is a multiple of dt_streak.",
  "histories inputs", "Every scenario with slip parts, any number of bodies and any dt_streak.",
  "No test counts shed particles.",
  "libvvhd/src/MFlowmove.cpp", [("shedding", "MFlowmove::vortex_shed, MFlowmove::streak_shed")],
  "trace monitor of the shed phase", "Particle lists before and after the shed phase are compared one by one.", hook=H)

p("C12", "Particles move with their velocity and vanish only for a recorded reason",
  "Each step every vortex and streak moves by its velocity times the (possibly collision-shortened) step; a vortex disappears only if it is negligible or ends inside a body, in which case its circulation and momentum are charged to that body and its nearest segment; a streak disappears only inside a body. "
  "No particle is duplicated or left inside a body.",
  "histories inputs", "Every scenario, including fast bodies sweeping particles, several bodies and inside-out (cavity) bodies.",
  "No test follows particles.",
  "libvvhd/src/MFlowmove.cpp libvvhd/src/TBody.cpp", [("movement and removal", "MFlowmove::move_and_clean")],
  "trace monitor of the move phase", "Every particle is matched across the move phase; removals, their reasons and the body charges are recomputed.", hook=H)

p("C13", "Bodies move rigidly and attached bodies follow their root",
  "A body moves as a rigid body with its own speed: its shape, size, area and orientation of the contour never drift, its axis stays at holder plus displacement, and rotation is about that axis. The holder moves with the prescribed speed, plus that of the root body for an attached body, which therefore keeps its relative position to the root when it has no own motion. The fluid marker moves with the flow at infinity.",
  "histories inputs", "Every motion law, spring set-up, root chain and number of steps.",
  "One test attaches a body for one step; drift and chains are never checked.",
  "libvvhd/src/MFlowmove.cpp libvvhd/src/TBody.cpp libvvhd/src/MConvectiveFast.cpp", [("rigid motion with tangential correction", "TBody::move, MFlowmove::move_and_clean"), ("speed equations of attached bodies", "fillSpeed*Equation")],
  "trace monitor of rigid-body kinematics", "Contours, axes, holders, displacements and shape invariants are recomputed for every step.", hook=H)

p("C14", "Body speeds and forces satisfy the equations of motion",
  "At every step the speed, hydrodynamic force and holder force of every body satisfy Newton's law with inertia, gravity minus buoyancy and the reactions of attached bodies; the holder force of a free degree of freedom equals the spring, damping and applied torque law; a rigid degree of freedom moves with the prescribed speed; the hydrodynamic force equals the change of the fluid impulse plus friction.",
  "histories inputs", "Every combination of rigid, sprung and free degrees of freedom, densities, off-centre axes, attached bodies and gravity.",
  "Tests print a few trajectories but never check the balance.",
  "libvvhd/src/MConvectiveFast.cpp", [("equations", "fillNewton*, fillHooke*, fillHydro*, fillSpeed*Equation")],
  "residual monitor: equations of motion over traces", "All nine equations of every body are evaluated from the traced state at every step (1e-8 of the largest term).", hook=H)

p("C15", "Movement limits hold and collisions bounce",
  "A free degree of freedom never leaves its movement limits by more than rounding (for a body attached to a rotating one: by more than the second-order correction of that rotation): a step that would cross a limit is shortened to end on it, for the body and for everything else; time never runs backwards. At the next step the body rebounds with the impulse (1+bounce) times the stopping force; limits on rigid degrees of freedom and absent (NaN) limits have no effect.",
  "histories inputs", "Every limit position, bounce factor, several bodies and degrees of freedom hitting in the same step.",
  "No test has limits that are reached.",
  "libvvhd/src/MFlowmove.cpp libvvhd/src/MConvectiveFast.cpp", [("collision detection", "MFlowmove::move_and_clean"), ("two-stage solve", "MConvectiveFast::calc_circulation, fill_matrix")],
  "trace monitor of collisions", "Positions, step shortening and rebound equations are recomputed at every step of colliding scenarios.", hook=H)

p("C16", "Friction and surface profiles are the sums of their segment contributions",
  "The friction force and torque logged for a body and its pressure and friction profiles are the sums of that step's segment contributions: friction of each segment acts along it and turns about the axis of the body, pressure accumulates the circulation released from the first segment on, both are averaged over the interval since the previous record, and nothing is carried over or counted twice.",
  "histories inputs", "Every scenario and step, with and without profiles.", "No test reads forces or profiles.",
  "libvvhd/src/TSpace.cpp libvvhd/src/MStepdata.cpp", [("sums", "Space::calc_forces"), ("reset", "Space::zero_forces")],
  "trace and log monitor", "Recomputed from traced segment data each step and compared with state and log.", hook=H)

p("C17", "The inside of a body is exactly its polygon",
  "A point counts as inside a body exactly if it lies in its polygon (outside it for a contour of the opposite orientation), whatever the shape, position and rotation and however the body was moved, and the segment charged is the one whose midpoint is nearest.",
  "inputs histories", "Every simple polygon, convex or not, both orientations, any point off the contour, before and after any movement.",
  "No test asks for points near concave or moved bodies.",
  "libvvhd/src/TBody.cpp", [("ray crossing with bounding-box and disc shortcuts", "TBody::isPointInContour")],
  "differential monitor: exact point-in-polygon oracle on the library", "A harness calls the real function on random polygons and points after random movements; the oracle is a winding number in exact/extended arithmetic away from the contour.")

p("C18", "Geometric properties of a body match its contour",
  "The perimeter, area, centre of mass and moments of inertia (about the centre of mass and about the axis) that a body reports to scripts and writes to snapshots are those of its polygon (a contour of the opposite orientation counts as negative area), the axis is holder plus displacement, and movement through the script or the simulation changes them only as a rigid motion does.",
  "inputs histories", "Every polygon, position, rotation and sequence of moves through the script interface and the simulation.",
  "Tests check a square and a thin body.",
  "libvvhd/src/TBody.cpp utils/vvflow/lua_tbody.cpp", [("properties", "TBody::doFillProperties")],
  "differential monitor: polygon integrals via the script interface", "Script-side getters are compared with independently computed polygon integrals over random shapes and moves.")

p("C19", "Generated bodies have the requested shape",
  "Every generator produces a closed, simple contour of the requested geometry and orientation: every point lies on the requested curve, segments have the requested length or number within the documented rounding, and bad arguments are refused with an error.",
  "inputs", "Every generator and argument combination (sizes, N or dl, angles, optional parts).",
  "Tests instantiate a few generators with one argument set.",
  "utils/vvflow/gen_cylinder.cpp utils/vvflow/gen_ellipse.cpp utils/vvflow/gen_plate.cpp utils/vvflow/gen_parallelogram.cpp utils/vvflow/gen_savonius.cpp utils/vvflow/gen_gis.cpp utils/vvflow/gen_box.cpp utils/vvflow/gen_body.cpp",
  [("generators", "luavvd_gen_*")],
  "output monitor against analytic shapes", "Contours produced for random arguments are checked for closure, simplicity, orientation, distance to the analytic curve, spacing and count.")

p("C20", "Rational time is exact",
  "Times are exact fractions: assigning a pair of integers, a fraction string, or a number that is a decimal fitting 32 bits gives exactly that value, which reads back as the nearest double-precision number; adding is exact or refused (refused only if the sum does not fit over the common denominator), and divisibility is decided exactly for positive, zero and negative times. A value that is not a pair of 32-bit integers, or that is out of range, is refused and the old one kept; only numbers that are no short decimal (1/3) are rounded, to the nearest one. Out-of-range digits inside a fraction string are not covered (a test pins wrap-around).",
  "inputs", "All pairs of 32-bit fractions and every decimal a script can write.", "Tests use a handful of values.",
  "libvvhd/headers/TTime.hpp utils/vvflow/getset.cpp", [("rational arithmetic", "TTime::add, TTime::makeWithSecondsDecimal, TTime::divisibleBy")],
  "differential monitor: exact fractions on the library", "A harness drives the real class with random and boundary operands; every result is compared with exact rational arithmetic.")

p("C21", "Expressions evaluate to their Lua value at the requested time",
  "A time-dependent expression evaluates, at any time and in any order, to the value of that Lua expression with t set to the time and the math functions available; the same expression can be copied, reassigned, saved and evaluated from several threads without influencing another; an invalid expression is refused with an error and leaves the old one in force.",
  "inputs histories schedules", "Every arithmetic expression over t, every sequence of assignments and evaluations, several threads.",
  "Tests evaluate five expressions in order.",
  "libvvhd/src/TEval.cpp utils/vvflow/lua_teval.cpp", [("shared interpreter with caching", "TEval::eval")],
  "differential monitor with an independent expression evaluator", "Random expressions, times, copies and thread counts through the real class; values compared with an independent evaluator.")

p("C22", "Script objects read back what was written and refuse the rest",
  "Every documented property of the space, bodies and particles returns the value last assigned in each of its documented forms, other properties are unaffected, list operations (append, insert, erase, iterate, length, index) behave as on an ordered sequence, and wrong types, unknown names and out-of-range values raise a Lua error without changing anything (a test pins that the denominator of a fraction given as text wraps around instead).",
  "programs histories", "Every sequence of assignments and list operations on any object, valid or not.",
  "The script test exercises each setter once or twice in a fixed order.",
  "utils/vvflow/lua_space.cpp utils/vvflow/lua_tbody.cpp utils/vvflow/lua_tvec.cpp utils/vvflow/lua_tvec3d.cpp utils/vvflow/lua_tobj.cpp utils/vvflow/lua_objlist.cpp utils/vvflow/lua_bodylist.cpp utils/vvflow/getset.cpp",
  [("getters and setters", "getset.cpp"), ("lists", "lua_objlist.cpp, lua_bodylist.cpp")],
  "model-based monitor: random programs against a reference object model", "Random operation sequences run in the real interpreter; every value printed back is compared with a Python model.")

p("C23", "Imported text and binary files give exactly their contents",
  "Loading a body from text gives exactly the listed points and slip flags in order (a missing slip column means no slip) and a malformed body file is refused; loading a particle list from text or binary appends exactly the listed particles in order to what the list held, up to the first malformed or incomplete record (a test pins that the rest is ignored); "
  "a missing or unreadable file is an error that changes nothing.",
  "inputs", "Every well-formed file (any number format, spacing, line length, missing optional columns, no final newline) and malformed ones.",
  "Tests load one file of each kind.",
  "libvvhd/src/TBody.cpp libvvhd/src/TSpace.cpp utils/vvflow/lua_objlist.cpp utils/vvflow/gen_body.cpp utils/vvflow/lua_tbody.cpp", [("loaders", "TBody::load_txt, Space::load_list_txt, Space::load_list_bin")],
  "round-trip monitor", "Generated files are loaded by the real program and read back through the script interface and saved snapshots.")

p("C24", "Velocity and streamfunction fields describe the same flow as the particles",
  "The velocity field plotted at a point is the velocity induced there by everything in the snapshot (the surface vortices of that step included) in the chosen reference frame, and outside solid bodies the streamfunction field and the script's streamfunction are those of the same flow, without jumps in the flow except on the branch cuts of sinks; distant clusters count as points.",
  "inputs configurations", "Every snapshot, window, resolution and reference frame.", "Tests compare two pictures with stored ones.",
  "libvvhd/src/XVelocity.cpp libvvhd/src/XStreamfunction.cpp libvvhd/src/MConvectiveFast.cpp", [("fields", "XVelocity::evaluate, XStreamfunction::evaluate")],
  "differential monitor: direct sums vs plotted fields", "Field archives written by the real vvplot on random snapshots, windows, resolutions, frames and smoothing factors are compared point by point with sums over the snapshot read by an independent reader, with an independent space partition.")

p("C25", "Field files round-trip and percentiles are order statistics",
  "A field written to a file and loaded back has the same values and (to single precision) the same grid, a file whose size, dimension or grid spacing is not that of a complete uniform grid is refused, and the minimum, maximum and percentile of a field are those of its values (percentile: the matching order statistic of the nonzero ones).",
  "inputs", "Every field of any size and content, and every corrupted file.", "Tests use 2x2 fields.",
  "libvvhd/src/XField.cpp", [("parser and writer", "XField::XField(str), operator<<"), ("statistics", "XField::percentile")],
  "differential monitor on the library", "Random and corrupted files through the real class; statistics recomputed with numpy; under sanitizers.")

p("C26", "Isolines lie on the level and cover every crossing",
  "Every isoline point lies on a grid edge where the interpolated field equals one of the requested levels, every grid edge whose ends lie on different sides of a level carries a point (also when grid values equal the level exactly), consecutive points belong to the same cell, and no segment is lost or drawn twice. In a saddle cell either pairing is right. The jump of the stream function along the branch cut to the left of a sink draws nothing; a line may end in the sink's cell.",
  "inputs", "Every field, window, resolution and level set.", "No test inspects isolines.",
  "libvvhd/src/XIsoline.cpp", [("marching squares", "XIsoline::process_rect"), ("joining", "XIsoline::commit_segment, merge_lines")],
  "output monitor with an independent marching-squares oracle", "Segments produced by the real class are compared with an independently computed set of edge crossings per cell and level.")

p("C27", "vvxtract reports exactly what the file holds",
  "Every attribute, list and dataset printed by vvxtract equals the content of the snapshot or step log to the digits printed (seven in tables, six in the summary), for each requested name and body, in file order; datasets of different lengths keep their rows and columns aligned, the list names every dataset once; "
  "unknown names, unreadable files or an output that can not be written give an error and a failing exit code.",
  "inputs configurations", "Every snapshot and every documented name.", "Tests query a few attributes of one file.",
  "utils/vvxtract/vvxtract.cpp utils/vvxtract/optparse.cpp", [("printing", "vvxtract.cpp")],
  "differential monitor: independent HDF5 reader", "Output of the real tool for every name on random snapshots is parsed and compared with an independent reader.")

p("C28", "vvplot draws the snapshot it was given",
  "The archive written by vvplot contains the bodies' closed contours, the vortices, holders and springs of the snapshot with their exact single-precision values, and exactly the layers, window, image size, colour ranges, isolines and reference shift the options specify (anything left out is computed from the rest; over- or underspecified windows and missing bodies are refused); the picture plotted from the archive is the one plotted from the snapshot, bodies are filled where they are, a target that cannot be written is reported, and an option given its documented default changes nothing.",
  "inputs configurations", "Every snapshot and combination of options.", "Tests compare two pictures.",
  "utils/vvplot/vvplot.cpp utils/vvplot/optparse.cpp utils/vvplot/gnuplotter.cpp", [("archive", "Gnuplotter::save"), ("window arithmetic", "opt::parse")],
  "output monitor over archives", "Archives of random snapshots and options are unpacked and compared with values computed from the snapshot and the options.")

p("C29", "Results do not depend on the number of threads",
  "The same simulation or plot run with any number of threads gives the same step log, snapshots and fields up to rounding.",
  "schedules configurations", "Every scenario, thread count and thread schedule.", "Tests run with one thread.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/TMatrix.cpp libvvhd/src/TEval.cpp libvvhd/src/XVelocity.cpp libvvhd/src/XPressure.cpp libvvhd/src/XStreamfunction.cpp libvvhd/src/XVorticity.cpp", [("parallel loops write disjoint data", "#pragma omp regions")],
  "differential monitor over thread counts with perturbed schedules", "Runs with 1..16 threads and injected delays at parallel-region boundaries are compared with the single-thread run.")

p("C30", "No data races",
  "No two threads access the same memory without synchronisation when at least one of them writes, in any parallel region of the simulation, plotting or expression evaluation.",
  "schedules", "Every scenario, thread count and schedule.", "Tests run with one thread and without a race detector.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/TMatrix.cpp libvvhd/src/TEval.cpp libvvhd/src/XVelocity.cpp libvvhd/src/XPressure.cpp libvvhd/src/XStreamfunction.cpp libvvhd/src/XVorticity.cpp", [("parallel loops write disjoint data", "#pragma omp regions"), ("locked shared interpreter", "TEval::eval")],
  "ThreadSanitizer with an instrumented OpenMP runtime", "All OpenMP regions of the real programs run under ThreadSanitizer on a pthread-based replacement of the OpenMP runtime (in /verif/harness) whose synchronisation the detector sees.")

p("C31", "Valid work never touches invalid memory or undefined behaviour",
  "On every valid input the simulation (also several runs in one process with bodies and particles added, removed or reloaded in between), the script interface, the plotter and the extractor perform no out-of-bounds or use-after-free access, use no uninitialised value and no undefined arithmetic.",
  "inputs programs", "Every valid scenario, script and option combination.", "Tests run without sanitizers.",
  "libvvhd/src utils/vvflow utils/vvplot utils/vvxtract", [("all code", "libvvhd, utils")],
  "AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions, and memcheck, over the workloads of all checks", "The random work of every other check (scenarios, scripts, files, plots, extractions) and random programs of several runs are executed on sanitizer builds, a part of them under valgrind memcheck; any report is a violation. The linked HDF5, Lua and LAPACK libraries are not instrumented themselves (memcheck sees them).")

p("C32", "Malformed input is refused, never crashes",
  "Whatever text, binary, field, archive or HDF5 file with missing, truncated or out-of-range content, script misuse or option the tools are given, they finish with an error message and a failing exit code or with a valid result; they never crash, hang, or read outside the input.",
  "inputs fault_sequences", "Every truncation and corruption of each input format and every wrongly typed or missing field.", "Tests try a few bad options and field strings.",
  "libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/TSpace_save_hdf.cpp libvvhd/src/vvhdf.cpp libvvhd/src/XField.cpp libvvhd/src/TSpace_load_v13.cpp libvvhd/src/TBody.cpp utils/vvplot utils/vvxtract utils/vvflow", [("error returns of the loaders", "Space::load_hdf, h5a_read"), ("argument checks", "optparse.cpp")],
  "structure-aware mutation fuzzing under AddressSanitizer/UBSan", "Mutated snapshots, archives, fields, lists, scripts and options run on sanitizer builds; crash, sanitizer report or time-out is a violation. Corruption inside HDF5's own structures is limited to truncation.")

p("C33", "Physics does not depend on the choice of coordinates",
  "For a run that starts with the total circulation prescribed at infinity (otherwise its first step sheds the difference impulsively, around the origin): describing the same set-up in coordinates with another origin changes every logged force, velocity and displacement and the wake only by that transformation and by rounding errors, however far the origin is moved, and so does turning the axes by a right angle while the fluid is inviscid. Turning them in a viscous fluid, mirroring the set-up, "
  "and observing it from a uniformly moving frame (no body being damped: damping is documented as acting on the absolute velocity) change them by no more than the approximation errors of the scheme; for slip bodies in an inviscid fluid the moving frame changes nothing but by rounding errors.",
  "inputs configurations", "Every scenario and every shift, rotation, mirror image and frame velocity.", "One test compares two reference frames for one cylinder.",
  "libvvhd/src/MConvectiveFast.cpp libvvhd/src/MFlowmove.cpp libvvhd/src/MDiffusiveFast.cpp libvvhd/src/TSpace.cpp libvvhd/src/TBody.cpp", [("equations in relative coordinates", "MConvectiveFast"), ("integrals over the contour", "TBody::doFillProperties")],
  "metamorphic monitor", "A state in the middle of a run is transformed in its snapshot (points, vectors, expressions, orientation), both are continued with the real program and the logs and wakes compared after mapping them back. Decisions at ties are found by repeating the run with coordinates changed by rounding errors; the approximate cases are judged by quantiles over all pairs.")

p("C34", "Log-processing scripts compute the documented statistics",
  "Over the data rows of their input (the '#' header of vvxtract and empty lines never count as data) the vvawk scripts compute, for the chosen column: avg and sd the mean and the standard deviation of the rows whose first column is inside (xmin, xmax); zeros the abscissas in that range where the column is zero or, "
  "by linear interpolation with the previous row, changes sign; ampl the mean of the maxima minus the mean of the minima, an extremum being a row that no other row of the span-wide window centred on it exceeds; mavg and drv reprint every row with the column replaced by the average of the last span rows (fewer at the start) or by the difference "
  "from the previous row over div (the first row is dropped), and pass lines that are no data through in their place. gpquick plots the requested columns, ranges, grid lines, style and size, to the requested file.",
  "inputs", "Every numeric table and column choice.", "No test runs the scripts.",
  "utils/scripts/vvawk.avg utils/scripts/vvawk.mavg utils/scripts/vvawk.drv utils/scripts/vvawk.sd utils/scripts/vvawk.zeros utils/scripts/vvawk.ampl utils/scripts/gpquick", [("awk programs", "utils/scripts")],
  "differential monitor", "Random tables and real vvxtract output through the real scripts; every printed number is recomputed in exact rational arithmetic (six printed digits). Runs on the installed awk (mawk). gpquick by its dumped gnuplot program.")

p("C35", "Sensors record the flow velocity at their points",
  "With a sensors file each step appends one line with the time and, for every sensor in file order, the flow velocity at that point at that step, computed from the same flow as the particles' velocities (to the six digits printed; clusters distant from the cell that holds the point are approximated as they are for particles). If the lines can not be written, the run fails with a message.",
  "histories inputs", "Every scenario and sensor placement, also inside parallel runs.", "No test uses sensors.",
  "utils/vvflow/sensors.cpp libvvhd/src/MConvectiveFast.cpp", [("output", "sensors::output")],
  "trace monitor: direct sums vs sensor output", "Sensor lines are compared with direct sums over the traced state.", hook=H)

p("C36", "Running a saved set-up equals running the script",
  "Simulating a saved space by passing the file to vvflow, by loading it in a script, or by simulating directly in the script that built it gives the same results, for every option; script arguments arrive unchanged (vvflow takes its own options wherever they stand before `--`, everything after `--` is the script's), and success and failure are reported in the exit code.",
  "configurations programs", "Every scenario and command line.", "Tests run one scenario of each kind and look at the exit code.",
  "utils/vvflow/vvflow.cpp utils/vvflow/optparse.cpp", [("entry points", "main, simulate")],
  "differential monitor over entry points", "All three ways are run and their snapshots and logs compared bit for bit.")

p("C37", "The vorticity field is the sum of the vortex blobs outside bodies",
  "The plotted vorticity is zero inside bodies and elsewhere the sum of Gaussian blobs of the vortices about to be shed and those in the flow, with sizes set by the distance to neighbours and the smoothing factor, plus the surface layer; blobs beyond the cut-off may be left out.",
  "inputs configurations", "Every snapshot, window, resolution and smoothing factor.", "Tests compare two pictures.",
  "libvvhd/src/XVorticity.cpp", [("blobs", "XVorticity::vorticity")],
  "differential monitor: direct sums vs plotted fields", "Point-by-point comparison of the archives of the real vvplot with an independent evaluation over the snapshot (independent reader, partition, core sizes and point-in-body test).")

p("C38", "The pressure field follows the documented pressure integral",
  "The plotted pressure is zero inside bodies and elsewhere the value of the Bernoulli-type integral over the moving vortices, shed circulation and moving bodies, in static or dynamic form for the chosen reference frame.",
  "inputs configurations", "Every snapshot, window, resolution and pressure mode.", "Tests compare two pictures.",
  "libvvhd/src/XPressure.cpp", [("integral", "XPressure::pressure")],
  "differential monitor: direct sums vs plotted fields", "Point-by-point comparison of the archives of the real vvplot with an independent evaluation over the snapshot; points near vortices whose speed is ambiguous (ties between equally distant neighbours) are skipped and counted.")

p("C39", "Heat particles carry exactly the heat the bodies release",
  "Each step a body at constant flux (const_w) releases the particle dl^2*heat_const above every segment, an insulated body gives back what its segments took up, a body at constant temperature (const_t) keeps exactly one particle "
  "of heat dl^2*heat_const in the layer (of the thickness of a segment) above every segment, wherever the body is, and a neutral body releases nothing. Heat particles merge with conservation of heat and of its first moment, move with the fluid velocity plus "
  "the heat diffusion velocity, and vanish only when merged, negligible, inside a body, superfluous in a layer or downstream of x=16; everything released and taken up is accounted to its segment, and the accounts start each step from zero.",
  "histories inputs", "Every scenario (still, forced, rotating, free and colliding bodies, several bodies, cavities, no bodies, viscous or not) with any heat conditions, Prandtl number and initial heat particles.",
  "No test has heat in it.",
  "libvvhd/src/MFlowmove.cpp libvvhd/src/MEpsilonFast.cpp libvvhd/src/MConvectiveFast.cpp libvvhd/src/MDiffusiveFast.cpp libvvhd/src/TBody.cpp utils/vvflow/vvflow.cpp",
  [("release of heat", "MFlowmove::heat_shed"), ("merging of heat", "MEpsilonFast::epsh"), ("diffusion of heat", "MDiffusiveFast::process_heat_list"), ("movement, absorption and layers", "MFlowmove::move_and_clean, TBody::isPointInHeatLayer")],
  "trace monitor: replay of every phase that touches heat", "Random scenarios get heat conditions and particles by editing the snapshot they start from (scripts cannot set them); every phase is recomputed from the traced state, particles are matched as sets. Steps with ties (a particle on a contour or equally near two segments) are skipped and counted.", hook=H)

p("C40", "Impossible set-ups are refused, possible ones accepted",
  "simulate() refuses, before it computes or writes anything, a Reynolds number or time step that is not positive, a special segment outside its body, a root outside the body list and roots in a cycle; corrected, the same script runs as if nothing had happened. "
  "Saving (also the first save of a simulation) refuses bodies with a negative or NaN spring constant, a damping that is not finite, or a collision_min that is not below collision_max, names the member and component, and leaves the file of that name as it was. "
  "Loading a file with such values warns of exactly those and keeps them, except that a negative spring constant becomes infinite, an unknown boundary or heat condition the default and an unknown root none. Every other value of these members is saved, loaded and named in no warning.",
  "inputs configurations", "Every set-up, every body and component, including values next to the limits (zero, the smallest and largest numbers, infinities, NaN, neighbouring floating-point numbers).",
  "Tests refuse no set-up.",
  "utils/vvflow/vvflow.cpp libvvhd/src/TBody.cpp libvvhd/src/TSpace.cpp libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/vvhdf.cpp", [("checks before a simulation", "simulate"), ("checks of a body", "TBody::validate"), ("conditions and roots of a file", "dataset_read_body, h5a_read")],
  "runtime monitor of refusals (error, message, file system) over generated set-ups", "Random scenarios get one or several impossible values; what the script, the program and the directory show is compared with the rules, refused and corrected runs bit for bit with undisturbed ones, loaded values with the file's.")

p("C41", "vvencode passes every frame, in order, to the encoder",
  "vvencode FILEMASK OUTPUT [OPTIONS] runs the encoder once, in the current directory, at 25 frames per second on exactly the mask it was given, with the comment of the first frame (the first in name order) as the comment of the movie, the extra options and exactly the output it was given, whatever characters they contain; "
  "its exit code is the encoder's. With fewer arguments it prints its usage and runs nothing.",
  "inputs", "Every mask, directory, file and output name and comment, including spaces, quotes, wildcards and non-ASCII characters.", "No test runs the script.",
  "utils/scripts/vvencode", [("command line of ffmpeg", "vvencode")],
  "runtime monitor of the commands the script runs", "ffmpeg and exiv2 are not installed: recorders stand in for them and log their arguments; the movie itself is not made.")

p("C42", "What a script does not set is neutral",
  "A fresh space is empty (no bodies, particles, sources), its fluid ideal (re = inf) and at rest (no speed, circulation or gravity), dt = 1, finish = inf, and saving, streaks and profiles are off; a fresh body (generated or loaded) has density 1, rests (no speeds, displacement, torque, forces), is rigidly held (spring_const inf, no damping), has no movement limits, no bounce, no root, no slip (unless its file or its generator makes segments slip) "
  "and special segment 0. This holds also after another file was loaded and dropped, and a script that spells these values out behaves bit for bit as one that does not.",
  "inputs configurations histories", "Every kind of body, every scenario and subset of members, and everything loaded before.", "Tests set what they use.",
  "libvvhd/src/TBody.cpp libvvhd/src/TSpace.cpp libvvhd/src/TSpace_load_hdf.cpp utils/vvflow", [("initial values", "TBody::TBody, Space::Space"), ("generators", "gen_*.cpp")],
  "state monitor and metamorphic runs", "Fresh bodies of every generator are read by the script and from the saved file; random scenarios are run with and without the neutral values spelled out and all their results compared.")


p("C43", "Looking changes nothing",
  "Reading any member of the space, its bodies and its lists, printing, iterating, converting to tables, asking for lengths, areas and moments, evaluating expressions and the streamfunction, saving copies under other names and collecting garbage, before, between and after the parts of a simulation, "
  "and asking for progress, profiles, velocity sensors or more frequent snapshots leave the space and every later step, snapshot and log row bit for bit as they are without. vvflow, vvxtract and vvplot leave the files they read unchanged (content, time of change and identity) and create only the outputs asked for.",
  "inputs configurations histories", "Every scenario, everything that can be looked at, at every point between the parts of a simulation, every time an expression is asked for; every snapshot and step log given to the tools.", "Tests never compare two runs.",
  "utils/vvflow/vvflow.cpp utils/vvflow/sensors.cpp utils/vvflow/lua_space.cpp libvvhd/src/TEval.cpp libvvhd/src/MStepdata.cpp libvvhd/src/TSpace.cpp libvvhd/src/XStreamfunction.cpp utils/vvxtract/vvxtract.cpp utils/vvplot/vvplot.cpp",
  [("logging", "Stepdata::write, sensors::output"), ("remembered values of expressions", "TEval::eval"), ("copies", "Space::save"), ("reading", "Space::load, vvxtract, vvplot")],
  "metamorphic runs and a directory monitor", "Random scenarios cut into parts are run with and without looks and logging, and all their results compared; the tools run in directories listed (hash, time, inode) before and after.")

p("C44", "Files of earlier versions are read with their meaning",
  "A snapshot of the first HDF version (one slip condition per body, conditions as letters, a special segment) and one of the binary 1.3 format are read with every value, list, segment, expression and condition they hold: "
  "each particle, body, spring, slip and heat condition, time and caption arrives in its place, exactly, whatever the space held before, in whatever order the fields of the file come, and bodies of different versions in one file each with their own meaning. Saved again, it is an up-to-date snapshot with these values.",
  "inputs histories", "Every space, every condition of every body in either encoding, every number of bodies and particles, every space read before.", "Tests read one file of each version.",
  "libvvhd/src/TSpace_load_hdf.cpp libvvhd/src/TSpace_load_v13.cpp libvvhd/src/vvhdf.cpp",
  [("HDF versions", "TSpace_load_hdf.cpp"), ("binary format", "Space::load_v13"), ("fractions and lists", "vvhdf.cpp")],
  "independent encoder and comparison", "Random spaces are written in the old formats by an encoder of their own, read back and saved by vvflow, and the result compared value by value with what was encoded.")


def build():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
                 "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                 "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                             "observe_at": x["observe"], "hook_needed": x["hook"]}}
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(d) + "\n")
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^vvflow: .*VVFLOW_MONITOR"], capture_output=True, text=True).stdout.split()
    checks, na = [], []
    for x in P:
        s = "checks/%s.py" % x["id"].lower()
        if os.path.exists(os.path.join(V, s)):
            checks.append({"property": x["id"], "quick_cmd": "python3-vt " + s, "thorough_cmd": "VERIF_TIER=thorough python3-vt " + s,
                           "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
        else:
            na.append({"property": x["id"], "reason": NA.get(x["id"], "no check yet (work in progress)")})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
         "hooks": {"guard": "VVFLOW_MONITOR", "enable": "g++ -DVVFLOW_MONITOR -I/verif/monitor (lib/vv/build.py, variant mon)", "source_commits": hook},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", [n["property"] for n in na])


NA = {}

# what the oracle of a property leaves out
LIMITS = {
 "C01": "Parts of a space a script cannot reach (heat) are set by editing snapshots.",
 "C02": "Heat off: the heat sources of a step act before its snapshot, a resumed run repeats them (scripts cannot set up heat transfer; C39 checks it within a run).",
 "C03": "Kill points: phases of the step and system calls (LD_PRELOAD shim `harness/wfault.c`: short writes, ENOSPC, EIO at the n-th write, kill at the n-th call). HDF5 keeps the step log open, a killed run may leave it unreadable: then it may be refused.",
 "C07": "Kutta conditions are set in an edited snapshot (no script can).",
 "C08": "Distant clusters by the far-field criterion; the moments are those before merging.",
 "C22": "Element access, comparison and iteration as documented by the Lua API; a reference kept while its list grows is the known finding of C31.",
 "C23": "Concurrency inside one process only.",
 "C29": "Thread interleavings are sampled (delays injected by gompshim), not enumerated.",
 "C30": "The OpenMP runtime is replaced by gompshim so that ThreadSanitizer sees its synchronisation; Lua itself is not instrumented. Reports inside uninstrumented libraries are not possible.",
 "C31": "HDF5, Lua and LAPACK are not instrumented (memcheck sees into them). Interactive line editing (linenoise.c) is linked but never called.",
 "C32": "gnuplot itself dies of SIGFPE on some malformed maps, so it is replaced by a stub there. HDF5's own structures are only truncated, not mutated.",
 "C33": "Damping is excluded (documented as absolute). Mirror images, viscous rotation and moving frames are judged by quantiles over pairs, the rest by rounding tolerances.",
 "C39": "The Nusselt numbers computed from the accounts are not recorded anywhere and not checked. The documentation gives the diffusion formula with I1-I0; the code's I1+I0 (with its sign of I0) is taken as meant.",
 "C40": "re = NaN is not judged. The message has to contain the member and component (spring_const.r.x), its wording is free.",
 "C41": "Frames whose names begin with '-' or contain line ends are not generated.",
 "C38": "Points whose vortex speed is ambiguous (ties) are skipped and counted.",
}
MISSED = {}     # planted changes no check catches


def design():
    """Sections 2 and 5 of DESIGN.md."""
    out = []
    for x in P:
        t = "**%s %s.** *%s.* %s Reach: %s What the tests leave open: %s Anchors: %s." % (
            x["id"], x["title"], x["technique"][0].upper() + x["technique"][1:], x["note"], x["text"], x["why"],
            "; ".join("%s (`%s`)" % m for m in x["mech"]))
        if x["id"] in LIMITS:
            t += " Limits: " + LIMITS[x["id"]]
        out.append(t)
    bugs = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
    sd = os.path.join(V, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        bugs.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"], m["needs"], MISSED.get(b, m["property"])))
    q = os.path.join(V, "DESIGN.md")
    s = open(q).read()
    for name, body in (("properties", "\n\n".join(out)), ("bugs", "\n".join(bugs))):
        a, z = "<!-- %s: generated by tools/props.py -->\n" % name, "<!-- end of %s -->" % name
        i, j = s.index(a) + len(a), s.index(z)
        s = s[:i] + body + "\n" + s[j:]
    open(q, "w").write(s)


if __name__ == "__main__":
    build()
    if os.path.isdir(os.path.join(V, "seeded")):
        design()
