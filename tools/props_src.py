#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props_src.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", claim=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, tech=tech, note=note, claim=claim, reason=reason))


CONF = "TLA+ specification checked with TLC; traces recorded from the real library validated against it"
SESS = "TLA+ life-cycle model checked exhaustively by TLC; TLC behaviours replayed on the real library and validated"
N_W = ("Every recorded call of randomly generated mooring systems is a step of the TLA+ specification; numbers are compared "
       "with the laws written in the specification within stated tolerances. Bounded by the systems generated; trusts TLC, "
       "the FP override (Java doubles) and the ctypes driver.")
N_S = ("The model is searched exhaustively (2 instances, 1 file, 7 calls); behaviours drawn from it are executed on the real "
       "library and every observation must equal, bit by bit, the one of the same history elsewhere. Bounded by the "
       "behaviours drawn; trusts TLC and the ctypes driver.")

prop("P01", "Coupled degrees of freedom: number, order and sign",
     "The position and velocity vectors a user passes and the force vector he receives list, in this order, coupled bodies, "
     "coupled rods and coupled points, each in input file order, with 6 values per fully coupled body or rod and 3 per pinned "
     "one or per point; the reported number of coupled degrees of freedom equals that total. After every step each entry of "
     "the force vector is the load the mooring system applies on that coupled entity, and nothing beyond those entries is written.",
     ["inputs", "configurations", "histories"],
     "for every mix of coupled, pinned, free and fixed bodies, rods and points, and every motion",
     "the tests couple a handful of hand written systems, mostly of one kind each",
     ["source/MoorDyn2.cpp", "source/Body.cpp", "source/Rod.cpp", "source/Point.cpp"],
     [("running index over CpldBodyIs, CpldRodIs, CpldPointIs", "source/MoorDyn2.cpp MoorDyn::Step, MoorDyn::Init"),
      ("GetFairleadForce", "source/Body.cpp getFnet, source/Rod.cpp getFnet, source/Point.cpp getFnet")],
     tech=CONF, note=N_W, observe=["MoorDyn_NCoupledDOF", "MoorDyn_Init", "MoorDyn_Step", "MoorDyn_Get*State"])
prop("P02", "Time advances as asked and no step is longer than the model time step",
     "Every step advances the simulation time by exactly the dt asked for, whatever the time scheme, in steps no longer than the "
     "model time step, and returns the new time; a step of zero or negative length changes nothing. The model time step is the "
     "given dtM, or the one the CFL factor allows for the shortest natural period of the line segments, the most restrictive "
     "when both are given; setting the one at run time updates the other. Changing the time scheme at run time keeps the time "
     "and the state of everything.",
     ["inputs", "configurations", "histories"],
     "for every combination of dtM, CFL, dt, time scheme and order of calls",
     "tests use steps which are multiples of dtM and set one of the options",
     ["source/MoorDyn2.cpp", "source/Time.hpp", "source/Time.cpp", "source/Util/CFL.hpp"],
     [("substepping of MoorDyn::Step, SetDt, SetCFL, SetTimeScheme", "source/MoorDyn2.cpp, source/MoorDyn2.hpp"),
      ("NatFreqCFL", "source/Util/CFL.hpp"), ("create_time_scheme", "source/Time.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_Step", "MoorDyn_GetDt", "MoorDyn_GetCFL", "MoorDyn_SetDt", "MoorDyn_SetCFL",
                                   "MoorDyn_SetTimeScheme"])
prop("P12", "The motion is what the equations of motion and the time scheme give",
     "From the initial state on, the positions, orientations and velocities of line nodes, free points, free and pinned rods and "
     "bodies after every step are those the chosen explicit or implicit time scheme (Euler, Heun, RK2, RK4, AB2-AB4, BEuler, "
     "Midpoint, ACA) gives for the accelerations that loads and inertia produce, with coupled things following the prescribed "
     "motion within the step.",
     ["inputs", "configurations", "histories"],
     "for every system, time scheme, number of iterations and sequence of step lengths",
     "tests only look whether a pendulum stays bounded, or compare with loose tolerances",
     ["source/Time.cpp", "source/Time.hpp", "source/State.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp",
      "source/Point.cpp"],
     [("Step of every time scheme", "source/Time.cpp"), ("getStateDeriv of every entity", "source/*.cpp"),
      ("algebra of states", "source/State.cpp")],
     tech=CONF, note=N_W + " Local time schemes, Anderson and Wilson are only claimed by P02.",
     observe=["MoorDyn_GetLineNode*", "MoorDyn_GetPoint*", "MoorDyn_GetRod*", "MoorDyn_GetBody*"])
prop("P03", "A snapshot restores exactly the simulation it was taken from",
     "Saving the state of a system (to a file or to memory) and loading it later, in the same instance or in another one "
     "created from the same input file and initialised, even in another process, makes every later answer (positions, "
     "velocities, loads, line lengths and properties changed at run time, forces of later steps) bit for bit equal to those "
     "of the uninterrupted simulation. Taking a snapshot changes nothing.",
     ["histories", "schedules", "crash_points"],
     "for every history of steps and run time changes, every moment of the save, every time scheme and every later history",
     "the tests reload a file once and compare a few steps within a tolerance",
     ["source/IO.cpp", "source/MoorDyn2.cpp", "source/Time.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp",
      "source/Point.cpp"],
     [("Serialize/Deserialize of every entity and of the time scheme", "source/*.cpp"), ("IO::Save, IO::Load", "source/IO.cpp")],
     tech=SESS, note=N_S, observe=["MoorDyn_Save", "MoorDyn_Load", "MoorDyn_Serialize", "MoorDyn_Deserialize", "all getters"])
prop("P04", "Damaged or foreign snapshot files are refused without effect",
     "Loading a file that does not exist, is not a snapshot, was written by an older version, was cut short or extended, or "
     "holds a different amount of data than the system requires returns an error. The system the load was asked for, and any "
     "other, then goes on exactly as if the load had never been attempted.",
     ["fault_sequences", "inputs", "histories"],
     "for every truncation, extension or header corruption of a snapshot file, and every snapshot of a system of another size",
     "no test loads a bad file into a running system",
     ["source/IO.cpp", "source/MoorDyn2.cpp"],
     [("magic word, version, declared and expected sizes", "source/IO.cpp IO::Load")],
     tech=SESS, note=N_S + " Flipped payload bits are not detectable by the format and are not claimed.",
     observe=["MoorDyn_Load", "all getters", "MoorDyn_Step"])
prop("P05", "Deterministic, isolated instances; queries have no effect",
     "What an instance answers depends only on its input file and on the state changing calls it received: the same history "
     "gives bit for bit the same answers in any process, next to any other instances and whatever is done to them. Queries, "
     "log messages, steps of zero or negative length and refused calls never change any later answer.",
     ["histories", "schedules", "configurations"],
     "for every interleaving of calls on several instances, every number of queries and refused calls in between",
     "tests run one instance at a time and never compare histories",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Time.hpp", "source/Waves.cpp", "source/Log.hpp"],
     [("no global state; all the state lives in MoorDyn and its entities", "source/MoorDyn2.hpp"),
      ("early return of MoorDyn::Step for dt <= 0", "source/MoorDyn2.cpp")],
     tech=SESS, note=N_S, observe=["all getters", "MoorDyn_Step"])
prop("P06", "API misuse is answered with an error and nothing else",
     "Every entry point called without its object (null), with an entity number or node index out of range, with missing "
     "coupled kinematics or with an unknown time scheme name or unusable file name returns an error (or a null object) "
     "instead of crashing or touching memory it does not own. Such a call changes nothing.",
     ["inputs", "fault_sequences", "histories"],
     "for every entry point, every out of range index and every moment of a simulation",
     "tests call the API correctly",
     ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Point.cpp", "source/Body.cpp", "source/Waves.cpp",
      "source/Seafloor.cpp", "source/Misc.hpp"],
     [("CHECK_SYSTEM/CHECK_LINE/... and MOORDYN_CATCHER", "source/*.cpp, source/Misc.hpp")],
     tech=SESS, note=N_S + " Part of the runs use AddressSanitizer and UBSan.", observe=["return codes of the whole C API"])
prop("P09", "Attached things move together",
     "After every step each line end has exactly the position and velocity of the point or rod end it is attached to; points "
     "and rods attached to a body move rigidly with it; rods stay straight and of constant length; fixed things stay at their "
     "input position and coupled things follow the prescribed motion.",
     ["inputs", "configurations", "histories"],
     "for every topology of lines, points, rods and bodies, every type and every motion",
     "tests look at a few coordinates of a few systems",
     ["source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Line.cpp", "source/Misc.cpp"],
     [("setDependentStates, setKinematics, updateFairlead, initiateStep", "source/Body.cpp, source/Rod.cpp, source/Point.cpp"),
      ("transformKinematics", "source/Misc.hpp")],
     tech=CONF, note=N_W, observe=["positions and velocities of nodes, points, rods and bodies"])
prop("P10", "Loads reach what things are attached to",
     "The net force and mass of every free or coupled point equal its own weight, buoyancy, drag and added mass "
     "plus those of the line ends attached to it; loads and inertia of everything attached to a rod end or to a body "
     "appear, with their moments, in the loads and inertia of that rod or body. No load is lost or counted twice.",
     ["inputs", "configurations", "histories"],
     "for every topology and every state",
     "tests compare a few totals for hand written systems",
     ["source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Line.cpp"],
     [("doRHS, getNetForceAndMass", "source/Point.cpp, source/Rod.cpp, source/Body.cpp"), ("getEndStuff", "source/Line.cpp")],
     tech=CONF, note=N_W, observe=["forces and mass matrices of points, rods, bodies and line nodes"])
prop("P11", "Loads on line nodes follow the documented line model",
     "At every node of every line the tension and internal damping, submerged weight and buoyancy (also when it pierces the "
     "surface), transverse and axial drag, fluid acceleration forces, sea bed contact and mass matrix reported are those the "
     "documented lumped mass model gives for the current positions, velocities and properties of the line; the net force is "
     "their sum, the fairlead tension is the tension at the upper end, the maximum tension the highest one of all nodes, and the FAST "
     "tensions are the horizontal and vertical parts of the net forces at both ends (the vertical ones less the weight of the mass of the node).",
     ["inputs", "configurations", "histories"],
     "for every line geometry, motion, property set (linear stiffness) and degree of submergence",
     "tests compare a few scalar outputs of a few systems with loose tolerances",
     ["source/Line.cpp", "source/Line.hpp"],
     [("Line::getStateDeriv", "source/Line.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_GetLineNode*", "MoorDyn_GetLineFairTen", "MoorDyn_GetLineMaxTen", "MoorDyn_GetFASTtens"])
prop("P13", "Sea bed: bathymetry, contact force and friction",
     "The depth under any place is the bilinear interpolation of the bathymetry table (clamped at its borders), or the given "
     "constant depth. Line nodes and rods above the bed feel no bed force; below it they feel the documented normal "
     "stiffness and damping and a friction opposing the sliding velocity, never more than the friction coefficient allows.",
     ["inputs", "configurations", "histories"],
     "for every bathymetry grid, place, penetration and sliding velocity",
     "tests use one bathymetry file and flat beds",
     ["source/Seafloor.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Point.cpp"],
     [("Seafloor::getDepthAt", "source/Seafloor.cpp"), ("bottom contact part of getStateDeriv/doRHS", "source/Line.cpp, source/Rod.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_GetDepthAt", "MoorDyn_GetLineNodeSeabedForce", "rod forces"])
prop("P22", "Loads and inertia of rods and bodies follow the documented model",
     "For every free, pinned or coupled rod and body the force, moment and 6x6 mass matrix reported are those the documented "
     "model gives for its current position, orientation and motion: weight, buoyancy with partial submergence, end buoyancy, "
     "drag, added mass, sea bed contact, rotational and centrifugal terms, and the loads of what is attached.",
     ["inputs", "configurations", "histories"],
     "for every rod and body definition, orientation, motion and degree of submergence",
     "tests check a few static or one degree of freedom cases",
     ["source/Rod.cpp", "source/Body.cpp", "source/Misc.cpp"],
     [("Rod::doRHS, Rod::getNetForceAndMass, Body::doRHS", "source/Rod.cpp, source/Body.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_GetRodForce", "MoorDyn_GetRodM", "MoorDyn_GetBodyForce", "MoorDyn_GetBodyM"])
prop("P23", "Bending stiffness and tabulated line properties",
     "Bending forces and curvatures of every line with bending stiffness, and tensions, damping and bending of lines whose "
     "stiffness, damping or bending is given by a table, are those the documented model gives, the tables being interpolated "
     "linearly and kept constant beyond their ends.",
     ["inputs", "configurations", "histories"],
     "for every line shape, kind of end and table",
     "tests use one or two curves and do not look at nodal bending forces",
     ["source/Line.cpp", "source/Line.hpp", "source/MoorDyn2.cpp", "source/Misc.cpp"],
     [("getNonlinearE/C/EI and the bending part of getStateDeriv", "source/Line.cpp"), ("read_curve", "source/MoorDyn2.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_GetLineNodeBendStiff", "MoorDyn_GetLineNodeCurv", "MoorDyn_GetLineNodeTen"])

prop("P17", "Run time control of lines acts at once and only as asked",
     "Setting the unstretched length, its rate of change, the axial stiffness or the internal pressure and pressure bending of a "
     "line at run time is reported back by the getters and drives every later load and motion: the length grows exactly by the rate "
     "times the time elapsed, tension, weight, drag, inertia and bending follow the present length, stiffness and pressure, and "
     "no other line, and no other property of that line, is changed.",
     ["inputs", "configurations", "histories"],
     "for every line, every sequence of settings at any moment and every time scheme",
     "one test pays out one line; stiffness and pressure are never changed in the tests",
     ["source/Line.cpp", "source/Line.hpp", "source/MoorDyn2.cpp"],
     [("setUnstretchedLength, setUnstretchedLengthVel, initiateStep, setConstantEA", "source/Line.hpp, source/Line.cpp"),
      ("setPin, enablePbending", "source/Line.hpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_SetLineUnstretchedLength", "MoorDyn_SetLineUnstretchedLengthVel",
                                   "MoorDyn_SetLineConstantEA", "MoorDyn_SetLinePressInt", "MoorDyn_GetLineNode*"])


prop("P14", "Waves and currents act as their files describe",
     "With waves given by components (WaveKin 7, or 2 on a grid) or by an elevation record (WaveKin 3 on a grid), and currents "
     "steady, in time or in space and time, alone or together, the surface elevation, water velocity, acceleration and dynamic "
     "pressure at any place and time are those of the sum of linear waves of finite depth (dispersion relation, depth stretched to the "
     "surface) and of the current interpolated linearly in its table and held constant outside of it; grids interpolate linearly in "
     "space and time and repeat in time. The loads of every line, point, rod and body use the water at the present place and time "
     "of each of its nodes.",
     ["inputs", "configurations", "histories"],
     "for every sea described by the files, every place and time, every system and every time scheme",
     "the tests compare a few waves at a few places; grids with lists, 4D currents, the combination of waves and currents and the "
     "loads at each node are not covered",
     ["source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/WaveSpectrum.cpp", "source/Waves/SpectrumKin.cpp"],
     [("Waves::updateWaves, getWaveKin", "source/Waves.cpp"), ("constructWaveGrid*, construct*CurrentGrid", "source/Waves/WaveGrid.cpp")],
     state=[("WaveGrid, CurrentGrid", "water kinematics sampled at the grid", "source/Waves.hpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_GetWavesKin", "WaveNumber"])

prop("P15", "Water motion imposed by the caller acts at the very nodes asked for",
     "With WaveKin 1, the points the caller is asked for are every node of every line, then of every rod, every point, the ground and every "
     "body, in that order and at their present positions; the velocity and acceleration set for each of them, and only for it, "
     "drive the loads of that node from then on until they are set again (bodies feel the velocity only), the water is still before the first setting, "
     "and currents add to what is set.",
     ["inputs", "configurations", "histories"],
     "for every system, every set of velocities and accelerations and every sequence of settings and steps",
     "the only test imposes one uniform wave on one line; order, position and use at each node are not checked",
     ["source/Waves.cpp", "source/MoorDyn2.cpp", "source/MoorDyn2.hpp"],
     [("getWaveKinematicsPoints, setWaveKinematics, updateWaves", "source/Waves.cpp"), ("MoorDyn_ExternalWaveKin*", "source/MoorDyn2.cpp")],
     state=[("Waves::nodeKin, Waves::waveKin", "water kinematics of each node", "source/Waves.hpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_ExternalWaveKinInit", "MoorDyn_ExternalWaveKinGetN", "MoorDyn_ExternalWaveKinGetCoordinates",
                                   "MoorDyn_ExternalWaveKinSet"])

prop("P16", "Output files report what was asked for, when it was asked for",
     "The main output file has the time and then one column per requested channel, named as requested and in that order, with a row of units when "
     "WriteUnits is positive; it gets one row per Init and Step or, with a positive dtOut, a row at each call in whose interval a "
     "multiple of dtOut is reached (none at time 0). Each value is the one the API reports for that object at that time, to six digits. "
     "Lines with output flags (p v U D t c s d, K and b), rods (p v) and bodies get a file of their own with the header of what they "
     "were asked for and the state of every node in each row, whatever the kind of the object.",
     ["inputs", "configurations", "histories"],
     "for every system, every set of requested channels and flags and every sequence of steps",
     "the tests never read an output file",
     ["source/IO.cpp", "source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp"],
     [("AllOutput, GetOutput, channel parsing", "source/MoorDyn2.cpp"), ("Line::Output, Rod::Output, Body::Output", "source/Line.cpp")],
     tech=CONF, note=N_W, observe=["<rootname>.out", "<rootname>_Line<id>.out", "<rootname>_Rod<id>.out", "<rootname>_Body<id>.out"])

prop("P08", "Malformed input is refused, sound input is accepted, nothing crashes",
     "An input file with missing entries in a row, unknown types, attachments or IDs, invalid segment counts, lines without line types, a "
     "missing or ill-formed file it refers to (stiffness, damping and bending tables, sea bed, currents, wave components or elevations, water "
     "grid), a time step that is not positive or an unknown WaveKin is refused with an error: a null handle at Create or an error "
     "at Init. A sound file is accepted and its objects have the IDs, kinds, segments and attachments written in it. Unknown options and "
     "outputs of objects, nodes or quantities that do not exist are only ignored. Nothing in an input file makes the library crash, hang or access "
     "invalid memory, and after refusing a file the process can load another one.",
     ["inputs", "configurations"],
     "for every input file and every file it refers to",
     "the tests only load sound files, and a few with one fault",
     ["source/MoorDyn2.cpp", "source/Seafloor.cpp", "source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Line.cpp", "source/Rod.cpp"],
     [("ReadInFile and the read* helpers", "source/MoorDyn2.cpp"), ("Seafloor::setup", "source/Seafloor.cpp"),
      ("construct*Grid*", "source/Waves/WaveGrid.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_Create", "MoorDyn_Init", "MoorDyn_GetNumber*", "MoorDyn_Get*Type"])

prop("P18", "Simulations start where the input and the relaxation say",
     "Without relaxation (TmaxIC 0, or Init_NoIC) Init leaves free bodies, rods and points at the place written in the input and everything at "
     "rest at time 0; lines have the length given (a negative one is times the distance between the ends), and lines which sink "
     "hang as the elastic catenary between their ends, lying on the bed when an end touches it, or straight when "
     "vertical or too long; a line whose end A is under a sea bed given by a file is refused. With ICgenDynamic the system is integrated with all its "
     "drag multiplied by CdScaleIC, ten samples per dtIC, until no fairlead tension departs by more than threshIC from those of the previous nine "
     "samples or TmaxIC has passed; otherwise the stationary solver leaves everything at rest, coupled and fixed objects in place and lines between them "
     "no farther from equilibrium. Afterwards time is 0 and loads follow the properties of the input again.",
     ["inputs", "configurations"],
     "for every mooring system and every choice of dtIC, TmaxIC, CdScaleIC, threshIC and ICgenDynamic",
     "the tests start a few systems and compare loosely with stored solutions",
     ["source/MoorDyn2.cpp", "source/Line.cpp", "source/QSlines.hpp", "source/Time.cpp", "source/Point.cpp", "source/Body.cpp", "source/Rod.cpp"],
     [("MoorDyn::icLegacy, icStationary, Init", "source/MoorDyn2.cpp"), ("Line::initialize", "source/Line.cpp"), ("Catenary", "source/QSlines.hpp"),
      ("StationaryScheme::Step", "source/Time.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_Init", "MoorDyn_Init_NoIC", "MoorDyn_GetLineNodePos", "MoorDyn_GetLineUnstretchedLength"])

prop("P19", "The old interface is the new one with a single hidden instance",
     "MoorDynInit loads, initialises and keeps one system per process: one that succeeds replaces the previous, one that fails "
     "returns an error and leaves the previous as it was; MoorDynClose releases it. Without a system MoorDynStep, MoorDynClose and the queries "
     "return an error (GetFairTen -1, externalWaveKinInit 0) and write nothing. With one, MoorDynStep (forces, time), "
     "GetFairTen, GetFASTtens, GetPointPos, GetPointForce, GetNodePos, externalWaveKinInit, getWaveKinCoordinates and setWaveKin give bit by bit what the same "
     "history gives through MoorDyn_* handles, and lines, nodes or points that do not exist are refused. Systems with handles "
     "and the hidden one do not affect each other.",
     ["histories", "inputs"],
     "for every sequence of calls of both interfaces and every mooring system",
     "a test runs one system once through the old interface",
     ["source/MoorDyn.cpp", "source/MoorDyn.h", "source/MoorDyn2.cpp"],
     [("md_singleton and its wrappers", "source/MoorDyn.cpp")],
     tech=SESS, note=N_S, observe=["MoorDynInit", "MoorDynStep", "MoorDynClose", "GetFairTen", "GetFASTtens", "GetPointPos", "GetPointForce", "GetNodePos"])

prop("P24", "Simulations which get lost are reported",
     "When the integration diverges and a free body, rod or point or a node of a line is no longer anywhere (NaN), that Step or at the latest the next "
     "one returns MOORDYN_NAN_ERROR, and so does every one after it: no simulation goes on from a lost state as if nothing had happened. "
     "MoorDyn_GetLineNodePos and GetRodNodePos return that error for such nodes instead of success. Steps which "
     "lose nothing return success. (Schemes without local time steps.)",
     ["inputs", "histories"],
     "for every mooring system, every time step, however unstable, and every scheme without local time steps",
     "the tests only run stable systems",
     ["source/Line.cpp", "source/Line.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Body.cpp", "source/Point.cpp", "source/MoorDyn2.cpp"],
     [("NaN checks of getStateDeriv", "source/Line.cpp"), ("MOORDYN_CATCHER in Step", "source/MoorDyn2.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_Step", "MoorDyn_GetLineNodePos", "MoorDyn_GetRodNodePos"])


prop("P07", "Input files which say the same describe the same system",
     "Two input files with the same content behave bit for bit alike in everything that can be observed (coupled degrees of freedom, time step, "
     "initial state, states and loads after every step, output rows), in whatever form that content is written: any of the accepted titles of a "
     "section (e.g. LINE TYPES or LINE DICTIONARY, POINTS or CONNECTION PROPERTIES), attachment words (Fixed/Fix/Anchor, "
     "Coupled/Cpld/Vessel/Ves, CpldPin/CoupledPinned/VesPin/VesselPinned, Pinned/Pin, Free/Con/Connect/Point, Fairlead), line ends (3, P3, Point3, Con3; R1A, Rod1A), option "
     "names (dtM/DT, CFL/cfl, g/gravity, rho/Rho/WtrDnsty, kBot/kbot/kb, cBot/cbot/cb, dtIC/ICdt, TmaxIC/ICTmax, CdScaleIC/ICDfac, "
     "threshIC/ICthresh) and channel names (L1/Line1, N0/NA, T/TEN, AnchTen1/Line1TenA); titles, attachments, ends, time schemes and channels in letters of any case; "
     "numbers in any notation; one value or its expansion for CG, I, CdA and Ca of bodies; options in any order; an option left out or given "
     "with its default value; types in any order, under any name, used or not; any front matter, labels, number of blanks, remarks after options and line ends "
     "(LF, CRLF); any writeLog level.",
     ["inputs"],
     "for every accepted input file, every form of writing it and every motion of the coupled objects",
     "tests load a few files, each written in one way, and cannot compare all the ways of writing all systems",
     ["source/MoorDyn2.cpp", "source/Misc.cpp", "source/Time.cpp", "source/Waves/WaveOptions.hpp", "docs/inputs.rst"],
     [("ReadInFile", "source/MoorDyn2.cpp"), ("readOptionsLine", "source/MoorDyn2.cpp"), ("str::decomposeString", "source/Misc.cpp")],
     tech=CONF, note=N_W, observe=["MoorDyn_Create", "MoorDyn_Init", "MoorDyn_Step", "output files"])

prop("P25", "The Python module answers and acts as the C API",
     "Every function of the Python module (wrappers/python/moordyn/moordyn.py over cmoordyn.cpp) stands for the C function of the same name and "
     "has its effect on the system, no less and no more: after any session held in Python the system looks bit for bit as after the same session "
     "held in C (states, loads, settings, log messages, saved states). Its answer is the one of the C function: those which set, initialise, "
     "write or close answer the return code; those which ask answer what the C function wrote (same object, same node, same component, same "
     "order), as numbers, tuples or lists of numbers, truth values, bytes or handles of the same object; where the C function reports an error or "
     "gives no object they raise RuntimeError (GetSeafloor gives None). Lists of the wrong length raise ValueError and lists of anything but "
     "numbers TypeError, without touching the system. The named constants have the values of the C headers.",
     ["inputs", "histories"],
     "for every mooring system and every sequence of calls",
     "the tests call a fraction of the functions on one system and never compare their answers with the C API",
     ["wrappers/python/moordyn/moordyn.py", "wrappers/python/cmoordyn.cpp", "source/MoorDyn2.h", "source/Line.h", "source/Rod.h", "source/Body.h",
      "source/Point.h", "source/Waves.h", "source/Seafloor.h"],
     [("moordyn_methods", "wrappers/python/cmoordyn.cpp"), ("py_iterable_to_double", "wrappers/python/cmoordyn.cpp")],
     tech=CONF, note=N_W, observe=["the functions of the Python module moordyn"])


prop("P26", "Input files generated in Python say what their objects say",
     "A mooring system put together with the classes of moordyn.Generator (materials, bodies, rods, points, lines, line ends, options) and written "
     "by Mooring.Create() is the system its objects describe at that moment, in whatever order they were made, changed and added: objects are "
     "numbered in the order in which they are added, every field written in the column of the input file that stands for it with the value it was last "
     "given (by the constructor, the property or the values of a list; one number or a list of them for CoG, inertia, CdA and Ca; rotations in "
     "radians become degrees), lines and rods have the present name of their material, points and rods attached to a body name it, line ends name "
     "their point or the end of their rod, and attachments are what was last said of them (fixed and coupled exclude each other, a body makes a rod "
     "fixed to it or, when pinned, pinned to it). Fields read back are those set. The file is accepted and Create() returns the system. (Failures are "
     "not supported by the library and not claimed.)",
     ["inputs", "histories"],
     "for every sequence of constructions, changes and additions",
     "the only test generates one catenary of points and lines, without bodies, rods or changes",
     ["wrappers/python/moordyn/Generator/Mooring.py", "wrappers/python/moordyn/Generator/Entity.py", "wrappers/python/moordyn/Generator/Body.py",
      "wrappers/python/moordyn/Generator/Rod.py", "wrappers/python/moordyn/Generator/Line.py", "wrappers/python/moordyn/Generator/Point.py",
      "wrappers/python/moordyn/Generator/Option.py"],
     [("Mooring", "wrappers/python/moordyn/Generator/Mooring.py"), ("Entity", "wrappers/python/moordyn/Generator/Entity.py")],
     tech=CONF, note=N_W, observe=["the file written by Mooring.Create()", "the fields of the objects"])


prop("P27", "The Fortran module answers and acts as the C API",
     "Every procedure MD_x of the Fortran module (wrappers/fortran/MoorDyn.f90) stands for the C function MoorDyn_x: it passes on what it is given "
     "(numbers by their value, texts without the blanks at their end, arrays in their order), answers with the return code or the handle of the same "
     "object, fills its arguments with what the C function writes when it succeeds, and has the effect of that function on the system, no less "
     "and no more: after any session held in Fortran the system looks bit for bit as after the same session held in C (states, loads, settings, log "
     "messages, saved states). The named constants have the values of the C headers.",
     ["inputs", "histories"],
     "for every mooring system and every sequence of calls",
     "the only Fortran test calls a dozen of the procedures and looks at none of their answers",
     ["wrappers/fortran/MoorDyn.f90", "source/MoorDyn2.h", "source/Line.h", "source/Rod.h", "source/Body.h", "source/Point.h", "source/Waves.h",
      "source/Seafloor.h"],
     [("MD_* procedures and their bind(c) interfaces", "wrappers/fortran/MoorDyn.f90")],
     tech=CONF, note=N_W, observe=["the procedures of the Fortran module moordyn"])


prop("P21", "Messages go where the log settings of their system say, and only there",
     "A message given to MoorDyn_Log() appears once and unchanged on the terminal if its level is not below the verbosity of that system "
     "(MoorDyn_SetVerbosity(), MOORDYN_MSG_LEVEL at first; errors on stderr, the others on stdout), and in the log file of that system, in the order of the "
     "calls, if one is open and its level is not below the log level (MoorDyn_SetLogLevel()); it appears nowhere else. Settings of one system do not touch those of "
     "another one. The option writeLog n > 0 opens a log file named as the input file with extension .log, next to it, for warnings and "
     "errors (1), also messages (2) or everything (3 and more); with 0 or less there is none and the log level is MOORDYN_NO_OUTPUT; without the option there is no file, and one opened later gets "
     "everything. MoorDyn_SetLogFile() starts the file anew and leaves the former one complete; a file that cannot be opened is reported with "
     "MOORDYN_INVALID_OUTPUT_FILE. Closing a system completes its file. With verbosity MOORDYN_NO_OUTPUT successful calls of Init_NoIC, Step, Save and Close "
     "print nothing, and with log level MOORDYN_NO_OUTPUT nothing is written to a log file opened then.",
     ["inputs", "histories"],
     "for every number of systems, every sequence of settings, messages and steps",
     "no test looks at a log file or at what is printed",
     ["source/Log.hpp", "source/Log.cpp", "source/MoorDyn2.cpp", "source/MoorDyn2.hpp"],
     [("Log::Cout, MultiStream", "source/Log.cpp, source/Log.hpp"), ("SetupLog", "source/MoorDyn2.hpp"), ("MoorDyn_SetLogFile, MoorDyn_Log", "source/MoorDyn2.cpp")],
     tech=CONF, note=N_W, observe=["stdout", "stderr", "log files"])


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    json.dump({
        "version": 1, "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "MOORDYN_VERIF", "enable": "no hooks are needed: the checks drive the public C API", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                    "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "model_checking",
                    "level_note": p["note"]} for p in P if p["claim"]],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
        "notes": "see DESIGN.md"}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
