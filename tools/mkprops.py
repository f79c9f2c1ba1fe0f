"""Writes /verif/properties.jsonl (run after editing the table below)"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': ['src/lib/pytornado/' + f if not f.startswith('src/') else f for f in files],
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': observe, 'hook_needed': None}})


LAT = ('lattice arrays', 'panel corners, horseshoe points, collocation points, normals, areas', 'objects/vlm_struct.py VLMLattice')
VLM = ('analysis data', 'downwash matrix, right-hand side, circulations, panelwise and global loads', 'objects/vlm_struct.py VLMData')

# ----------------------------------------------------------------------
prop('A01', 'Flow tangency holds on every panel of every completed analysis',
     'Whenever an analysis returns results, the total fluid velocity (free stream, rigid-body rotation about the centre of gravity, and the velocity induced by all horseshoe vortices with the reported circulations) has no component along the panel normal at any collocation point. If the linear system has no solution (for instance two coincident surfaces), the analysis raises an error instead of returning results.',
     ['inputs'], 'every aircraft, lattice, flight state and regularisation setting, including singular configurations',
     'The tests run a handful of fixed aircraft and look at most at a few global numbers; none evaluates the boundary condition, and none has a singular system.',
     ['aero/vlm.py', 'aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/c_lattice.cpp'],
     [('solver() solves the dense system and checks the LAPACK status', 'aero/vlm.py solver'), ('downwash matrix and right-hand side', 'aero/c_downwash.cpp, aero/c_boundary.cpp')],
     ['results dictionary of standard_run'], [LAT, VLM])

prop('A02', 'Influence matrix and right-hand side follow Biot-Savart and the flight state',
     'Entry (i, j) of the downwash matrix equals the component along normal i, at collocation point i, of the velocity that a unit-strength horseshoe vortex on panel j induces according to the Biot-Savart law with the configured regularisation, the trailing legs following the free stream direction (alpha, beta) to far downstream. Entry i of the right-hand side equals the normal component of the velocity of collocation point i relative to the undisturbed air: minus the free stream velocity plus the rotation rates (P, Q, R) crossed with the lever arm from the centre of gravity.',
     ['inputs'], 'every lattice, flight state (alpha, beta, airspeed, rotation rates), centre of gravity and regularisation',
     'No test looks at the matrix or right-hand side; the stored references only cover one state without side slip and rotation.',
     ['aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/c_lattice.cpp', 'aero/c_vlm.cpp'],
     [('three-leg Biot-Savart sum', 'aero/c_downwash.cpp vlm_downwash'), ('velocity of the collocation point', 'aero/c_boundary.cpp vlm_boundary'), ('free stream direction', 'aero/c_vlm.cpp get_freestream_direction')],
     ['results dictionary of standard_run', 'matrix.dat'], [LAT, VLM])

prop('A03', 'Panel loads obey Kutta-Joukowski and pressure coefficients match them',
     'On every panel the reported force equals density times circulation times the cross product of the local velocity at the midpoint of the bound vortex (free stream minus rotation-induced velocity plus velocity induced by all horseshoes) with the bound vortex leg from its inner to its outer end. The reported velocity components are the induced velocity there, the reported magnitudes are the Euclidean norms of their components, and the pressure coefficient is the force component along the panel normal divided by dynamic pressure and panel surface area.',
     ['inputs'], 'every panel of every lattice and flight state',
     'Tests do not read panelwise data.',
     ['aero/c_results.cpp', 'aero/vlm.py'],
     [('panel loop', 'aero/c_results.cpp vlm_results')], ['results dictionary of standard_run', 'panelwise.dat'], [VLM])

prop('A04', 'Global loads and coefficients are the sums of the panel loads',
     'Total forces are the sums of the panel forces and total moments the sums of the moments of the panel forces, acting at the bound vortex midpoints, about the moment reference point. Lift, drag and side force are these totals rotated by alpha and beta into wind axes. Coefficients are the loads divided by dynamic pressure and reference area, and for moments also by the reference span (roll, yaw) or reference chord (pitch).',
     ['inputs'], 'every aircraft, flight state and set of reference values (area, span, chord, moment reference, centre of gravity)',
     'Tests compare single numbers for one configuration where several of the references coincide (both centres at the same point, no side slip).',
     ['aero/c_results.cpp', 'aero/c_vlm.cpp'],
     [('accumulation and coefficients', 'aero/c_results.cpp vlm_results, vlm_coeffs'), ('copying of the results to the Python dictionaries', 'aero/c_vlm.cpp set_resultstruct')],
     ['results dictionary of standard_run', 'global.json'], [VLM])

prop('A05', 'Results obey the similarity and invariance laws of the linear model',
     'Loads scale with density and with the square of airspeed (rotation rates scaled along) while coefficients stay the same; translating aircraft, centre of gravity and reference point together, or scaling all lengths (rates scaled inversely, loads with the corresponding power), leaves coefficients unchanged up to the finite length of the wake; reference area, span and chord only rescale coefficients. Renaming components, reordering wings, or splitting the wings of one definition differently into wing entries does not change the total loads. Moving the moment reference point changes moments exactly by the lever arm crossed with the total force.',
     ['inputs'], 'every aircraft and flight state together with every such transformation',
     'These are relations between runs; each test makes isolated runs.',
     ['aero/vlm.py', 'aero/c_results.cpp', 'aero/c_boundary.cpp', 'objects/aircraft.py', 'fileio/native/aircraft.py'],
     [('the whole analysis chain', 'stdfun/run.py standard_run')], ['results dictionary of standard_run'])

prop('A06', 'Mirror-symmetric aircraft in mirror-symmetric flow carry symmetric loads',
     'For an aircraft that is symmetric about the X-Z plane (equal control deflections left and right) with zero side slip, roll and yaw rate, side force, rolling and yawing moment about a point in that plane vanish, and mirrored panels carry mirrored forces. For any aircraft, mirroring geometry, deflections and the signs of side slip, roll rate and yaw rate mirrors the loads: lift, drag and pitching moment are unchanged; side force, roll and yaw change sign. A wing with the symmetry flag gives the same loads as two explicit wings, one of them defined by mirrored corner points.',
     ['inputs'], 'every aircraft (taper, sweep, twist, dihedral, camber, controls) and flight state',
     'The tests contain no comparison of left and right sides.',
     ['objects/aircraft.py', 'aero/vlm.py', 'aero/c_lattice.cpp'],
     [('mirroring and reordering of vertices', 'objects/aircraft.py mirror_vertices, order_mirrored_vertex_points'), ('normal rotations on the mirrored side', 'aero/vlm.py gen_lattice')],
     ['results dictionary of standard_run'], [LAT])

prop('A07', 'Analyses reproduce the classical limits and sign conventions of wing theory',
     'For a flat wing lift is linear in the angle of attack for small angles, the lift-curve slope lies between the lifting-surface limits and tends to two pi per radian for large aspect ratio, the induced drag is positive and close to CL squared over pi times aspect ratio, and the centre of pressure of an unswept wing lies at the quarter chord. Positive alpha, positive (trailing edge down) flap deflection and positive pitch rate with the wing behind the centre of gravity increase lift; side slip from the right pushes a fin to the left, and rolling is damped. Cambered aerofoils have the zero-lift angle of thin-aerofoil theory in the high aspect ratio limit.',
     ['inputs'], 'every aspect ratio, sweep, taper, resolution and small angle',
     'Tests contain no physical reference, a sign or factor error consistent between all parts would pass.',
     ['aero/vlm.py', 'aero/c_lattice.cpp', 'aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/c_results.cpp', 'objects/aircraft.py'],
     [('the whole analysis chain', 'stdfun/run.py standard_run')], ['results dictionary of standard_run'])

# ----------------------------------------------------------------------
prop('G01', 'The lattice tiles every wing surface exactly once',
     'The panels of every segment lie on the surface spanned by its corner points and cover it completely without gaps or overlaps, sharing edges with their neighbours, in strips from leading to trailing edge; every panel belongs to exactly one entry of the panel bookkeeping and to the wing, segment and side the entry names. For every panel, the bound vortex lies on the quarter-chord line, the collocation point on the three-quarter-chord line at mid-span, trailing legs leave in free stream direction, the normal has unit length and without rotation is perpendicular to the panel in the collocation point, and the area is the surface area. Panel counts and minimum, maximum and average areas and aspect ratios reported for the lattice agree with the panels.',
     ['inputs'], 'every aircraft: any number of wings, segments and controls, taper, sweep, twist, dihedral, any panel counts, any symmetry flag',
     'No test inspects the lattice.',
     ['aero/vlm.py', 'aero/c_lattice.cpp', 'objects/aircraft.py', 'objects/vlm_struct.py'],
     [('strips and subareas', 'objects/aircraft.py WingSegment.add_subdivision, SegmentStrip, StripSubdivision'), ('panel generation', 'aero/c_lattice.cpp vlm_lattice'), ('bookkeeping', 'aero/vlm.py gen_lattice')],
     ['results dictionary of standard_run'], [LAT])

prop('G02', 'Control surfaces occupy exactly the region the definition names',
     'For every control surface, the panels attributed to it cover the region between its inner and outer edge (within the documented merging of almost coincident spanwise borders) and from its dividing line to the trailing edge (flap) or leading edge (slat), also across several segments, and no panel outside of this region is attributed to it. The dividing line is straight between its end points on a segment, and across segments interpolated linearly along the span; existing controls keep their region when further controls or spanwise divisions are added.',
     ['inputs'], 'every set of valid flaps and slats on any wing, including shared borders, stacked flap and slat, many segments, tapered and swept segments',
     'Tests have one flap in the middle of one segment or none.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('pre_panelling', 'aero/vlm.py'), ('add_subdivision_for_control, xsi_interpol', 'objects/aircraft.py')],
     ['panel bookkeeping and panel corners in the results of standard_run'], [LAT])

prop('G03', 'Normals are tilted by exactly the control deflection and the camber slope',
     'The normal of every panel equals the geometric panel normal rotated first, if the panel belongs to a control surface, about the hinge line (from its inner to its outer end, right-hand rule) by the deflection of that control on that side of the wing, and then, about the spanwise axis perpendicular to the chord, by the camber-line slope of the local aerofoil at the chordwise position of the collocation point, the aerofoil being interpolated linearly between inner and outer section. Geometry other than normals is not affected by deflections or aerofoils, and with normal rotations switched off the normals are the geometric ones.',
     ['inputs'], 'every deflection (left and right independently), hinge line, aerofoil (NACA or coordinate file), spanwise and chordwise position',
     'Tests use one deflection pair and do not look at normals.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('normal rotations', 'aero/vlm.py gen_lattice'), ('hinge axis and camber axis', 'objects/aircraft.py StripSubdivision'), ('aerofoil import', 'objects/aircraft.py WingSegment._import_airfoils')],
     ['normals in the results of standard_run'], [LAT])

prop('G04', 'The symmetry flag adds the exact mirror image of the wing',
     'With symmetry flag 1, 2 or 3 the lattice contains, in addition to the panels of the defined wing, their exact mirror images across the X-Y, X-Z or Y-Z plane, with control regions mirrored likewise; with flag 0 it contains nothing else. Mirrored panels are ordered so that their first corner is the leading edge, spanwise ordered in the global sense as on the original wing (flags 1 and 2), and mirrored normals, apart from control deflections, are mirror images up to orientation (flags 1 and 2).',
     ['inputs'], 'every wing geometry and symmetry flag, with and without controls and camber',
     'Tests only use flag 2 with an uncambered, untwisted wing and do not compare panels.',
     ['objects/aircraft.py', 'aero/vlm.py'],
     [('mirror_point, order_mirrored_vertex_points', 'objects/aircraft.py'), ('mirrored subareas', 'aero/vlm.py gen_lattice')],
     ['lattice in the results of standard_run'], [LAT])

prop('G05', 'Deformed wings have exactly the deformation of the given field, and only it',
     'Every panel corner on the leading or trailing edge of a deformed wing is displaced by the translation and rotation of the nearest point of its deformation field, interior points follow linearly along the chord, the mirrored side uses the field marked as mirrored and an undefined side stays undeformed. A zero field gives the undeformed lattice, a uniform translation field translates the wing, fields of other wings or fields marked to be ignored have no effect, and the result does not depend on earlier evaluations or flight states.',
     ['inputs', 'histories'], 'every aircraft, deformation field, wing name and number of flight states analysed before',
     'The only deformation test is not part of the stable tests and does not compare positions.',
     ['objects/aircraft.py', 'fileio/native/deformation.py', 'aero/vlm.py'],
     [('get_deformed_segment_point', 'objects/aircraft.py'), ('assignment of fields to wings', 'fileio/native/deformation.py load')],
     ['lattice in the results of standard_run'], [LAT])

prop('G06', 'Discretisation follows the requested panel numbers without sliver panels',
     'Without controls, a segment has exactly the requested numbers of chordwise and spanwise panels, equally spaced; if none are requested, the chordwise number is the global setting and the spanwise number the global setting times the share of the segment in the span of its wing, rounded up. Control edges add spanwise borders; control panels have the requested chordwise number, and the remaining part of such a strip the segment number times its relative length, rounded up. Two spanwise borders are never closer than one percent of the segment span, however close control edges are to each other or to segment edges, and refining the lattice changes the total lift only by a converging amount.',
     ['inputs', 'configurations'], 'every combination of explicit and automatic panel numbers, segment lengths and control edges, including almost coincident edges',
     'Tests use one or two settings and no almost coincident edges.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('set_autopanels, gen_lattice', 'aero/vlm.py'), ('add_subdivision', 'objects/aircraft.py')],
     ['lattice in the results of standard_run'], [LAT])

prop('G07', 'Segments given by geometric properties equal segments given by vertices',
     'A segment given by one corner and all geometric properties (chord, incidence, yaw and axis position of both edges; span and sweep of the leading edge; dihedral of the axis), or by one edge (AD or BC) and all properties but those of this edge, has exactly the corners which these definitions imply, also if properties are zero; missing axis positions mean quarter chord. Conversely the properties, spans, areas and relative positions derived from four corners follow the same definitions, so that an aircraft given by vertices and the one given by its derived properties have the same lattice and loads. Definitions that do not determine the segment (missing properties, other combinations of corners, no corner) are refused without results.',
     ['inputs', 'configurations'], 'every combination of corners and properties, for all values with positive chords and spans and angles below 90 degrees',
     'All test aircraft but one are given by vertices, and none is given by properties.',
     ['objects/aircraft.py', 'fileio/native/aircraft.py'],
     [('generate, check_geometry, check_vertices', 'objects/aircraft.py WingSegment'), ('area, span, position', 'objects/aircraft.py Wing, Aircraft'), ('loading of the geometry entry', 'fileio/native/aircraft.py load')],
     ['lattice and loads in the results of standard_run', 'aircraft object returned by the loader'], [LAT])

# ----------------------------------------------------------------------
prop('S01', 'Flight states accept the documented combinations and use the standard atmosphere',
     'A flight state is accepted exactly for the documented combinations (airspeed and density, airspeed and altitude, Mach number and altitude), the unused ones being absent or null; density and speed of sound then follow the ICAO standard atmosphere at the given altitude, airspeed is Mach number times speed of sound, and given values are used unchanged. The free stream vector has the given airspeed and the directions of alpha and beta, and angles outside of [-90, 90] degrees, other combinations and lists of different lengths are rejected.',
     ['inputs'], 'every combination of given and missing parameters, scalar or list, over the whole range of the atmosphere',
     'Tests use airspeed and density only.',
     ['objects/state.py', 'fileio/native/state.py'],
     [('update_from_dict, check_values, free_stream_velocity_vector, iter_states', 'objects/state.py')],
     ['state files, results of standard_run'])

prop('S02', 'A batch of flight states equals the same states analysed one by one',
     'Analysing a list of flight states gives, for every entry and in the given order, exactly the loads, coefficients and result files of an analysis of that entry alone, independent of the other entries, of their order and of analyses made before in the same process. The aeroperformance map contains every entry once, with the parameters belonging to the results.',
     ['inputs', 'histories'], 'every aircraft (with controls, symmetry, deformation) and list of flight states, and every sequence of analyses',
     'The one batch test has three fixed states of one wing and does not compare against single analyses.',
     ['stdfun/run.py', 'aero/vlm.py', 'objects/state.py', 'objects/settings.py', 'fileio/native/results.py'],
     [('loop over the flight states, subareas made only once', 'stdfun/run.py standard_run'), ('iter_states', 'objects/state.py')],
     ['results of standard_run', '_results directory'])

prop('S03', 'Settings: defaults, merging, isolation between instances and type checks',
     'Every setting that is not given has its documented default, also within the plot and save sections, every given setting has exactly the given value, and values of the wrong type or out of range are rejected. Settings of one project never influence another one, and neither running an analysis nor saving the settings changes them (apart from the default plotted quantity).',
     ['configurations', 'histories'], 'every subset of settings given at every level, any number of settings objects in one process',
     'Tests load a few complete settings files.',
     ['objects/settings.py', 'objects/utils.py', 'fileio/native/settings.py', 'plot/makeplots.py'],
     [('get_default_dict, update_dict, check_dict', 'objects/utils.py'), ('Settings', 'objects/settings.py')],
     ['Settings object, settings file'])

prop('S04', 'Ill-defined input is refused before any result is written',
     'Input violating the documented constraints is refused with an error, and no result file is created: missing or non-positive reference values, invalid symmetry flags, unknown or malformed aerofoils, controls with overlapping regions, reversed or out-of-range positions, segments which are unknown or in the wrong order, or unknown device types, deflections beyond 90 degrees, non-positive panel numbers, duplicate component names, incomplete corner points, invalid or missing flight state values, missing files, unsupported aircraft file types. The same project without the fault is accepted.',
     ['inputs'], 'every kind of fault injected at every place of an otherwise valid project',
     'Tests contain no invalid input.',
     ['objects/aircraft.py', 'objects/state.py', 'objects/settings.py', 'fileio/native/aircraft.py', 'fileio/native/state.py'],
     [('schemas and checks', 'objects/aircraft.py check methods'), ('FlightState checks', 'objects/state.py')],
     ['exceptions from standard_run, _results directory'])

# ----------------------------------------------------------------------
prop('F01', 'Result files contain the computed results completely and faithfully',
     'The global results file contains flight state, reference values, total loads and coefficients of its flight state exactly; the panelwise file has one row per panel, in lattice order, with the columns its header names, and the matrix file the downwash matrix and right-hand side, both to the printed precision; the aeroperformance file lists parameters and results of all flight states in order. Files of flight state number n are in the directory of the project with number n.',
     ['inputs', 'configurations'], 'every aircraft, number of flight states and combination of save settings',
     'Tests only check that the run does not fail, or that a file exists.',
     ['fileio/native/results.py', 'fileio/utils.py', 'stdfun/run.py', 'objects/settings.py'],
     [('save_all and save_aeroperformance_map', 'fileio/native/results.py')], ['_results directory'])

prop('F02', 'Only the requested files are written, and nothing outside the project changes',
     'An analysis writes exactly the requested result and plot files below the output directories of its project plus a log file, and never changes its input files or anything outside of the project directory. Cleaning removes the output directories of the project only, and generating an example refuses to overwrite an existing directory.',
     ['configurations', 'histories'], 'every combination of save and plot settings, command line options, and previous contents of the directories',
     'Tests run in a fixed directory and do not look for unexpected files.',
     ['fileio/native/results.py', 'objects/settings.py', 'stdfun/run.py', 'stdfun/setup.py', 'src/bin/pytornado', 'plot/makeplots.py'],
     [('ProjectPaths groups', 'objects/settings.py generate_paths, clean'), ('setup_wkdir', 'stdfun/setup.py')], ['file system before and after'])

prop('F03', 'Aircraft, settings and flight states survive saving and loading',
     'An aircraft, a settings object or a flight state that is written to its native file and loaded again is the same as before (hidden settings excepted) and gives the same analysis results, also repeatedly and after analyses; numbers are preserved exactly. Projects generated from the template or from any aircraft of the database run and produce finite results.',
     ['inputs', 'histories'], 'every aircraft, settings and state, every order of save, load and run',
     'Tests never save and reload.',
     ['fileio/native/aircraft.py', 'fileio/native/settings.py', 'fileio/native/state.py', 'fileio/utils.py', 'stdfun/setup.py', 'database/tools.py'],
     [('load and save pairs', 'fileio/native')], ['native files'])

prop('F04', 'Requested plots are produced, show the right data and do not affect results',
     'For every combination of plot settings exactly the plots requested are saved, for every flight state in its own directory, and nothing is shown or saved otherwise. The numerical results are the same with and without plots. The plotted lattice, wings, control surfaces, centre of gravity and panel colours correspond to the lattice, geometry and panelwise results of the analysis, and so do the aircraft name, the numbers of wings, segments and controls given next to it, the free stream direction, the airspeed and the range of the colour bar.',
     ['configurations', 'inputs'], 'every combination of plot settings, plotted quantity, aircraft (symmetry, deformation, controls) and number of flight states',
     'The plotting test only checks that saving some plots does not fail.',
     ['plot/makeplots.py', 'plot/plottools.py', 'plot/downwash.py'],
     [('make_all', 'plot/makeplots.py'), ('plot2d3d, add_results, add_lattice', 'plot/plottools.py')], ['matplotlib artists, _plots directory'])

prop('F05', 'CPACS input and output map to the same model as the native format',
     'An aircraft and its aeroperformance map read from a CPACS file through the CPACS libraries have the geometry, airfoils, symmetry, reference values, trailing edge devices, deflections and flight states given there, so that analysing them gives the same results as the equivalent native project; the computed coefficients are written back to the map which was analysed, in its order, and nothing else in the file changes. Maps which are incomplete, inconsistent or ambiguous are refused. Converting a CPACS aircraft to the native format preserves it.',
     ['inputs'], 'every CPACS aircraft with wings, segments, control devices and aeroperformance maps',
     'The CPACS tests cannot run without the external libraries.',
     ['fileio/cpacs/aircraft.py', 'fileio/cpacs/state.py', 'fileio/cpacs/results.py', 'fileio/cpacs/utils.py'],
     [('load', 'fileio/cpacs/aircraft.py'), ('load', 'fileio/cpacs/state.py'), ('save_aeroperformance_map', 'fileio/cpacs/results.py')],
     ['aircraft and state objects, calls to the CPACS libraries'])

prop('C01', 'The command line runs exactly what it is told and reports failures',
     'Analysing a settings file with the command line, with every form and order of the arguments, from every working directory, at every message level and with or without cleaning before, writes the same result files as analysing the project with the library, and ends with exit status 0; an analysis or conversion that fails ends with another exit status and an error message, and without result files. Only messages of the chosen level or above (errors if quiet, warnings by default, information if verbose, everything for debugging) are printed, the same ones are in the log file, and a more talkative level has all messages of the others. Generated examples contain the aircraft of the database with the given name, the list of examples has all aircraft of the database, and converting a CPACS file gives what the conversion of the library gives.',
     ['inputs', 'histories'], 'every project, command line and working directory',
     'The tests never start the program.',
     ['src/bin/pytornado', 'stdfun/run.py', 'stdfun/setup.py', 'database/tools.py'],
     [('main', 'src/bin/pytornado'), ('standard_run', 'stdfun/run.py'), ('setup_wkdir, cpacs2pytornado', 'stdfun/setup.py')],
     ['exit status, terminal output, log file, result files'])

prop('O01', 'The aircraft model of an analysis is complete and consistent, and its helpers enumerate every component exactly once',
     'Once an aircraft has been generated, and also after the analysis, it holds exactly the wings, segments and controls of the definition in the order of their definition, each belonging to the wing it was defined in. The helper functions (all wings, segments, controls, strips, subareas; their numbers) yield every component exactly once, in this order, numbered from zero within its owner and together with its owners. After the lattice has been made, every subarea belongs to its strip, segment and wing, subareas of controls (and only these) refer to the control of that wing and type they belong to, the subareas of a control are found by its UID, and the bookkeeping of the lattice holds every subarea exactly once per side. Areas and spans of segments, wings and the aircraft (one side, in the case of wings with symmetry) are the geometric ones for wings with chords parallel to the x-axis.',
     ['inputs'], 'every aircraft (any numbers of wings, segments and controls, all symmetry flags, with and without controls and deformations)',
     'The tests build objects with one wing and look at single attributes; none enumerates a complete model, and the helper for the subareas of a control is never called.',
     ['objects/objecttools.py', 'objects/aircraft.py', 'aero/vlm.py'],
     [('generators and counters', 'objects/objecttools.py'), ('strips and subareas of controls', 'objects/aircraft.py WingSegment.add_subdivision_for_control, SegmentStrip._add_subarea'), ('bookkeeping', 'aero/vlm.py gen_lattice')],
     ['aircraft object of a running analysis', 'helper functions', 'panel bookkeeping'])

# ----------------------------------------------------------------------
prop('M01', 'The native extension is free of memory errors and undefined behaviour',
     'No analysis makes the native extension read or write outside of the arrays it is given, use uninitialised or freed memory, or execute undefined operations, also if the input turns out to be faulty. The outcome of an analysis does not depend on what the memory it gets contained before, and results once returned are not changed by later analyses.',
     ['inputs'], 'every aircraft size, panel distribution (single panels to hundreds), flight state and repetition',
     'The tests run an uninstrumented build; out-of-bounds accesses of a few elements stay unnoticed.',
     ['aero/c_vlm.cpp', 'aero/c_lattice.cpp', 'aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/c_results.cpp'],
     [('allocation of arrays of matching size', 'aero/vlm.py'), ('index arithmetic', 'aero/c_lattice.cpp, aero/c_downwash.cpp, aero/c_results.cpp')],
     ['sanitizer and memcheck reports, results under different memory contents'])

prop('M02', 'Repeated analyses do not leak memory or references',
     'After an analysis has ended and its results have been released, the lattice and result arrays it used are freed and the number of live Python memory blocks, the allocated native memory, and the numbers of open files, log handlers and figures of a process repeating the same analysis do not grow with the number of repetitions. This also holds for analyses which end with an error.',
     ['histories'], 'any number of repetitions of any analysis (valid, refused or unsolvable) in one process',
     'Every test makes one analysis per process or does not look at memory.',
     ['aero/c_vlm.cpp', 'stdfun/run.py'],
     [('reference handling at the Python/C boundary', 'aero/c_vlm.cpp')], ['weak references, reference counts, allocated memory blocks, malloc statistics, file descriptors'])

if __name__ == '__main__':
    out = Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(p) + '\n' for p in P))
    print(len(P))
