#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


G = "gcodeutils/gcoder.py"

prop("C01", "Reading a program and writing it back loses nothing",
     "Loading any text program and writing it back with no modification requested yields exactly its non-blank lines, each stripped of surrounding white space, in the original order: nothing is dropped, duplicated, merged, reordered or altered, whatever the lines contain and however the program is cut into layers. The same holds for the memory-light representation, for a program built by appending its lines one at a time, and for running gcode_mod with no modification option. Reading the written text again and writing it once more gives the identical text.",
     ["inputs"], "all lists of text lines (valid G-code of every kind, comments, blank lines, garbage text), any order of Z changes",
     "No test compares written output with its input at all; equality tests go through parsed programs and ignore comments.",
     [G, "gcodeutils/gcode_mod.py"],
     [("GCode.prepare / _preprocess layer building", G), ("GCode.write", G)], ["GCode.write", "gcode_mod stdout"])

prop("C02", "Every line is decoded to the right command and arguments",
     "A line's command is its first word that is not an N line number (letter upper-cased, number kept as written), letter case, spacing between words, optional signs and missing leading or trailing digits never matter, and text inside (...) or after ; is never read as code; a line that starts with a comment has no command. For G commands each X, Y, Z, E, F, I, J word that has a number sets that argument to exactly that number (the last one wins; multiplied by 25.4 while the program is in inches), words with other letters or without a number set nothing, and no argument is set that the line does not contain. Non-G commands set no such argument. Looking up the S or P word of any line gives the number of the first such word outside comments, or nothing if there is none.",
     ["inputs"], "all lines built from G-code words in every spelling, with comments, line numbers and checksums, in millimetre and inch programs",
     "Tests parse a few dozen fixed, uniformly formatted lines; spellings, comments holding code-like text, line numbers and inch mode are never combined.",
     [G], [("split / parse_coordinates / gcode_exp", G)], ["parsed line attributes command, x, y, z, e, f, i, j"])

prop("C03", "The tracked machine state agrees with executing the program",
     "After every command the tracked head position (counted from the machine origin), feed rate, active tool, absolute/relative modes of axes and extruder, extruder position and the position in the current coordinate system are those of a machine executing the program: relative moves add, absolute moves go to the programmed value in the coordinate system shifted by G92 (a bare G92 zeroes every axis), G92 itself moves nothing, G28 brings exactly the named axes (all when none is named, whether or not the letter carries a number) to the home position and clears their shift, G90/G91 switch axes and extruder, M82/M83 the extruder only. A move is flagged as extruding exactly when it feeds a positive amount of filament.",
     ["inputs", "histories"], "all programs mixing G0-G3, G20/G21, G28, G90/G91, G92, M82/M83, T and other lines, any home position",
     "No test looks at tracked positions; the state is a history over the whole program, and mode changes, G92 and G28 interact.",
     [G], [("GCode._preprocess position and extrusion tracking", G)],
     ["line.current_x/y/z/f/e, line.extruding, GCode.abs_pos, abs_e, current_pos"],
     [("offset_x/y/z/e", "shift of the current coordinate system against the machine origin", "GCode"), ("current_x/y/z/e", "machine position", "GCode")])

prop("C04", "Layers partition the program and follow the printing height",
     "Every line belongs to exactly one layer, concatenating the layers gives the program in order, and the global line list and the (layer, position-in-layer) index of each line designate that same line. A new layer starts exactly at each line that changes the programmed height, the one set by the Z words of moves and of G92 (heights at least 0.02 mm apart), every layer reports the height its lines run at (to 0.01 mm; none before the first height), and the set of printed heights is exactly the heights of the layers in which filament is fed.",
     ["inputs"], "all programs with any sequence of heights: rising, lifted (z-hop) and lowered again, relative Z moves, G92 Z, repeated heights, no height at all",
     "One test prints a message for one fixed file; no test examines layer boundaries or heights.",
     [G], [("layer building in GCode._preprocess", G), ("GCode.idxs", G)], ["GCode.all_layers, all_zs, lines, idxs"])

prop("C05", "The program summary matches what the program does",
     "The reported X/Y extents are the tightest box around the end points of all extruding moves (of all moves when the filament length is 0), filament length is the largest net amount of filament fed at any time since the start (0 if never positive), the Z extent spans from 0 to the highest printed height, and width, depth and height are the differences of those limits. G92, homing, relative or absolute coding and units change the numbers only as far as they change the physical motion.",
     ["inputs"], "all programs, absolute or relative, with coordinate resets, retractions, travel-only programs and programs without any height",
     "No test reads the summary; it is an accumulation over the whole history.",
     [G], [("bounding box and extrusion totals in GCode._preprocess", G)], ["GCode.xmin..zmax, width, depth, height, filament_length"])

prop("C06", "The duration estimate is additive and follows distance, feed and dwells",
     "The total estimate is the sum of the layers' durations (reported in whole seconds), is never negative, and is unchanged by comments, non-motion commands, rewriting the same motion with relative coordinates, or shifting its coordinate system with G92. Each dwell G4 P (P not negative) adds exactly P milliseconds; each linear move adds its X/Y distance divided by feed when it continues at unchanged feed in the same direction, and otherwise follows the 2000 mm/s^2 acceleration model, treating a move whose direction does not continue the previous one (a right angle or more) as starting from rest. Feed rates are per minute, and moves that change neither X nor Y take the time of their Z (or extruder) travel.",
     ["inputs"], "all programs of linear moves, dwells and other commands, absolute or relative, with positive feed rates",
     "No test reads durations; additivity and invariance quantify over arbitrary programs.",
     [G], [("duration estimation in GCode._preprocess", G)], ["GCode.duration, Layer.duration, estimate_duration()"])

prop("C07", "Program comparison is an equivalence that misses no difference",
     "Two loaded programs (in the normal representation) compare equal exactly when, ignoring lines without a command, they have the same number of lines and each pair has the same command, the same set of X, Y, Z, E, F, I, J arguments and values within 0.001 of each other; comparison is reflexive and symmetric and never depends on comments, blank lines, spelling or layer cuts. The difference report is empty exactly when the programs compare equal, and != is always the negation of ==.",
     ["inputs"], "all pairs of programs, in particular pairs that differ by one line inserted or removed anywhere (including the end), one argument added or removed, or one value moved to either side of the tolerance",
     "Tests compare five fixed pairs; position and kind of the difference are never varied.",
     [G], [("GCode.__eq__, GCode.diff, PyLine.__eq__", G)], ["GCode ==, !=, diff"])

prop("C08", "Editing a loaded program keeps lines, layers and indexes consistent",
     "After any sequence of prepending commands to a layer that holds lines, rewriting such a layer, appending commands and inserting pauses, the program consists of exactly the lines the edits call for in the right places: prepended commands stand in the given order at the start of the layer, a rewritten layer holds exactly the given commands, appended commands stand at the end, blank commands are ignored and all other lines are untouched. The flat line list, the layers and the per-line index stay in agreement, and what is written is the concatenation of the layers.",
     ["histories"], "all sequences of edits on all loaded programs",
     "One test performs one prepend on one file; histories of several edits are never tried.",
     [G], [("GCode.prepend_to_layer, rewrite_layer, append", G)], ["GCode.all_layers, lines, idxs, write"])

prop("C09", "Batch, incremental and memory-light loading agree",
     "Appending a program line by line to an empty program leaves the same machine state (positions, coordinate shifts, modes, tool, feed, extruded totals) and the same parsed lines as loading it at once, and splitting it into a loaded part and an appended part at any point makes no difference. The memory-light representation yields the same layers, heights, summary and duration as the normal one. Deferred loading, callbacks and data that can be read only once make no difference, and a line callback gets every parsed line in order. Loading the same text twice gives the same result, whatever was loaded before.",
     ["inputs", "histories"], "all programs and all split points",
     "Incremental and light loading are not tested at all.",
     [G], [("GCode.append, LightGCode", G)], ["GCode state after append; LightGCode layers"])

prop("C10", "Translation moves the whole toolpath by exactly the requested amount",
     "When a translated program is executed, every X/Y position commanded in absolute mode is the original machine position shifted by the requested amount (to 0.001 mm), relative moves keep their displacement, and Z, extrusion, feed rate, arc centres and the kind and order of moves and all other commands are unchanged; this holds through any number of G92 (with any axes, including extruder-only and bare G92), G28, G90/G91 and unit changes. A program that moves only relatively after homing starts with one inserted travel by the requested amount, and moves made before any positioning mode is selected are left alone. A zero translation changes no position.",
     ["inputs", "histories"], "all programs that select a positioning mode, all translations",
     "Tests translate one five-line absolute program; G92, homing, relative moves and their interleavings are not exercised.",
     ["gcodeutils/filter/translate.py", "gcodeutils/filter/filter.py"],
     [("GCodeXYTranslateFilter.opcode_filter", "gcodeutils/filter/translate.py")], ["written program, executed on a reference machine"])

prop("C11", "Conversion to relative extrusion preserves every extrusion",
     "Executing the converted program performs the same moves with the same feed rates and every move feeds the same amount of filament as in the original (to 0.00002 mm per move), for any mixture of absolute and relative extrusion, switching by M82/M83 or G90/G91, G92 of any axes and programs that never select a mode. In the output the E word of every move is the amount that move feeds, and the converted program is never left reading such a word as an absolute position with another meaning.",
     ["inputs", "histories"], "all programs",
     "Tests convert one four-line and one five-line program; switching back and forth, G92 E and G90/G91 are not exercised.",
     ["gcodeutils/filter/relative_extrusion.py"],
     [("GCodeToRelativeExtrusionFilter.opcode_filter", "gcodeutils/filter/relative_extrusion.py")], ["written program, executed on a reference machine"])

prop("C12", "Rewriting a line keeps everything the modification does not concern",
     "When translation or extrusion conversion rewrites a line, the arguments it does not concern keep their values (X, Y, Z, F, I, J to 0.001 and E to 0.00001), every other word of the line (S, R, P and so on) and its comment text remain, and the command is the same; only line numbers and checksums, which a change makes invalid, may go. Lines that need no change are written exactly as read, and no line is dropped, duplicated or reordered, except that extrusion conversion replaces M82 by M83 and may insert M83 and translation may insert one travel.",
     ["inputs"], "all programs with arbitrary extra words, comments, line numbers and non-motion lines",
     "Equality in the tests ignores comments and unknown words, so their loss is invisible.",
     [G, "gcodeutils/filter/filter.py", "gcodeutils/filter/translate.py", "gcodeutils/filter/relative_extrusion.py"],
     [("unsplit", G), ("GCodeFilter.parse_layer", "gcodeutils/filter/filter.py")], ["written program text"])

prop("C13", "Modifications compose: additive, invertible, idempotent, commuting",
     "Translating by a then by b gives the same motion as translating by a+b, and translating by a then by -a gives back the original motion (to rounding). Converting to relative extrusion twice gives the same as once, conversion and translation give the same program in either order, and requesting translation, conversion and a pause together gives the same as requesting them one after the other.",
     ["inputs"], "all programs, all amounts, all orders",
     "No test applies two modifications to one program.",
     ["gcodeutils/filter/translate.py", "gcodeutils/filter/relative_extrusion.py", "gcodeutils/gcode_mod.py"],
     [("filters", "gcodeutils/filter"), ("gcode_mod.main", "gcodeutils/gcode_mod.py")], ["written program, executed on a reference machine"])

prop("C14", "Programs in inches are treated like the same program in millimetres",
     "A program that selects inches (G20) and the same program expressed in millimetres describe the same machine motion, and they still do after translation (amounts in millimetres), conversion to relative extrusion, arc optimisation or stretching; switching units in the middle of a program changes nothing else. All tracked positions and summary values are in millimetres.",
     ["inputs"], "all programs, with unit changes at any place",
     "No test contains G20.",
     [G, "gcodeutils/filter/translate.py", "gcodeutils/filter/arc_optimizer.py", "gcodeutils/stretch/stretch.py"],
     [("imperial handling in _preprocess and unsplit", G)], ["written program, executed on a reference machine"])

prop("C15", "A pause is inserted once, at the start of the requested printed layer",
     "Requesting a pause at printed layer n (0 is the lowest height at which filament is fed, heights taken to 0.01 mm) inserts exactly one M226, immediately before the line that begins the first stretch of the program at that height which feeds filament; z-hops, repeated visits to a height, initial lifts, filament fed before any height is given and objects printed one after the other do not add pauses or move it. Several requested layers get one pause each, and a layer number that does not exist inserts none. Everything else in the program is unchanged.",
     ["inputs"], "all programs with any height sequence, all layer numbers",
     "The single test checks that the word M226 occurs in a difference report for one file and layer 1.",
     ["gcodeutils/visit/pause_at_layer.py", "gcodeutils/visit/iterator.py", G],
     [("PauseAtLayer.did_visit_layer", "gcodeutils/visit/pause_at_layer.py"), ("GCodeIterator.accept", "gcodeutils/visit/iterator.py"), ("GCode.prepend_to_layer", G)],
     ["written program"])

prop("C16", "A visitor sees every layer and line once, in order, with true coordinates",
     "Walking a program calls the visitor for every layer, bracketing that layer's lines, and for every line exactly once in program order; the reported line number counts lines from 0 without gaps (on entering a layer it is the one of its first line, on leaving it the one of its last line), the reported layer index designates the visited layer itself even when layers have identical contents, and a layer is reported as printed exactly when filament is fed in it, with the rank of its height among the printed heights, taken to 0.01 mm or to the iterator's digits of precision if those are fewer, as its number (filament fed before any height is given belongs to no printed layer). Walking does not modify the program and works for every program, including empty ones and ones without any height.",
     ["inputs"], "all programs, including identical, empty and comment-only layers",
     "Only the pause visitor is run, on one file, and its callbacks' arguments are not checked.",
     ["gcodeutils/visit/iterator.py", "gcodeutils/visit/visitor.py"],
     [("GCodeIterator.accept", "gcodeutils/visit/iterator.py")], ["visitor callbacks"])

AO = "gcodeutils/filter/arc_optimizer.py"
prop("C17", "Arcs replace segments without moving the toolpath",
     "Executing the arc-optimised program, each generated arc starts where the replaced segments started and ends where they ended, lies on a circle from which no replaced vertex deviates by more than 0.016 mm, runs in the same direction and sweeps the same angle (never more than a full turn) as those segments, which were all linear moves in one direction around it, in steps that differ by at most 5 degrees from their mean, at one feed rate and one height; centre offsets are relative to the arc's start. This holds in absolute and relative positioning and after G92 coordinate shifts; positions after the arc are unaffected.",
     ["inputs", "histories"], "all programs: true arcs of any radius, direction, start angle, segmentation and sweep, nearly circular and noisy paths, overlapping turns, reversals, polygons, straight runs",
     "The arc tests of the repository are not collected (their decorator replaces them), so nothing runs the optimiser at all.",
     [AO], [("get_circle, to_gcode, queue_valid", AO)], ["written program, executed on a reference machine"])

prop("C18", "Arcs extrude what the replaced segments extruded",
     "A generated arc feeds the filament of the segments it replaces scaled by the ratio of arc length to chord length, a positive amount, clockwise as well as counter-clockwise, in absolute and relative extrusion mode; segments without extrusion become arcs without extrusion. After the arc every later move feeds the same amount as in the original (in absolute mode the next absolute extruder position, unless the extruder position is reset in between, takes back the difference of at most 1 % of the arc's filament), and segments are only merged when each one's filament-per-distance ratio is within 15 % of their mean.",
     ["inputs", "histories"], "all programs with arcs in either direction, absolute or relative extrusion, with and without G92 E",
     "The arc tests of the repository are not collected, and their reference files contain retracting clockwise arcs.",
     [AO], [("to_gcode, get_distances", AO)], ["written program, executed on a reference machine"])

prop("C19", "The arc optimiser leaves everything else exactly as it is",
     "Apart from runs of at least 8 consecutive linear moves replaced by one arc (with, in absolute extrusion, an optional extruder position correction after it), the output contains every line of the input, unchanged and in the same order: comments, temperature, fan, tool, mode and G92 commands, existing arcs, retractions, height changes, feed changes, and all segments not replaced. No command other than a linear move is ever swallowed by an arc, wherever layers are cut and wherever the program ends.",
     ["inputs"], "all programs, with any command or comment at any position inside or between arc-like runs",
     "The optimiser is not tested; the queue's interleavings with other commands are combinatorial.",
     [AO, "gcodeutils/filter/filter.py"], [("opcode_filter queue", AO), ("parse_gcode", AO)], ["written program text"])

prop("C20", "Every clean circular run is turned into an arc",
     "A run of at least 8 equal linear segments inscribed in one circle of radius 1 to 150 mm (turning between 2 and 40 degrees each, at most one full turn in all), at one height, one feed rate and with uniform extrusion or no E words, with coordinates to 0.001 mm, reached by a travel at another feed rate (comments may follow it) and left by another command or by a move at another feed rate or height, becomes exactly one arc covering all its segments, whatever its centre, direction, start angle and place in the program.",
     ["inputs"], "all radii, centres, directions, start angles, segment counts, extrusion modes and positions in a program",
     "The optimiser is not tested.",
     [AO], [("get_circle_least_squares, queue_valid, opcode_filter", AO)], ["written program text"])

SF = "gcodeutils/stretch/stretch.py"
prop("C21", "Stretching touches nothing but the moves of visible shells",
     "Stretching a program with absolute positioning changes only linear X/Y moves inside loops the slicer's comments identify as shell loops (perimeters in Slic3r; WALL-OUTER, WALL-INNER and SKIN sections in Cura; edges and loops in Skeinforge); moves in relative positioning stay unchanged; every other line (infill, skirt, support, travel outside loops, retraction, Z, temperature, fan, mode, comments), in the same layer or in following ones, keeps its command and arguments, and the number and order of commands stays the same. With zero stretch strength no move changes at all. This holds for the Slic3r, Cura and Skeinforge dialects.",
     ["inputs"], "all programs in the three dialects with any arrangement of loops, infill, retractions and layer changes, including layers ending inside a loop",
     "Tests run one skeinforge file and three tiny squares, of which two only check that nothing is raised.",
     [SF, "gcodeutils/gcode_stretch.py"], [("parse_line, setup_filter", SF)], ["program after the stretch filter"])

prop("C22", "Stretch displacements, extrusion, height and speed stay within bounds",
     "No point moves further than edge width times the stretch ratio of its loop kind times the stretch strength (to 0.001 mm rounding); each stretched move keeps its command, its height word and the feed rate in force in the original program, carries an E word exactly if the original does, and, in relative extrusion, its filament is the original amount times (1 - displacement in mm). Increasing or halving the strength scales every displacement in proportion. (Programs whose coordinate system is shifted by G92 X/Y, or left for relative moves, only after an absolute travel away from the stretched loop; a loop which follows another one without a travel names both coordinates at first.)",
     ["inputs", "configurations"], "all loops in the three dialects, all stretch settings",
     "The tests fix one setting and one file without extrusion words.",
     [SF], [("get_stretched_line_from_index_location", SF)], ["program after the stretch filter"])

prop("C23", "A loop's stretch depends only on its own shape and widens holes",
     "The displacement of a point of a closed loop is determined by the positions of that loop alone: it is unchanged by other loops, infill, retractions and travel around it, moves along when the whole program is shifted or rotated, and is the same whichever point the loop starts at. The vertices of a regular polygon approximating a circle (sides of at most a third of the cross limit distance) are pushed straight outwards by equal amounts, and the same loop with the same edge width and loop kind is stretched the same way in the Slic3r and Cura dialects.",
     ["inputs"], "all closed loops (regular and irregular polygons), any start point, any surrounding lines, both modern dialects",
     "The tests run one fixed file per dialect and check only the skeinforge result.",
     [SF], [("line iterators, get_relative_stretch, get_cross_limited_stretch", SF)], ["program after the stretch filter"])

prop("C24", "Slicer metadata selects the right edge width and loop kind",
     "The edge width used is the one the slicer recorded (Slic3r comment, Cura profile string, Skeinforge header; 0.4 mm if there is none), wherever in the program it stands (Skeinforge: anywhere in the header), and each loop is stretched with the ratio of its kind: outer edges, inner edges and other shells each use their own setting (in Slic3r programs the first external perimeter of a printed height is an outer edge and the following ones are inner edges; in Cura programs WALL-OUTER is an outer edge, WALL-INNER an inner edge and SKIN another shell). The command line chooses the Cura rules exactly when the program carries a Cura profile and works on programs with absolute as well as relative extrusion, giving the same stretched path for both.",
     ["inputs", "configurations"], "all edge widths, placements of the metadata, loop kinds and settings, absolute and relative extrusion",
     "No test has a Cura profile string or runs the command line; settings are never varied.",
     [SF, "gcodeutils/gcode_stretch.py"], [("setup_filter, parse_cura_profile, new_perimeter, StretchRepository", SF), ("main, is_cura_gcode", "gcodeutils/gcode_stretch.py")],
     ["program after the stretch filter", "gcode_stretch output"])

TC = "gcodeutils/gcode_tempcal.py"
prop("C25", "Temperature calibration only inserts safe temperature commands",
     "The calibrated program is the original program, every line unchanged and in order, plus inserted M104 commands (and possibly blank lines), each placed at the start of a layer. No inserted command sets a temperature outside 150 to 250 degrees or outside the range between start and end temperature, none stands below the minimum height or above the highest printed layer, and no two consecutive inserted commands set the same temperature, unless a layer with an unsafe temperature lies between them. Programs in which no layer above the minimum height lies below the highest printed one are refused with an error, and only those.",
     ["inputs", "configurations"], "all programs, start and end temperatures (rising, falling, equal, beyond the limits), minimum heights, step counts, both modes",
     "gcode_tempcal has no test and cannot even be imported on Python 3 at the pinned commit.",
     [TC], [("GCodeTempGradient.write, _parse_gcode, generate_temperature_gcode", TC)], ["written program"])

prop("C26", "The temperature follows the requested gradient over height",
     "At every layer start within the gradient the temperature last inserted is, rounded to the nearest 0.1 degree, the gradient's value for that height: in continuous mode linear from the start temperature at the lowest layer above the minimum height to the end temperature at the highest printed layer (heights count from the lowest layer visited above the minimum height); in step mode one of steps+1 equally spaced values from start to end temperature (both included), each used over an equal share of the height (either neighbour may be used at a boundary). The temperature never goes beyond the end temperature and changes monotonically with height.",
     ["inputs", "configurations"], "all programs, temperatures within the limits, minimum heights, step counts, both modes",
     "gcode_tempcal has no test.",
     [TC], [("GCodeContinuousTempGradient, GCodeStepTempGradient", TC)], ["written program"])

prop("C27", "The command-line tools are faithful filters",
     "Each command-line tool writes exactly what the corresponding library operations produce, whether input and output are named files or standard streams; nothing but the program goes to standard output, the input file is modified only when in-place operation is requested (and then holds exactly the result), and options not given have no effect. Verbosity options never change the output program.",
     ["inputs", "configurations"], "all programs, all option combinations, file and stream operation of the four tools",
     "No test runs a command-line entry point.",
     ["gcodeutils/gcode_mod.py", "gcodeutils/gcode_optimize_arcs.py", "gcodeutils/gcode_stretch.py", TC],
     [("main functions", "gcodeutils/gcode_*.py")], ["exit status, standard output, files"])

prop("C28", "The Cura plugins rewrite the file as the library would, or leave it alone",
     "Running the stretch plugin on a file leaves in it exactly the relative-extrusion, Cura-stretched program for the given strength, and running the temperature plugin leaves the program with the step gradient for the given parameters. When the requested processing is refused with an error, the file still holds the original program.",
     ["inputs", "fault_sequences"], "all programs and parameters, including programs that the temperature gradient refuses",
     "The plugins are not tested.",
     ["cura_plugins/stretch_plugin.py", "cura_plugins/tempcal_plugin.py"], [("plugin bodies", "cura_plugins/")], ["file contents after the plugin"])

prop("C29", "Every tool terminates without crashing on every program",
     "Loading, translating, converting, pausing, arc-optimising, stretching (all dialects), comparing and summarising terminate without an exception on every program of well-formed G-code words, however odd its order and contents: empty programs, comment-only programs, extruder-only moves, travel-only circles, collinear runs, loops cut by layer changes, unknown commands, tool words without a number, missing modes. Loading and rewriting arbitrary text does not crash either, and processing one program never influences the result for another one processed later.",
     ["inputs", "histories"], "all texts for loading and rewriting; all sequences of well-formed lines for every tool; all orders of processing several programs",
     "Tests use a handful of well-behaved fixed files.",
     [G, "gcodeutils/filter", "gcodeutils/stretch/stretch.py", "gcodeutils/visit"],
     [("all entry points", "gcodeutils")], ["exceptions, termination"])

prop("C30", "The 3-D vector type obeys Euclidean vector algebra",
     "Addition, subtraction, negation, scaling and division act component by component and agree with their in-place forms without modifying other operands; dot, cross, magnitude, distance and their squared forms satisfy the Euclidean identities; normalising gives length one in the same direction and leaves the zero vector alone; reflection in a unit normal is an involution preserving length; projection drops exactly the chosen axis; per-component minimum and maximum, copying, setting and equality behave component by component, equal vectors have the same hash, and the zero vector alone is false.",
     ["inputs"], "all finite vectors and scalars",
     "No test uses the vector class directly; only one projection is exercised indirectly.",
     ["gcodeutils/stretch/vector3.py"], [("Vector3", "gcodeutils/stretch/vector3.py")], ["Vector3 results"])

prop("C31", "Stretched points move by the rule the stretch manual documents",
     "Every vertex of a closed shell loop in a Slic3r or Cura program moves by the documented stretch rule. With w the edge width and D = stretch-from distance ratio times w, take the two points reached by following the closed loop for D ahead of and back from the vertex; the vectors from those points to the vertex, each divided by D, are added and multiplied by 0.8. Then, for the next and after it for the previous vertex of the loop, the part of the result perpendicular to the segment leading there is kept whole if that segment is at most a third of L = cross limit ratio times w long, dropped if it is longer than L, and scaled linearly in between. (A loop shorter than D is not moved at all.) The result is cut to length 1 and multiplied by w times the ratio of the loop's kind times the strength.",
     ["inputs", "configurations"], "all closed loops, loop kinds, edge widths and stretch settings",
     "The tests check one fixed file in one setting.",
     [SF], [("get_relative_stretch, get_cross_limited_stretch, get_stretched_line_from_index_location", SF)], ["program after the stretch filter"])

prop("C32", "The printed summary tells the program's extents, filament, layers and time",
     "Running the gcoder module on a program file prints its X, Y and Z extents and sizes, the filament used, the number of printed heights and the estimated duration, each being the figure the library reports for that program (lengths to 0.01 mm); it does so for every program, including empty ones and ones without any height or extrusion, and does not change the file.",
     ["inputs"], "all program files",
     "No test runs the module; it did not even start with Python 3.11 at the pinned commit.",
     [G], [("main, _get_layers_count", G)], ["standard output of python -m gcodeutils.gcoder"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
