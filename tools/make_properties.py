#!/usr/bin/env python3
"""Single source of properties.jsonl (ids are stable)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = "python/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

VI = [("v", "voltage of every conductor at every node", "mtl.py"), ("i", "current of every conductor in every cell", "mtl.py")]

prop("C01", "Interior of a line obeys the discrete telegrapher equations at every step",
 "At every time step, the voltage of every conductor at every interior node and the current of every conductor in every cell change exactly by the leap-frog discretisation of the multiconductor telegrapher equations, with the per-unit-length inductance, capacitance, resistance and conductance matrices and the cell lengths the user gave (an interior node owns half of each cell it touches). This holds from any state, for any number of coupled conductors, full (non-diagonal) loss matrices and unequal cell lengths, for single lines and for bundles.",
 ["configurations", "inputs", "histories"], "every line or bundle (conductors, matrices, cells of unequal length, time step at or below the default) and every state reachable from any initial voltages and currents",
 "The tests compare a handful of probe values at one end of uniform lines with loose tolerances; a wrong interior coefficient, a transposed loss matrix or a mis-weighted cell inside the line is invisible to them.",
 ["mtl.py"], [("line update coefficients", "mtl.py update_lr_terms, update_cg_terms"), ("line advance", "mtl.py advance_voltage, advance_current"), ("bundle advance", "mtl.py MTLD.advance_voltage, MTLD.advance_current")],
 ["v, i after each step of MTL and MTLN"], VI)
prop("C02", "Resistive line ends and voltage generators follow the Thevenin relation",
 "At each end of a single line, the end voltage, the current of the adjacent cell, half a cell of line capacitance and conductance, the source or load resistance of each conductor and the generator connected there satisfy Kirchhoff's current law averaged over every time step, with the generator sampled at that step's instants. A generator drives only the conductor and the end it was placed at, and resistances may differ per conductor and be zero (ideal source or short).",
 ["configurations", "inputs", "histories"], "every pair of per-conductor end resistances (including 0), any generator waveform, any conductor and end, any prior state",
 "Tests use one or two resistance values on symmetric lines and check the plotted shape; the relation must hold for every resistance, conductor, end cell and waveform at each step.",
 ["mtl.py"], [("terminal update", "mtl.py compute_terminal_terms, advance_left_terminal, advance_right_terminal"), ("generator placement and sampling", "mtl.py add_voltage_source, update_sources")],
 ["v at both end nodes after each step"], VI)
prop("C03", "A passive system never gains energy, and a lossless closed one keeps it",
 "With no generators and no incident field, the discrete electromagnetic energy stored in lines, capacitors and inductors never grows from one time step to the next at the default time step, and the amount it falls by is exactly the amount dissipated in resistances and conductances and in the implicit (dissipative) discretisation of reactive terminations. If nothing dissipates, it stays constant; hence every response stays bounded for ever.",
 ["configurations", "histories"], "every passive line or network of lines (any terminations, losses, junctions), every initial state, every number of steps",
 "Instability or a small energy gain appears only for particular states, terminations or long runs; tests run a fixed transient from rest and cannot bound all histories.",
 ["mtl.py", "networks.py", "mtln.py"], [("leap-frog update with trapezoidal losses", "mtl.py step"), ("implicit network solve", "networks.py advance_voltage")],
 ["v, i after each step"], VI)
prop("C04", "Default time step and reported phase velocities respect the Courant limit",
 "The phase velocities reported for each cell are those of that cell's modes, i.e. the inverse square roots of the eigenvalues of the product of its inductance and capacitance matrices. The default time step of a line is its shortest cell divided by its fastest mode, so that no mode crosses a cell in less than a step, and that of a bundle or of a network is the smallest among its members.",
 ["configurations"], "every positive definite pair of matrices and every discretisation, uniform or not; every set of lines in a bundle and bundles in a network",
 "One unit test checks two matrices; the Courant condition has to hold for every matrix pair and every cell.",
 ["mtl.py", "mtln.py"], [("velocities", "mtl.py get_phase_velocities"), ("time step", "mtl.py get_max_timestep; MTLD.__init__; mtln.py add_bundle")],
 ["get_phase_velocities(), dt of lines, bundles and networks"])
prop("C05", "Signals travel at most one cell per step, undistorted on an ideal line",
 "A change of a generator, an initial state or a termination can affect the solution at most one cell further away per time step, so everything outside that cone stays what it was (up to rounding). On a uniform lossless line run at the default time step a pulse travels exactly one cell per step without changing shape, a termination equal to the characteristic impedance absorbs it completely, and any other resistance reflects it with the coefficient (R-Z)/(R+Z).",
 ["configurations", "histories", "inputs"], "every line, disturbance position, instant and waveform; every load resistance",
 "Tests look at smooth waveforms at the ends; a spurious precursor, a one-cell shift or slight dispersion needs an exhaustive look at every cell and step.",
 ["mtl.py", "networks.py", "mtln.py"], [("order of the half steps", "mtl.py step; mtln.py step"), ("terminal update", "mtl.py advance_left_terminal, advance_right_terminal")],
 ["v, i of the whole line after each step, paired runs"], VI)
prop("C06", "Responses are linear: scaling and superposition of excitations",
 "The response to a sum of excitations (generators, distributed sources, incident fields, initial states) is the sum of the responses to each of them, and scaling every excitation scales the response. With no excitation everything stays exactly zero.",
 ["configurations", "inputs", "histories"], "every system built from the library's elements, every pair of excitations and factors, every step",
 "Tests use one excitation at a time; superposition relates several runs of the same system.",
 ["mtl.py", "networks.py", "mtln.py", "dispersive.py"], [("linear update", "mtl.py step; networks.py advance_voltage"), ("accumulation of sources", "utils.py add_t_functions, multiply")],
 ["v, i and probes of several runs"], VI)
prop("C07", "Discretisation of a polyline follows its corners and its number of divisions",
 "The nodes of a line start at its first point, end at its last, contain every corner, and divide each straight segment into the requested number of equal cells in order, for any number of segments with any (different) number of divisions and in any direction of space. A position given by the user is attached to the nearest node, and a plain number stands for a distance along the z axis.",
 ["configurations", "inputs"], "every polyline and list of divisions, every position",
 "Tests use a straight line along one axis or two equal segments.",
 ["mtl.py", "probes.py"], [("discretisation", "mtl.py MTL.__init__"), ("nearest node", "mtl.py add_voltage_source; probes.py Probe.__init__")],
 ["u of a line, the node where a source or probe acts"])
prop("C08", "Probes record the true state each step, rightly dated, without side effects",
 "During a run every probe records one frame per time step: a voltage probe the voltages of all conductors at the node nearest to its position, labelled with the time reached, a current probe the currents of the cell beginning there (the last cell at the end of the line), labelled half a step later. Adding probes never changes the solution, a new run starts the record afresh, steps made one by one after a run are recorded after its frames, and a position that is not on the line is rejected while every position on it, in any direction, is accepted.",
 ["configurations", "histories", "inputs"], "every set of probes and positions (on and off the line), every sequence of runs, lines and bundles, every time step",
 "Tests add one or two probes at the ends of a line along z and run once.",
 ["probes.py", "mtl.py", "mtln.py", "utils.py"], [("recording", "probes.py update, resize_frames"), ("placement", "mtl.py add_probe, MTLD.add_probe; utils.py point_in_line")],
 ["t and val of probes"])
prop("C09", "A run advances whole steps of one time step shared by every part",
 "Running for a duration advances exactly as many whole steps as fit in it, time advances by one time step per step, and splitting a run into consecutive runs, or into steps made one by one, gives the same states as one long run. Whatever way the time step is chosen (default, set on the line, overridden for the run, smallest of several bundles), every line, termination, network, lossy or dispersive element, source and probe taking part in the run uses that same value.",
 ["histories", "configurations", "schedules"], "every sequence of run lengths and time-step choices, before and after elements are added",
 "Tests make one run with one time step chosen before anything else; stale coefficients show only after a change of the step or a second run.",
 ["mtl.py", "mtln.py", "dispersive.py", "networks.py", "jsonParser.py"], [("step count", "mtl.py get_time_range; mtln.py get_time_range"), ("refresh of coefficients", "mtl.py run_until; mtln.py run_until"), ("override", "jsonParser.py run")],
 ["time, dt, v, i after each run; probe times"])
prop("C10", "A clean copy starts from rest and shares nothing with its original",
 "A clean copy of a line behaves exactly like a newly built identical line: zero voltages, currents, time and stored (dispersive) history, with the same geometry, matrices, terminations, elements and generators. Whatever is done later to the copy or to the original leaves the other unchanged.",
 ["histories", "configurations"], "every line in every state, every sequence of modifications and runs of copy and original",
 "Tests copy a fresh line to run it twice; leaks of history or shared state need specific sequences.",
 ["mtl.py"], [("copy", "mtl.py create_clean_copy")], ["v, i, time of copy and original"], VI)
prop("C11", "Network terminations obey Kirchhoff's law and the law of each element",
 "At every line end that belongs to a termination network, the branch elements connected to ground there (resistor, short, capacitor, resistor in series with a parallel inductor-capacitor, each with or without a series voltage source) and the half cell of line together satisfy Kirchhoff's current law at every step, in the documented implicit discretisation of each element. The result does not depend on the order in which elements and conductors were declared, and several branches at one node act in parallel.",
 ["configurations", "inputs", "histories"], "every combination of elements and values at each conductor and side, every declaration order, every source waveform and prior state",
 "The tests of reactive terminations only plot, and those of resistors use one topology.",
 ["networks.py", "mtln.py"], [("element stamps", "networks.py connect_to_ground, connect_to_ground_R, connect_to_ground_C, connect_to_ground_LCpRs, short_to_ground"), ("implicit solve", "networks.py compute_v_terms, advance_voltage")],
 ["v of bundle ends after each step of a network system"], [("X", "states of reactive branches", "networks.py")])
prop("C12", "Junctions conserve current between lines, whatever the declaration order",
 "Where line ends are joined by ideal connections or by resistors with optional series sources, the voltages and currents of all joined conductors satisfy Kirchhoff's laws at every step: an ideal connection equalises the voltages and no current is lost, a resistive branch carries the voltage difference (plus its source) over its resistance. The outcome does not depend on the order of nodes, branches or lines, nor on which end of each line is joined.",
 ["configurations", "inputs", "histories", "schedules"], "every set of lines and ends joined in one network, every mixture of branches, every declaration order",
 "The junction tests compare one probe of one symmetric arrangement.",
 ["networks.py", "mtln.py"], [("branch stamps", "networks.py connect_nodes, short_nodes"), ("exchange with lines", "networks.py update_currents, update_voltages")],
 ["v, i at joined ends after each step"])
prop("C13", "Building a system from parts does not change its physics",
 "A line terminated directly and the same line put in a bundle terminated by networks give the same voltages and currents at every step, for the same resistances, generators, losses and incident field. Bundles that are not connected evolve exactly as if simulated alone, and the order in which bundles and networks are added to the system is irrelevant.",
 ["configurations", "histories", "schedules"], "every line with per-conductor end resistances and sources; every set of unconnected bundles and every order of addition",
 "Each test builds its system one way only; the statement relates different constructions of the same physical system.",
 ["mtl.py", "mtln.py", "networks.py"], [("system step", "mtln.py step, run_until"), ("bundle from lines", "mtl.py MTLD.__init__")],
 ["v, i of the two systems after each step"])
prop("C14", "Conductors of a bundle keep their identity, matrices and losses",
 "In a bundle of several lines over several levels, rows are numbered level by level, line by line and conductor by conductor in the declared order, each line keeps its own matrices, losses and lumped elements in its rows, and conductors of different lines are coupled only by transfer impedances. A network attached to a given line and conductor acts on that conductor and no other, also when levels hold several lines.",
 ["configurations", "histories"], "every arrangement of levels, lines per level and conductors per line, every attached network",
 "Tests use one line per level and look at one conductor.",
 ["mtl.py", "networks.py", "mtln.py"], [("block assembly", "mtl.py MTLD.__init__"), ("row numbering", "networks.py NetworkD.update_index_numbers")],
 ["v, i rows of a bundle"])
prop("C15", "Transfer impedance couples exactly the declared conductors, cells and direction",
 "A transfer impedance between a shield and an inner conductor induces in the victim a distributed voltage equal to the culprit's current times the constant, proportional and pole-residue parts of the impedance, in the declared direction only ('in', 'out' or 'both'), for the declared conductors only, divided by the declared factor. A connector's transfer impedance replaces it in the first or last cell only.",
 ["configurations", "inputs", "histories"], "every pair of adjacent levels, conductors, direction, impedance model (any number of real or complex poles) and side",
 "The coaxial tests only plot, with one impedance and one direction.",
 ["dispersive.py", "mtl.py", "jsonParser.py"], [("coefficients", "dispersive.py add_transfer_impedance, set_transfer_impedance_at_index"), ("recursive convolution", "dispersive.py update_phi, update_q3_phi_term")],
 ["i of bundle rows after each step"], [("phi", "memory of pole terms", "dispersive.py")])
prop("C16", "Lumped dispersive elements act as the impedance they model",
 "A lumped element inserted at a position of a conductor adds to that cell of that conductor, and nowhere else, a voltage drop equal to its series resistance, inductance and pole-residue impedance applied to the cell's current, the pole part being the exact convolution for a current that varies linearly within each step. The element is rejected outside the line, and a second element at the same place is rejected too.",
 ["configurations", "inputs", "histories"], "every position, conductor and model (any number of real or complex-conjugate poles), every current history",
 "Tests compare three models at one position with an external simulator at a coarse tolerance.",
 ["dispersive.py", "mtl.py"], [("coefficients", "dispersive.py add_dispersive_connector"), ("recursive convolution", "dispersive.py update_phi, update_q3_phi_term")],
 ["i after each step"], [("phi", "memory of pole terms", "dispersive.py")])
prop("C17", "Losses set on a region go exactly to that region and conductor",
 "Setting a resistance (conductance) at a point or over a region of one conductor of a line or bundle gives the cells (nodes) of that region a uniform value whose total over the region is the requested one, and changes no other cell, node or conductor.",
 ["configurations", "inputs"], "every region or point, conductor, value, polyline and cell size",
 "No enabled test asserts on localised losses.",
 ["mtl.py", "jsonParser.py"], [("region to cells", "mtl.py set_resistance_in_region, add_conductance_in_region")],
 ["v, i after each step"])
prop("C18", "A distributed source drives exactly its stretch of its conductor",
 "A localized longitudinal field on a bundle acts on the given conductor only, in each cell in proportion to the part of the cell that lies between its two end points, so that its total electromotive force is its magnitude times the length of the stretch, wherever the end points fall relative to nodes and corners. Several sources on the same cell add up, and end points off the line are rejected.",
 ["configurations", "inputs"], "every pair of points on any polyline, every waveform, conductor and combination of sources",
 "Tests place sources at exact nodes and plot.",
 ["mtl.py", "utils.py"], [("cell weights", "mtl.py add_localized_longitudinal_field"), ("sum of functions", "utils.py add_t_functions, multiply")],
 ["i after each step"])
prop("C19", "Incident fields excite a line through the Taylor/Agrawal source terms",
 "An incident field excites each conductor by the difference of its longitudinal component between the conductor and its reference, taken at the middle of each cell, and by the line integral of its transverse components between reference and conductor at each node, including both ends; outside a localized region nothing is excited. A plane wave's electric vector has unit amplitude, is orthogonal to its direction of propagation, and reaches each point with the delay of that direction.",
 ["configurations", "inputs"], "every field depending on position and time, displacement of the conductors, polyline, angles and polarisation",
 "Three tests compare seven samples of one wire for one field direction with a tolerance of a quarter of the peak.",
 ["mtl.py", "mtln.py", "networks.py"], [("source terms", "mtl.py add_external_field, compute_eL_at_segment, compute_eT_along"), ("plane wave", "mtl.py PlaneWave, add_planewave"), ("end nodes", "mtl.py advance_left_terminal; networks.py update_line_terms")],
 ["v, i after each step"])
prop("C20", "The system built from a document is the one the document describes",
 "For a well-formed input document, the simulated system has exactly the described cables (geometry, divisions, matrices, losses, nesting), terminations, junctions, connector values, cable ends, lumped elements, sources and probes, each acting at the conductor, side and position where the document puts it, and running it gives the same states as building that system by hand.",
 ["inputs", "programs"], "every well-formed document: any number of bundles, levels, cables, conductors, kinds of terminations and sources",
 "Parser tests check a few fields or one probe of a dozen fixed documents.",
 ["jsonParser.py", "networks.py", "mtl.py", "mtln.py"], [("elaboration", "jsonParser.py _buildBundles, _buildTerminations, _buildJunctions, _addSources, _addProbes"), ("run", "jsonParser.py run")],
 ["bundles, probes and states of a parsed system"])
prop("C21", "Equivalent documents give the same results",
 "Renumbering coordinates, elements or materials, renaming cables and bundles, and reordering the lists of the document (coordinates, elements, materials, cables, bundles, terminations, junctions, pairs of united points, sources, probes) do not change the simulated physics, nor does the interpreter's hash seed or parsing the same file again.",
 ["inputs", "programs", "schedules"], "every document and every renaming or reordering of it",
 "Each test parses one spelling of each document, under one hash seed.",
 ["jsonParser.py"], [("lookups by identifier", "jsonParser.py _getConnectorAndCableInNode, _getElementOfNode, _buildGraphFromConnections")],
 ["states and probes of the systems parsed from both documents"])
prop("C22", "Ill-formed requests are rejected and leave the object as it was",
 "Requests that make no physical sense (matrices of different or non-square shapes, scalar losses on several conductors, end resistances of the wrong size, divisions that do not match the polyline, a duplicated or unknown network node, a bad side, levels that are not adjacent, two bundles of one name, positions off the line) are rejected with an error and not silently simulated, and a rejected request leaves the object behaving as if it had not been made.",
 ["inputs", "histories"], "every malformed variation of every building call, at any point of a construction",
 "A few shape errors are tested on construction only.",
 ["mtl.py", "networks.py", "mtln.py", "dispersive.py", "jsonParser.py"], [("validation", "mtl.py init_LC, init_RG, init_Zt; networks.py _add_node; mtln.py add_bundle")],
 ["exceptions; v, i of later runs"])
prop("C23", "Waveforms are the named functions of time, single-valued everywhere",
 "Each source waveform (trapezoidal, ramp, gaussian, sine, squared-sine, exponential, square, triangle, double exponential, and their symbolic counterparts) equals its defining formula at every instant, including its breakpoints and, for the periodic one, every period; it stays within its amplitude, is continuous where its formula is, and its numeric and symbolic forms agree.",
 ["inputs"], "every instant (breakpoints included) and every parameter set",
 "Tests plot or sample one parameter set.",
 ["waveforms.py"], [("formulas", "waveforms.py")], ["values of the functions"])
prop("C24", "Port waves and S-parameters are consistent with the simulated ports",
 "The incident and reflected waves of a port are those defined by the port's own voltage, the current entering the line there and its reference resistance, so incident and reflected power differ by the power entering the port; the extracted two-port of a line without generators of its own is reciprocal, and of a lossless one does not depend on the amplitude of the excitation nor gain power beyond the discretisation error.",
 ["configurations", "inputs"], "every line, pair of ports (ends and conductors), reference resistance and frequency sample",
 "The extraction tests do not run on this revision.",
 ["probes.py", "networkExtraction.py", "mtl.py"], [("port", "probes.py Port; mtl.py add_port_probe"), ("extraction", "networkExtraction.py extract_s_reciprocal, extract_2p_network")],
 ["waves and S-matrices returned"])
prop("C25", "Relabelling conductors or reversing a line only relabels the solution",
 "Permuting the conductors of a line or bundle (matrices, terminations, sources and elements alike) permutes the solution and nothing else; describing a line from its other end mirrors voltages and mirrors and negates currents; moving or rotating the whole geometry in space changes nothing when no incident field is present.",
 ["configurations", "histories"], "every system and every permutation, reversal, translation and rotation of it",
 "Tests use symmetric lines along one axis; asymmetry between conductors, ends or axes is not exercised.",
 ["mtl.py", "networks.py"], [("per-conductor treatment", "mtl.py step; networks.py advance_voltage")],
 ["v, i of both systems after each step"])
prop("C26", "Building calls take their arguments by value",
 "The calls that build or extend a line, bundle, network or system do not alter the arrays, lists and dictionaries they are given, and what was built keeps the values these had when the call was made: the caller may change or reuse them afterwards, or give the same ones to several calls, without any effect on the behaviour of the objects already built or on each other. A bundle takes its member lines as they are when it is made: later changes to a member line, or running it, do not reach the bundle, nor the other way round; and one incident field may be given to lines of different speeds.",
 ["programs", "histories"], "every argument of every building call, every order of calls and of changes that the caller makes to its own arguments, every sharing of arguments between calls",
 "Tests build each object once from literals that nobody changes afterwards.",
 ["mtl.py", "networks.py", "mtln.py", "dispersive.py", "probes.py"], [("what objects keep of their arguments", "mtl.py MTL.__init__, MTLD.__init__; networks.py Network.__init__, NetworkD.__init__; dispersive.py")],
 ["arguments after each call; v, i and probes of later runs"])
prop("C27", "Results depend neither on the units nor on the origin of time",
 "Describing a system in another consistent system of units (of length, time, resistance and voltage, with every other quantity following) changes nothing but the units of the results: all voltages and currents after each step are multiplied by the units of voltage and current. A system at rest whose excitations all begin some steps later does the same thing as many steps later; while nothing excites it, it stays at rest.",
 ["configurations", "inputs", "histories"], "every line, bundle and system with their elements, losses, networks, transfer impedances, sources and fields; every choice of units (within the absolute tolerances of positions and of ideal connections) and every delay",
 "Tests fix one set of numbers, nearly all of them of one size, and start at time zero.",
 ["mtl.py", "mtln.py", "networks.py", "dispersive.py"], [("the whole step", "mtl.py step; networks.py update_sources; dispersive.py update_q3_phi_term")],
 ["v, i of both systems after each step"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
