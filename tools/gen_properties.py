"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

K = "pyorb/kepler.py"
O = "pyorb/orbit.py"
U = "pyorb/unit.py"
C = "pyorb/const.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook),
    ))


prop("C01", "Elements to state follows two-body physics and the documented conventions",
     "For every set of Keplerian elements (elliptic, parabolic with the periapsis distance as first element, hyperbolic with positive semi-major axis; open orbits strictly between the asymptotes), every gravitational parameter and either angle unit, the Cartesian state returned is the one fixed by that conic under the documented orientation conventions. In particular the radius, energy, angular momentum, periapsis direction and direction of motion all match the elements, for planar, retrograde, polar and circular orbits alike.",
     ["inputs"], "all (a, e, i, omega, Omega, nu, mu) in the stated domain",
     "tests check a handful of hand-picked angles and one coarse elliptic grid only against the library's own inverse, never open orbits, never against an independent statement of the physics",
     [K], [("perifocal state + Z-X-Z rotation", K + ":kep_to_cart"), ("conic radius / angular momentum", K + ":orbital_distance, orbit_total_angular_momentum, parabolic_total_angular_momentum"), ("rotation", K + ":euler_rotation_matrix")],
     ["return value of the elements-to-state conversion", "Orbit.cartesian after setting Keplerian elements"])

prop("C02", "State to elements and back reproduces the state",
     "For every Cartesian state with non-zero position and non-zero angular momentum, converting to Keplerian elements and back to a state reproduces the position and velocity to rounding accuracy. This includes planar, retrograde planar, polar, circular, exactly parabolic and hyperbolic states, incoming as well as outgoing.",
     ["inputs"], "all non-rectilinear states (r, v) and mu > 0",
     "the round trip is tested on one elliptic grid with three true anomalies (0, 45, 180 deg): no incoming leg, no open orbit, no exactly axis-aligned state",
     [K], [("case split on eccentricity/inclination limits and quadrant fix-ups", K + ":cart_to_kep"), ("inverse", K + ":kep_to_cart")],
     ["cart_to_kep followed by kep_to_cart"])

prop("C03", "Returned Keplerian elements are canonical",
     "Elements computed from a state always lie in the documented ranges: semi-major axis positive (periapsis distance for a parabola), eccentricity non-negative, inclination in [0, 180] deg, all other angles in [0, 360] deg. The ascending node is exactly zero for planar orbits and the argument of periapsis exactly zero for circular ones, and the computed elements equal the elements the state was built from once those are put in this canonical form.",
     ["inputs"], "all elements / states in the domain of C01 and C02",
     "ranges are never asserted by the tests; the canonical form is compared on one grid of elliptic orbits only",
     [K], [("element extraction and special-case conventions", K + ":cart_to_kep")],
     ["return value of cart_to_kep", "Orbit.kepler after a Cartesian write"])

prop("C04", "Anomaly conversions are mutually inverse on every conic",
     "True, eccentric and mean anomaly conversions are mutually inverse and path independent for every eccentricity: elliptic ones agree modulo a revolution (results of closed-orbit conversions to true or eccentric anomaly from each other lie in [0, 360) deg), parabolic and hyperbolic ones agree including the sign, which is negative before periapsis. Each conversion satisfies the defining relation of its conic (tangent half-angle formulas, Kepler's equation, Barker's equation).",
     ["inputs"], "all e >= 0, all anomalies (any real for closed orbits; between the asymptotes, either leg, for open orbits), scalar or array",
     "for open orbits the tests cover only the outgoing leg up to 90 deg at e = 1.2 and e = 1; closed-orbit inverses are tested only in the first revolution",
     [K], [("closed forms", K + ":true_to_eccentric, eccentric_to_true, eccentric_to_mean, true_to_mean"), ("solver route", K + ":mean_to_eccentric, mean_to_true")],
     ["return values of the six anomaly conversions", "Orbit.true_anomaly / eccentric_anomaly / mean_anomaly"])

prop("C05", "Kepler's equation is solved to tolerance everywhere, options honoured",
     "For every eccentricity and every mean anomaly, of either sign and beyond one revolution, solving Kepler's equation terminates within the iteration budget and leaves a residual below the requested tolerance (down to rounding). The tolerance, iteration limit and polynomial degree supplied by the user are honoured, and an Orbit uses its own options in every operation that solves the equation.",
     ["inputs", "configurations"], "all e in [0,1) and e > 1, all finite M, all option combinations",
     "tests stop at e = 0.99 and 0 <= M <= 2 pi for ellipses, M >= 0 for hyperbolas; options are probed on two orbits",
     [K, O], [("Laguerre iteration", K + ":laguerre_solve_kepler"), ("starters", K + ":_get_kepler_guess, _get_hyperbolic_kepler_guess, kepler_guess"), ("dispatch", K + ":mean_to_eccentric"), ("option plumbing", O + ":calc_true_anomaly, calc_eccentric_anomaly, mean_anomaly setter")],
     ["returned (E, iterations)", "residual of Kepler's equation"])

prop("C06", "Equinoctial conversions match their definition on every route",
     "For every closed orbit that is not retrograde planar, the equinoctial elements equal their documented definition (with the longitude in [0, 360] deg), and every chain of conversions between Keplerian, equinoctial and Cartesian form ends on the same orbit whatever route it takes. The Orbit equinoctial property reads and writes the same elements as the conversion functions, in every anomaly type.",
     ["inputs", "histories"], "all elliptic orbits with i < 180 deg, all conversion paths",
     "seven hand-written prograde orbits with angles in the first quadrant",
     [K, O], [("direct conversions", K + ":kep_to_equi, equi_to_kep"), ("via Keplerian", K + ":cart_to_equi, equi_to_cart"), ("property", O + ":Orbit.equinoctial")],
     ["return values", "Orbit.equinoctial"])

prop("C07", "Degrees and radians are interchangeable",
     "Every conversion and orbit operation that accepts an angle unit gives the same physical result in degrees as in radians: converting the angular inputs by hand and switching the unit flag changes nothing but the unit of the angular outputs. Non-angular quantities are never scaled by the unit choice.",
     ["inputs", "configurations"], "all functions and Orbit operations with an angle unit, all inputs",
     "most tests run in one unit only; several functions are never called with degrees",
     [K, O], [("unit handling inside each function", K), ("instance unit", O + ":Orbit.degrees users")],
     ["results of each function/property under both units"])

prop("C08", "A batch of orbits gives the same result as one orbit at a time",
     "Every vectorised function applied to N orbits returns, for each orbit, exactly what it returns when called with that orbit alone, whatever the number, order and mix of orbit kinds in the batch, with scalar or per-orbit gravitational parameter or eccentricity, for single vectors, columns and strided views. The output keeps the input's shape.",
     ["inputs"], "all batch sizes, orders, mixes of conics and special cases, scalar/array argument combinations",
     "tests use homogeneous batches; mixing planar, circular, parabolic and hyperbolic columns is never tested",
     [K], [("boolean-mask case split", K + ":cart_to_kep, kep_to_cart, true_to_eccentric ..."), ("scalar/array dispatch", K + ":mean_to_eccentric and friends")],
     ["column j of the batch result vs the single call"])

prop("C09", "Conversions are pure: arguments untouched, results repeatable",
     "No conversion function changes any argument it is given, in value, shape or type, for any kind of orbit and angle unit; read-only arrays are therefore accepted. The result of a call depends only on its arguments, never on earlier calls or on settings of the process (numpy error handling, printing, random state, warning filters), which it leaves alone, and results of separate calls share no memory with each other or with the arguments.",
     ["inputs", "histories"], "all functions, all orbit kinds, all call sequences",
     "the tests never look at the arguments after a call, and never reuse a hyperbolic input",
     [K], [("local copies", K + ":kep_to_cart, cart_to_kep, equi_to_kep, kep_to_equi")],
     ["argument arrays before/after each call", "results of repeated calls in any order"])

prop("C10", "An orbit's Cartesian and Keplerian values never contradict each other",
     "With automatic updating on (direct or on access), after any sequence of writes, reads, propagation, recalculation, anomaly type changes and switches of the updating mode, the Cartesian and Keplerian values an orbit reports describe the same orbit, and both reflect the most recent write. A value just written is read back unchanged, and reading never changes what is read later.",
     ["histories", "configurations"], "all operation sequences on an orbit, all modes, anomaly types, angle units and orbit kinds",
     "tests exercise one or two operations after construction, and never interleave pending writes to both sides",
     [O], [("dirty tracking", O + ":_cart_check, _kep_check"), ("conversion", O + ":calculate_cartesian, calculate_kepler"), ("property setters", O)],
     ["all public read properties"],
     state=[("calculated flags", "which representation of each orbit is up to date", O + ":__cart_calculated, __kep_calculated")])

prop("C11", "Direct updating and updating on access are observationally equivalent",
     "Running the same sequence of operations on two identical orbits, one converting on every write and the other only when values are accessed, gives the same observations at every point where either is read. This holds for any number of orbits and for updates addressed to a subset of them.",
     ["histories", "configurations"], "all operation sequences, on one or several orbits",
     "the tests check each mode separately with single writes; equivalence over sequences is never tested",
     [O], [("two updating strategies", O + ":direct_update branches of every setter, update, propagate")],
     ["all public read properties of both orbits"],
     state=[("calculated flags", "pending conversions", O + ":__cart_calculated, __kep_calculated")])

prop("C12", "With updating disabled nothing is converted until asked",
     "With both automatic updating modes off, writing one representation leaves the other exactly as it was through any sequence of operations, until a recalculation is requested explicitly. The requested recalculation then makes exactly the addressed orbits' other representation agree with the stored one and touches nothing else.",
     ["histories"], "all operation sequences in manual mode, all subsets of orbits",
     "tests make one write per side on a single orbit",
     [O], [("guards", O + ":_cart_check, _kep_check, setters"), ("explicit conversion with indices", O + ":calculate_cartesian, calculate_kepler")],
     ["Orbit.cartesian, Orbit.kepler"])

prop("C13", "Read-only elements cannot be changed through any route",
     "While an orbit's Keplerian (or Cartesian) elements are marked read-only, every public operation that writes them directly is refused with an attribute error and changes nothing, whichever property, alternative parameterisation or bulk update is used and in whatever state the orbit is. Reading, and writing the other representation, keep working.",
     ["histories", "configurations"], "all writing routes, from all states, both flags, both updating modes",
     "two property setters and the bulk update are tested; derived setters are not",
     [O], [("guard in each setter", O)],
     ["raised exception and all observations before/after"])

prop("C14", "Adding, deleting and updating orbits touches only the addressed orbits",
     "An Orbit object behaves as a list of orbits: after any sequence of adding, deleting, allocating and index-addressed updating, its length, and the elements, mass and pending changes of each remaining orbit, are those of the corresponding list operations. Orbits not addressed by an operation keep exactly the values they had.",
     ["histories"], "all sequences of structural operations and index forms (int, negative, list, slice, mask), all updating modes",
     "tests add or delete once; the untouched orbits' values are not checked",
     [O], [("parallel arrays", O + ":add, delete, allocate, update")],
     ["num, len, m, all element properties per orbit"],
     state=[("parallel arrays", "mass, Cartesian, Keplerian, anomalies, flags per orbit", O + ":allocate")])

prop("C15", "Copies, slices and iterators are faithful and independent",
     "Copying, indexing, slicing or iterating an orbit yields objects that report exactly the selected orbits' values and settings at that moment, pending changes included, and later operations on either never affect the other. Any number of iterations may be in progress at once, each visiting every orbit exactly once in order, and arrays returned by properties are private copies.",
     ["histories", "schedules"], "all histories before and after copying, all index forms, all interleavings of several iterators",
     "only one complete iteration's length is tested; copy and indexing are untested",
     [O], [("construction from slice", O + ":__getitem__, __copy__, copy"), ("iteration", O + ":__iter__, __next__")],
     ["properties of copy and original"],
     state=[("iteration cursor", "position of an iteration in progress", O + ":__iter__")])

prop("C16", "Changing the anomaly type never moves the orbit",
     "Switching the anomaly type in which the position is expressed, any number of times and in any updating mode, changes neither the Cartesian state nor the true, eccentric and mean anomalies reported. Setting the position through any of the three anomalies and reading it through any other is consistent with the anomaly conversions, whatever the current type.",
     ["histories", "configurations"], "all sequences of type changes, anomaly writes and reads, closed and open orbits",
     "one type change is tested and the Cartesian state is not looked at",
     [O], [("type setter", O + ":Orbit.type"), ("anomaly properties", O + ":true_anomaly, eccentric_anomaly, mean_anomaly, calc_*")],
     ["cartesian, anom, the three anomaly properties"])

prop("C17", "Propagation is two-body motion and additive in time",
     "Propagating any orbit, closed or open, by any positive or negative time gives the state reached by two-body motion after that time, leaving shape, orientation, energy and angular momentum unchanged. Consequently propagation steps add up, opposite steps cancel and a whole period returns a closed orbit to its state, for any mix of orbits and anomaly types and in any updating mode.",
     ["inputs", "histories"], "all orbits, all sequences of time steps",
     "one elliptic orbit, one full and one half period",
     [O, K], [("mean anomaly advance", O + ":propagate, mean_motion, mean_anomaly setter")],
     ["cartesian and Keplerian values after propagate"])

prop("C18", "Derived orbit quantities agree with the state, and setters invert getters",
     "Period, mean motion, orbital speed, velocity magnitude, periapsis, apoapsis and mean longitude reported by an orbit are those implied by its Cartesian state for every orbit kind on which they are defined. Writing a period, mean motion or velocity makes the same property read back the written value, with both representations updated accordingly.",
     ["inputs", "histories"], "all orbits, all writable derived quantities",
     "speed is compared with velocity to two decimals on one ellipse; the period and mean motion setters are never called",
     [O, K], [("derived properties", O + ":period, mean_motion, velocity, speed, apoapsis, periapsis, mean_longitude")],
     ["the derived properties vs cartesian"])

prop("C19", "The gravitational constant is right in every system of units",
     "For every combination of length, mass and time units, named (in any documented spelling) or numeric, the returned constant equals the SI constant rescaled by those units; unknown units and non-float numbers are rejected with a type error. Describing the same orbit in any of these unit systems gives the same physical motion.",
     ["inputs", "configurations"], "all unit combinations, all spellings",
     "three combinations out of several hundred are tested",
     [U, O], [("unit table", U + ":get_G")],
     ["return value", "period and state of an orbit in different units"])

prop("C20", "Published constants cannot be rebound or deleted",
     "No sequence of assignments or deletions on the constants module changes the value of any published constant: conflicting assignments and deletions are refused, re-assigning the same value is a no-op. The values agree with the documented definitions and with each other, and with the copies exported at package level.",
     ["histories"], "all sequences of assignment/deletion attempts on every constant",
     "the constants module has no tests beyond the existence of four names",
     [C, "pyorb/__init__.py"], [("write-once namespace", C + ":_const")],
     ["attribute values and raised errors"])

prop("C21", "The degree-aware wrapper converts exactly the declared angles",
     "A function wrapped to accept an angle unit receives, for any call shape, its declared angle arguments in radians and every other argument unchanged, and the declared outputs (all or selected) come back in the caller's unit. With radians in effect, by default or explicitly, the wrapper is transparent, and it never modifies the caller's arguments.",
     ["inputs", "configurations"], "all wrapper configurations and all call shapes (positional, keyword, omitted) up to three arguments",
     "five fixed call shapes are tested",
     [U], [("wrapper", U + ":angle_units")],
     ["arguments seen by the wrapped function, returned values"])

prop("C22", "A conversion that fails part-way is never remembered as done",
     "With updating on access, if a conversion triggered by a read or requested explicitly is interrupted by an error at any point inside the conversion functions, later reads never present the stale values as current: they redo the conversion and report values consistent with the last write.",
     ["fault_sequences", "histories"], "every point of failure inside every conversion, from every pending state",
     "no test makes a conversion fail",
     [O], [("order of flag update and conversion", O + ":calculate_cartesian, calculate_kepler")],
     ["properties after the fault"],
     state=[("calculated flags", "pending conversions", O + ":__cart_calculated, __kep_calculated")])

prop("C23", "Concurrent calls on shared inputs do not interfere",
     "Conversion functions called from several threads on the same input arrays, and operations on separate Orbit objects derived from one another, give in every interleaving the results they give when run one after another.",
     ["schedules"], "all interleavings of two threads up to a preemption bound",
     "no test uses more than one thread",
     [K, O], [("absence of shared scratch state and in-place argument changes", K + ":kep_to_cart, cart_to_kep")],
     ["results of each thread, the shared inputs"])

prop("C24", "Stumpff functions match their series",
     "For every real argument, positive, zero, tiny or negative, scalar or array, the Stumpff functions c0 to c3 agree with their defining series to near rounding accuracy and satisfy the recurrence linking c_k and c_(k+2).",
     ["inputs"], "all real x of moderate size, scalar and array, integer and float",
     "the Stumpff functions have no tests at all",
     [K], [("closed forms per sign", K + ":stumpff0..3, stumpff")],
     ["return values"])

prop("C25", "Rotation matrices are proper rotations with the documented handedness",
     "Every rotation matrix produced is orthonormal with determinant one, rotates by the given angle about the given axis in the right-handed sense, and composes additively. The orbit orientation matrix equals the composition of rotations by the argument of periapsis about z, the inclination about x and the ascending node about z, for scalar and array angles in either unit.",
     ["inputs"], "all angles, scalar/array mixes, both units",
     "each axis rotation is tested at 90 deg on one vector; the orientation matrix is not tested",
     [K], [("matrices", K + ":rot_mat_x, rot_mat_y, rot_mat_z, euler_rotation_matrix")],
     ["returned matrices"])

prop("C26", "Orbit geometry helpers agree with each other and with the state",
     "The radius, speed, angular momentum, period, semi-major axis and asymptote helper functions agree with one another and with the Cartesian state for every conic they are documented for, in either angle unit and for scalar or array arguments. In particular period and semi-major axis are inverse functions, and the radius formulas for the same point on an orbit coincide.",
     ["inputs"], "all orbits in each helper's documented domain",
     "one value per helper is tested; the hyperbolic radius, generic radius, angular momentum, semi-major axis and asymptote helpers have no tests",
     [K], [("helpers", K + ":orbital_distance, elliptic_radius, parabolic_radius, hyperbolic_radius, orbital_speed, orbital_period, semi_major_axis, true_of_the_asymptote, *_total_angular_momentum")],
     ["return values"])

prop("C27", "The element equivalence test never equates different orbits",
     "Two sets of Keplerian elements are declared equivalent only if they describe the same position on the same orbit, to the comparison tolerance. Identical sets, circular sets differing only in how the position is split between periapsis argument and anomaly, and planar prograde sets differing only in how the angle is split between node and periapsis, are declared equivalent; the answer is symmetric.",
     ["inputs"], "all pairs of element sets",
     "the function is used as an oracle in one test on equal orbits and has no tests of its own",
     [K], [("comparison", K + ":kep_equivalent")],
     ["returned boolean vs distance of the two states"])

prop("C28", "The chosen storage precision is kept throughout",
     "An Orbit keeps its chosen floating point type for all stored and reported elements and masses through any sequence of operations, and its values agree with the double precision computation to the accuracy of that type. The array conversion functions return floating point results of their input's precision, and integer inputs give the same values as the equal floating point inputs.",
     ["histories", "inputs"], "all operation sequences in single and double precision; all conversion functions and input dtypes",
     "only construction, one add and one write are tested for dtype, values are not, integer arrays never used",
     [O, K], [("allocation", O + ":allocate, add, __getitem__"), ("output dtype", K)],
     ["dtype and values of properties and results"])

prop("C29", "A refused request changes nothing",
     "Whenever an operation on an orbit or a conversion raises because its arguments are unusable (wrong shape, wrong type, mixed Cartesian and Keplerian keys, unknown anomaly type, bad index, protected elements), the orbit and all arguments are left exactly as they were before the call. Malformed inputs of the state, element and anomaly conversions are rejected rather than producing a result.",
     ["inputs", "histories"], "all operations with every kind of unusable argument, from every state",
     "tests check that some errors are raised, never that the object is unchanged afterwards",
     [O, K], [("validation order", O + ":update, add, setters"), ("input validation", K + ":cart_to_kep, kep_to_cart")],
     ["all observations before and after the exception"])

prop("C30", "Every way of entering the same orbit gives the same orbit",
     "Supplying the same elements through the constructor, a bulk update, a vector or array assignment, appended orbits, or one property at a time in any order, in any updating mode, results in orbits reporting identical values. The same holds for Cartesian elements.",
     ["histories", "configurations"], "all input routes, all orders of the six elements, one or several orbits, all modes",
     "tests construct orbits by keyword only",
     [O], [("input routes", O + ":__init__, update, add, setters")],
     ["all public read properties"])

prop("C31", "An orbit neither changes nor holds on to the values it is given",
     "No operation of an orbit (construction, bulk update, adding, deleting, selecting or recalculating orbits, assigning any property, propagation) changes an array, list, dictionary or index it is handed, in value, shape or type, and the result does not depend on the memory layout or container the values come in. The orbit keeps no reference to them: overwriting them afterwards never changes the orbit, and no later operation on the orbit changes them.",
     ["inputs", "histories"], "all operations, all argument forms, all later operations and later changes of the arguments, all modes",
     "no test looks at an argument after an orbit operation, or changes it afterwards",
     [O], [("assignment of values", O + ":__init__, update, add, setters, propagate")],
     ["the arguments after each operation", "all public read properties after the arguments changed"])

prop("C32", "Unknown elements stay unknown and disturb nothing",
     "Elements that have not been given are reported as undefined, never as a number: as long as any of the six elements (or six state components) of an orbit is missing, the given ones read back as given and the other representation of that orbit is undefined, and it becomes defined when the last one is given, in whatever order and by whatever route. Orbits that are not defined yet never influence the values, conversions or propagation of the other orbits in the same object, nor do undefined columns influence other columns in the array conversions.",
     ["histories", "inputs"], "all orders and subsets of entering elements, all operations on objects holding undefined orbits, all patterns of undefined columns, all modes",
     "tests only look at freshly allocated orbits, never at partly given ones or at complete ones beside them",
     [O, K], [("conversion of defined orbits only", O + ":_calculate_cartesian, _calculate_kepler, allocate, add, update"), ("column-wise conversions", K)],
     ["all public read properties", "return values of the conversion functions"])

prop("C33", "Every orbit moves under its own, current gravitational parameter",
     "Every conversion, propagation and derived quantity of an orbit uses G (M0 + m) with that orbit's own mass m and the values G, M0 and m have at that moment, however the masses were supplied (constructor, assignment, update, added, selected or copied orbits). Changing a mass, M0 or G converts nothing by itself: both representations stay as they were until one of them is written or a recalculation is requested, which then keeps that representation and changes the other, for the addressed orbits only.",
     ["inputs", "histories"], "all ways of supplying masses, all orbit kinds, all sequences of mass changes, writes, recalculations and selections, all modes",
     "tests use massless orbits around one central body and never change a mass, the central mass or G after construction",
     [O], [("gravitational parameter of each orbit", O + ":_calculate_cartesian, _calculate_kepler, propagate, period, speed, update, add, __getitem__")],
     ["all public read properties"])

prop("C34", "No preferred units: any consistent system gives the same orbit",
     "The conversions, geometry helpers and orbit operations contain no preferred length, time or mass: describing the same orbit in any consistent system of units (lengths, times, velocities, masses and the gravitational parameter or G rescaled accordingly) rescales lengths, velocities and periods of the result and changes nothing else. This holds for every orbit kind, special cases included, and through any sequence of operations.",
     ["inputs", "histories"], "all orbits, all rescalings of length, time and mass without overflow, all operation sequences",
     "every test works in one system of units per function; a threshold on a quantity with a unit is invisible there",
     [K, O], [("special-case thresholds and formulas", K + ":cart_to_kep, kep_to_cart, orbital_distance, orbital_speed, orbital_period, semi_major_axis"), ("orbit operations", O)],
     ["return values of the conversion functions", "all public read properties"])

prop("C35", "Whole turns of an angle never matter",
     "An angle (argument of periapsis, longitude of the ascending node, true anomaly, equinoctial longitude, and the eccentric and mean anomaly of closed orbits) may be given in any turn, positive or negative: adding whole turns to it, in either angle unit and at any entry point (functions, constructor, assignment, update, appended orbits, anomaly setters), changes neither the state, nor any derived quantity, nor where later propagation or a change of anomaly type leads. Resulting angles agree up to whole turns, and the signed eccentric and mean anomaly of an open orbit do not depend on the turn in which its true anomaly was given.",
     ["inputs"], "all orbits, all angle arguments, any number of whole turns, both units, all anomaly types",
     "tests give angles in one turn only",
     [K, O], [("range reduction", K + ":true_to_eccentric, eccentric_to_true, mean_to_eccentric, mean_to_true, kepler_guess, equi_to_kep"), ("setters", O + ":anomaly setters, equinoctial, update")],
     ["return values of the conversion functions", "all public read properties"])

prop("C36", "No preferred direction in space, nor sense of time",
     "Turning an orbit (position and velocity together) by any rotation, mirroring it, or reversing its velocity gives an orbit of the same size, shape and speed, run through in the same places at the same times (backwards in time for a reversed velocity): conversions, propagation and every derived quantity of an orbit commute with these operations. Rotations and mirror images keep all anomalies and reversals negate them; a turn about the reference axis moves the node (or, for planar orbits, the periapsis) by that angle and nothing else. This holds for every orbit kind, special orientations included, and through any sequence of operations.",
     ["inputs", "histories"], "all states of non-circular and circular orbits, all rotations, mirror images and the reversal of time, all operation sequences",
     "tests fix a handful of orientations and only propagate forwards on the outgoing leg; no test relates two orientations of the same orbit",
     [K, O], [("quadrants, nodes and special cases", K + ":cart_to_kep, kep_to_cart, euler_rotation_matrix"), ("oddness of the anomaly conversions and of the starters", K + ":true_to_eccentric, eccentric_to_mean, mean_to_eccentric, kepler_guess"), ("propagation backwards", O + ":propagate")],
     ["return values of the conversion functions", "all public read properties"])

prop("C37", "An object holding many orbits behaves like many objects holding one",
     "Whatever is done to an Orbit object holding several orbits has, on each of them, the effect it would have on an object holding that orbit alone: values, conversions, propagation, changes of anomaly type and every derived quantity of an orbit depend neither on which other orbits (of whatever kind, in whatever order) share the object, nor on whether the orbit was stored from the start, added later, or had neighbours deleted. Operations addressed to some of the orbits leave the others as they are.",
     ["histories"], "all mixtures and orders of orbit kinds, all operation sequences including partial ones and changes of the number of orbits, all modes, anomaly types and angle units",
     "tests hold one orbit, or several similar ones, and do one thing to them",
     [O, K], [("vectorised operations and index handling", O + ":update, propagate, type, add, delete, __getitem__, setters, calculate_cartesian, calculate_kepler"), ("column-wise conversions", K)],
     ["all public read properties"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
