"""Source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLADE, COMP, PREP, CS, BEM = ("ccblade/ccblade.py", "ccblade/ccblade_component.py", "ccblade/airfoilprep.py", "ccblade/csystem.py",
                              "ccblade/src/bem.f90")
LATTICE = "breadth-first exhaustive exploration of the configuration lattice of the real code, every state compared with an independent reference model"
TRUST = ("Exhaustive within the stated bound only (discrete alphabets of values per dimension, all combinations of up to the stated number of "
         "deviations from the base states); trusts numpy/scipy and the reference model in mc/.")

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism, level note
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=LATTICE, note=TRUST):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note))


prop("C01", "Blade element momentum equations are actually solved at every station",
     "For a turning rotor whose stations see wind from upwind and motion towards the leading edge, the reported inflow angle of every station "
     "is a true root of the blade element momentum residual (blade count, losses, wake rotation, drag and Reynolds iteration as configured), "
     "in the windmill, turbulent windmill and propeller brake regions alike. (With drag left out of the induction the analysis is "
     "documented to fail at certain points, and a section filling more than its whole annulus is no rotor; both are excluded.) The solver never gives up, never returns a pole of the residual "
     "and never returns a value that is not finite.",
     ["inputs", "configurations"], "all rotors (geometry, airfoils, options) and operating conditions with axial inflow and rotational motion positive at every station",
     "Tests evaluate two NREL 5-MW-like rotors near their design points; the brake regions and unusual options are reached by none or one of them.",
     [BLADE, BEM], [("bracketed root search over three inflow angle intervals", BLADE + ":distributedAeroLoads"), ("residual", BEM + ":inductionFactors")])
prop("C02", "Induction factors and coefficients follow from momentum theory",
     "For a turning rotor the reported axial and tangential induction factors and the lift, drag, normal and tangential coefficients are those of "
     "momentum theory with the Prandtl losses and Buhl correction at the reported angle of attack, with exactly the enabled terms "
     "(tip loss, hub loss, wake rotation, drag in the induction). A disabled term has no effect and an enabled one has its documented effect.",
     ["inputs", "configurations"], "all rotors, option combinations and operating conditions with positive axial inflow and rotational motion",
     "Tests compare totals for the default options at a few conditions; option combinations are not enumerated.",
     [BLADE, BEM], [("induction factors", BEM + ":inductionFactors"), ("section loads", BLADE + ":__loads")])
prop("C03", "Sectional loads, angles, speeds and coefficients are mutually consistent",
     "At every station the normal and tangential loads equal the dynamic pressure of the reported relative speed times chord times the reported "
     "coefficients, those are the projections of the reported lift and drag, and angle of attack, speed and Reynolds number agree with the inflow, "
     "induction, twist and pitch. On a parked rotor (zero speed) the induction is zero and the same relations hold; without wind and rotation there are no loads.",
     ["inputs", "configurations"], "all rotors and operating conditions with positive axial inflow, rotating or parked",
     "Tests look at totals or at loads of one rotor, not at the relations between all the outputs.",
     [BLADE, BEM], [("section loads", BLADE + ":__loads"), ("relative wind", BEM + ":relativeWind")])
prop("C04", "Inflow is the rigid-body kinematics of a sheared wind on a bent, turning blade",
     "The undisturbed wind components that each station sees are those of a power-law sheared horizontal wind and the rotation of the station about "
     "the shaft, resolved through yaw, tilt, azimuth, precone and the local slope of the precurved blade line, at the station's true position "
     "including precurve and presweep. A wind speed may be given once for the rotor or separately at each station.",
     ["inputs", "configurations"], "all geometries (precone, tilt, yaw, precurve, presweep, hub height), azimuths, shear exponents, wind speeds and rotor speeds",
     "Tests have a handful of geometries and azimuths, mostly straight blades without yaw.",
     [BLADE, BEM], [("wind components", BEM + ":windComponents"), ("rotations", BLADE + ":__windComponents")])
prop("C05", "Rotor totals are the azimuthal averages of the integrated sectional loads",
     "Thrust, torque, in-plane force, hub moments, blade root moment and power of the rotor equal the numerically integrated sectional loads of one blade, "
     "extended to zero at hub and tip, resolved into the non-rotating hub frame, averaged over equally spaced azimuths and multiplied by the number of blades "
     "(not so the root moment). A rotor without tilt, yaw and shear may use a single azimuth, with the same result.",
     ["inputs", "configurations"], "all rotors, operating conditions and numbers of azimuthal sectors",
     "Tests compare power, thrust and torque of one rotor; the other components, bent blades and sector counts are not compared with the sectional loads.",
     [BLADE, BEM], [("integration along the blade", BEM + ":thrustTorque"), ("azimuthal average", BLADE + ":evaluate")])
prop("C06", "Power is torque times speed and coefficients are the documented normalisations",
     "Power always equals torque times rotor speed in rad/s, and every coefficient equals its quantity divided by the documented product of dynamic pressure, "
     "swept area (of the true rotor radius with precone and precurve) and, where documented, radius or wind speed. This holds for every operating condition of a batch.",
     ["inputs", "configurations"], "all rotors, batches of operating conditions, densities",
     "Tests check the coefficients of one rotor in one batch.", [BLADE], [("normalisation", BLADE + ":evaluate")])
prop("C07", "A batch of operating conditions gives what each condition gives alone",
     "Evaluating a rotor for any sequence of operating conditions returns, at each position, exactly the totals, coefficients and derivatives that evaluating "
     "that condition alone returns, whatever the order, repetition or length of the batch and however the inputs are spelled (scalars, lists, arrays).",
     ["inputs", "histories"], "all sequences of operating conditions up to the bound",
     "Tests use one batch of speeds; no test compares batches with single evaluations or with permutations.", [BLADE],
     [("loop over conditions", BLADE + ":evaluate")],
     "exhaustive enumeration of all sequences of operating conditions up to a length bound on the real code, each compared with single evaluations")
prop("C08", "Results depend on inputs only, never on earlier computations",
     "Whatever sequence of analyses was run before on the same rotor or on others sharing its arrays and airfoils, the next analysis returns bit for bit what it returns on a new rotor. "
     "No analysis changes the arrays it was given or results it returned earlier, and what the caller later writes into either has no effect on the rotor.",
     ["histories"], "all histories of operations up to the depth bound over an alphabet of fifteen operations",
     "Each test builds its own rotor and runs one analysis; histories are not explored.", [BLADE, BEM],
     [("per-call state of the rotor object", BLADE + ":CCBlade")],
     "explicit-state exploration of all operation histories up to a depth bound on the real objects, each step compared with a fresh object")
prop("C09", "Dynamic similarity: loads scale with density, size and speed",
     "With Reynolds number effects absent or held fixed, scaling air density, all lengths or all speeds by a factor changes loads, totals and power by exactly the corresponding "
     "product of powers of the factor and leaves angles, induction factors and coefficients unchanged.",
     ["inputs", "configurations"], "all rotors and operating conditions, each with several scalings",
     "No test relates two rotors to one another.", [BLADE, BEM], [("all equations are dimensionally homogeneous", BEM)])
prop("C10", "Symmetries: revolution, pitch/twist, wind direction, axisymmetry",
     "Loads are unchanged by a full revolution, by moving an angle from pitch to twist, and (without shear) by turning wind direction and azimuth together about the shaft. "
     "A rotor without shear, tilt and yaw has the same loads at every azimuth, no net in-plane force or moment, and totals that do not depend on the number of azimuthal sectors.",
     ["inputs", "configurations"], "all rotors and operating conditions, each with its symmetric images",
     "No test relates the loads of different azimuths or orientations.", [BLADE, BEM], [("frame rotations", BEM + ":windComponents")])
prop("C11", "Derivatives of distributed loads are the true derivatives",
     "The analytic derivatives of normal and tangential loads along the blade equal the derivatives of the loads the same analysis returns, with respect to each station's radius, chord, twist, precurve and "
     "presweep (neighbouring stations included), hub and tip radius, precone, tilt, yaw, hub height, shear exponent, wind speed, rotor speed, pitch and azimuth, for rotating and parked rotors.",
     ["inputs", "configurations"], "all rotors with stations strictly between hub and tip, operating conditions and differentiation variables (no Reynolds iteration)",
     "Tests compare gradients of one blade at three design points with loose tolerances.", [BLADE, BEM],
     [("implicit differentiation of the residual", BLADE + ":__residualDerivatives"), ("generated tangent code", BEM + ":windComponents_dv")])
prop("C12", "Derivatives of rotor totals are the true derivatives",
     "The analytic derivatives of thrust, side and vertical force, torque, hub moments, root moment and power equal the derivatives of the totals the same evaluation returns, with respect to every documented "
     "variable including precurve and presweep of the tip. Derivatives of one operating condition with respect to another condition's inputs are zero.",
     ["inputs", "configurations"], "all rotors, operating conditions and differentiation variables (no Reynolds iteration)",
     "Tests compare gradients of one blade at three design points with loose tolerances and leave out most force and moment components.", [BLADE, BEM],
     [("adjoint of the blade integration", BEM + ":thrustTorque_bv"), ("chain rule", BLADE + ":__thrustTorqueDeriv")])
prop("C13", "Derivatives of rotor coefficients are the true derivatives",
     "The analytic derivatives of the thrust, side force, vertical force, torque, moment and power coefficients equal the derivatives of the coefficients the same evaluation returns with respect to every documented "
     "variable, and are finite also where a quantity or the rotor speed is zero.",
     ["inputs", "configurations"], "all rotors, operating conditions and differentiation variables (no Reynolds iteration)",
     "Tests compare gradients of one blade at three design points.", [BLADE], [("quotient rule", BLADE + ":evaluate")])
prop("C14", "Asking for derivatives never changes the answers",
     "An analysis with derivatives returns the same loads, totals and coefficients as without, and additionally finite derivatives for every documented output and variable. "
     "Where analytic derivatives do not exist (Reynolds number iteration) the request is refused rather than answered wrongly.",
     ["configurations", "inputs"], "all rotors, options and operating conditions",
     "No test compares the two modes.", [BLADE], [("derivative flag", BLADE + ":CCBlade")])
prop("C15", "An airfoil object reproduces its table",
     "An airfoil built from a table (any number of angles from two up and of Reynolds numbers from zero up, with or without moments, from arrays, lists or a file) returns lift, drag and moment that deviate from the table by no more than the small documented smoothing, "
     "varies smoothly between table angles, holds its end values beyond the table, and ignores the Reynolds number when the table has none or one. A table of a cubic in the angle is reproduced between its angles too, with its slopes. The table passed in is left unchanged, and one whose angles or Reynolds numbers are out of order is refused (or reproduced).",
     ["inputs"], "all tables of the alphabet (angles x Reynolds numbers x shapes x spelling) and files",
     "Tests only use the NREL 5-MW airfoils inside the table.", [BLADE, PREP], [("smoothing splines", BLADE + ":CCAirfoil")])
prop("C16", "Derivatives of airfoil coefficients are the true derivatives",
     "The derivatives of lift and drag with respect to angle of attack and Reynolds number equal those of the coefficients the same airfoil returns, inside and beyond the table, for any number of table angles and Reynolds numbers.",
     ["inputs"], "all tables of the alphabet, angles and Reynolds numbers",
     "Tests reach airfoil derivatives only through rotor gradients with single-Reynolds tables.", [BLADE], [("spline derivatives", BLADE + ":CCAirfoil.derivatives")])
prop("C17", "Chosen operating points on an airfoil are the best ones",
     "The angle of best efficiency lies between -20 and 40 degrees, no other angle on a 0.3 degree raster in that range has a greater lift-to-drag ratio, and the returned efficiency, lift and drag are those of the airfoil at that angle. "
     "The angle away from stall is the angle of greatest lift in that range less the margin, again with the airfoil's own lift, drag and efficiency; for a cylinder both angles are zero.",
     ["inputs"], "all tables, Reynolds numbers and margins of the alphabet", "No test calls either function on more than one airfoil.", [BLADE],
     [("raster search", BLADE + ":CCAirfoil.max_eff")])

prop("C18", "Unsteady aerodynamics parameters describe the polar they are taken from",
     "The zero-lift angle and the drag and moment there, the slope and breakpoints of the normal force, stall angles and minimum drag reported for a polar are those of that polar, in the documented units; "
     "the tabulated columns are the polar itself and constants are the documented ones. Cn1 is the normal force where the moment departs most above the chord from the zero-lift angle to its last local minimum within 35 degrees, Cn2 where it departs most from the chord over the 30 degrees below, "
     "C_nalpha the largest slope of the normal force between zero lift and that break, alpha1 the angle where the drag falls furthest below its chord. A section of zero lift gives zero parameters.",
     ["inputs"], "all polars of the alphabet (angle grids, shapes, offsets, files) and linear ranges",
     "Tests compare eight numbers of one polar and none of the OpenFAST parameters.", [BLADE, PREP],
     [("OpenFAST parameters", BLADE + ":CCAirfoil.eval_unsteady"), ("AeroDyn parameters", PREP + ":Polar.unsteadyparam")])
prop("C19", "Blending and Reynolds interpolation are linear and leave their inputs alone",
     "Blending two polars or airfoils gives, at every angle of the common range, the weighted mean of their coefficients, at each Reynolds number of either. A polar at any Reynolds number is the linear interpolation "
     "between the neighbouring polars and the nearest polar outside, common angle grids reproduce the polars, and no operation changes its inputs.",
     ["inputs", "configurations"], "all pairs of airfoils of the alphabet with one to three polars, weights and Reynolds numbers",
     "Tests blend two polars with one weight.", [PREP], [("blend", PREP + ":Polar.blend"), ("Reynolds interpolation", PREP + ":Airfoil.getPolar")])
prop("C20", "Extrapolated polars cover all angles, keep the data and are consistent",
     "Extrapolation of a polar returns strictly increasing angles from -180 to 180 degrees that contain the original data unchanged, the flat plate (Viterna) coefficients outside, drag of at least the given minimum, the given "
     "maximum drag at plus and minus 90 degrees (where no data are given there) and equal values at both ends. Each segment outside the data (up to 90, 180 less the last angle, 180, and so on) has about as many evenly spaced angles "
     "as were asked for. The minimum drag is 0.001 unless given. Polars that end at or beyond 90 degrees, begin below -90, or a negative minimum drag are refused.",
     ["inputs"], "all polars of the alphabet, maximum and minimum drag, aspect ratios and resolutions", "Tests compare one polar with stored numbers.", [PREP],
     [("Viterna extrapolation", PREP + ":Polar.extrapolate")])
prop("C21", "Rotational stall delay is the documented correction",
     "The 3-D correction returns, on the angles of the polar, the Du-Selig lift and Eggers drag increments for the given radius, chord-to-radius ratio and tip speed ratio, measured from the linear range given, faded out above the "
     "maximum angle, for every polar of an airfoil. Moment, Reynolds number and the inputs stay as they are.",
     ["inputs"], "all polars of the alphabet, radii, chords, tip speed ratios, linear ranges and limits", "Tests compare one polar with stored numbers.", [PREP],
     [("Du-Selig and Eggers", PREP + ":Polar.correction3D")])
prop("C22", "AeroDyn files: what is written is what is read back",
     "Writing an airfoil to an AeroDyn file, over whatever was there before, and reading it back yields the same polars on their common angles to the printed precision, in the order of Reynolds number, in the class asked for. "
     "The file is in the documented layout, contains the dynamic stall parameters of each polar, and writing what was read reproduces the tables. A file that was cut off anywhere, or has a row without all four columns, is refused and never read as a shorter one.",
     ["inputs", "histories", "crash_points"], "all airfoils of the alphabet with one to five polars; write, read, write, read; every prefix of a file, every row with missing columns, spellings of the numbers and headers",
     "The test reads the file of the repository and never what the code writes.", [PREP], [("writer and reader", PREP + ":Airfoil.writeToAerodynFile")])
prop("C23", "The command line tool does what its operations promise, to the named file",
     "For every documented action and option, in any order, the tool writes exactly one file, under the name given or the documented derived name, in which every table is the documented result of the action for the tables of the source. "
     "Sources are never changed and nothing else is created, and asking for plots changes nothing in them: it draws the curves of every polar, of the source next to the result, once.",
     ["configurations", "inputs"], "all actions, parameters, option combinations and orders, file names and directories",
     "No test runs the tool.", [PREP], [("argument parser and actions", PREP + ":main")])
prop("C24", "Frame rotations are proper, invertible and follow the documented axes",
     "Any chain of conversions between the documented frames gives the components in the target frame for the documented axis and sense of each angle, preserves length, is undone by the opposite conversions in reverse, and leaves the "
     "vectors it starts from unchanged. Single vectors, arrays of vectors, single angles and arrays of angles agree.",
     ["histories", "inputs"], "all words of frame conversions up to the bound, with several angles and vectors each", "Tests use at most one fixed chain.", [CS],
     [("rotation", CS + ":DirectionVector._rotateAboutZ")],
     "breadth-first exhaustive enumeration of operation sequences on the real class, each compared with independently built rotation matrices")
prop("C25", "Vector arithmetic is componentwise and operators touch only their target",
     "Every sequence of sums, differences, products, quotients, negations and cross products of direction vectors and scalars, in plain and in-place form, has the componentwise result; only the target of an operation changes, never its other "
     "operand or an array a vector was built from. This holds for single vectors, arrays of vectors and whole-number components.",
     ["histories", "inputs"], "all programs over two registers up to the bound, for several kinds of vectors and scalars", "No test uses vector arithmetic.", [CS],
     [("operators", CS + ":DirectionVector")], "breadth-first exhaustive enumeration of operation sequences on the real class against an independent two-register machine")
prop("C26", "Derivatives carried through rotations and cross products are exact",
     "After any chain of frame conversions a vector carries its true derivatives with respect to the components of the vector it started from and to every angle used, also when an angle is used more than once. "
     "The cross product derivatives are the true ones under the names asked for.",
     ["histories", "inputs"], "all words of frame conversions up to the bound, with several angles and vectors each", "No test checks these derivatives.", [CS],
     [("derivative dictionaries", CS + ":DirectionVector._rotateAboutZ"), ("cross product", CS + ":DirectionVector.cross_deriv")],
     "breadth-first exhaustive enumeration of operation sequences on the real class, each compared with exact derivatives of the rotation matrices")

prop("C27", "Geometry component: rotor radius, diameter, tip offsets and exact derivatives",
     "For any blade shape, precone and number of stations the component returns the distance of the coned, prebent tip from the shaft, twice that, and the precurve and presweep at the tip, with exact derivatives with respect to every input "
     "element, in whatever units the inputs are given and whatever was computed before.",
     ["inputs", "histories"], "all geometries of the alphabet, units and preceding runs", "Tests check one random geometry.", [COMP],
     [("component", COMP + ":CCBladeGeometry")])
prop("C28", "Load component: same loads and derivatives as the rotor itself",
     "The component returns the blade loads of the rotor its inputs describe, Px the normal, Py the negative tangential load and Pz zero, and derivatives equal to those of the rotor for every documented input, "
     "independent of what it computed before. Inputs that are not set have the documented defaults. Inputs without derivatives (tip precurve) do not influence the loads.",
     ["inputs", "configurations", "histories"], "all rotors, options, conditions and preceding runs of the alphabet", "Tests run one rotor at one condition without comparing values.", [COMP],
     [("component", COMP + ":CCBladeLoads")])
prop("C29", "Evaluation component: same hub loads, coefficients and derivatives as the rotor",
     "Power, root moment, hub force and moment vectors (in the order x, y, z of the hub frame) and their coefficients equal those of the rotor the inputs describe, with the derivatives of the rotor for every input but density, viscosity "
     "and airfoil tables, independent of what the component computed before.",
     ["inputs", "configurations", "histories"], "all rotors, options, conditions and preceding runs of the alphabet", "Tests run one rotor at one condition without comparing values.", [COMP],
     [("component", COMP + ":CCBladeEvaluate")])
prop("C30", "Twist component: given or designed twist, and the rotor's own results for it",
     "With a given twist every output (power, thrust, torque, root moment, coefficients, induction, angles, coefficients and loads along the span, lift and drag) is that of the rotor with this twist at the given tip speed ratio, and values at "
     "optimisation points are interpolated along the span; its declared derivatives are those of these outputs. In inverse mode on an axisymmetric rotor the twist gives the wanted angles of attack (given, or stall less margin), limited to 20 degrees inboard and smoothed if asked for.",
     ["inputs", "configurations", "histories"], "all rotors, options, conditions, design modes and preceding runs of the alphabet whose last station is the tip",
     "Tests run one rotor without inverse design and compare no values.", [COMP], [("component", COMP + ":CCBladeTwist")])
prop("C31", "Inverse analysis finds the twist that gives the wanted angles of attack",
     "Given angles of attack, lift and drag coefficients, the inverse analysis returns a twist at which these satisfy the blade element momentum equations at every station (for a parked rotor: the wanted angle to the undisturbed wind), "
     "with the loads that belong to it, leaving the wanted values unchanged. Switching it off and analysing again equals a rotor built with this twist.",
     ["inputs", "configurations", "histories"], "all rotors, operating conditions, wanted angles and coefficients of the alphabet with positive inflow", "No test uses the inverse analysis.", [BLADE],
     [("inverse residual", BLADE + ":__runBEM_inverse")])
prop("C32", "Flap geometry comes from this XFOIL run, under crashes and concurrent processes",
     "The coordinates with a deflected flap are those XFOIL saves for this profile, hinge, deflection and panel count, whatever files earlier or interrupted runs left behind, and also when several processes work in one directory with multi_run or MPI_run. "
     "Afterwards no temporary file remains; if XFOIL fails, an error is raised instead of returning old coordinates.",
     ["schedules", "crash_points", "histories"], "all interleavings of two processes up to the preemption bound, all crash points followed by another run, all sets of leftover files with valid, torn or empty content, all sequences of three runs",
     "No test runs it (XFOIL is not available), and tests cannot control interleavings or crashes.", [BLADE], [("file protocol", BLADE + ":CCAirfoil.af_flap_coords")],
     "stateless exploration of the real code in real processes under a controlled scheduler: all schedules of file accesses up to a preemption bound, all crash points, all leftover file sets",
     "Exhaustive within the stated bound: two processes, preemption bound 2 (quick; 1 for MPI_run) or 3 (thorough), steps are file accesses and the start of XFOIL; XFOIL is replaced by a stub program with the same commands.")

prop("C33", "Compiled kernels stay inside their arrays and use no uninitialised values",
     "For every number of stations from two up and every rotor, option and condition, the compiled kernels (forward and derivative) read and write only inside their arrays, never crash, and never let an uninitialised value "
     "reach a result.",
     ["inputs", "configurations"], "all station counts of the alphabet, rotors, options, operating conditions and kinds of analysis, on a build with bounds checks and signalling initial values",
     "The tests run an uninstrumented build in which a stray access has no visible effect, and use one or two station counts.", [BEM],
     [("explicit-shape arrays of the kernels", BEM)],
     "breadth-first exhaustive exploration of the configuration lattice on an instrumented build of the real kernels (bounds checks, signalling-NaN initial values)")

prop("C34", "Plots show the data of the polars",
     "Plotting a polar or an airfoil (all in one figure per coefficient, or separately) draws exactly one curve per polar and coefficient, of that polar's own angles and values, labelled with its Reynolds number, on axes labelled with "
     "the quantity; it returns the figures drawn in that order and leaves the polars unchanged.",
     ["inputs", "configurations"], "all airfoils of the alphabet, as built or after extrapolation, 3-D correction, blending or interpolation; all plotting modes",
     "No test plots (matplotlib is not among the test dependencies).", [PREP], [("plot methods", PREP + ":Airfoil.plot")],
     "breadth-first exhaustive exploration of the configuration lattice and orthogonal arrays on the real code with a recording stand-in for the plotting library")

prop("C35", "Arguments mean the same however they are passed",
     "Every argument of the rotor, of an airfoil, of the polar and airfoil operations (stall correction, extrapolation, unsteady parameters, blending, common grid) and of the rotor's evaluation means the same whether it is given by position in the documented "
     "order, by name or, if optional, left out when its documented default is wanted; sequences mean the same as lists, tuples, floating-point or whole-number arrays, strided views or read-only arrays of the same numbers, "
     "and none of them is changed. Nor does anything built from such sequences change when the caller later writes into them.",
     ["inputs", "configurations"], "all subsets of optional arguments left out up to a bound, every split between positional and named arguments, every spelling of the sequences, blades with and without stations on hub and tip",
     "Tests construct every object in one spelling with all arguments given.", [BLADE, PREP],
     [("rotor arguments", BLADE + ":CCBlade.__init__"), ("evaluation arguments", BLADE + ":evaluate"), ("stall correction arguments", PREP + ":Polar.correction3D")],
     "breadth-first exhaustive exploration of argument spellings on the real code, every state compared with the call that gives every argument explicitly")

prop("C36", "Any object with the airfoil interface serves as an airfoil",
     "A rotor needs nothing of an airfoil but evaluate(alpha, Re), which returns lift and drag coefficients, and with derivatives switched on derivatives(alpha, Re). Loads, totals, coefficients, design twist and derivatives are those with CCAirfoil objects of the same "
     "coefficients, whatever else the user's objects have or lack, in whatever sequence type they return numbers, at some or all stations, shared between stations or not.",
     ["inputs", "configurations"], "all rotors, options, operating conditions and kinds of airfoil objects of the alphabet",
     "All tests use CCAirfoil objects.", [BLADE], [("airfoil lookups", BLADE + ":__runBEM"), ("airfoil lookups for loads", BLADE + ":__loads")],
     "breadth-first exhaustive exploration of the configuration lattice and orthogonal arrays on the real code, every state compared with the rotor built from CCAirfoil objects")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n[0], where=n[1]) for n in p["mechanism"]],
                             observe_at=["return values of the public interface"], hook_needed=None))) + "\n")
        for p in NA:
            f.write(json.dumps(p["line"]) + "\n")
    checks = [dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"], technique="model checking: " + p["technique"], level="model_checking", level_note=p["note"])
              for p in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash check.sh setup", checks=checks,
                       not_applicable=[dict(property=p["line"]["id"], reason=p["reason"]) for p in NA]), f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert os.path.isfile(os.path.join(HERE, "mc", "props", p["id"].lower() + ".py")), p["id"]


if __name__ == "__main__":
    main()
