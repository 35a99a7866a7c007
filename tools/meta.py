"""Single source of properties.jsonl, MANIFEST.json and the rule/assumption texts of the evidence files."""

ORACLE = ("oracle: independent long-double reference model (de Boor on homogeneous control points, differenced control "
          "points for derivatives), sanitizers: ASan+LSan+UBSan+_GLIBCXX_ASSERTIONS on library and harness")
FLOAT = "differences within rounding (relative about 1e-11 of the coordinates times the weight ratio) are not violations"

M = {}


def prop(id, title, statement, over, qtext, why, files, mech, rule, technique, note, assumptions=(), state=(), observe=(), min_events=None):
    M[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, rule=rule,
                 technique=technique, note=note, assumptions=list(assumptions), state=list(state), observe=list(observe),
                 min_events=min_events or {})


MODEL = "differential runtime monitor against a reference model under ASan/UBSan, random splines"
GENRULE = ("one case = one random clamped spline (degrees, interior knots with multiplicities up to p or p+1, domains that do not "
           "start at zero, coincident points, weights of a bounded ratio, 1..4 parameter directions) plus a random operation; ")

prop("C01", "Basis functions obey their definition everywhere",
     "For every clamped knot vector and degree, each basis function and each of its derivatives takes the value the B-spline definition gives at every parameter of the closed domain (at interior knots the right-hand value, at the last knot the left-hand limit), and is zero outside its support, outside the domain and, for derivatives, beyond the degree. "
     "The functions are non-negative and sum to one, their derivatives of any positive order sum to zero. "
     "Asking a spline for all non-zero basis functions (or their derivatives) at a parameter gives exactly the degree+1 functions that do not vanish on the knot span of that parameter.",
     ["inputs"], "all clamped knot vectors (any multiplicities, any offset and scale), all degrees, all parameters including knots, ends and their floating point neighbours, all derivative orders",
     "The tests tabulate a few knot vectors with known values; the definition has to hold for every multiplicity pattern, degree and parameter, above all at knots and ends where the recursion divides by empty spans.",
     ["src/baf/b_spline_basis_function.cc", "src/baf/zero_degree_b_spline_basis_function.cc", "src/baf/basis_function.cc", "src/baf/basis_function_factory.cc", "src/spl/parameter_space.h"],
     [("Cox-de Boor recursion with guarded quotients", "src/baf/b_spline_basis_function.cc"), ("support test and right-end convention", "src/baf/basis_function.cc, zero_degree_b_spline_basis_function.cc"), ("selection of the non-zero functions", "src/spl/parameter_space.h")],
     "one case = one random clamped knot vector (degree 0..7, up to 8 interior knots, multiplicity up to p+1, shifted/scaled domains), all basis functions and derivatives up to order p+2 evaluated at every knot, its floating point neighbour and points of every span; non-trivial and distinct = distinct (degree, multiplicity pattern)",
     MODEL, "Exploration of random inputs with an exact oracle; assumes IEEE double arithmetic and the reference model.", [FLOAT], min_events={"parameters": 1000, "at_knot": 100, "right_end": 100})

prop("C02", "Evaluation yields the mathematical spline",
     "Evaluating a B-spline or NURBS of any number of parameter directions at any parameter of its closed domain yields the point defined by its knots, degrees, control points and weights; it lies in the box of the active control points, the corners of the domain map to the corner control points, and a NURBS with equal or commonly scaled weights gives the same points. "
     "Each requested component (including the weight component of a NURBS) has its value regardless of which other components are requested, in which order or how often. "
     "The same spline results however it was constructed, and its getters report exactly the data it was constructed from.",
     ["inputs"], "all splines of 1..4 parameter directions and 1..4 coordinates, all parameters of the closed domain, all component selections, all construction ways",
     "Tests compare a few curves and surfaces at a few parameters; index arithmetic across directions with differing degrees and sizes, weights and multiplicities is only exercised by arbitrary inputs.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/spl/parameter_space.h", "src/util/multi_index_handler.h"],
     [("summation over the local tensor product", "src/spl/spline.h, b_spline.h, nurbs.h"), ("indexing of control points and weights", "src/spl/physical_space.h, weighted_physical_space.h")],
     GENRULE + "evaluated at domain corners, knots, floating point neighbours of knots and span interiors; non-trivial and distinct = distinct (type, dimensions, degrees, multiplicity pattern)",
     MODEL, "Exploration of random inputs with an independent oracle.", [FLOAT], min_events={"parameters": 5000, "weight_component": 100})

prop("C03", "Derivatives are the mathematical derivatives",
     "Partial derivatives of any order and any mixture of directions of a B-spline or NURBS equal the mathematical derivatives of the spline at every parameter of its closed domain (right-sided at interior knots, left-sided at the end of the domain), including orders above the degree. "
     "The derivative of order zero is the value, and the requested components do not influence each other.",
     ["inputs"], "all splines of 1..4 parameter directions, all parameters, all derivative orders (checked: total order up to 5/4/3)",
     "Tests check first and second derivatives of a few splines; the recursive quotient rule of rational derivatives has to hold for every mixed order and weight distribution.",
     ["src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/spline.h", "src/spl/parameter_space.h", "src/baf/b_spline_basis_function.cc"],
     [("derivatives of basis functions", "src/baf/b_spline_basis_function.cc, src/spl/parameter_space.h"), ("rational quotient rule", "src/spl/nurbs.h")],
     GENRULE + "derivatives of random multi-orders at corners, knots and span interiors; non-trivial and distinct = distinct (type, degrees, multiplicity pattern, order)",
     MODEL, "Exploration of random inputs with an independent oracle; allowance scales with the magnitude of the differenced terms.", [FLOAT], min_events={"mixed": 200, "order_2": 200})

prop("C04", "Invalid input is rejected, and only invalid input",
     "Constructing a spline whose knots, degrees, control points and weights do not fit together, whose knots are not ascending, not clamped or span no interval, or which has no control points or coordinates throws a runtime_error; evaluating or differentiating outside the parameter domain, inserting a knot or subdividing outside it throws a range_error; inserting a knot more often than its multiplicity allows throws a runtime_error. "
     "Whatever is rejected leaves the spline exactly as it was. "
     "Consistent data and parameters in the closed domain are always accepted.",
     ["inputs"], "all combinations of consistent and inconsistent construction data, all parameters inside and outside of the domain, all operations taking a parameter",
     "Tests throw a handful of wrong arguments at one curve; whether every inconsistency in every direction is recognised (and nothing else rejected) is a statement about all inputs.",
     ["src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/spl/spline.h", "src/spl/b_spline_generator.h", "src/spl/nurbs_generator.h"],
     [("checks in the constructors of the spaces", "src/spl/parameter_space.h, physical_space.h, weighted_physical_space.h"), ("range check in front of evaluation", "src/spl/parameter_space.h ThrowIfParametricCoordinateOutsideKnotVectorRange")],
     GENRULE + "with one random defect introduced (or none), or queried at random parameters inside, on and outside the domain; outcome (accepted / range_error / runtime_error) compared to the expected one and the state compared before and after; distinct = (structure, defect)",
     "exception and state monitor under ASan/UBSan, random valid and invalid inputs", "Exploration; the expected outcome follows from the construction of the case.", [], min_events={})

prop("C05", "Knot insertion and refinement keep the geometry",
     "Inserting a knot once or several times, or refining by any list of knots, in any direction leaves the geometry (and evaluation at every parameter) unchanged. "
     "Afterwards the knot vector of that direction is the sorted union of the old knots and the inserted ones, the number of control points grows accordingly, and degrees and all other directions are untouched.",
     ["inputs"], "all splines, all directions, all parameters in the domain, all admissible multiplicities and knot lists",
     "Tests insert a few knots into a few splines with known results; the index arithmetic must hold at the ends, on existing knots, for multiplicities up to the degree and in every direction of a tensor product.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/baf/knot_vector.cc"],
     [("knot insertion by Boehm's algorithm on homogeneous coordinates", "src/spl/spline.h InsertKnot, b_spline.h/nurbs.h SetNewControlPoint")],
     GENRULE + "one InsertKnot (1..p+1 times) or RefineKnots; state and evaluation compared with the reference of the original; distinct = (structure, operation)",
     MODEL, "Exploration of random inputs with an independent oracle.", [FLOAT], min_events={"insert_at_existing_knot": 50, "insert_new_knot": 200, "refine": 200})

prop("C06", "Knot removal stays within its tolerance",
     "Removing a knot removes at most as many copies as asked for and present, reports how many it removed, and moves no point of the spline by more than the tolerance per removed copy; copies that can be removed exactly (for example previously inserted ones) are removed for any reasonable tolerance. "
     "Where nothing can be removed (not an interior knot, or the tolerance would be exceeded) it reports zero and leaves the spline exactly as it was. "
     "The result is a well-formed spline of the same degrees with all other directions untouched.",
     ["inputs"], "all splines, directions, knots, tolerances and requested counts",
     "Tests remove knots that are known to be removable; the error bound for knots that are not exactly removable, any multiplicity and any neighbourhood cannot be tabulated.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
     [("removal with back-substitution and distance criterion", "src/spl/spline.h RemoveKnot, b_spline.h/nurbs.h RemoveKnot helpers")],
     GENRULE + "knots removable by construction (refitted in the reference), knots of arbitrary splines with tolerances 1e-10..0.3, ends and non-knots; geometry deviation measured by the reference; distinct = (structure, count, tolerance)",
     MODEL, "Exploration; for rational splines twice the tolerance per copy is allowed (the criterion is applied to homogeneous points).", [FLOAT], min_events={"removable_knot": 100, "refused": 100, "accepted": 30, "end_knot": 20, "absent_knot": 20})

prop("C07", "Degree elevation keeps the geometry",
     "Elevating the degree in any direction raises exactly that degree by one and leaves geometry, parametrisation, weight function and evaluation unchanged. "
     "The result is a well-formed clamped spline over the same breakpoints whose continuity at every knot is not higher than before (and not lower where no computation involved rounds: the auxiliary knots are gone), with all other directions untouched.",
     ["inputs"], "all splines with interior multiplicities up to the degree, all directions, repeated elevation",
     "Tests elevate a few splines; Bezier decomposition, per segment elevation and removal of the auxiliary knots interact for every multiplicity pattern and every direction.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h"],
     [("Bezier decomposition, elevation per segment, removal of the inserted knots", "src/spl/spline.h ElevateDegreeForDimension")],
     GENRULE + "elevated once or twice; distinct = (structure, direction, count)", MODEL, "Exploration of random inputs with an independent oracle.",
     [FLOAT, "where computations round, the knot multiplicities of the result are only required to suffice (at least old + 1), not to be minimal; splines with binary fractions only must get exactly old + 1"], min_events={"elevate_from_1": 20, "elevate_from_2": 20})

prop("C08", "Degree reduction is faithful or refused",
     "Reducing the degree of a direction either succeeds, lowers exactly that degree by one and moves no point by more than the tolerance, or is refused, returns false and leaves degree and geometry unchanged (where no computation involved rounds, the very knots and control points). "
     "A spline that is of lower degree (for example one that was elevated before) is always reduced, and a result is always a well-formed spline over the same domain with all other directions untouched.",
     ["inputs"], "all splines with interior multiplicities up to the degree, all directions, tolerances",
     "Tests reduce elevated curves and refuse one irreducible; the error decision must be right for every segment, direction and degree.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h"],
     [("Bezier decomposition, reduction per segment with error estimate", "src/spl/spline.h ReduceDegreeForDimension")],
     GENRULE + "reducible by construction, nearly reducible, or arbitrary; deviation measured by the reference; distinct = (structure, direction, tolerance, outcome)",
     MODEL, "Exploration; deviation is allowed up to twice the tolerance (in homogeneous coordinates for rational splines).", [FLOAT], min_events={"reducible": 100, "refused": 100})

prop("C09", "Subdivision splits without changing anything",
     "Subdividing a spline at any parameter inside its domain returns two splines over the domain left and right of it which coincide with the original there, have its degree and exactly its knots, and are clamped at the split. "
     "The original keeps its geometry, and the directions that are not split are the same in both pieces.",
     ["inputs"], "all splines, directions and split parameters, including existing knots of any multiplicity",
     "Tests split a few splines; the index bookkeeping must hold for every multiplicity at the split and any direction of a tensor product.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
     [("knot insertion to full multiplicity and division of knots and points", "src/spl/b_spline.h, nurbs.h SudivideSpline, src/spl/physical_space.h, parameter_space.h")],
     GENRULE + "split at a random parameter or existing knot; distinct = (structure, direction, multiplicity at the split)", MODEL, "Exploration of random inputs with an independent oracle.", [FLOAT],
     min_events={"split_between_knots": 100})

prop("C10", "Splines have value semantics",
     "A spline is independent of the arguments it was constructed from, of every spline it was copied or assigned from, copied or assigned to, and of the pieces obtained by subdividing it: no operation on one of them, nor its destruction, changes another. "
     "A copy or assignment target equals its source in every queried respect at the moment of copying.",
     ["histories"], "all histories of construction, copying, assignment (also self-assignment), subdivision, modification and destruction of several splines",
     "Aliasing of shared knot vectors or spaces only shows in particular sequences of copies and modifications, which tests do not run.",
     ["src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/spline.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
     [("deep copies of knot vectors, basis functions and control points", "copy constructors and assignments in src/spl")],
     "one case = a random history over a growing set of splines; after every step the complete state of every object is compared with the state it must have, and a few evaluations with the reference of that state; distinct = (structure, history)",
     "online state monitor over random object histories under ASan/UBSan", "Exploration of random histories. Splines built from a generator object share its spaces by design (the existing tests rely on that) and are excluded.", [FLOAT])

prop("C11", "Equality predicates are sound and complete",
     "Two splines of one type compare equal exactly if degrees, knots, control points and weights agree within the tolerance; equality is reflexive and symmetric and survives copying, and splines of different structure are never equal. "
     "Geometric equality holds for splines over the same domain that describe the same geometry in another representation (other knots, degree, rational form, padded coordinates) and fails if points of the splines differ by more than the tolerance; neither modifies its operands.",
     ["inputs"], "all pairs of splines that agree or differ in one entry or in representation",
     "The tests compare a handful of pairs; a missed entry, weight, direction or end of the domain only shows for a pair differing just there.",
     ["src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/spline.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/baf/knot_vector.cc"],
     [("comparison of spaces with tolerance", "AreEqual in src/spl, src/baf/knot_vector.cc"), ("sampling of the parameter domain", "src/spl/spline.h AreGeometricallyEqual")],
     "one case = one random spline compared with variants of itself: one entry moved by half/twice the tolerance, knots inserted, degree elevated (reference fit), rational form, padded dimension, whole spline or one corner moved; distinct = (structure, perturbed kind, outcome)",
     MODEL, "Exploration; geometric difference is only expected to be found when it exists at corners or everywhere, because the predicate samples.", [FLOAT])

prop("C12", "Operation histories keep splines consistent",
     "After every step of any sequence of knot insertions, refinements, removals, degree elevations, degree reductions, subdivisions and copies a spline is well-formed (sorted clamped knots matching the number of control points and the degree, finite data) and describes the geometry it started with, within the accumulated tolerances. "
     "Objects left behind by the sequence keep their state.",
     ["histories"], "all sequences of shape-preserving operations on splines of 1..3 parameter directions",
     "Every test runs one or two operations; operations that assume a form (multiplicities, orders of control points, cached basis functions) left by earlier ones fail only in longer histories.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h"],
     [("recreation of basis functions and resizing of control point grids after every operation", "src/spl/parameter_space.h, physical_space.h")],
     "one case = a random spline and 2..8 random operations, the trace of states checked online after every step against the reference of the initial spline; distinct = (structure, operation string with outcomes)",
     "online trace monitor against a reference model under ASan/UBSan", "Exploration of random histories.", [FLOAT], min_events={"history_steps": 500})


def io_prop(id, fmt, dims, note, files, mech, extra=""):
    prop(id, "%s files keep splines" % fmt,
         "Writing any list of B-splines and NURBS of up to %s parameter directions to an %s file and reading it back yields the same splines in the same order: number, kind, degrees, knots, control points and weights, %s. "
         "The written file conforms to the format as another program reads it, and well-formed files of another program (other layout, order, spelling of numbers%s) are read as what they describe; writing does not change the splines. "
         "A spline the format cannot hold, a missing file and a file that cannot be stored completely are reported by a runtime_error." % (dims, fmt, note, extra),
         ["inputs", "configurations", "fault_sequences"], "all lists of splines the format can hold, all conforming files, failing storage",
         "The tests read three fixed files and write a few small splines; layout, wrapped lines, number spelling and magnitudes, mixed lists and storage faults are not sampled.",
         files, mech,
         "one case = a random list of splines written by the library, parsed by an independent parser and read back by the library, or a file built by an independent generator with random layout read by the library; 6% of the cases write to failing storage (missing directory, directory, /dev/full); distinct = list of (type, dimensions, degrees, multiplicities)",
         "differential runtime monitor: independent format parser/generator as oracle, under ASan/UBSan, with injected storage faults",
         "Exploration of random lists and files; the oracle is an independent implementation of the format.", [FLOAT],
         min_events={"written": 100, "foreign": 100, "storage_fault_0": 5, "storage_fault_2": 5})


io_prop("C14", "IGES", "two", "with all digits (coordinates padded to three)",
        ["src/io/iges_writer.cc", "src/io/iges_reader.cc", "src/util/string_operations.h"],
        [("directory and parameter sections with fixed columns", "src/io/iges_writer.cc"), ("pointers into the parameter section", "src/io/iges_reader.cc")], ", Fortran exponents, other entities")
io_prop("C15", "IRIT", "three", "to the six decimals the format is written with (coordinates of rational splines multiplied by the weight)",
        ["src/io/irit_writer.cc", "src/io/irit_writer_utils.h", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/util/string_operations.h"],
        [("weighted coordinates", "src/io/irit_writer_utils.h, irit_reader.cc"), ("tokens", "src/util/string_operations.h")], ", line breaks")
io_prop("C16", "XML", "four", "to the six decimals the format is written with",
        ["src/io/xml_writer.cc", "src/io/xml_writer_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h"],
        [("attributes and variable names", "src/io/xml_writer.cc, xml_reader.cc")], ", further variables")

prop("C17", "VTK files sample the splines",
     "The VTK file of any list of splines of up to three parameter directions contains, for every spline, exactly the points of the spline on the equidistant grid over its parameter domain that the given scattering asks for (six digits), both ends of the domain included, and exactly the line, quadrilateral or hexahedral cells that connect neighbouring grid points, each once and with valid indices. "
     "A scattering that does not fit the list, splines of four directions and storage that fails are reported by a runtime_error, and writing does not change the splines.",
     ["inputs", "fault_sequences"], "all lists of splines of 1..3 parameter directions, all scatterings, failing storage",
     "The tests write one list with one scattering; domains that do not start at zero, differing resolutions per direction, and the offsets of later splines in a list are statements about all inputs.",
     ["src/io/vtk_writer.cc", "src/io/vtk_writer_utils.h", "src/util/multi_index_handler.h"],
     [("grid of parameters", "src/io/vtk_writer_utils.h"), ("connectivity with offsets", "src/io/vtk_writer.cc")],
     "one case = a random list of 0..3 (rarely 9) splines and a random scattering; the file is parsed by an independent parser, every point is compared with the reference value and the set of cells with the expected set; distinct = (list structure, scattering)",
     "offline checker of the written file against a reference model, under ASan/UBSan, with injected storage faults",
     "Exploration of random inputs. Splines with jumps are excluded (the sample at the jump is not determined).", [FLOAT], min_events={"vtk_dim1": 50, "vtk_dim2": 50, "vtk_dim3": 50, "storage_fault_2": 5})

prop("C18", "Conversion keeps exactly the requested splines",
     "Converting a file between formats (by the converter class or one of the conversion programs driven by a log file) writes exactly the requested splines (all if none are named) that exist and the target can hold, in the requested order with their scattering, and reports exactly these; the same converter used again and the same log file used again give the same result. "
     "The format is determined by the ending of the file name alone; other endings and output that cannot be stored are reported by a runtime_error. "
     "A program only appends its report to the log file.",
     ["inputs", "histories", "fault_sequences"], "all input files, selections, scatterings, target formats, file names, repeated conversions, log file layouts, failing storage",
     "The tests convert three fixed files with a few selections once; repeated use, selections with gaps, names with several endings and log files of other layout are not sampled.",
     ["src/io/io_converter.cc", "src/io/io_converter.h", "src/io/executables/converter_log.cc", "src/io/executables/iges_to_vtk.cc", "src/util/any_casts.h", "src/util/vector_utils.h", "src/util/string_operations.h"],
     [("selection of splines and scattering", "src/io/io_converter.cc, executables/converter_log.cc"), ("file endings", "src/io/io_converter.cc GetFileFormat")],
     "one case = an input file built by an independent generator, a random selection, scattering, names and target; converted by IOConverter (25% twice with one object) or by the real program built with sanitizers as a subprocess (30% twice with its own log); output parsed by an independent parser; distinct = (formats, selection, list structure)",
     "offline checker of outputs and logs of the converter and the real programs, under ASan/UBSan/LSan, with injected storage faults",
     "Exploration of random conversions.", [FLOAT], min_events={"converted": 50, "converted_twice": 20, "program_runs": 50, "program_runs_again": 10, "unknown_format": 10})

prop("C19", "Damaged files never corrupt the program",
     "Reading any file as IGES, IRIT or XML, however damaged, either throws an exception or yields splines that are well-formed (ascending knots, numbers of knots, control points, coordinates and weights fit together) and can be evaluated; it never accesses memory it must not, never exhausts memory and always terminates.",
     ["inputs"], "all byte sequences; checked: random damage of valid files of both the library and an independent generator",
     "The tests read valid files and one missing file only.",
     ["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h", "src/spl/parameter_space.h", "src/spl/physical_space.h"],
     [("checked access to the entries of a file", "src/io/*_reader.cc"), ("checks in the constructors of the splines", "src/spl")],
     "one case = a valid file with 1..6 random mutations (truncation, bytes, numbers replaced by extreme ones, lines lost or doubled, words exchanged, brackets and tags inserted) read under sanitizers with an allocation limit and a CPU budget; distinct = distinct file contents",
     "mutation fuzzing of the readers under ASan/UBSan/_GLIBCXX_ASSERTIONS with memory and time limits", "Exploration of random damage.", min_events={"accepted": 500, "rejected_St13runtime_error": 500})

prop("C13", "Queries of shared splines are pure and thread-safe",
     "Evaluation, derivatives, basis functions, getters, comparisons, projection, element lists, copying, and writing of a spline that nobody modifies do not change it and give the same answers in any order and number, also when several threads ask at the same time, while threads modify copies and read or write files of their own. "
     "No two threads race for memory (the random generators excepted).",
     ["schedules", "histories"], "all interleavings of queries by several threads and all orders of queries by one thread",
     "No test uses threads or asks the same query twice; shared caches and static buffers only show under particular interleavings.",
     ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/baf/knot_vector.cc", "src/baf/basis_function.cc", "src/spl/projection.h", "src/io/xml_writer.cc", "src/io/irit_writer.cc", "src/io/iges_writer.cc", "src/io/vtk_writer.cc"],
     [("const members without hidden state", "src/spl, src/baf"), ("no shared state of readers and writers", "src/io")],
     "one case = 1..2 shared splines, about 40 queries each answered sequentially, again in another order, then by 2..6 threads in random orders with injected yields and delays; answers compared bit by bit; tickets with relaxed ordering record the interleaving without ordering the threads; distinct = structures and observed interleavings",
     "ThreadSanitizer plus bitwise comparison of concurrent with sequential answers", "Exploration of schedules; a race is reported by happens-before analysis of the observed executions even if it does no harm in them.",
     min_events={"concurrent_queries": 5000, "context_switches_between_queries": 100})

prop("C20", "Projection finds the closest point",
     "Projecting a point on a curve or surface returns parameters inside the domain of the spline for every point and every domain. "
     "For a regular spline and a point close to it against its curvature (any distance if the spline is affine) these are the parameters of the closest point, within the tolerance: the foot of the perpendicular, or the end of the curve (the edge of a surface with perpendicular directions) if the point lies beyond it. "
     "The spline is not changed.",
     ["inputs"], "all regular curves and surfaces, domains, points near them, tolerances and scatterings",
     "The tests project a few points on three splines over [0,1]-like domains; other domains, dimensions and points beyond the ends are not sampled.",
     ["src/spl/projection.h", "src/util/element_generator.h", "src/util/vector_utils.h"],
     [("start values on the elements or a grid", "src/spl/projection.h FindInitialValue1D/2D"), ("first order steps limited to the domain", "src/spl/projection.h")],
     "one case = a random affine spline, a random spline with tangents in a cone around constant directions, or an arbitrary random spline, and a point built from a known foot point plus a normal offset; the result is compared with the foot point and its distance with the distances of sampled points; distinct = (structure, affine, beyond the end, offset)",
     MODEL, "Exploration. For arbitrary splines only membership in the domain, termination and memory safety are checked, because a first order method from one start value need not find the global minimum.", [FLOAT],
     min_events={"affine": 200, "curved": 200, "arbitrary": 50, "foot_point_at_boundary": 50})

prop("C21", "Generated surfaces follow their curves",
     "The surface generated from a trajectory T and a section C is T(u)+C(v) with the product of the weight functions over the domains of both curves. "
     "The swept surface places, at equally spaced parameters over the whole domain of T including both ends, the scaled section rigidly: moved to T, its first axis along the tangent, its third along the binormal where T is curved, right-handed, and without rotation along straight trajectories; weights are multiplied by the one of T. "
     "The curves are not changed by the generator or by operations on the surface.",
     ["inputs"], "all pairs of rational curves, domains, scalings and numbers of sections",
     "The tests sweep along one axis-parallel line and one curve over [0,1] and mostly look at counts.",
     ["src/spl/surface_generator.cc", "src/spl/surface_generator.h", "src/baf/control_point.cc", "src/baf/knot_vector.cc", "src/spl/nurbs.h"],
     [("tensor product of the curves", "src/spl/surface_generator.cc JoinPhysicalSpaces"), ("frames along the trajectory", "src/spl/surface_generator.cc GetTransformation, ComputeNormal"), ("averaged knot vector", "src/baf/knot_vector.cc")],
     "one case = random curves over random domains; the translational surface is evaluated against the sum of the reference curves; for swept surfaces inner products, tangential and binormal components, determinants and weights of every section are checked against the reference frame; distinct = (structures, number of sections, kind of trajectory)",
     MODEL, "Exploration. Trajectories are straight or clearly curved; the documented rejection of discontinuous frames is allowed where the frame is discontinuous.", [FLOAT],
     min_events={"translational": 200, "swept_straight": 200, "swept_curved": 200})

prop("C22", "Square and random generators build what they promise",
     "The square of any degree and number of knots has uniform knots over [0,1] and a uniform grid of control points over [-1,1] in both directions, so that its corners are the corners of the square. "
     "Random B-splines and NURBS of any limits are well-formed, cover exactly the given domain, respect maximal degree and dimension, have positive weights and can be evaluated.",
     ["inputs"], "all degrees, numbers of knots, parameter limits, dimensions and random draws",
     "The tests look at one square and a few draws.",
     ["src/spl/square_generator.cc", "src/spl/random_spline_utils.h", "src/spl/random_b_spline_generator.h", "src/spl/random_nurbs_generator.h", "src/util/random.h"],
     [("uniform knots and points", "src/spl/square_generator.cc"), ("random knots, points and weights", "src/spl/random_spline_utils.h")],
     "one case = one generated spline with random arguments, checked for form and evaluated against the reference; distinct = structures", MODEL, "Exploration.", [FLOAT],
     min_events={"square": 200, "random_nurbs_3": 50})

prop("C23", "Multi-index arithmetic is a bijection",
     "A multi-index handler of any lengths enumerates every index once with the first direction fastest and wraps around; incrementing, decrementing, adding, subtracting and setting (by indices or flat index) all agree with arithmetic of the flat index modulo the number of indices, and flat index, single entries, difference to the end and the flat index without one direction are those of the current position.",
     ["inputs", "histories"], "all lengths, positions and sequences of operations for 1..4 directions",
     "The tests step through two fixed handlers; every tensor-product algorithm of the library relies on it.",
     ["src/util/multi_index_handler.h"], [("odometer and strides", "src/util/multi_index_handler.h")],
     "one case = random lengths and a random sequence of up to 40 operations, every query compared with a flat-index model after every step, plus one complete enumeration; distinct = (lengths, sequence)",
     "online state monitor against a flat-index model under ASan/UBSan", "Exploration of random histories.", min_events={"index_steps": 10000})

prop("C24", "Knot vectors stay sorted and are queried correctly",
     "Inserting any knot keeps a knot vector sorted and adds exactly this knot; removing a knot removes exactly one copy of it; span, multiplicity, number of different knots, range and last-knot queries, comparison, difference, copies, moves and the averaging constructor agree with the list of knots after any history. "
     "The elements of a spline are, in every direction, its non-empty knot spans in ascending order.",
     ["inputs", "histories"], "all knot vectors and sequences of insertions and removals; all splines",
     "The tests insert and remove single knots in a few fixed knot vectors.",
     ["src/baf/knot_vector.cc", "src/baf/knot_vector.h", "src/util/element_generator.h", "src/util/element.h"],
     [("binary search for spans", "src/baf/knot_vector.cc GetKnotSpan, InsertKnot, RemoveKnot"), ("elements", "src/util/element_generator.h")],
     "one case = a random knot vector and up to 8 random operations, all queries compared with a sorted list after every step, or the element lists of a random spline; distinct = histories and structures",
     "online state monitor against a sorted-list model under ASan/UBSan", "Exploration of random histories. Parameters within the tolerance of the last knot, but different from it, are left out.", min_events={"knot_inserted": 5000, "knot_removed": 5000, "element_lists": 1000})

prop("C25", "Vector, control point and string helpers are exact",
     "Norm, distance, scalar, cross and scaled products, difference and filtering of vectors, sums, differences, multiples, norms and affine transformations of control points give the mathematical result and leave their operands alone; filtering rejects positions outside of the vector. "
     "Splitting, trimming, prefix and suffix tests and the conversion of text to numbers (any common notation including Fortran exponents) yield what the text says and reject text that is no number.",
     ["inputs"], "all vectors, points, positions and strings",
     "The tests sample a few values; all parts of the library and both text formats rely on these helpers.",
     ["src/util/vector_utils.h", "src/baf/control_point.cc", "src/util/string_operations.h"],
     [("vector algebra", "src/util/vector_utils.h, src/baf/control_point.cc"), ("parsing", "src/util/string_operations.h")],
     "one case = random vectors of 1..6 entries or random texts, every helper compared with an independent computation; distinct = texts and sizes", MODEL, "Exploration.", [FLOAT],
     min_events={"vector_cases": 5000, "string_cases": 5000, "filter_invalid": 500})

prop("C26", "The isogeometric example discretises what it claims",
     "The Gauss-Legendre rules integrate polynomials up to degree 2n-1 exactly. For every regular NURBS patch the elements tile the parameter domain, each parameter belongs to one element, the connectivity names exactly the functions that live on an element, and at every quadrature point the rational basis functions, their derivatives in parameter and in physical space and the Jacobian determinant are the mathematical ones. "
     "The assembled stiffness matrix, right hand sides (source, Neumann) and time discretisation are the quadrature sums of those, boundary conditions replace exactly the boundary rows, boundary splines are the faces of the patch, and every answer of the Poisson solver - in any order of calls - solves the discrete problem; solution splines and solution files carry those values.",
     ["inputs", "histories"], "all regular patches (degrees, knots, weights, dimensions), all quadrature rules, all sequences of solver calls",
     "The tests compare with tabulated Matlab data for one polynomial patch whose directions are alike; rational weights, different degrees per direction and repeated calls are not sampled.",
     ["example/iga/src/basis_function_handler.h", "example/iga/src/element_generator.h", "example/iga/src/connectivity_handler.h", "example/iga/src/mapping_handler.h", "example/iga/src/linear_equation_assembler.h", "example/iga/src/poisson_problem.h", "example/iga/src/bdf_handler.h", "example/iga/src/itg/integration_rule.h"],
     [("rational basis functions on elements", "example/iga/src/basis_function_handler.h"), ("element and function numbering", "example/iga/src/element_generator.h, connectivity_handler.h"), ("assembly and boundary conditions", "example/iga/src/linear_equation_assembler.h, element_integral_calculator.h"), ("solver", "example/iga/src/poisson_problem.h, bdf_handler.h")],
     "one case = a random regular NURBS patch (1..3 directions, different degrees, interior multiplicities, weights) with a quadrature rule, all its elements, points, functions, matrices and boundary terms; or a random sequence of solver calls with its solution spline and file; distinct = (structure, rule, call sequence)",
     "differential runtime monitor against a long-double recomputation from the definition, under ASan/UBSan", "Exploration; patches whose Jacobian varies by more than a factor of 50 are left out.", [FLOAT],
     min_events={"patch_dim1": 20, "patch_dim2": 10, "poisson_dim2": 10, "solution_files": 20})
