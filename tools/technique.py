_R = "TLA+ specification explored by TLC; every generated behaviour is replayed in the real code and all observations compared"
_N = "Exhaustive within the stated small constants, random beyond; trusts TLC, the driver's translation of operations, and that behaviour outside the bounds follows the same code paths. "
TECH = {
"P01": (_R, "model_checking", _N + "All files up to 6 characters (quick) or 7 (thorough) over 7 characters; random files of realistic words, layouts and sizes."),
"P02": (_R, "model_checking", _N + "One behaviour per transition of the bounded state graph, all histories of 3 (4) operations, random ones of 40."),
"P06": (_R, "model_checking", _N + "All index strings of the bounded grammar up to 4 indices, every transition of the small registry graph, random registries."),
"P07": (_R, "model_checking", _N + "Every transition of bounded variable-list graphs under AddressSanitizer, random histories."),
"P08": (_R, "model_checking", _N + "Every transition of bounded storage graphs (enable/disable/copy/duplicate grids), random histories, AddressSanitizer."),
"P04": (_R, "model_checking", _N + "All histories of three (five) run configurations and user actions between them, with every name form of the parameter file and failing operations at the start."),
"P03": (_R, "model_checking", _N + "Every pair of programs with up to two lists of up to three values, random sequences of four programs with up to three lists of five values; lists of unequal length are not specified."),
"P05": (_R, "model_checking", _N + "Every list of three words over a vocabulary of option forms, every text of five (six) pieces as an argument file; lines shorter than 4000 characters; no word contains a blank followed by two dashes."),
"P09": (_R, "model_checking", _N + "All programs of up to three functions, every single deed (error, change of a limit, new function) at every call of full programs, random programs of several runs."),
"P10": (_R, "model_checking", _N + "Every method with two lists and any options, every two steps over six methods and three lists, random sequences of four steps; data are formal sums with rational coefficients, so every right-hand side is covered up to rounding (1e-12 of the terms)."),
"P11": (_R, "model_checking", _N + "Every interval of a grid of intervals in every dimension, every 3d format, monomials for the reductions, every point lines and planes can go through, random runs of two boxes; Cartesian boxes with Chebyshev points; with 0doutput_normtype other than integral the file rms is not judged; lists without repeated variables."),
"P12": (_R + "; kills, torn writes and failing operations at every step of the specification are injected into the real run", "model_checking", _N + "All histories over small vocabularies of run configurations; faults at the operations named in the specification, counted per operation and iteration."),
"P13": (_R, "model_checking", _N + "Every resume between eight configurations, random histories of six runs with any settings; data compared bit for bit with uninterrupted runs."),
"P14": (_R, "model_checking", _N + "Every transition of bounded list/box list/point list graphs under AddressSanitizer, random histories."),
"P15": (_R, "model_checking", _N + "Every transition of bounded face graphs (add, pair, number, flags, copy) under AddressSanitizer, random histories."),
"P16": (_R, "model_checking", _N + "Every labelling of a small lattice by boxes, random (also overlapping and hanging) and conformal arrangements generated by TLC, and the cubed-sphere grids of the library; the faces the code makes are recorded and each record is judged by TLC. The alternative algorithm (populate_bfaces) is judged only on conformal arrangements."),
"P17": (_R, "model_checking", _N + "Random pairs of boxes and faces with every kind of neighbour, normals, derivative sides and fields of small integers; every outer rule with random lists of points. The sides of a pair and their fields are integer tables, so what is decided is which points are combined, with which weight; accuracy of the interpolation itself is P18/P19."),
"P18": (_R, "model_checking", _N + "All box shapes with up to four (six) points per side and all their lines and planes, random shapes, lines, transform orders, interpolation points and subboxes; matrices of the line operations are integer tables read back from the box, so what is decided is which points are combined, not the accuracy of the transforms."),
"P19": (_R, "model_checking", _N + "Every placement of up to three invalid values in small grids, every value class against every bound, every list of checked variables, random runs."),
"P20": (_R, "model_checking", _N + "All operators on two unknowns over three grid shapes, every builder, subbox and threshold, all matrices of two equations by every solver, random grids, operators and regular systems of up to 54 unknowns, full operators with eight threads; schedules of real threads are sampled, those of the specification are all explored for two threads."),
"P21": (_R + "; runs with the line search are recorded and every trace is checked against the specification", "model_checking", "All runs of at most three iterations with a table of four residuals at three positions, two linear solver outcomes and eight option sets; random longer ones on random grids; line searches on 25 formulas (with wells, jumps, poles and invalid numbers), random starts and steps. The grid state is one number times fixed weights, random (escaping) steps are made with size zero."),
"P22": (_R + "; every application of operator and preconditioner is recorded and each call is checked against the specification", "model_checking", "Every 2x2 operator with entries -1..2, two right-hand sides and starts, five limits and tolerances, operators and preconditioners that yield invalid numbers at every call, the nine solver entry points, and random systems on random grids, regular and singular, scalar and with several variables; over-relaxation is compared exactly with dyadic arithmetic. Within rounding of the tolerance either report is allowed."),
"P23": (_R + "; the evaluations of the real solvers are recorded and every trace is checked against the specification", "model_checking", "Every function given by a sequence of values from a vocabulary of signs and sizes (zero, tiny, not finite) of bounded length, random longer ones and random formulas with poles, jumps and flat parts; trusts TLC and that positions and values printed with 17 digits are exact."),
"P24": (_R, "model_checking", _N + "Every history of three (four) operations on parameter files with a small vocabulary, random histories of six with updates, current parameters and checkpoints of other grids (one to three boxes, three bases, any sizes and places); random assignments of box parameters. Interpolated fields are polynomials both grids resolve, compared within rounding; trusts TLC."),
"P25": (_R, "model_checking", _N + "All matrices of one and two rows and of three rows over small integers, random matrices up to five rows, each with a right-hand side with zeros in any place; determinants and solutions in exact rational arithmetic, compared within rounding."),
"P28": (_R, "model_checking", _N + "Every place near two boxes in a row, random grids of one to four boxes (gaps, overlaps, contacts) and random questions, one or two cubes and spheres of 13 to 38 curved boxes with random sizes; curved boxes with deformed surfaces and other curved coordinates are left out."),
}
NA = {
"P26": "A floating-point accuracy and encode/decode-fidelity statement about smooth functions: an explicit-state specification has no real-number semantics to decide it.",
"P27": "Equality of machine-generated floating-point formulas with continuum equations is not a state-machine property; it needs symbolic algebra, not a TLA+/Quint model.",
}
