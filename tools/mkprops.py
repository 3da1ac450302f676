#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

M = "src/main/main/"; U = "src/utility/"
prop("P01", "A parameter file parses to exactly the assignments it contains",
 "Reading a parameter file sets exactly the parameters assigned in it: each `name = value` binds the name to its value words joined by single blanks, text from `#` to the end of the line is ignored, quote characters count as blanks, and a value goes on over blanks, quotes and line ends until the next assignment. Layout (blank lines, tabs, trailing blanks, a missing final newline) never changes what is read. When a name is assigned twice the last assignment is the one in force.",
 ["inputs"], "every parameter file text",
 "The tests read a few dozen hand-written parameter files in the usual layout; tokenising is a character-level state machine whose corner cases (comment at end of file, quotes, empty values, multi-line values, no final newline) only show for unusual texts.",
 [M+"parameters.c"], [("parse_parameter_file", M+"parameters.c"), ("translate_parameter_line/quote handling", M+"parameters.c")],
 [("pdb1/npdb1", "parameter database", M+"parameters.c")], ["Gets", "GetsLax", "the parameter file copy"])
prop("P02", "Parameter reads return the latest assignment; defaults never override",
 "At any point of any sequence of parameter operations, reading a parameter as text, number, boolean or word-in-list returns what the most recent assignment to it denotes, whatever mixture of set, append, re-read and typed reads came before. Adding a parameter that already has a value only supplies its description and never changes the value; word-in-list tests match whole blank-separated words only. Assigning to one parameter, or enlarging, copying or restoring the database, changes no other parameter.",
 ["histories"], "every sequence of add/set/append/typed read/iterate-words/database-copy operations over any names and values",
 "Typed values are cached beside the text and the store is reallocated as it grows; the tests never interleave typed reads with re-assignments, self-referencing assignments or database copies.",
 [M+"parameters.c"], [("AddPar/AddOrModifyPar/setparameter/Appends/Set*", M+"parameters.c"), ("Get*/GetvFlag/NextEntry", M+"parameters.c"), ("create_copy_of_pdb1_in_pdb2, copy_pdb", M+"parameters.c")],
 [("pdb1[].value/numericalvalue/booleanvalue", "text and cached typed values", M+"parameters.c")], ["Gets","Getd","Geti","Getb","Getv","GetvLax","GetsInd","NextEntry"])
prop("P03", "Parameter scans run once for each position of the listed values",
 "When parameters are given value lists to iterate over, the program runs once per list position: in the k-th run every iterated parameter has the k-th value of its list and all other parameters have the values a single run would give them, and the program ends after the last position. Each run writes to its own output directory, whose name follows from its values, and what an earlier scan left there is kept as backup like for a single run. A program without iterated parameters runs exactly once.",
 ["configurations","inputs"], "every number of iterated parameters and every list length, including length one",
 "No test iterates more than one list; the carry logic between lists and the naming of directories depend on list lengths.",
 [M+"parameters.c", M+"main.c"], [("iterate_parameters", M+"parameters.c"), ("main do-loop", M+"main.c")],
 [("position of each list", "static iterator state", M+"parameters.c")], ["output directories", "values seen in each run"])
prop("P04", "Starting a run never overwrites or mixes into an earlier run's output",
 "Starting a run creates its output directory fresh: whatever an earlier run left there is found complete and unmodified under the backup name, and only a backup older than that is dropped. With --keep_previous the backup directory is never touched and the run writes into the existing directory. A run that could only start by discarding the last checkpoint refuses to start, and one that cannot move the old directory away stops without changing it. The new directory contains only files of the new run, plus, after a resume, all files of the run it resumes. Files outside the two directories are never changed, also not through links.",
 ["histories","crash_points"], "every sequence of runs with any option combination, with output and backup directories present, absent, or left by a killed run",
 "Tests start each run in a fresh directory; rotation depends on the directories, checkpoints and options left by any number of earlier runs.",
 [M+"main.c", M+"utilities.c", U+"checkpoint/checkpoint.c"], [("make_new_outdir, make_output_directory", M+"main.c"), ("remove_dir/system2, system3, copy_file_into_dir", M+"utilities.c")],
 [("outdir, outdir_previous", "directories on disk", "file system")], ["directory trees before and after the run"])
prop("P05", "Command line options act exactly as documented on the parameters of the run",
 "Every option given on the command line or through an argument file takes effect independent of its position relative to the other options, and a parameter modification given as an option overrides the parameter file for exactly the named parameters and leaves all others alone. An argument file or a command string is split at blanks into words, yielding the same run as the same words given directly. The run refuses to start on a missing parameter file or a malformed option rather than running with something else.",
 ["inputs","configurations"], "every list of options and argument words, on the command line or in an argument file",
 "The tests use the program with one fixed command line; option interaction, argument splitting and buffer limits depend on the words given.",
 [M+"main.c", M+"parameters.c", M+"utilities.c"], [("read_command_line, parse_command_line_options", M+"main.c"), ("construct_argv", M+"utilities.c")],
 [("command line option string", "options in effect", M+"main.c")], ["Gets of every parameter", "files and directories made"])
prop("P06", "Variables and tensor components are registered once and found by name",
 "Declaring a variable or tensor registers exactly one variable per independent component of the declared index symmetry, in a fixed order with consecutive indices, and each dependent component refers to the independent one it equals. Indices handed out once stay valid and unique through any later declarations, and every lookup by name or index returns the attributes set when the variable was declared. Symmetry signs of a component under reflection of a coordinate follow from its index string alone.",
 ["histories","inputs"], "every sequence of declarations over all supported symmetry descriptions, and every number of variables",
 "The tests declare the few tensors their physics modules need; index symmetries and registry growth beyond the first block are not exercised exhaustively.",
 [M+"variables.c", M+"tensors.c"], [("AddVar/AddVarModify/IndLax/Ind", "variables.c"), ("tensorindexlist", "tensors.c")],
 [("vdb/nvdb", "variable database", "variables.c")], ["Ind","VarName","VarNComponents","VarComponent","VarNameComponent","VarSymmetry"])
prop("P07", "Variable lists behave as sequences and their arithmetic acts point by point",
 "Building, duplicating, appending, dropping from, splitting and comparing variable lists behaves as the same operation on finite sequences, leaves operands it does not own unchanged, and duplicates share no storage. List arithmetic (copy, add, average, swap, multiply by constants, set to a constant) gives at every point of every active box the documented linear combination of the operands, component by component in list order, also when operands coincide.",
 ["histories","inputs"], "every sequence of list operations and every choice of operands, including aliased operands and empty lists",
 "The tests exercise list arithmetic only through one or two integrators on complete lists; list surgery and aliasing cases are not covered.",
 [M+"variables.c", U+"evolve/"], [("vl* functions", "varlist"), ("varadd, varcopy, ...", "vararith")],
 [("VL->index[]/n", "list contents", "sgrid_MemoryMan.h")], ["list contents", "grid data"])
prop("P08", "Enabling, disabling and copying storage preserves and isolates data",
 "Enabling a variable gives it zero-initialised storage on every active box where it was not enabled before and keeps the data of storage already enabled; disabling releases exactly the named variables. Data of other variables, boxes and grids never change, and stay valid when variables are declared later or storage is enabled in any order. A grid copied to another grid has equal data on its active boxes and equal settings afterwards and shares no data with its source.",
 ["histories"], "every sequence of declare/enable/disable/write/copy operations over variables, boxes and grids",
 "The tests enable storage once at start-up in a fixed order; reference isolation between grids and boxes over arbitrary histories is not sampled.",
 ["src/main/MemoryMan/storage.c", "src/main/MemoryMan/grid.c", M+"variables.c"], [("enablevar/disablevar/enablevarlist", "storage.c"), ("copy_grid, make_grid/alloc", "grid.c")],
 [("box->v[i]", "data pointers per box", "sgrid_MemoryMan.h")], ["box->v[i] and contents"])
prop("P09", "Registered functions run in the documented phase order for every schedule",
 "Functions run exactly once each time their phase is reached, in the order they were registered in that phase, and the phases of a run follow the documented order from parameter setup, through initial data, to a repeated evolution cycle and the final phases. The iteration counter rises by one per cycle, time is always iteration times time step, and the run stops after the requested last iteration or the cycle nearest to the final time. A resumed run goes through the same phases up to the restart iteration, and continues counting from the checkpoint's iteration. An error in any function ends the run at once with failure status, and no later function or phase runs.",
 ["configurations","histories"], "every set of registered functions, every iteration count, final time, time step and restart point",
 "Tests check final numbers of a few runs; order and number of calls for other end conditions and restarts are never observed.",
 [M+"main.c", M+"skeleton.c", U+"checkpoint/checkpoint.c"], [("AddFun/RunFun", M+"skeleton.c"), ("main/initialize_grid/evolve_grid/finalize_grid", M+"main.c")],
 [("grid->iteration/grid->time", "progress of the run", "grid")], ["calls of registered functions in order"])
prop("P10", "Every time integrator performs exactly its scheme for any right-hand side",
 "One step of each selectable time integrator advances the evolved variables by exactly the linear combination of old values and right-hand side evaluations that its scheme defines, evaluating the right-hand side once per stage on the scheme's stage values. It leaves every variable outside its own lists unchanged and keeps the previous time level. Switching method or variable lists between steps never lets a step use storage or coefficients of another method.",
 ["configurations","inputs","histories"], "every method, every right-hand side function, every set of evolved variables and every sequence of steps",
 "Convergence tests accept any scheme of the right order and run only one or two methods; they cannot show exact stage structure.",
 [U+"evolve/evolve.c", U+"evolve/rk.c", U+"evolve/icn.c"], [("evolve, evolve_rk_generic, evolve_icn, evolve_euler", U+"evolve/")],
 [("u_c,u_p,u_q,u_k", "evolution variable lists", U+"evolve/")], ["order and arguments of right-hand side calls", "data after the step"])
prop("P11", "Output appears at exactly the scheduled iterations with the right content",
 "A variable is output in a given dimension exactly at the iterations selected by that output's interval in steps or in time, for every requested box, and at no others. Each output record carries the time it was written at and one entry per selected grid point, in grid order, holding the variable's value there; files are appended to, never truncated, within one run. Reduced outputs (minimum, maximum, norms, ...) agree with the data of all points they cover.",
 ["configurations","inputs"], "every interval setting, variable selection, box selection and grid shape",
 "The tests compare a few columns of a few files from one setting; schedule arithmetic and selection logic over other settings are not exercised.",
 [U+"output/output.c", U+"output/output0d.c", U+"output/xgraph_out1d.c", U+"output/gnuplot_out2d.c", U+"output/output3d.c", U+"output/VTK_out.c", U+"output/dump3d.c", U+"output/quick_out.c"], [("timeforoutput_*", U+"output/output.c"), ("write_grid, output writers", U+"output/")],
 [("output files", "files in the output directory", "file system")], ["files in the output directory"])
prop("P12", "A crash or write error never destroys the last complete checkpoint",
 "Whatever instant a run is killed at, and whatever file operation fails in the course of starting, resuming or writing a checkpoint, a complete checkpoint of the latest iteration that was ever completely written remains in the output directory or its backup once the first has been completed, and a restart from it succeeds. A partly written checkpoint never appears under the name a restart uses. A failed write stops the run with failure status and does not replace an older good checkpoint.",
 ["crash_points","fault_sequences"], "every instant of termination and every failing system call during any checkpoint write, over any number of checkpoints",
 "The tests only restart from completed checkpoints of runs that ended normally; no fault is injected anywhere.",
 [U+"checkpoint/checkpoint.c", U+"checkpoint/checkpoint_write.c", U+"checkpoint/checkpoint_read.c", M+"main.c", M+"utilities.c"], [("checkpoint_write/checkpoint_save: write to _new, then rename", U+"checkpoint/checkpoint.c")],
 [("checkpoint file set", "current, previous and new files", "file system")], ["directory contents after a kill", "restarted run"])
prop("P13", "A run resumed from a checkpoint continues as if never interrupted",
 "Resuming from a checkpoint restores iteration, time, time step and all saved variables and parameters bit for bit on every box, and the continued run has the same data after every step as one uninterrupted run. Parameters named in the list of those not to be read keep the values of the new run, all others get the saved ones. Checkpoints appear exactly at the iterations selected by the checkpoint interval, and a checkpoint that is incomplete or belongs to another grid is refused.",
 ["histories","configurations"], "every interruption point, checkpoint interval, set of saved variables, grid shape and parameter modification",
 "The tests resume one run at one point; equivalence must hold for all split points and settings.",
 [U+"checkpoint/checkpoint.c", U+"checkpoint/checkpoint_read.c", U+"checkpoint/checkpoint_write.c", U+"checkpoint/parameterio.c", M+"endianIO.c", M+"main.c"], [("checkpoint_read/write, checkpoint_varlist", U+"checkpoint/checkpoint.c")],
 [("checkpoint contents", "parameters and variables in the file", "file system")], ["data at end of the run", "checkpoint files"])
prop("P14", "Lists of grid points and integers stay duplicate-free and complete",
 "Adding points or numbers to lists, removing them, merging and duplicating lists behaves as the operation on the mathematical sequences or sets they stand for, per box, for any order and number of operations. A list's box and point counts always agree with its contents, looping over a list visits each stored point exactly once in order, and copies are independent of their originals.",
 ["histories"], "every sequence of list operations over any boxes, points and list lengths",
 "These lists have no tests of their own; growth, removal and emptied lists are reached only by chance in the physics runs.",
 ["src/main/MemoryMan/points.c", "src/main/MemoryMan/lists.c", "src/main/MemoryMan/list_templates.c", "src/main/MemoryMan/boxlists.c"], [("PointList, intList operations", "src/main/MemoryMan/")],
 [("PL->point/npoints/blist", "list contents", "sgrid_MemoryMan.h")], ["list contents"])
prop("P15", "Boundary-face lists stay consistent under any sequence of changes",
 "Through any sequence of adding, pairing, numbering, flagging and copying boundary faces of boxes, each face keeps its own points and its position number, the faces of a box are found by their properties, and once faces are numbered the cross references of paired faces refer to each other. No operation on one face changes another face's points.",
 ["histories"], "every sequence of face operations on any number of boxes",
 "Face lists are built once per test run by fixed grid set-ups; removal and renumbering orders are not sampled.",
 ["src/main/MemoryMan/points.c", "src/main/MemoryMan/boxlists.c", U+"Coordinates/Coordinates_set_bfaces.c"], [("add/remove bface, set ofi", "bface functions")],
 [("box->bface[]/nbfaces", "faces of a box", "sgrid_MemoryMan.h")], ["face lists"])
prop("P16", "Adjacent boxes' faces are paired completely, reciprocally and in matching order",
 "After the boundary faces of a multi-box grid have been set up, every point of every box face that touches other boxes or the outer boundary belongs to a face entry, and faces that touch exactly one neighbour are paired with a face of that neighbour that points back. Where two paired faces carry coinciding points, corresponding list entries are the same physical point. A face not touched by any box is marked as outer boundary. Of two paired faces that touch exactly one imposes the value and the other the normal derivative.",
 ["configurations"], "every arrangement of boxes with shared faces, all orientations, resolutions and periodicities",
 "The tests use three or four fixed multi-box geometries.",
 [U+"Coordinates/Coordinates_set_bfaces.c", U+"Coordinates/populate_bfaces_AR.c"], [("Coordinates_set_bfaces, set_bits_in_all_bfaces, set_ofi_in_all_bfaces", U+"Coordinates/Coordinates_set_bfaces.c")],
 [("box->bface[]", "faces and their pairing", "bface")], ["face lists of all boxes"])
prop("P17", "Box-boundary conditions couple exactly the matching points of neighbours",
 "The conditions imposed between two boxes equate, at each face point, the field (or its normal derivative) with the neighbour's value at the same physical point, using data of no other face, and touch no interior point. The condition is linear in the field. On outer boundaries and faces with no neighbour the given boundary rule alone applies; the outer rules (radiative, constant, excision, von Neumann, given value or normal derivative) act only on the points of their own lists. A face whose kind cannot be imposed ends the run with an error instead of being skipped.",
 ["configurations","inputs"], "every pairing of faces, every field and every combination of face kinds",
 "Elliptic tests check only the converged solution of fixed geometries; a wrong coupling on a face kind they lack is invisible.",
 [U+"boundary/BCs.c", U+"boundary/BCs_from_bfaces.c", U+"boundary/boundary.c"], [("set_interbox_and_outer_BCs and face condition routines", U+"boundary/")],
 [("FPsi on face points", "boundary equations", "grid data")], ["values on all points after imposing conditions"])
prop("P18", "Index maps and line operations address exactly the intended grid points",
 "Conversion between a point's running index and its grid indices is a bijection on every box shape, and plane, line and loop traversals visit exactly the points they name, once each. Copying a line out of and back into a field, and any derivative or coefficient transform along one direction, acts on each grid line separately: values on a line depend only on values on that line. On boxes that cover space twice, the partner-point map is an involution that matches points at the same physical location.",
 ["inputs","configurations"], "every box shape and direction",
 "Tests use even, near-cubic shapes and smooth data, for which mixing up lines or strides often goes unnoticed.",
 [U+"Spectral/", U+"Coordinates/doubleCovering.c", M+"sgrid.h"], [("Index macro, get_memline/put_memline, forall* loops", U+"Spectral/")],
 [("n1,n2,n3", "box shape", "box")], ["index values", "data after line operations"])
prop("P19", "Non-finite numbers are detected in every variable, box and point",
 "At every scheduled check the number checker counts exactly the values of the checked variables, over all points of all boxes, that are not numbers or are larger than the given bound, and names each variable, box and point that has one. When told to exit on invalid numbers, a run says so and makes no further evolution step after the first check that sees one; otherwise it goes on.",
 ["inputs","histories"], "every placement of NaN and infinities among variables, boxes and points and every check interval",
 "The tests never contain invalid numbers.",
 [U+"NumberChecker/"], [("NumberChecker_* functions", U+"NumberChecker/")],
 [("grid data", "checked values", "grid")], ["return values", "messages", "exit status"])
prop("P20", "Sparse matrices represent exactly the linear operator they are built from",
 "Building a sparse matrix from a linear operator on a grid stores exactly its entries above the given threshold, each once, in the documented order of unknowns, for all unknowns or for one variable in one box or subbox, whatever number of threads builds it and by whichever of the builders, and changes no other variable. Adding to and reading entries of a sparse vector behave as on a finite map; products of a matrix, its transpose and a vector equal those of the operator. Converting to the formats of the solver packages and writing to a file yields the same matrix, and solving with any of the packages returns the solution in the right variables, or reports that the matrix is singular.",
 ["inputs","schedules"], "every linear operator on small grids, every order of entry insertion, every thread count",
 "Elliptic tests use one operator and tolerate wrong entries that the iteration corrects.",
 [U+"LinAlg/", U+"GridIterators/"], [("SetMatrixLines_slowly/SetMatrixColumns_*, SparseVector_utils", U+"LinAlg/")],
 [("SparseVector entries", "matrix lines or columns", U+"LinAlg/")], ["matrix entries", "products"])
prop("P21", "The Newton solver reports success only when the residual meets the tolerance",
 "The Newton solver returns a status that says truthfully whether the residual norm of the final state is within the tolerance, and makes at most the allowed number of iterations. Each iteration solves the linearised equations for the current residual and updates the unknowns by the damped correction: in full, or with backtracking, where the full step does not reduce the residual (or the optimal step is asked for), by the step with the smallest residual of all it tried, so that it never accepts a step that increases the residual where a reducing step was found. Another linear solver from the list is tried only where the step failed, and also solves for the residual of the present state. Without convergence the outcome is reported as such.",
 ["inputs","fault_sequences"], "every residual sequence, every linear solver outcome, all tolerances and iteration limits",
 "Tests only run convergent problems where all status paths agree.",
 [U+"GridIterators/Newton.c", U+"numerics/minbrent_brak.c"], [("Newton, do_partial_Newton_step, do_Newton_step, min_brak", U+"GridIterators/")],
 [("res, inewton", "residual and iteration count", U+"GridIterators/")], ["return status", "calls of the supplied functions"])
prop("P22", "Linear solvers report non-convergence and leave no temporaries behind",
 "An iterative linear solver reports success only when the residual norm it returns, which is that of the returned solution, is within the tolerance, reports failure (a negative status, or one greater than the iteration limit) when the iteration limit is exhausted or it breaks down, and never exceeds the iteration limit. On every way out it has released all temporary storage it enabled and has changed no variable other than the solution and its documented work variables.",
 ["inputs","fault_sequences"], "every operator, right-hand side, tolerance and iteration limit, including singular operators",
 "Tests only run convergent, well-posed problems.",
 [U+"GridIterators/bicgstab.c", U+"GridIterators/utility.c", U+"GridIterators/"], [("bicgstab, SOR_Iterator, WTiterator", U+"GridIterators/")],
 [("storage of work variables", "enabled or not", "grid")], ["return status", "enabled variables"])
prop("P23", "Bracketing root finders and minimisers never leave the bracket",
 "For every function with a sign change over the given interval, the bracketing root finders evaluate only inside the interval, report success only at a zero, or at a point where the sign change has been enclosed within the requested accuracy (for Newton's method: where the last step was below it), and otherwise report failure: for an interval without sign change, for a value that is not finite, or when the allowed iterations are used up, which they never exceed. Bracketing only enlarges the interval and reports success only for an interval whose ends have values of opposite sign. The bracketing minimiser evaluates only inside the bracket and returns the best point and value of all it evaluated.",
 ["inputs"], "every function on the interval, including discontinuous and exactly-zero-valued ones, and all accuracies and limits",
 "Only smooth sample functions are tried.",
 [U+"numerics/rt_brak.c", U+"numerics/rtbrent_brak.c", U+"numerics/newton1d_brak.c", U+"numerics/minbrent_brak.c"], [("zbrac_*, rtbrent_brak, rtbisect, newton1d_brak, minbrent_brak", U+"numerics/")],
 [("bracket ends", "interval under search", U+"numerics/")], ["evaluation points", "result and status"])
prop("P24", "Parameter utilities change only what they are asked to",
 "A file of parameter updates gives each parameter it names the value it gives (the last one if named twice) and changes no other; unknown names, blank lines and comments change nothing, the file is used once and then renamed, and without a file nothing happens. The file of current parameters holds every parameter once, and used as an update it restores them all. Taking variables and parameters from a checkpoint of another grid gives exactly the listed parameters (except those told to keep their value) and the places of the boxes, and for the listed variables the fields of the checkpoint at the points of the present grid; sizes and bases of boxes, time, iteration, all other parameters and variables and the checkpoint itself stay as they are; a checkpoint with another number of boxes ends the run. A box parameter that refers to a common one gets its value, no other does, and a scaled time step fits every box and divides the required time; an unknown scaling ends the run.",
 ["histories","inputs","configurations"], "every history of updates and readings, every checkpoint and selection, every assignment of box parameters",
 "The utilities have no tests.",
 [U+"ParManipulator/", U+"checkpoint/parameterio.c", U+"checkpoint/read_other_checkpoints.c", U+"checkpoint/wolfio.c"], [("reading of other checkpoints", U+"checkpoint/read_other_checkpoints.c"), ("parameter file in/out", U+"checkpoint/parameterio.c"), ("ParManipulator_setPars", U+"ParManipulator/")], [("parameter data base", "parameters", "data base"), ("parameter and checkpoint files", "contents", "file system"), ("fields", "values on all points", "grid data")], ["parameters, files and fields after each operation"])
prop("P25", "LU decomposition with pivoting solves every non-singular system exactly",
 "For every square matrix, the LU decomposition reports a zero column or zero row by its number and then leaves the matrix unchanged, and otherwise yields unit-lower and upper factors, a row order in which each pivot is the largest of its column relative to the size of its row, and the parity of that order, such that the product of the factors is the reordered matrix and the determinant is right. Back substitution then returns the solution of every non-singular system for every right-hand side, including zero leading entries. The interfaces that count from one agree with it.",
 ["inputs"], "every small matrix, including those needing row exchanges",
 "Only one well-conditioned matrix order is reached by the tests.",
 [U+"numerics/lu.c"], [("lu_decomp, lu_solve", U+"numerics/")], [], ["solution vectors", "status"])
prop("P26", "Spectral differentiation and interpolation are accurate to their order",
 "For every smooth field, spectral derivatives, interpolation and filters on each supported basis converge to the exact result as the resolution is raised, up to rounding. Round trips between point values and coefficients reproduce the data.",
 ["inputs"], "every smooth function, basis and resolution",
 "Sampled functions only; but this is a floating-point accuracy statement.",
 [U+"Spectral/", U+"s2kit/"], [("Chebyshev/Fourier/spherical-harmonic transforms", U+"Spectral/")], [], ["derivatives", "coefficients"])
prop("P27", "The evolved and elliptic equations are the intended physical equations",
 "The generated right-hand sides of the physics modules equal the documented continuum equations for every field configuration. Constraint-satisfying data stay so to truncation error.",
 ["inputs"], "every field configuration", "Tests sample special solutions.",
 ["src/physics/"], [("Mathematica-generated C files", "src/physics/")], [], ["right-hand sides"])
prop("P28", "A place in space is found in exactly the box and grid point it belongs to",
 "Looking up a place finds the first of the boxes searched that contains it, whatever guess is given, and coordinates in that box (ends included) that denote this place; a place in none of them, one that is not a number, or the centre of curved boxes that have no coordinates for it, is not found in them. The grid point nearest to a place, among all boxes, the listed ones, one box, its inner points or one plane, is returned with its distance and coordinates. A place is on exactly the faces it coincides with, and is moved off them a little inwards, along these directions only. The cubes and spheres filled with curved boxes cover their volume once, each box the part documented for it.",
 ["inputs", "configurations"], "every arrangement of boxes and every place, also on faces, edges and centres",
 "The tests look up a few places through interpolation on fixed grids only.",
 [U+"Coordinates/findXYZ_of_xyz.c", U+"Coordinates/coordtrans_CubedSphere.c", U+"Coordinates/setup_CubedSpheres.c"], [("b_XYZ_of_xyz*, nearest*XYZ_of_xyz*, XYZ_on_face, moveXYZ_off_face", U+"Coordinates/findXYZ_of_xyz.c"), ("lamAB_of_xyz_CubSph, arrange_* of cubed spheres", U+"Coordinates/")], [], ["box index, coordinates, point index, distance"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
