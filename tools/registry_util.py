from registry import prop

prop("U01", "Interpolation tables reproduce their data and keep shape under every edit",
     """Linear tables pass through their data, are linear between, extrapolate linearly (non-uniform) or stay constant
     (uniform) outside, and their derivatives and inverses belong to them, also after the domain is rescaled. Monotone
     cubic interpolation passes through every data point, is monotone where the data are, is constant outside and follows
     the documented slope rules. Values and all queries depend only on the present data, however it came about through
     adding, scaling, chopping and shrinking of flat parts, or reading a file.""",
     ["inputs", "histories"],
     "all data sets of up to 5 (6) points over 4 levels and 3 spacings, and all edit histories of up to 4 (5) steps",
     "Unit tests sample one monotone data set and never mix edits with evaluation.",
     ["utility/MonotCubicInterpolator.cpp", "utility/MonotCubicInterpolator.hpp", "utility/NonuniformTableLinear.hpp", "utility/UniformTableLinear.hpp",
      "utility/linearInterpolation.hpp", "utility/buildUniformMonotoneTable.hpp"],
     [("slopes and limiter", "utility/MonotCubicInterpolator.cpp"), ("interval search", "utility/linearInterpolation.hpp")],
     ["operator(), derivative, inverse", "isMonotone..., getMaximumF, getMinimumF, getMissingX"],
     "tables",
     "every data set in the bounds evaluated at 8 points per interval and outside, linear, uniform, cubic and resampled; every history of 8 edits on all data of 2-4 points over 3 levels; files with comments, commas, partial lines; tables of up to 300 rows",
     "Which point of a flat stretch survives shrinking is not promised; direction queries on constant data are left open.")

prop("U06", "Derived quantities and reports use each cell's and well's own data",
     """Pore, saturated and average volumes, mobilities, fractional flows, transport sources, injected and produced amounts,
     cell velocities and well sums are the sums over exactly the cells, faces and perforations concerned, each with its own
     saturation, pressure, composition and rate, for every list of cells. Results do not depend on what the output held
     before, and input that does not fit together is refused. Well reports list for each time and well its bottom-hole
     pressure, total rate and water fraction.""",
     ["inputs", "configurations"],
     "all lists of up to 4 (5) cells with 4 saturations each, all source sign patterns, all pairs (triples) of 9 kinds of wells with all rate signs",
     "No unit test calls these functions except on one case for well pressure differences.",
     ["utility/miscUtilities.cpp", "utility/miscUtilitiesBlackoil.cpp"],
     [("incompressible quantities", "utility/miscUtilities.cpp"), ("compressible quantities", "utility/miscUtilitiesBlackoil.cpp")],
     ["computePhaseMobilities, computeFractionalFlow, computeTransportSource, computeInjectedProduced", "WellReport::write"],
     "misc",
     "8 grids, 2 and 3 phases, incompressible and three compressible fluids whose properties depend on cell, pressure and composition; all cell lists up to length 4 (5); 256 source patterns x saturations; wells with 0, 1 or 3 perforations; grids of 36, 63 and 120 cells",
     "Water fraction of a well whose rates cancel exactly is not defined and not compared.")

prop("U02", "Root finding returns a root, or reports truthfully that it found none",
     """Given an interval whose ends (or an end and the starting guess) have values of opposite sign, the root finder stays in
     the interval and returns a point where the function is within tolerance of zero or changes sign, in the number of
     iterations it reports. Otherwise it hands the interval and its end values to the error policy, which continues with the
     better end. Enlarging an interval until it brackets a root ends with values of opposite sign.""",
     ["inputs", "configurations"],
     "all functions over lattices of 2-4 (5) nodes with 7 values, continuous, stepped and cubed, 4 intervals, 5 guesses, 4 tolerances, 4 limits, 3 scales",
     "No unit test covers the root finders, which every implicit transport step relies on.",
     ["utility/RootFinders.hpp"],
     [("regula falsi", "utility/RootFinders.hpp")],
     ["RegulaFalsi::solve (both), the three error policies, bracketZero"],
     "rootfind",
     "all 7^2..7^4 (7^5) node values; all 3^3..3^7 (3^8) patterns for the enlargement")

prop("U04", "Growing tables keep exactly what was put in, through every history of edits",
     """Sparse tables and vectors behave like a vector of vectors and a plain vector under every sequence of appending, assigning,
     swapping, allocating and clearing; equality means equal contents, and sizes or indices that do not fit are refused. Tables
     of sources and boundary conditions return every entry unchanged after any appends and clears. Conditions for a side of a
     grid go to exactly the boundary faces on that side, a flux being shared in proportion to area.""",
     ["histories", "inputs"],
     "all operation sequences up to length 5-6 (6-8) on each container, all row-size patterns of up to 6 (7) rows, all sparse vectors up to size 7 (9), all side/condition histories up to 3 (4) on eight grids",
     "Unit tests run one fixed table, and none for sources and conditions.",
     ["utility/SparseTable.hpp", "utility/SparseVector.hpp", "transport/implicit/transport_source.c", "pressure/tpfa/compr_source.c", "pressure/tpfa/compr_bc.c", "pressure/FlowBCManager.cpp", "pressure/flow_bc.c"],
     [("row starts", "utility/SparseTable.hpp"), ("side faces", "pressure/FlowBCManager.cpp")],
     ["SparseTable, SparseVector, TransportSource, compr_src, compr_bc, FlowBCManager"],
     "containers",
     "10 table operations, 4 operations on each C table with 1-3 phases and 0-3 places reserved, pressure/flux on 2d sides, clear, single conditions; containers of up to 640 entries")

prop("L01", "The direct solver solves every regular system and claims no other as solved",
     """For every matrix in compressed row form that is not singular, whatever the order of the entries in a row and with repeated
     entries added up, the direct solver returns the solution and reports success, leaving the system unchanged; it never reports
     success without a solution that satisfies the equations. Building a matrix structure entry by entry gives exactly those
     entries in sorted rows, which are found again and survive being written to a file; solvers that are not built are refused.
     """,
     ["inputs", "configurations"],
     "all matrices of 1-3 rows over 4-8 values, all patterns with all repetitions and orders, all graphs of up to 5 (6) cells with all well connections; all structures up to 3x3 and a stride of (all) 4x4",
     "Unit tests use no linear solver directly; every pressure and implicit transport solve rests on it.",
     ["linalg/call_umfpack.c", "linalg/sparse_sys.c", "linalg/LinearSolverUmfpack.cpp", "linalg/LinearSolverFactory.cpp"],
     [("transposition", "linalg/call_umfpack.c"), ("structure", "linalg/sparse_sys.c")],
     ["LinearSolverFactory::solve, LinearSolverUmfpack::solve, csrmatrix_*"],
     "linsolve",
     "exact integer elimination as reference; numerically singular systems judged by their residual; structured systems of up to 300 unknowns",
     "Iterative back ends are not built here.")

prop("U05", "Quadrature, bases and velocity interpolation have the exactness they promise",
     """Cell and face quadrature of each supported degree integrates all polynomials of that degree exactly, for every polygon
     and polyhedron, and higher degrees are refused. Basis functions, gradients and averages agree with each other; adding a
     constant or scaling the slope of a function changes exactly that. Interpolated velocities reproduce constants, the
     corner-based method also the flux through every point of every face, and barycentric coordinates are nonnegative, sum to
     one and reproduce position.""",
     ["inputs"],
     "all convex polygons with up to six corners on a 4x4 (5x5) lattice; seven polyhedra (with three- to six-cornered faces) under all 3x3 matrices over three values (strided); eight small grids; all sign patterns of face fluxes",
     "Unit tests check a few cells of Cartesian grids; adding a constant, scaling slopes and averages are only tested with a total-degree basis.",
     ["grid/CellQuadrature.hpp", "grid/FaceQuadrature.hpp", "tof/DGBasis.cpp", "utility/VelocityInterpolation.cpp", "utility/WachspressCoord.cpp"],
     [("cell quadrature", "grid/CellQuadrature.hpp"), ("bases", "tof/DGBasis.cpp"), ("corner velocities", "utility/VelocityInterpolation.cpp"), ("barycentric coordinates", "utility/WachspressCoord.cpp")],
     ["CellQuadrature, FaceQuadrature: integrals of monomials", "DGBasisInterface: eval, evalGrad, addConstant, multiplyGradient, functionAverage", "VelocityInterpolation*::interpolate, WachspressCoord::cartToBary"],
     "quad",
     "degrees 0-2 (quadrature) and 0-1 (bases), evaluated in corners, on edges and faces and inside; exact integrals by an independent subdivision into simplices in extended precision",
     "Cells whose corners have more or fewer faces than dimensions must be refused by the corner-based methods (checked).")

prop("U03", "Parameters mean the same however they are given, and lookups are exact",
     """After any sequence of assignments, given on the command line, in parameter files or nested, merged and included XML files,
     the group holds exactly the last value of every name, and writes it out so that it can be read back. Lookups find a name in
     its group or the groups around it, convert it only if it has that type, apply requirements to values and defaults alike,
     refuse everything else, and record what has been used; lines that assign nothing change nothing, and files that are missing or
    break off anywhere are reported or refused, never half understood.""",
     ["inputs", "configurations", "histories", "crash_points"],
     "all sequences of up to 3 (4) of 12 assignments x eight ways of giving them x all lookups; all sequences of 3 (4) of 16 lookups; all files of 4 (5) of nine kinds of line; XML files cut, garbled or lengthened at every byte",
     "The unit test gives one command line and one XML file.",
     ["utility/parameters/ParameterGroup.cpp", "utility/parameters/ParameterGroup_impl.hpp", "utility/parameters/Parameter.hpp", "utility/parameters/ParameterXML.cpp", "utility/parameters/ParameterRequirement.hpp", "utility/parameters/tinyxml/tinyxmlparser.cpp"],
     [("tree of parameters", "utility/parameters/ParameterGroup.cpp"), ("lookup", "utility/parameters/ParameterGroup_impl.hpp")],
     ["ParameterGroup: get, getDefault, getGroup, has, writeParam, anyUnused, displayUsage"],
     "param",
     "names of one to three parts, with repeated and leading separators; types checked for XML, free otherwise; ten kinds of requirement",
     "Values holding comment marks or assignment signs, and use of a copied group after its original is gone, are not covered.")

prop("U07", "When memory runs out, nothing is lost, broken or left half-made",
     """If any memory request is refused while wells, grids, lists of conditions or sources, matrices, partitions or pressure
     systems are made, extended or copied, the operation either completes with its full result or reports failure in the
     documented way. On failure everything passed in is as before and still usable and destroyable, nothing is leaked, and
     repeating the operation once memory is available gives the same result as if nothing had happened.""",
     ["fault_sequences", "histories"],
     "every single request, and every request with all after it, refused in 600 operations; each followed by giving up, by retrying, and by a retry refused at every request and a further retry",
     "No unit test makes a memory request fail.",
     ["wells/wells.c", "grid/grid.c", "grid/cart_grid.c", "pressure/flow_bc.c", "linalg/sparse_sys.c", "pressure/tpfa/ifs_tpfa.c", "pressure/msmfem/coarse_conn.c", "pressure/msmfem/partition.c"],
     [("well lists", "wells/wells.c"), ("coarse topology", "pressure/msmfem/coarse_conn.c"), ("growing lists", "pressure/flow_bc.c")],
     ["return values, the objects passed in and returned, live blocks and open files"],
     "fault",
     "memory handed out is filled with garbage and resizing always moves",
     "Functions that document no failure answer (corner-point preprocessing, geometry, implicit transport) are not made to fail. Only the C libraries check for missing memory; C++ containers throw.")
