from registry import prop

prop("T01", "Cells are reordered so that every upstream cell comes first",
     """For every flux field, the reordering lists every cell exactly once, grouped into exactly the sets of cells that
     circulate among themselves, and every cell comes after all cells it receives fluid from unless they circulate together.
     The reported upstream neighbours are those with flux into the cell, and the solvers visit each group once in that order.""",
     ["inputs", "schedules"],
     "all directed graphs of up to 5 cells, multigraphs of up to 5 (7), and all 3^n flux sign patterns on eight grids",
     "The unit test runs one graph of five cells.",
     ["transport/reorder/tarjan.c", "transport/reorder/reordersequence.cpp", "transport/reorder/ReorderSolverInterface.cpp"],
     [("strong components", "transport/reorder/tarjan.c"), ("upwind graph", "transport/reorder/reordersequence.cpp")],
     ["tarjan, compute_sequence, compute_sequence_graph", "solveSingleCell / solveMultiCell calls"],
     "reorder",
     "all 2^(n*n) digraphs n<=4 with loops, 2^20 (2^25) on 5 vertices, edges in both orders, edge lists with repetition; all sign patterns of up to 9 interior faces x 3 (8) boundary patterns; grids and graphs of up to 120 nodes")

prop("T02", "Two-phase transport conserves water in every cell and keeps saturations in range",
     """After each transport step of the incompressible reordering solver, in every cell the change of water equals inflow
     minus outflow, with the fractional flow of the upstream cell at the end of the step, injected water counted in full and
     production at the cell's own composition; saturations stay within bounds and sum to one. Injected minus produced water
     equals the change in place. The result does not depend on what the solver was used for before.""",
     ["inputs", "histories"],
     "all 3^n flux sign patterns on eight small grids x source arrangements x four relative permeability families x time steps x initial saturations",
     "No unit test runs a transport solver.",
     ["transport/reorder/TransportSolverTwophaseReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp", "transport/reorder/reordersequence.cpp", "transport/reorder/tarjan.c", "utility/RootFinders.hpp", "utility/miscUtilities.cpp"],
     [("cell residual and sweeps", "transport/reorder/TransportSolverTwophaseReorder.cpp")],
     ["TransportSolverTwophaseReorder::solve: saturation"],
     "tr_adv",
     "every sign pattern of up to 7 (9) interior faces; sources or boundary fluxes or pore-volume change closing the balance; 3^n initial saturations (strided where n > 4); histories of 2-3 (4) of 5 flux fields; grids of 36, 63 and 120 cells with flux patterns",
     "Circulating groups may fail to converge (reported) for time steps over five times the circulation time; injected fluid is pure water.")

prop("T03", "Gravity segregation exchanges equal volumes between neighbours in a column",
     """Gravity segregation moves water towards its side and the same volume of oil back across each face of a column, by the
     upstream mobilities at the end of the step, and nothing else changes: each cell balances, each column keeps its water, and
     saturations stay within bounds. This holds for either direction of gravity, density order and face orientation, in all
     column solvers; a step without flow changes nothing, and stopping short of the tolerance is reported.""",
     ["inputs", "configurations"],
     "all 3^n initial distributions on seven column grids x gravity directions x density orders x relative permeability families x time steps",
     "No unit test runs gravity segregation.",
     ["transport/reorder/TransportSolverTwophaseReorder.cpp", "transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "transport/implicit/GravityColumnSolver_impl.hpp",
      "transport/implicit/SinglePointUpwindTwoPhase.hpp", "transport/implicit/SimpleFluid2pWrappingProps_impl.hpp", "grid/ColumnExtract.hpp", "pressure/tpfa/trans_tpfa.c"],
     [("column sweeps", "transport/reorder/TransportSolverTwophaseReorder.cpp"), ("column Newton", "transport/implicit/GravityColumnSolver_impl.hpp")],
     ["solveGravity, GravityColumnSolver::solve: saturation"],
     "tr_grav",
     "columns of 1-5 cells with a fault, a gap, skew pillars, reversed faces; three saturation levels per cell; time steps from 1/50 to 5 (100); a column of 25 cells",
     "Newton on columns is required to converge for short steps only; sweeps where at most three pore volumes could move.")

prop("T04", "Compressible transport conserves surface volumes of water",
     """After each transport step with compressible fluids and rock, in every cell the surface volume of water equals what was
     there plus inflow at upstream conditions minus outflow at the cell's own conditions, for the new pore volume and pressure;
     a cell offered more water than it can hold is left full. Saturations stay within zero and one, surface volumes match
     saturations, and the result does not depend on what the solver was used for before.""",
     ["inputs", "histories"],
     "all 3^n flux sign patterns on eight small grids x sources x pressure and pore-volume changes x relative permeability families x time steps x initial saturations",
     "No unit test runs a transport solver.",
     ["transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp", "transport/reorder/reordersequence.cpp", "utility/RootFinders.hpp", "utility/miscUtilitiesBlackoil.cpp"],
     [("cell residual and sweeps", "transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp")],
     ["TransportSolverCompressibleTwophaseReorder::solve: saturation, surfacevol"],
     "tr_comp",
     "every sign pattern of up to 7 (9) interior faces; constant and compressible fluids; four pressure-change patterns; three source arrangements; initial saturations strided; histories of 2-3 (4) of 5 flux fields; grids of 36, 63 and 120 cells",
     "Circulating groups may fail to converge (reported) for time steps over five times the circulation time; injected fluid is pure water.")

prop("T05", "Implicit transport balances water whenever it reports convergence",
     """For every total flux, gravity and capillary drive the water flux across a face uses each phase's own upstream mobility,
     is the same seen from both cells, and comes with its exact derivatives. Whenever the Newton solver reports convergence,
     every cell's change of water equals inflow minus outflow within tolerance; saturations are always within bounds, short
     steps from the old solution converge, and the result does not depend on what the solver was used for before.""",
     ["inputs", "histories"],
     "all 3^n flux sign patterns on nine small grids x gravity x capillary pressure x relative permeability families x time steps; face fluxes on a lattice of 9 flows x 36 saturation pairs",
     "No unit test runs a transport solver.",
     ["transport/implicit/SinglePointUpwindTwoPhase.hpp", "transport/implicit/ImplicitTransport.hpp", "transport/implicit/ImplicitAssembly.hpp", "transport/implicit/CSRMatrixBlockAssembler.hpp",
      "transport/implicit/CSRMatrixUmfpackSolver.hpp", "transport/implicit/JacobianSystem.hpp", "transport/implicit/NormSupport.hpp", "transport/implicit/SimpleFluid2pWrappingProps_impl.hpp",
      "transport/implicit/TransportSolverTwophaseImplicit.cpp", "transport/implicit/transport_source.c", "linalg/call_umfpack.c"],
     [("face flux and derivative", "transport/implicit/SinglePointUpwindTwoPhase.hpp"), ("Newton with line search", "transport/implicit/ImplicitTransport.hpp")],
     ["SinglePointUpwindTwoPhase::fluxConnection, sourceTerms, accumulation", "TransportSolverTwophaseImplicit::solve: saturation and report"],
     "tr_impl",
     "sign patterns of up to 7 (9) interior faces, initial saturations strided, three gravity settings, four capillary pressures, both starting guesses, two cells sharing two faces; histories of 2 (4) of 5 flux fields; grids of 36, 63 and 120 cells",
     "Derivatives are compared where the flux is smooth; non-convergence, when reported, is allowed except for short steps.")

prop("T07", "The small explicit and implicit solvers move water in balance, each phase upwind",
     """One explicit step changes each cell by exactly the sources and the water crossing its faces, each phase taking its mobility
     from the cell it flows out of, for every combination of viscous and gravity flux. The implicit step solves the same
     equations with all quantities at the new time, its matrix being their derivative. Saturations stay in [0,1], and a small
     reported residual means every cell balances.""",
     ["inputs"],
     "all sign patterns of viscous flux times all (a stride) of gravity flux on eight small grids, saturations strided, two mobility curves, two step lengths",
     "No unit test covers these solvers.",
     ["transport/minimal/spu_explicit.c", "transport/minimal/spu_implicit.c"],
     [("upwind choice", "transport/minimal/spu_implicit.c"), ("explicit step", "transport/minimal/spu_explicit.c")],
     ["spu_explicit, spu_implicit, spu_implicit_assemble"],
     "tr_minimal",
     "zero, positive and negative flux on each interior face for both drives",
     "Capillary pressure and boundary flow do not exist in these solvers.")

prop("T06", "Time of flight and tracers follow the flow exactly, whatever order solves them",
     """For any flow field without loops, a cell's time of flight balances its pore volume and what flows in against what flows
     out, inflow having age zero, and is finite wherever something flows out. Each source has its own tracer: one in its cell,
     mixed downstream in proportion to flux, zero where nothing flows. With multidimensional upwinding the same balance holds
     with face values mixed from the cell and its inflow faces, idle faces not mattering; a reused solver keeps nothing of
     earlier fields.""".replace("With multidimensional upwinding the same balance holds\n     with face values mixed from the cell and its inflow faces, idle faces not mattering; a reused solver keeps nothing of\n     earlier fields.", "Multidimensional upwinding keeps the balance with\n     face values mixed from the cell and its inflow faces, and a reused solver keeps nothing of earlier fields."),
     ["inputs", "histories"],
     "all 3^n sign patterns on eight small grids x four boundary inflow/outflow settings x three pore volume fields; all histories of 2-3 (4) of five fields",
     "No unit test runs the time-of-flight solver.",
     ["tof/TofReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp", "transport/reorder/reordersequence.cpp"],
     [("cell balance", "tof/TofReorder.cpp"), ("order of cells", "transport/reorder/reordersequence.cpp")],
     ["TofReorder::solveTof, solveTofTracer"],
     "tof",
     "direct evaluation in flow order in extended precision; grids of 36, 63 and 120 cells",
     "Cells in a loop or downstream of one are only swept once by design and are not compared; sources must sum to zero.")

prop("T08", "Discontinuous Galerkin time of flight solves the transport of age cell by cell",
     """For any flow field without loops the first- and second-order solutions satisfy the discrete balance of age tested with
     every basis function in every cell, inflow having age zero; in uniform flow along an axis the second-order solution is
     exact. The limiter keeps a cell's values at or above the lowest age flowing in without changing its average, except to
     raise it to that age, in each way of applying it. Unsolvable cells and unknown options are reported.""",
     ["inputs", "configurations", "histories"],
     "all 3^n flux sign patterns on eight small grids x four boundary settings x pore volumes x two bases x two degrees x two velocity interpolations x seven limiter settings (rotated in the quick tier); all histories of two (three) of five fields",
     "No unit test runs this solver.",
     ["tof/TofDiscGalReorder.cpp", "tof/DGBasis.cpp", "grid/CellQuadrature.hpp", "grid/FaceQuadrature.hpp", "utility/VelocityInterpolation.cpp", "transport/reorder/ReorderSolverInterface.cpp"],
     [("cell system", "tof/TofDiscGalReorder.cpp"), ("limiter", "tof/TofDiscGalReorder.cpp")],
     ["TofDiscGalReorder::solveTof: coefficients evaluated in the corners"],
     "dg",
     "independent assembly of the weak form in extended precision with the quadrature points and velocities of U05, dense solution, limiter by definition; balance with face centroids; linear exact solutions on up to 4x3x2 boxes; grids of 36, 63 and 120 cells",
     "Cells in or downstream of loops, and cells whose small system is ill conditioned, are not compared; cells without inflow above the threshold are not limited by design.")
