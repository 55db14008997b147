from registry import prop

prop("P01", "The incompressible pressure solver conserves mass and honours every condition",
     """For every grid, permeability, saturation and gravity, each cell's net flux plus sources and well rates is zero (or
     the stated pore-volume change with a compressible rock), fluxes follow Darcy's law between the two cells with the
     cells' mobilities and densities, and boundaries without a condition are closed. Given boundary pressures, boundary
     fluxes, bottom-hole pressures and total rates are met exactly, shut wells have no flow and no effect. The result
     depends only on the present state and controls, not on earlier solves, and a failure to solve the equations in the
     allowed iterations, or at all, is always reported instead of returning results.""",
     ["inputs", "configurations", "histories"],
     "all combinations of side conditions, wells and controls, rock and gravity patterns on small grids, and all short histories of one solver",
     "No unit test solves a pressure equation.",
     ["pressure/IncompTpfa.cpp", "pressure/tpfa/ifs_tpfa.c", "pressure/tpfa/trans_tpfa.c", "pressure/FlowBCManager.cpp",
      "pressure/flow_bc.c", "utility/miscUtilities.cpp", "linalg/LinearSolverUmfpack.cpp"],
     [("assembly and flux reconstruction", "pressure/tpfa/ifs_tpfa.c"), ("transmissibilities", "pressure/tpfa/trans_tpfa.c"), ("boundary sides", "pressure/FlowBCManager.cpp")],
     ["IncompTpfa::solve: pressure, faceflux, bhp, perfRates"],
     "tpfa_incomp",
     "8 grids x 3^(sides) boundary patterns x 11 (16) well patterns x gravity x rock, all histories of 2-3 (4) of 7 changes, rock compressibility x time step x wells x boundary, compared with a dense extended-precision solution; grids of 36, 63 and 120 cells",
     "Single-perforation and two-perforation wells; rate controls are total reservoir rates (the solver refuses others).")

prop("P02", "The compressible pressure solver balances volumes and honours all wells",
     """After a converged solve, in every cell the fluid left by the reported flows of the step fills the pore volume at the
     new pressure, face fluxes are the sum of upwind phase fluxes with gravity, and every open well meets its target, be it
     a pressure, a reservoir rate or a surface rate. Shut wells have no flow, no effect, and do not count as pressure
     conditions. Every matrix entry is the derivative of its residual, a solution whose pressure level is arbitrary is
     reported as such, and so is a failure to solve the equations.""",
     ["inputs", "configurations", "histories"],
     "all combinations of fluid, rock, well controls, gravity, saturation and time step on small grids, and all short histories of one solver",
     "No unit test solves a pressure equation.",
     ["pressure/CompressibleTpfa.cpp", "pressure/tpfa/cfs_tpfa_residual.c", "pressure/tpfa/compr_source.c", "pressure/tpfa/trans_tpfa.c"],
     [("assembly and flux", "pressure/tpfa/cfs_tpfa_residual.c"), ("fluid and rock evaluation", "pressure/CompressibleTpfa.cpp")],
     ["CompressibleTpfa::solve: pressure, faceflux, facepressure, bhp, perfRates, perfPress", "cfs_tpfa_res_assemble: J, F"],
     "tpfa_comp",
     "8 grids x 2 and 3 phases x incompressible, compressible and live fluids x 20 well patterns x rock x gravity x saturation patterns x time steps, two or three steps each; all histories of 2 (4) of 8 changes; the Jacobian against central differences with 0-2 sources; grids of 36, 63 and 120 cells",
     "Injectors drawing fluid from the reservoir are left out: the code has no consistent rule for them.")

prop("P03", "Hybrid mimetic pressure solutions are consistent, conservative and complete",
     """The mimetic inner product of every cell is symmetric, positive definite and reproduces linear pressures exactly, so
     that a linear boundary pressure gives exact pressures and fluxes. Solutions of the hybrid systems, incompressible and
     compressible, satisfy the mixed equations of every cell, face and well with gravity, sources, given pressures and
     fluxes, and given well pressures and rates, including wells that share cells. Sets of boundary conditions keep
     everything appended to them, in order.""",
     ["inputs", "configurations", "histories"],
     "all combinations of side conditions, wells, permeability and gravity on small grids, and all short sequences of operations on condition sets",
     "No unit test uses the mimetic or hybrid code.",
     ["pressure/mimetic/mimetic.c", "pressure/mimetic/hybsys.c", "pressure/mimetic/hybsys_global.c", "pressure/ifsh.c", "pressure/cfsh.c",
      "pressure/fsh.c", "pressure/fsh_common_impl.c", "pressure/legacy_well.c", "pressure/flow_bc.c", "pressure/msmfem/hash_set.c"],
     [("local inner products", "pressure/mimetic/mimetic.c"), ("Schur complements and back substitution", "pressure/mimetic/hybsys.c"), ("well controls", "pressure/ifsh.c")],
     ["fsh_press_flux: cell and well pressures, face and perforation fluxes", "mim_ip_simple_all", "FlowBoundaryConditions arrays"],
     "hybrid",
     "8 grids x 8 permeability patterns; 3^(sides) boundary patterns x 6 (9) well patterns x gravity x permeability, each assembled twice, against dense extended-precision solutions; all sequences of 5 (7) of 5 set operations; grids of 36, 63 and 120 cells",
     "Boundary fluxes of the hybrid solvers count as leaving the grid; callers clear the system before assembling, as all callers of the library do.")

prop("P04", "Coarse partitions and the multi-scale pressure solver are exact on their terms",
     """Partition utilities return what they promise: balanced boxes, gap-free numbering, exact inverses, blocks split into
     their connected parts with old numbers kept, one coarse interface per adjacent pair of blocks with exactly its fine
     faces. The multi-scale pressure solution conserves mass in every fine cell with closed boundaries, its fluxes are the
     best combination of the blocks' flow patterns for the present mobilities, and with one cell per block it is the
     ordinary two-point solution. The result does not depend on what was assembled before.""",
     ["inputs", "configurations", "histories"],
     "all partitions of small grids and graphs, all combinations of permeability, source and mobility patterns",
     "No unit test uses partitions or the multi-scale solver.",
     ["pressure/msmfem/partition.c", "pressure/msmfem/coarse_conn.c", "pressure/msmfem/coarse_sys.c", "pressure/msmfem/ifsh_ms.c",
      "pressure/msmfem/hash_set.c", "pressure/msmfem/dfs.c"],
     [("splitting and inversion", "pressure/msmfem/partition.c"), ("basis functions and coarse inner products", "pressure/msmfem/coarse_sys.c"), ("coarse topology", "pressure/msmfem/coarse_conn.c")],
     ["partition_*: block vectors", "coarse_topology_create: all arrays", "ifsh_ms_press_flux: pressure and fluxes"],
     "msfem",
     "uniform partitions of 1-3 dimensional boxes, all label vectors of 7 (8) cells, all graphs of 4 (5) nodes x 3 labels, all partitions of 8 grids (topology), all partitions into connected blocks x 4 permeabilities x 3 sources x mobility pairs (multi-scale) against a dense extended-precision minimisation; blocks of grids of 36, 63 and 120 cells",
     "At least two blocks, every block connected and sources of a block not cancelling (the solver's preconditions); boundary conditions are not supported by the solver.")

prop("P05", "The explicit-interface compressible pressure solver balances volumes",
     """For any grid, fluid description, boundary conditions, wells, gravity and sources, the pressures the system determines
     make every cell balance the volume its fluids gain by compression with sources and with the volumes carried in by every
     phase over faces and perforations, prescribed pressures and well targets being met. Reported fluxes and face pressures
     follow from these pressures, the explicit update moves exactly the surface volumes those flows carry and loses none, and
     the reported stable step is that of the fastest saturation wave. Earlier steps with the same object leave no trace.""",
     ["inputs", "configurations", "histories"],
     "all combinations of grid, phase count, fluid coupling, boundary condition set, well set, gravity, sources and earlier use of the object",
     "No unit test uses this solver.",
     ["pressure/tpfa/cfs_tpfa.c", "pressure/tpfa/compr_quant.c", "linalg/sparse_sys.c"],
     [("volume-weighted transmissibilities and gravity terms", "pressure/tpfa/cfs_tpfa.c"), ("explicit surface-volume transport and stable step", "pressure/tpfa/cfs_tpfa.c")],
     ["cfs_tpfa_assemble: matrix and right-hand side", "cfs_tpfa_press_flux, cfs_tpfa_fpress, cfs_tpfa_expl_mass_transport, cfs_tpfa_impes_maxtime"],
     "legacy_tpfa",
     "8 grids x 1-3 phases x 3 fluid couplings (identity, dissolution, full) x 8 boundary sets x 8 well sets x gravity x sources x fresh or re-used object (thorough: 3 histories, 3 data sets), against an independent dense extended-precision formulation; grids of 36, 63 and 120 cells",
     "Prescribed total fluxes do not enter this solver's balance (documented in the code as not handled) and are only checked to be reported; the explicit update covers interior faces and perforations. The stable step is compared where the wave speeds are real and not negative.")
