"""Per property: the reference and what is left out (prose of DESIGN.md)."""
NOTES = {
"G01": "Reference: closed formulas for topology, tags, centroids, areas and volumes of tensor-product and layered grids.",
"G02": "Reference: divergence theorem over an independent triangulation. 2D polygons with more than three corners use the mean of their corners as centroid (documented), so only that is compared.",
"G03": "Reference: cells as stacks of pillar intervals; contact of two cells on a fault is the exact polygon intersection of two (possibly twisted) quadrilaterals evaluated along the pillars; all pairs of cells are compared, so missing and spurious connections both show.",
"G04": "Reference: the grid that was written, resp. the deck's description. Every truncation point and every replaced token of a file is tried (crash points of a writer).",
"G05": "Reference: columns recomputed from (I,J,K) and active flags.",
"E01": "Reference: a writer-side tokenizer: expected numbers are known before the text is made. Rejection is required for everything outside the grammar.",
"E02": "Reference: independent conversion constants per dimension, applied to every item of every keyword in METRIC, FIELD and LAB.",
"E03": "Reference: a plain list of epochs and steps built alongside the deck.",
"E04": "Reference: per keyword a list of items with their Eclipse defaults.",
"W01": "Reference: vectors of wells, perforations and controls. Histories of create/add/append/set/clear/clone/destroy.",
"W02": "Reference: completions and controls recomputed from the deck description, well indices by Peaceman's formula. Not covered: skin factors, connection open/shut flags, empty layer ranges, type of wells without controls.",
"W03": "Reference: guide-rate split and limit checks written from the Eclipse manual's rules. Not covered: controlled groups nested below controlled groups at start-up, injection targets of groups without group-controlled injectors, SHUT injectors awaiting reinjection. Shut wells keep a share of group targets (as implemented).",
"P01": "Reference: dense `long double` solution of the two-point balance, with boundary conditions, wells, gravity and rock compressibility. The solver's quasi-Newton treatment of the rock derivative is by design.",
"P02": "Reference: residual of volume balance, well equations and reported flows recomputed from the returned pressures. Excluded: injectors drawing reservoir fluid, horizontal gravity components, non-convergence with gravity (upwind cycling); IMPES time-step code is disabled in the source.",
"P03": "Reference: dense solution of the mixed hybrid equations. Hybrid boundary flux is positive when leaving; callers zero the matrix and right-hand side.",
"P04": "Reference: brute-force connectivity for partitions and topology; dense solution of each basis function's local problem and of the coarse system; reconstructed fine fluxes must balance. Limits: at least two blocks, each connected and next to another (otherwise the method divides by zero by construction), sources of a block must not cancel, no boundary conditions. `partition_allocate_inverse` answers 0 where the comment says -1.",
"F01": "Reference: direct interpolation in the tables; derivatives by difference quotients between kinks. Live-gas tables with undersaturated data at only some pressures jump at their nodes (sampled beside them); extrapolation to B below 2e-3 skipped.",
"F02": "Reference: direct table lookup and published three-phase formulas. Derivatives compared only for changes that keep the sum of saturations and away from kinks; contradictory three-point end points and the segregation corner excluded; capillary pressure is not claimed to be scaled; depth tables are not tried outside their interval.",
"F03": "Reference: per-cell values by global index. ROCK's compressibility is the constant by design; PERMXZ/PERMYX/PERMZY are unknown to the reader.",
"U01": "Reference: plain sorted data sets and direct evaluation after each edit.",
"U02": "Reference: the bracket and the recorded evaluations of the function. Speed of convergence is judged only where double rounding permits the tolerance.",
"U03": "Reference: a plain tree of names. Values holding comment marks or assignment signs, copied groups outliving the original, trailing garbage after numbers and file-typed absolute paths are not claimed.",
"U04": "Reference: vectors of vectors. Pressure sides without faces are skipped.",
"U05": "Reference: exact integrals over simplices in extended precision; definitions of the interpolants. One recorded finding (`constant-divided`).",
"U06": "Reference: explicit sums. Water fraction of wells whose rates cancel is undefined.",
"U07": "Reference: the same operation undisturbed. `malloc`, `calloc`, `realloc`, `free`, `fopen`, `fclose` are interposed by the linker; SuiteSparse's allocator functions are routed through them as well; memory is filled with garbage and `realloc` always moves. Excluded because they document no failure answer: corner-point preprocessing, geometry and mimetic void functions, `spu_implicit`.",
"L01": "Reference: exact integer elimination. Iterative back ends are not built; iteration counts are not claimed.",
"T01": "Reference: reachability by transitive closure: components must be exactly the strongly connected sets, in an order in which every upstream component comes first.",
"T02": "Reference: water balance of every cell at the returned saturations with upstream fractional flows. Residual-saturation bounds not required when pore volume changes; injected fluid is pure water.",
"T03": "Reference: exchanged volumes between neighbours, monotone settling. Compressible gravity exchanges reservoir volumes by design.",
"T04": "Reference: surface-volume balance at the returned saturations. Sources in are surface volumes, out reservoir volumes (documented).",
"T05": "Reference: fluxes and their derivatives from definitions; balance of every cell where convergence is reported.",
"T06": "Reference: evaluation in topological order. Cells in or below loops are not compared; stagnant cells have infinite time.",
"T07": "Reference: upwinding by the sign of each phase's own flux; balance.",
"T08": "Reference: independent assembly of the weak form and the limiter's definition. Cells in or below loops, with ill-conditioned small systems or near-tie limiter thresholds are not compared; the default limiter method is documented as MinUpwindFace but is MinUpwindAverage. One recorded finding (`raise-divided`).",
"S01": "Reference: closed-form hydrostatic columns. Not covered: several EQUIL records (the reader takes one), water-gas decks (unsupported), wells without connections, flux of reused states.",
"S02": "Reference: the list of steps. State after re-initialisation in mid-schedule is claimed once the step is set again; calls documented as errors are not made.",
"S03": "Reference: step-by-step composition of the public solvers with own pore volumes, production sums and well reports; saturations to 1e-6, fluxes 1e-5, pressure 1e-9. Oil balance of compressible runs is a splitting error and not claimed; segregated compressible runs conserve reservoir volume only; crossflow through producers is ignored by transport (documented).",
"I01": "Reference: a parser of the written XML/legacy files. Two-dimensional grids are refused; values to 12 digits (legacy 6).",
"I02": "Reference: the grid that was converted. The reader only prints a message for 'Number' not followed by 'of'; sections absent from a file leave old contents; out-of-range indices in well-formed files not claimed.",
"I03": "Reference: direct geometry of the corner-point deck. Pillar depths after moving to the origin (only suits vertical pillars) and dips of cells whose every edge lies on top or bottom are not claimed.",
}
