from registry import prop

prop("G01", "Cartesian grids have exact topology and geometry",
     """Every constructor of a Cartesian, tensor or layered grid yields a grid with the prescribed cells in
     natural order: each cell has exactly its two faces per direction with correct tags, each face lists the one or
     two cells it separates with its normal pointing from the first to the second, and every centroid, volume,
     normal and area has its exact value.""",
     ["inputs", "configurations"],
     "all grid sizes, spacings, origins and vertical layer/depth descriptions accepted by the constructors, in 2D and 3D",
     "Unit tests build one or two grids and look at counts; the claim is over every combination of sizes and spacings.",
     ["grid/cart_grid.c", "grid/GridManager.cpp", "grid.h", "grid/grid.c"],
     [("index arithmetic of the topology fill", "grid/cart_grid.c"), ("geometry kernel", "grid/cpgpreprocess/geometry.c")],
     ["create_grid_cart2d/3d, create_grid_hexa3d, create_grid_tensor2d/3d, GridManager constructors"],
     "grid_cart",
     "every size 1..4 per direction x spacing patterns x origins/depth profiles; each grid compared entry by entry with an independently computed description; larger boxes besides",
     "Bounded exhaustive: all sizes up to 4x4x4 (6x6x6 thorough); larger sizes by a list of boxes.")

prop("G02", "Geometry of polyhedral and polygonal cells is exact",
     """For any polyhedral cell (3D), also a dented one, whose faces are plane convex polygons, and any convex
     polygonal cell (2D), computed face areas, face centroids, face
     normals (scaled by area, pointing from the first to the second neighbouring cell), cell volumes and cell
     centroids equal the exact geometric values (polygons with over three corners use the corners' mean as centroid).
     The result does not depend on which node a face starts from, on the
     order the two neighbours are stored in, or on where the origin lies.""",
     ["inputs"],
     "all polyhedra/polygons with vertices on a small lattice, every per-face orientation and start node, and vertex perturbations",
     "The one geometry test uses a single 2D shape; orientation-dependent errors need every combination of face orientation.",
     ["grid/cpgpreprocess/geometry.c", "grid.h"],
     [("face and cell moments from triangles/tetrahedra", "grid/cpgpreprocess/geometry.c")],
     ["compute_geometry and the grid constructors that call it"],
     "geom",
     "all lattice tetrahedra, all small affine images of cube/prism/pyramid/octahedron, all 2^faces x rotation storage variants, all lattice polygons; each against exact polyhedral moments",
     "Bounded exhaustive; relative tolerance 1e-9 against an independent divergence-theorem evaluation.")

prop("G03", "Corner-point processing gives the true cells, contacts and geometry",
     """Processing a corner-point description yields exactly the active cells of positive thickness, and for any two
     cells (and the outside) a set of faces whose total area equals their true geometric contact, with no missing,
     duplicate or spurious connection across faults, pinch-outs, gaps and inactive cells. Each face's normal points
     from its first to its second cell, volumes are positive and exact, and this holds for left- or right-handed
     inputs, depths increasing or decreasing with layer, slanted pillars, and corner depths equal only within the
     stated tolerance.""",
     ["inputs", "configurations"],
     "all assignments of a few depth levels to the corners of small corner-point models, active-cell masks, handedness, depth sign, slant and tolerance variants",
     "No unit test exercises the corner-point processor on faulted models; the claim is over all fault/pinch configurations.",
     ["grid/cpgpreprocess/preprocess.c", "grid/cpgpreprocess/facetopology.c", "grid/cpgpreprocess/uniquepoints.c",
      "grid/cornerpoint_grid.c", "grid/cpgpreprocess/geometry.c"],
     [("pillar point unification", "grid/cpgpreprocess/uniquepoints.c"), ("fault-face intersection", "grid/cpgpreprocess/facetopology.c"),
      ("assembly, sign and handedness", "grid/cpgpreprocess/preprocess.c")],
     ["create_grid_cornerpoint, process_grdecl"],
     "cpgrid",
     "every assignment of depth levels to two-column pillar stacks (up to 3 layers), single 2x2 arrangements, active masks, handedness/sign/slant/tolerance variants; contact areas against an exact interval-overlap oracle",
     "Bounded exhaustive over lattice depths; geometry compared at 1e-9 relative.")

prop("G04", "Grid files and decks give back exactly the described grid or an error",
     """Reading a grid file returns a grid identical to the one written, with and without optional parts; a file that
     ends early or has a non-numeric entry at any position is rejected with no grid rather than accepted. Building a
     grid from a deck (tensor or corner-point keywords, any unit system) gives the grid the deck describes with active
     cells in natural order, or raises an error when required keywords are missing or inconsistent.""",
     ["inputs", "fault_sequences", "crash_points"],
     "all small grids x optional sections; truncation and corruption at every token of the file; deck keyword subsets and size mismatches",
     "No test reads a grid file; truncation points can only be covered by enumerating all of them.",
     ["grid/grid.c", "grid/GridManager.cpp", "grid/cornerpoint_grid.c", "grid/cart_grid.c"],
     [("section-by-section reading with failure propagation", "grid/grid.c"), ("deck dispatch", "grid/GridManager.cpp")],
     ["read_grid, GridManager(deck), GridManager(filename)"],
     "gridio",
     "round trip of every small grid, then every truncation point and every one-token corruption; every deck keyword subset; a few larger files",
     "Bounded exhaustive over fault points of small files.")

prop("G05", "Columns are the maximal vertically connected stacks of active cells",
     """Splitting a grid into columns assigns every cell to exactly one column; two cells are consecutive in a column
     exactly when they are vertically adjacent and share a face, and each column is listed from top to bottom.""",
     ["inputs", "configurations"],
     "all small grids with every active-cell mask, pinched layers and vertical gaps",
     "The test covers two fixed grids without gaps or pinches.",
     ["grid/ColumnExtract.hpp"],
     [("sort by logical position and split", "grid/ColumnExtract.hpp")],
     ["extractColumn"],
     "columns",
     "all active masks x zero/nonzero thickness x gap patterns on grids up to 2x2x3, each with its cells in natural order and in three other orders with faces turned around; compared with a brute-force decomposition; larger boxes besides",
     "Bounded exhaustive.")
