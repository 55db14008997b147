from registry import prop

prop("I01", "Visualisation files describe exactly the grid and the data",
     """A visualisation file written for any three-dimensional grid and any set of fields is well formed and describes that grid: its
     points, for each cell its corner points and its faces with consistent offsets, and all components of every field to the printed
     precision, with denormal numbers as zero; files do not depend on what was written before. Two-dimensional grids are refused. Cartesian
     files carry sizes, spacing and first components.""",
     ["inputs", "configurations"],
     "seventeen grids (two of many-cornered prisms) x all subsets of four fields of 1-5 components x four value patterns x three stream histories; all Cartesian sizes to 3x3x3 (6x6x6)",
     "No unit test reads a visualisation file back.",
     ["io/vtk/writeVtkData.cpp", "io/vtk/writeVtkData.hpp"],
     [("polyhedral output", "io/vtk/writeVtkData.cpp")],
     ["writeVtkData (both forms): the text written"],
     "vtk",
     "Cartesian, tensor, corner-point grids with faults and inactive cells, 1 to 20 cells (line breaks every ten); values with denormals, negatives, huge and long numbers")

prop("I02", "Grids survive the VAG file format",
     """Converting a three-dimensional grid to the VAG format, writing, reading and converting back gives the same grid, with coordinates to 14
     digits, and the lists of edges and of corners describe it, also when structures are used again. Files with sections in any order and
     every accepted spelling are read as they stand, with material data. A file which breaks off within a section, or has a word in place
     of a number, is refused.""",
     ["inputs", "configurations", "crash_points"],
     "eleven grids x three coordinate systems x four reuse histories; section orders (1/16 of 5040, all in thorough) x spellings x material; cuts and seven replacements at every token",
     "No unit test covers the format.",
     ["io/vag/vag.cpp", "io/vag/vag.hpp"],
     [("conversion", "io/vag/vag.cpp"), ("reader and writer", "io/vag/vag.cpp")],
     ["unstructuredGridToVag, writeVagFormat, readVagGrid, vagToUnstructuredGrid"],
     "vag",
     "hexahedral, tensor, faulted, tilted and prism grids; national-grid and tiny coordinates; independent writer of the format in all section orders",
     "Indices out of range in a well-formed file are not checked by the reader and not claimed.")

prop("I03", "Cut-out sub-grids are that part of the deck; grid queries are geometric",
     """Cutting a box from a corner-point deck keeps exactly the columns asked for and the layers that meet the depth interval, with corner
     depths cut to it so that every column fills it, positions moved to the origin if asked, and every cell field taken from the cell's origin;
     boxes outside or empty are refused, and the written file reads back as the same sub-deck. Sizes, limits, cell indices, corner depths, volumes over vertical
     pillars and mean dips are those of the deck, given by either dimension keyword.""",
     ["inputs", "configurations"],
     "all dimensions to 5x5x5 for queries, to 3x3x4 (4x4x5) for cutting x five geometries x all boxes x 121 depth intervals x shifted or not x field sets",
     "No unit test covers either class.",
     ["io/eclipse/CornerpointChopper.hpp", "io/eclipse/EclipseGridInspector.cpp"],
     [("cutting", "io/eclipse/CornerpointChopper.hpp"), ("queries", "io/eclipse/EclipseGridInspector.cpp")],
     ["CornerPointChopper::chop, subparser, writeGrdecl; EclipseGridInspector"],
     "chop",
     "flat, dipping with irregular pillars, faulted with empty cells far from the origin, tilted pillars, every corner at its own height; depth limits at, between and beyond corner depths",
     "Pillar depths after moving to the origin are not claimed (they are replaced by the interval, which only suits vertical pillars); dips of cells whose every edge lies on the model's top or bottom are undefined.")
