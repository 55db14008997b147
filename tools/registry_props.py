from registry import prop

prop("F01", "Fluid properties follow their tables for every pressure and composition",
     """Formation volume factors, viscosities and solution ratios reproduce every row of the given tables and follow the
     interpolation rules between and beyond them, saturated and undersaturated, and are finite for every composition, also
     where a phase is absent. Reported pressure derivatives are the slopes of the reported values. The volume matrix and the
     densities combine these for exactly the active phases, decks lacking needed data are refused, and evaluating many
     points gives the same as one at a time.""",
     ["inputs", "configurations"],
     "all small dead, live and constant-compressibility tables, on a grid of pressures inside, at and outside the tables and 14 compositions",
     "Unit tests evaluate one deck at a few points and only print or compare stored numbers.",
     ["props/pvt/SinglePvtLiveOil.cpp", "props/pvt/SinglePvtLiveGas.cpp", "props/pvt/SinglePvtDead.cpp", "props/pvt/SinglePvtDeadSpline.cpp",
      "props/pvt/SinglePvtConstCompr.hpp", "props/pvt/BlackoilPvtProperties.cpp", "props/pvt/PvtPropertiesBasic.cpp", "props/pvt/PvtPropertiesIncompFromDeck.cpp",
      "props/BlackoilPropertiesFromDeck.cpp", "props/BlackoilPropertiesBasic.cpp", "props/IncompPropertiesBasic.cpp", "props/IncompPropertiesFromDeck.cpp",
      "props/satfunc/SaturationPropsBasic.cpp", "props/phaseUsageFromDeck.hpp"],
     [("saturated and undersaturated branches", "props/pvt/SinglePvtLiveOil.cpp"), ("volume matrix", "props/BlackoilPropertiesFromDeck.cpp")],
     ["BlackoilPropertiesFromDeck::viscosity, matrix, density", "SinglePvtInterface::mu, B, dBdp, R, dRdp"],
     "pvt",
     "27 constant tables; dead tables of 2-4 rows, plain and resampled; live oil of 2-4 (5) sections with 0-2 undersaturated rows each; live gas of 2-4 sections; every phase and keyword combination as a deck; tables of up to 24 rows",
     "Borrowed undersaturated branches are compared where the donors are straight lines; live oil without any oil is only required to be finite.")

prop("F02", "Relative permeability and capillary pressure follow the right tables",
     """In every cell, relative permeabilities and capillary pressures are those of the tables of the cell's saturation
     region, combined by the chosen three-phase model, and reported derivatives are the slopes of the values for every
     admissible saturation change. End-point scaling maps the given end points and values of each cell onto those of its
     table, end points left out or equal to the table's change nothing, and the reported saturation range is the scaled one.
     Inconsistent or unsupported input is refused.""",
     ["inputs", "configurations"],
     "all small saturation tables, the three three-phase models plain and resampled, and all 256 subsets of scaling end points, on a lattice of saturations",
     "No unit test evaluates a three-phase model's derivatives or end-point scaling.",
     ["props/satfunc/SatFuncSimple.cpp", "props/satfunc/SatFuncStone2.cpp", "props/satfunc/SatFuncGwseg.cpp", "props/satfunc/SaturationPropsFromDeck_impl.hpp",
      "props/BlackoilPropertiesFromDeck.cpp", "props/IncompPropertiesFromDeck.cpp", "utility/NonuniformTableLinear.hpp", "utility/UniformTableLinear.hpp"],
     [("three-phase models", "props/satfunc/SatFuncStone2.cpp"), ("end-point scaling", "props/satfunc/SaturationPropsFromDeck_impl.hpp")],
     ["SaturationPropsFromDeck::relperm, capPress, satRange"],
     "satfunc",
     "water-oil tables of 2-4 rows with increments 0/0.15/0.35 (all patterns), gas-oil and three-phase likewise; 81 region assignments with permuted and missing cells; 256 end-point subsets, two- and three-point, per cell, by depth and neutral; tables of up to 24 rows and many regions",
     "Saturations stay in the reported range; derivatives are compared where the values have no kink; capillary pressures are not claimed to be scaled.")

prop("F03", "Every active cell gets its own rock data from the deck",
     """Porosity and the symmetric permeability tensor of each active cell are those given for its logical position, with
     diagonal components not given taken from the first one given, cross components only together with the diagonal ones
     they couple, and other keyword combinations refused. The pore volume multiplier follows the compressibility or the
     table given, and the reported rock compressibility is its relative slope in pressure.""",
     ["inputs", "configurations"],
     "all 512 subsets of permeability keywords, all active-cell patterns of four small grids, all small compressibility tables",
     "Unit tests have no test of rock input at all.",
     ["props/rock/RockFromDeck.cpp", "props/rock/RockCompressibility.cpp", "utility/miscUtilities.cpp", "grid/GridManager.cpp"],
     [("keyword classification", "props/rock/RockFromDeck.cpp")],
     ["RockFromDeck::porosity, permeability", "RockCompressibility::poroMult, rockComp", "computePorevolume"],
     "rock",
     "512 x 2 keyword subsets; active patterns of 2x2x1, 1x1x4, 3x1x2 and 2x2x2 grids; 60 ROCK/parameter settings; ROCKTAB tables of 2-5 (6) rows")
