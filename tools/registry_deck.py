from registry import prop

prop("E01", "Array keywords in decks are read exactly as written or rejected",
     """Reading a deck yields, for every integer or real array keyword, exactly the written values in order (repeat
     counts expanded, comments skipped, anything after the terminating slash on its line ignored), with the last
     occurrence of a repeated keyword winning and every other keyword unaffected. Malformed or unterminated data is
     rejected with an error, splitting the deck over include files changes nothing, and reading another deck with the
     same parser keeps nothing of the previous one.""",
     ["inputs", "crash_points", "histories"],
     "all token sequences of a keyword's data, all keyword pairs and section sequences, all include splits, all truncation points",
     "No unit test parses a deck; malformed-token and truncation behaviour needs every position of every sequence.",
     ["io/eclipse/EclipseGridParser.cpp", "io/eclipse/EclipseGridParserHelpers.hpp"],
     [("token reader with repeat counts and comments", "io/eclipse/EclipseGridParserHelpers.hpp"),
      ("keyword dispatch and include handling", "io/eclipse/EclipseGridParser.cpp")],
     ["EclipseGridParser(file)", "EclipseGridParser::read", "getIntegerValue/getFloatingPointValue/hasField/fieldNames"],
     "deck_lex",
     "all sequences of up to 4 (6) data tokens x separators; all ordered keyword pairs; all sequences of up to 3 (4) deck sections and every include split of them; every byte cut of a deck",
     "Reference: a small model of the deck grammar.")

prop("E02", "Deck quantities are converted to SI exactly once with the right units",
     """With conversion requested, every dimensional value of every supported keyword equals the written value times the
     correct SI factor of its quantity in the deck's unit system (METRIC, also when none is named, or FIELD), wherever
     the unit keyword stands and in every report period; without conversion values are unchanged and the parser reports
     the deck's unit factors. Dimensionless and integer items are never scaled, and unsupported unit systems are refused.""",
     ["inputs", "configurations"],
     "all supported keywords x unit systems x keyword placement x conversion on/off x records, tables, epochs",
     "No unit test looks at units; a wrong factor in one keyword only shows when that keyword is used in that unit system.",
     ["io/eclipse/EclipseGridParser.cpp", "io/eclipse/SpecialEclipseFields.hpp", "io/eclipse/EclipseUnits.hpp", "utility/Units.hpp"],
     [("per-keyword conversion", "io/eclipse/SpecialEclipseFields.hpp"), ("unit system selection", "io/eclipse/EclipseGridParser.cpp")],
     ["EclipseGridParser getters and units()"],
     "deck_units",
     "every keyword x {default, METRIC, FIELD} x placement x {converted, raw} x record/table shapes x 1-3 epochs, against independently written constants",
     "Exhaustive over keywords and unit systems. Not covered: vaporised-oil concentration of WCONINJE (its unit is marked as uncertain in the source).")

prop("E03", "Schedules split into report periods with exact steps and contents",
     """For any sequence of well events, time steps and dates, the deck has one report period per maximal run of events
     followed by steps; each period sees all events up to and including its own and none later, and the accumulated list
     of steps, where a date contributes the days from the current time to that date counted from the start date
     (1 January 1983 when none is given). Looking at one period, in any order, never changes another.""",
     ["histories", "inputs"],
     "all sequences of schedule keywords up to the depth bound, with and without a start date, through streams and files, and re-used parsers",
     "No unit test has more than one period; the property is about every interleaving of events and steps.",
     ["io/eclipse/EclipseGridParser.cpp", "io/eclipse/SpecialEclipseFields.hpp"],
     [("epoch state machine", "io/eclipse/EclipseGridParser.cpp"), ("cloning of schedule data per epoch", "utility/Factory.hpp")],
     ["numberOfEpochs, setCurrentEpoch, get<KEYWORD>, getStartDate"],
     "deck_sched",
     "all sequences of up to 5 (7) operations from {event A, event B, one step, repeated steps, one date, two dates, array keyword} x start-date variants, against a reference epoch machine",
     "States are the report periods reached in the reference machine; each one is compared in forward and backward order.")

prop("E04", "Deck records and tables give every item its written or default value",
     """For every supported record or table keyword each item has exactly its written value, or its default when omitted
     by a default count (n*) or by ending the record early, and repeat counts (n*v) give n items the value v, or are refused
     where fewer are left; defaulted table entries are interpolated from the given ones
     in their column. This holds for any number of records or regions, with comments anywhere between them, over any line
     layout and quoting, and the keyword that follows is always read intact.""",
     ["inputs"],
     "all default patterns, record lengths, record counts, comment positions and layouts per keyword; table shapes and default masks",
     "No unit test reads these keywords; each default pattern is a separate path through the record reader.",
     ["io/eclipse/SpecialEclipseFields.hpp", "io/eclipse/EclipseGridParserHelpers.hpp", "io/eclipse/EclipseGridParser.cpp"],
     [("per-keyword record readers", "io/eclipse/SpecialEclipseFields.hpp"), ("default-count reader", "io/eclipse/EclipseGridParserHelpers.hpp")],
     ["EclipseGridParser::get<KEYWORD>"],
     "deck_rec",
     "21 record keywords x every admissible default mask x every early end x 1-3 records x 4 comment positions x 3 layouts x keyword repetition, repeat and default counts up to and beyond the items kept; 9 table keywords x shapes x default masks",
     "Default counts reaching over a text item are outside the bounds (the reader does not support them).")

prop("E05", "Decks whose data stop short are refused, never read beyond",
     """Whatever is built from a deck - the grid, the rock, the saturation functions with their regions and scaled end
     points, the initial state, a chopped grid - takes each active cell's value from that cell's own place in the array.
     An array that ends before the last active cell, a grid array of any other length than the grid needs, too few tables
     for the regions in use, or a missing keyword that has no default is refused with an error.""",
     ["inputs", "configurations"],
     "all array keywords x all lengths (0 to two more than needed) x grids x active maps x consumers; all tables given against needed; all decks with up to 4 keywords left out",
     "Unit tests only use complete decks; a short array reads whatever follows it in memory, so the result looks plausible.",
     ["io/eclipse/EclipseGridParser.cpp", "grid/GridManager.cpp", "props/rock/RockFromDeck.cpp", "props/satfunc/SaturationPropsFromDeck_impl.hpp", "simulator/initState_impl.hpp", "io/eclipse/CornerpointChopper.hpp", "io/eclipse/EclipseGridInspector.cpp"],
     [("grid arrays from a deck", "io/eclipse/EclipseGridParser.cpp"), ("cell values by deck position", "props/rock/RockFromDeck.cpp")],
     ["GridManager(deck), RockFromDeck, SaturationPropsFromDeck, BlackoilPropertiesFromDeck, IncompPropertiesFromDeck, initStateFromDeck, CornerPointChopper, EclipseGridInspector"],
     "deck_end",
     "every array keyword cut at (or extended to) every length, alone (thorough: in pairs), over 4 grid sizes and 9 active maps, against every consumer; memory errors are caught by the address sanitizer")
