from registry import prop

prop("W01", "The wells container keeps exactly what was put in, and clones are deep",
     """After any sequence of adding wells, appending, clearing and selecting controls and cloning, the container holds
     exactly the wells, perforations, names, fractions and controls given, in order, whatever capacities it was created
     with; a new well has no controls and no current control, and adding controls never changes the current one. A clone
     is complete and independent of its original, for every reachable container.""",
     ["histories"],
     "all operation sequences up to the depth bound, for several initial capacities and phase counts",
     "The unit test makes one fixed sequence; reallocation and clearing interact only in particular orders.",
     ["wells/wells.c", "wells.h"],
     [("growth of wells, perforations and controls", "wells/wells.c"), ("deep copy", "wells/wells.c")],
     ["create_wells, add_well, append_well_controls, set_current_control, clear_well_controls, clone_wells"],
     "wells_ops",
     "all sequences of up to 5 (7) of 12 operations x 5 initial capacities x 1-3 phases, compared with a reference container after every prefix",
     "Memory errors are detected by AddressSanitizer with poisoned fresh memory.")

prop("W02", "Wells from a deck have the completions, controls and status written there",
     """Building wells from a deck gives one well per name with exactly the cells of its completion lines (defaulted
     locations from the well's own, defaulted layers from top to bottom), the stated or Peaceman connection factors, and
     the stated reference depth or else the shallowest perforation's. Controls are exactly the given limits with correct
     sign, unit and phases, the last line of a well winning; the selected mode is current, and shut wells are shut.
     Unknown wells, cells or modes, missing limits, inactive phases and unsupported requests are refused.""",
     ["inputs", "configurations", "histories"],
     "all combinations of locations, layers, limits, modes, phases and status of a well, and all sequences of control and open/shut lines",
     "No unit test builds wells from a deck.",
     ["wells/WellsManager.cpp", "wells/WellCollection.cpp", "props/phaseUsageFromDeck.hpp"],
     [("well construction from deck", "wells/WellsManager.cpp"), ("Peaceman well index", "wells/WellsManager.cpp")],
     ["WellsManager(deck, grid, permeability)", "WellsManager::c_wells", "wellCollection"],
     "wells_deck",
     "completions: 4x4x5x5 locations x 2x2x2 defaults x 3 grids, name roots, repeated well lines; controls: 64 limit subsets x 10 modes x phases x status; all sequences of up to 3 (4) control/status lines",
     "Not covered: skin factors and the connections' own open/shut flags, which the reader ignores by design.")

prop("W03", "Group control shares targets by guide rate and keeps every limit enforced",
     """A group target is shared among exactly the group-controlled wells of its type anywhere below the group, in
     proportion to their guide rates, with the shares adding up to the target and all other wells untouched; explicit
     reinjection and voidage replacement do the same with the stated fraction of the group's production. Checking limits
     reports success exactly when no enforced limit is violated, changing nothing, and otherwise deals with exactly one
     violated limit as prescribed, innermost first: the well switches to it, or the largest offender is shut, or the
     group's wells share the limit.""",
     ["histories", "configurations", "inputs"],
     "all small trees, placements and kinds of wells, guide rates and control modes; all histories of well rates over the alphabet up to the depth",
     "No unit test has a group; each history of rates takes a different path through the checks.",
     ["wells/WellsGroup.cpp", "wells/WellCollection.cpp", "wells/WellsManager.cpp"],
     [("target sharing", "wells/WellsGroup.cpp"), ("limit checking", "wells/WellsGroup.cpp"), ("tree construction", "wells/WellCollection.cpp")],
     ["WellsManager::conditionsMet, applyExplicitReinjectionControls, c_wells, wellCollection"],
     "wells_group",
     "trees of up to 4 groups and 3 (4) wells of 5 kinds x placements x guide rates x controlled groups; 37 limit systems x all histories of 2 (3) rate vectors over 6 values per well; reinjection over all placements; collections assembled by hand in every order",
     "Outside the bounds: controlled groups nested below controlled groups at start-up, and injection targets of groups without group-controlled injectors.")
