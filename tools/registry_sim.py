from registry import prop

prop("S02", "The simulation clock follows its schedule through every operation sequence",
     """After any sequence of advances, jumps, restarts and changes of total time, the clock reports the current step, its length,
     the time passed, the calendar date and completion exactly as the schedule from parameters or deck says, over any length of
     time. A jump is accepted exactly for a step of the schedule or its end, an advance exactly before the end, and a refused one changes nothing. Looping over the epochs of a
     schedule takes every time step once, in order.""",
     ["inputs", "histories"],
     "all sequences of 4 (6) of 10 operations on nine schedules; all schedules of up to 6 (9) events cut into epochs",
     "No unit test covers the clock.",
     ["simulator/SimulatorTimer.cpp", "simulator/SimulatorTimer.hpp"],
     [("steps and time", "simulator/SimulatorTimer.cpp")],
     ["SimulatorTimer: every query after every operation"],
     "timer",
     "advance, six jump targets (two invalid), total time, re-initialisation by the same and by another schedule; schedules of 0-4 steps, of half a day to 204 years, from parameters, time steps and dates")

prop("S01", "Initial states are in hydrostatic equilibrium and match deck or parameters",
     """An initial state set up from parameters or a deck has, in every cell, the saturations of its side of the contact (or the given
     values), and the pressure which, from the reference depth, follows the weight of the phase present in each interval of depth,
     wherever datum and contact lie, also outside the grid. Saturations sum to one, surface volumes match pressure and saturation, face pressures
     interpolate their cells, wells start at target or cell pressure; input that is missing or unsupported is refused.""",
     ["inputs", "configurations"],
     "ten grids at two scales x all contacts and datums at, between, above and below cell depths x options x gravity x five fluids; all combinations of phases and arrays",
     "No unit test initialises a state.",
     ["simulator/initState_impl.hpp", "simulator/BlackoilState.hpp", "simulator/TwophaseState.hpp", "simulator/WellState.hpp"],
     [("hydrostatic pressure", "simulator/initState_impl.hpp"), ("extremal saturations", "simulator/BlackoilState.hpp")],
     ["initStateBasic, initStateFromDeck, initBlackoilSurfvol, WellState::init: the state"],
     "init",
     "closed-form columns for constant and linearly compressible fluids (0.4 % of the pressure difference allowed for the latter); contact at each cell depth and between, datum and contact independently; grids of 36, 63 and 120 cells",
     "One equilibration region without gas; wells without connections are not covered.")

prop("S03", "A simulation is its time steps: balances, reports and files agree",
     """Running a two-phase simulator takes each time step of the schedule once, with its pressure solve (under the well controls which
     end up satisfied), its transport substeps and its segregation, so that the final state is the one the parts give and neither water
     nor (incompressible) oil is created or lost, however the schedule is split into runs. Cumulative volumes, water cut, well report and state
     files, for every step asked for, agree with the states passed through; output settings do not affect results, and pressure keeps its average where only differences
     are determined.""",
     ["configurations", "histories"],
     "eight grids x wells x sources x boundary conditions x gravity x rock x solvers x 1-3 substeps x 1-3 steps, a quarter of all combinations (all in thorough); all well-control decks",
     "No unit test runs a simulator.",
     ["simulator/SimulatorIncompTwophase.cpp", "simulator/SimulatorCompressibleTwophase.cpp", "simulator/SimulatorReport.cpp"],
     [("incompressible loop", "simulator/SimulatorIncompTwophase.cpp"), ("compressible loop", "simulator/SimulatorCompressibleTwophase.cpp")],
     ["SimulatorIncompTwophase::run, SimulatorCompressibleTwophase::run: states, files and printed balances"],
     "sim",
     "incompressible and compressible, reordered, implicit and segregated transport; no wells, rates, pressures, shut wells; decks whose injector or producer hits its limit, and voidage replacement; grids of 36, 63 and 120 cells",
     "Two-phase fluids; the oil balance of compressible runs is an error of the splitting and only printed.")
