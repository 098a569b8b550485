"""What each check runs: harness entries, bounds, solver options."""
import os
KNOWN_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.json")

def T(entry, bounds, reach=None, shards=1, mode="real", weight=1, tier="quick", opts=None, thorough=None, no_assert=False):
    t = dict(entry=entry, bounds=bounds, mode=mode, shards=shards, weight=weight, tier=tier, opts=opts or {}, reach=reach or ["end"], no_assert=no_assert)
    if thorough: t["thorough"] = thorough
    return t

PLAN = {}
PLAN["C03"] = dict(
    tasks=[
        T("c03_tangent", "one linearisation from an arbitrary previous one below the critical voltage", ["below", "near", "end"]),
        T("c03_limit", "one limited linearisation (request above the critical voltage, more than 2 Vt away)", ["from reverse", "from forward", "end"]),
        T("c03_fixpoint", "two limited linearisations of the same request", ["reached", "closer", "end"]),
        T("c03_down", "a request above the critical voltage but below the last one, after up to 5 unlimited steps upwards", ["near", "far", "again", "end"]),
        T("c03_vt", "thermal voltage at 27 C"),
    ],
    bounds="all saturation currents in [1e-12, 1e-3] A, temperatures in [-100, 200] C, all voltages; histories of up to three linearisations",
    outside="rounding; Is below 1e-12 (where the GMIN clamp hides the thermal voltage the check reads off the model)")
PLAN["C08"] = dict(
    tasks=[
        T("c08_once", "1..4 points, arbitrary times/values/delay", ["before", "after", "between", "gap", "end"], shards=4),
        T("c08_repeat", "2..3 points, within 3 periods of the delay", ["before", "first period", "later period", "seam", "end"], shards=2),
        T("c08_finite", "1..3 points at every listed time; no points", shards=3),
        T("c08_many", "patterns of 10 and 25 points, every segment, arbitrary values, delay and time", shards=2),
        T("c08_late", "the 2nd, 8th, 32nd, 101st and 1001st period"),
        T("c08_deck", "six ways to write the card, arbitrary numbers"),
        T("c08_mix", "100 generated patterns of up to 12 points, arbitrary values and times", ["end"], shards=2),
        T("c08_mix_deep", "600 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c08_longer", "patterns of 60 and 300 points, two values and the time arbitrary"),
    ],
    bounds="patterns of up to 4 points (3 repeating), arbitrary real times, values and delay; repeating patterns within 3 periods of the delay; fixed point times: up to 300 points, up to the 1001st period",
    outside="rounding; longer patterns of arbitrary times; repeat offsets r other than 0")
PLAN["C09"] = dict(
    tasks=[T("c09_eval", "arbitrary offset, amplitude, frequency, time"), T("c09_deck", "V and I cards in four spellings, arbitrary numbers")],
    bounds="all real offsets, amplitudes, frequencies and times; sin is an uninterpreted function (its argument must be equal)",
    outside="rounding")
PLAN["C10"] = dict(
    tasks=[
        T("c10_number", "every ASCII text of up to 6 characters that the number format specifies", ["accepted", "rejected", "end"], weight=5, shards=7),
        T("c10_number_long", "the same up to 8 characters", ["accepted", "rejected", "end"], weight=5, shards=9, tier="thorough"),
        T("c10_junk", "every ASCII text of up to 6 characters: no panic", ["value", "none", "end"], weight=5, shards=7),
        T("c10_junk_long", "every ASCII text of up to 9 characters: no panic", ["value", "none", "end"], weight=5, shards=10, tier="thorough"),
        T("c10_utf8", "every two- and three-byte character after a prefix of a number", shards=6),
        T("c10_digits", "numbers of up to 45 digits, five of them arbitrary", shards=2),
        T("c10_mix", "150 generated number texts (up to 70 digits, exponents up to 200, unit tails), two digits arbitrary"),
        T("c10_mix_deep", "1500 more", shards=4, weight=2, tier="thorough"),
    ],
    bounds="texts of up to 6 bytes (quick) or 9 bytes (thorough), exponents up to 19; numbers of up to 45 digits, six of them arbitrary; 150 (1650) generated texts with units and exponents up to 200, two digits arbitrary", outside="longer texts; the rounding of decimal to binary (the host's own parser, trusted)")
PLAN["C11"] = dict(
    tasks=[T("c11_long", "identifiers of 5 to 70 characters, one of them arbitrary"), T("c11_expr", "identifiers of 1..4 characters with up to 2 blanks on either side", weight=3, shards=3), T("c11_junk", "every ASCII text of up to 6 characters, with or without a brace before it", ["literal", "rejected", "ident", "brace rejected", "end"], weight=3, shards=7),
        T("c11_runs", "identifiers and texts of up to 40 characters in a brace, one of them arbitrary", ["alphanumeric", "other", "end"])],
    bounds="identifiers of up to 4 characters, texts of up to 7 bytes; identifiers of up to 70 characters, one of them arbitrary", outside="longer texts, identifiers with non-ASCII letters")
PLAN["C22"] = dict(
    tasks=[T("c22_wide", "6 nodes and 4 sources, one arbitrary entry and one non-finite one in every pair of places", ["accepted", "rejected", "error", "end"]), T("c22_check", "1-2 nodes, 1-2 sources, arbitrary vectors and tolerances, NaN/Inf at every place", ["accepted", "rejected", "error", "end"], shards=3),
        T("c22_many", "up to 40 nodes and 30 sources, any one entry arbitrary or non-finite", ["accepted", "rejected", "error", "end"], shards=4)],
    bounds="engines with up to 2 nodes and 2 voltage-defined sources (up to 40 and 30 with all entries but one fixed), all real vectors and tolerances (RELTOL up to 0.5), one non-finite entry anywhere in the new and previous solution",
    outside="rounding; larger vectors (the test treats each entry separately)")

PLAN["C01"] = dict(
    tasks=[
        T("c01_one", "one element of each kind on every combination of terminals (incl. coinciding ones) in a resistive network of 2 nodes", ["R", "I", "V", "E", "G", "end"], shards=3, weight=2),
        T("c01_pair", "two elements, one defined by its voltage, 2 nodes, one iteration", ["I", "V", "E", "G", "end"], shards=8, weight=3),
        T("c01_stack", "eight circuits of 3 nodes: stacked, floating, looping sources, feedback", shards=2),
        T("c01_iter", "the whole Newton loop with I and V on every combination of terminals, up to 51 iterations"),
        T("c01_deck", "a deck of seven cards in every rotation and both directions, arbitrary values", shards=7, weight=3),
        T("c01_ladder", "ladders of 4 to 60 nodes with every kind of element and four voltage-defined sources, three numberings, three orders; arbitrary sources", shards=2),
        T("c01_grid", "grids of 9 to 49 nodes, arbitrary sources"),
        T("c01_one3", "as c01_one with 3 nodes", ["R", "I", "V", "E", "G", "end"], shards=24, weight=3, tier="thorough"),
        T("c01_two", "every pair of elements on every combination of terminals, one defined by its voltage, 2 nodes", ["I", "V", "E", "G", "end"], shards=16, weight=5, tier="thorough"),
        T("c01_mix", "300 generated circuits of 2 to 12 nodes, arbitrary sources", ["solved", "end"], shards=2),
        T("c01_mix_deep", "2500 more", ["solved", "end"], shards=4, weight=3, tier="thorough"),
    ],
    bounds="circuits of 2 nodes and ground with arbitrary combinations of terminals (3 nodes: eight circuits; thorough: any one element; up to 60 nodes: ladders, grids and 300 (2800) generated circuits of fixed resistances with arbitrary sources), every resistance, conductance, gain and source value for which the equations have one solution",
    outside="rounding; arbitrary resistances in large circuits; circuits without a unique solution")
PLAN["C02"] = dict(
    tasks=[
        T("c02_2x2", "every 2x2 system", ["?pivot", "end"]),
        T("c02_3x3", "every 3x3 system, any diagonal entry absent", ["?pivot", "end"], shards=8, weight=3),
        T("c02_4x4", "4x4 systems: every permutation, with and without fill below", ["?pivot", "end"], shards=12, weight=2),
        T("c02_big", "5..7 unknowns: permuted scalings with one coupling", ["?pivot", "end"], shards=3, weight=2),
        T("c02_dense", "dense systems of order 8 to 24, fixed coefficients, arbitrary right-hand sides", ["?pivot", "end"]),
        T("c02_far", "orders 13 to 70 whose pivots are far from the diagonal or of very different sizes, arbitrary right-hand sides", ["?pivot", "end"], shards=2),
        T("c02_mix", "the systems of 300 generated circuits, arbitrary sources; the pivots", ["solved", "end"], shards=2),
        T("c02_mix_deep", "2500 more", ["solved", "end"], shards=4, weight=3, tier="thorough"),
    ],
    bounds="all real coefficients and right-hand sides of nonsingular systems of order 2 and 3; order 4 in 48 patterns; order 5 to 7 in 36 patterns; orders 8 to 70 with fixed coefficients (88 matrices and 300 generated circuits) and arbitrary right-hand sides",
    outside="rounding (exact arithmetic; partial pivoting is checked instead: each pivot, as reported by the hook, is an entry of largest magnitude); arbitrary coefficients in larger orders")
PLAN["C04"] = dict(
    tasks=[
        T("c04_nr", "five circuits with one diode, arbitrary drive, stopped after 1 or 2 iterations", ["limit", "end"], shards=5, weight=2),
        T("c04_two", "three circuits with two diodes, arbitrary drive, stopped after 1 or 2 iterations", ["limit", "end"], shards=3, weight=2),
        T("c04_stop", "the same in reverse or no bias, up to 4 iterations", ["converged", "end"]),
        T("c04_long", "two circuits in forward bias in which the diode comes down some Vt at a time, 4 and 5 iterations, tolerances nothing meets", ["limit", "end"], shards=2, weight=2),
        T("c04_many", "five circuits in which diodes share terminals with others of another size, or with three of them, arbitrary drive", ["limit", "end"], shards=2),
        T("c04_longer", "the same with 6 iterations", ["limit", "end"], shards=2, weight=4, tier="thorough"),
        T("c04_deep", "the eight circuits stopped after 3 iterations", ["limit", "end"], shards=8, weight=4, tier="thorough"),
        T("c04_mix", "60 generated networks with one to three diodes, an arbitrary drive, up to 2 iterations", ["limit", "converged", "end"], shards=6, weight=3),
        T("c04_mix_deep", "400 more, up to 3 iterations", ["limit", "converged", "end"], shards=8, weight=5, tier="thorough"),
        T("c04_crowd", "networks of up to 40 diodes, one of them with an arbitrary drive", ["limit", "end"]),
    ],
    bounds="thirteen circuits (diode to ground, from ground, floating, antiparallel, parallel with others, in series, back to back, up to three), every drive, up to 2 Newton iterations (quick; 4 in reverse bias) or 3 (thorough); 60 (460) generated networks with up to three diodes, 12 fixed ones with up to 40", outside="rounding; more iterations (an iteration depends on the two before it only); other topologies")
PLAN["C21"] = dict(
    tasks=[
        T("c21_nodes", "two elements of every pair of kinds on arbitrary node numbers up to 5000", shards=5, weight=2),
        T("c21_sources", "up to 4 elements of six kinds", shards=4),
        T("c21_deck", "decks of up to 2 cards, with up to 2 instances of a subcircuit of 2 cards", shards=2),
        T("c21_deck_more", "decks with up to 3 cards in the subcircuit", shards=2, tier="thorough"),
        T("c21_many", "200 to 513 nodes, numbered up or down"),
        T("c21_values", "arbitrary values, zero among them; sources in parallel, on one node, of one name"),
        T("c21_crowd", "20 to 70 cards of every kind, up to 12 instances with six sources on three levels", shards=3),
        T("c21_mix", "60 generated decks with every kind of source", ["end"], shards=2),
        T("c21_mix_deep", "600 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c21_bulk", "up to 700 elements, 560 sources of every kind, in two orders"),
    ],
    bounds="two elements on arbitrary node numbers up to 5000; up to 4 elements added in any order; decks of up to 2 cards and 2 instances (fixed kinds: 700 elements, 12 instances of three levels)", outside="longer lists (the counting is per element)")

PLAN["C05"] = dict(
    tasks=[
        T("c05_rc", "four circuits of one or two capacitors to ground, every value, three equal steps", weight=2),
        T("c05_rc2", "RC driven by a sine, symbolic TSTEP and TSTOP, growing steps", ["three steps", "end"], shards=4, weight=2),
        T("c05_float", "floating and series capacitors, both orientations, two steps", shards=2, weight=2),
        T("c05_retry", "RC driven by a sine, points retried with half the step (minimum 0.4)", ["retried", "end"]),
        T("c05_retry_deep", "the same with a minimum of 0.2", ["retried", "end"], shards=4, weight=2, tier="thorough"),
        T("c05_dc", "DC: a capacitor on every combination of terminals"),
        T("c05_long", "three circuits with up to five capacitors over 15 to 40 steps, one arbitrary source value", shards=3),
        T("c05_iter", "two and more iterations per point, arbitrary source"),
        T("c05_diode", "a capacitor between a resistor and a diode"),
        T("c05_later", "an arbitrary start time, growing steps: the same points", shards=4),
        T("c05_crowd", "8 and 14 nodes with up to 28 capacitors in three shapes", shards=2, weight=3),
        T("c05_scaled", "TSTEP of 1e-6, 1e-3 and 64, growing steps"),
        T("c05_mix", "50 generated networks with capacitors, a few steps, one arbitrary value", ["end"], shards=3),
        T("c05_mix_deep", "500 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c05_longer", "100 steps and a shorter last one, an arbitrary source and ramp", shards=2, weight=2),
    ],
    bounds="circuits of up to 4 nodes and 2 capacitors, every capacitance, resistance and source value, up to 3 equal or 4 unequal steps of symbolic size; up to 14 nodes and 100 steps with fixed components and an arbitrary source, 50 (550) of them generated",
    outside="rounding; the printing to nine decimals (the printed value is taken as the value); longer runs with arbitrary components")
PLAN["C06"] = dict(
    tasks=[
        T("c06_axis", "symbolic TSTEP, TSTOP, FS, RMAX, source; equal steps", ["four steps", "end"], weight=2),
        T("c06_start", "symbolic TSTEP, TSTOP, TSTART", ["some left out", "end"]),
        T("c06_double", "growing steps, symbolic TSTEP, TSTOP, FS, RMAX", ["three steps", "end"], shards=3, weight=3),
        T("c06_retry", "points retried with smaller steps, arbitrary tolerance and source", ["retried", "complete", "gave up", "end"], shards=4, weight=2),
        T("c06_source", "each kind of source"),
        T("c06_long", "33 to 150 steps, arbitrary source"),
        T("c06_scale", "TSTEP from 1e-8 to 2e6, arbitrary TSTOP"),
        T("c06_double_deep", "growing steps, TSTOP up to 3", ["three steps", "end"], shards=5, weight=4, tier="thorough"),
        T("c06_small_rmax", "RMAX in [0.6,1], FS in [0.4,1], symbolic TSTEP and TSTOP", ["three steps", "end"], shards=3, weight=2),
        T("c06_later", "an arbitrary start time: the recorded points are those of the analysis without one"),
        T("c06_mix", "200 generated choices of options, steps and sources, arbitrary slope", ["end"], shards=2),
        T("c06_mix_deep", "2000 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c06_many", "45 to 135 steps that grow to the longest, arbitrary stop time and source"),
        T("c06_longer", "runs of 250 to 1200 steps, an arbitrary source"),
    ],
    bounds="up to 5 accepted steps; TSTEP in [0.5,2], TSTOP up to 2 (3 thorough), FS in [0.5,4], RMAX in [1,4]; every source value and frequency; runs of up to 1200 steps and TSTEP from 1e-8 to 2e6 with fixed options, 200 (2200) of them generated",
    outside="rounding; longer runs; the printing to nine decimals (the printed value is taken as the value)")
PLAN["C07"] = dict(
    tasks=[
        T("c07_retry", "1 or 2 iterations allowed, symbolic FT, RMIN and source", ["complete", "failed", "retried", "end"], shards=8, weight=2),
        T("c07_giveup", "1 iteration allowed, symbolic FS, FT, RMIN and source", ["complete", "failed", "retried", "end"], shards=7, weight=2),
        T("c07_double", "symbolic FS, RMAX, TSTOP and source, ITL3 0..3", ["complete", "end"], shards=8, weight=3),
        T("c07_diode", "a diode across a ramp: retried points that take several iterations; symbolic slope and RMIN", ["complete", "failed", "retried", "end"], shards=6, weight=2),
        T("c07_count", "a source that becomes infinite"),
        T("c07_cuts", "up to 17 cuts in a row, arbitrary slope", ["failed", "retried", "end"]),
        T("c07_long", "dozens of points with the step rising and falling, arbitrary level", ["complete", "end"]),
        T("c07_retry_deep", "as c07_retry with RMIN down to 0.3", ["complete", "failed", "retried", "end"], shards=8, weight=4, tier="thorough"),
        T("c07_giveup_deep", "as c07_giveup with RMIN down to 0.2 and TSTOP 2", ["complete", "failed", "retried", "end"], shards=7, weight=5, tier="thorough"),
        T("c07_double_deep", "as c07_double with TSTOP up to 2.5", ["complete", "end"], shards=8, weight=4, tier="thorough"),
        T("c07_scaled", "TSTEP from 1e-3 to 4096, retried and growing steps, arbitrary slope", ["complete", "failed", "retried", "end"]),
        T("c07_mix", "200 generated choices of options, steps and sources, arbitrary slope", ["complete", "failed", "retried", "end"], shards=2),
        T("c07_mix_deep", "2000 more", ["complete", "failed", "retried", "end"], shards=8, weight=3, tier="thorough"),
        T("c07_longer", "300 points with an arbitrary ramp near the end"),
    ],
    bounds="a source of arbitrary value into a resistor, up to 6 accepted steps and 3 cuts in a row (fixed options: 300 points, 17 cuts in a row, 200 (2200) generated choices); FT in [0.1,1], RMIN in [0.2,1], FS in [0.5,2], RMAX in [0.75,3], ITL4 1..2, ITL3 0..3",
    outside="rounding; longer runs; circuits in which convergence depends on a device (C04, C22 cover the test itself)")

PLAN["C12"] = dict(
    tasks=[
        T("c12_flat", "two cards of arbitrary kinds on nodes of arbitrary names (up to 2 letters), ground in every spelling", ["ground", "same name", "other name", "end"], shards=6, weight=2),
        T("c12_long", "names of up to 70 characters that agree but in one or two places"),
        T("c12_sub", "an arbitrary name inside a definition, as a port and outside", ["ground inside", "same name outside", "end"], shards=3, weight=3),
        T("c12_many", "121 to 301 nodes and two arbitrary names among them", shards=3, weight=3),
        T("c12_tail", "names that are tails and heads of others, inside and outside an instance"),
        T("c12_nested", "four levels with ground in every spelling, an arbitrary name at each"),
        T("c12_mix", "60 generated decks of up to 2 levels, one arbitrary name", ["end"], shards=2),
        T("c12_mix_deep", "600 more", ["end"], shards=4, weight=3, tier="thorough")],
    bounds="decks of a few nodes (or 300 of known names), node names of up to 2 arbitrary characters (with up to 68 shared ones), with and without one subcircuit",
    outside="longer arbitrary names")
PLAN["C13"] = dict(
    tasks=[
        T("c13_kinds", "every kind of card inside a definition, arbitrary node names and values", shards=5, weight=2),
        T("c13_ports", "ports of arbitrary names in any order, two instances", shards=4, weight=3),
        T("c13_nest", "definitions that use others, four shapes", shards=2),
        T("c13_order", "every order of definitions and cards in the file"),
        T("c13_deep", "chains of up to 4 levels"),
        T("c13_defnames", "definitions of arbitrary names of up to 3 characters"),
        T("c13_instnames", "instances of arbitrary names of up to 2 characters after the X, in two scopes"),
        T("c13_large", "eight decks of five definitions that use each other, up to 12 ports and 6 parameters, dozens of elements; an arbitrary name", shards=8, weight=2),
        T("c13_many", "15 instances of one definition"),
        T("c13_odd", "definitions that are empty, unused, without ports, with unused ports, with instances only; cards on one net"),
        T("c13_tall", "12 levels, 24 definitions"),
        T("c13_mix", "80 generated decks of up to 4 levels, one arbitrary name", ["end"], shards=2),
        T("c13_mix_deep", "800 larger ones", ["end"], shards=8, weight=3, tier="thorough"),
        T("c13_crowd", "70 to 140 instances of 1 or 30 definitions", shards=2),
    ],
    bounds="up to 3 definitions of up to 4 cards, 4 levels of nesting, 3 instances, names of up to 2 characters, every value; fixed and generated decks of up to 30 definitions, 140 instances, 12 ports, with one arbitrary name and value",
    outside="instance names that clash or contain a dot; instances with too few or too many connections; recursive definitions; other large decks (each instance is expanded on its own)")
PLAN["C14"] = dict(
    tasks=[T("c14_chain", "a value handed down through six levels"), T("c14_wide", "nine parameters, overridden in six patterns"), T("c14_override", "which of two parameters an instance overrides, arbitrary values"), T("c14_scope", "parameters of one name in definition and caller", ["same name", "end"]), T("c14_names", "arbitrary parameter names"), T("c14_kinds", "a parameter as the value of every kind of card"), T("c14_many", "several instances with different overrides"), T("c14_instnames", "instances of arbitrary names of up to 2 characters after the X, each with a value of its own"),
        T("c14_text", "defaults, overrides and cards in 16 notations for numbers"),
        T("c14_mix", "80 generated decks with parameters, one arbitrary name and value", ["end"], shards=2),
        T("c14_mix_deep", "800 larger ones", ["end"], shards=8, weight=3, tier="thorough"),
        T("c14_tall", "chains of 12 and 20 levels, definitions of 24 parameters"),
    ],
    bounds="up to 3 parameters of up to 2 arbitrary characters, 3 instances, 3 levels, every value; fixed names: 24 parameters, 20 levels, 80 (880) generated decks",
    outside="expressions other than a parameter's name (not supported by the format); other large decks")
PLAN["C15"] = dict(
    tasks=[T("c15_title", "an arbitrary title of up to 14 characters"), T("c15_comment", "a comment line with arbitrary text before every line", shards=6), T("c15_blank", "a blank line of arbitrary white space, or a comment of its own, before every line", shards=4), T("c15_tail", "a comment with arbitrary text behind every line", shards=2), T("c15_spaces", "arbitrary white space around and between the fields of every line", shards=4), T("c15_source", "arbitrary white space in every place within the parentheses of PWL and SIN", shards=2),
        T("c15_comment_long", "comment lines of up to 6 arbitrary characters", shards=8, tier="thorough", weight=3), T("c15_tail_long", "comments of up to 8 arbitrary characters behind every line", shards=4, tier="thorough"),
        T("c15_library", "blank lines, arbitrary comments and white space on every line of a library", shards=4),
        T("c15_words", "22 comments that look like cards, before and behind every line", shards=2),
        T("c15_pairs", "twelve titles, comments and blank lines in many places at once, up to 40 in a row"),
        T("c15_mix", "60 generated decks with comments, blank lines and white space strewn in, one arbitrary character", ["end"], shards=2),
        T("c15_mix_deep", "500 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c15_long", "titles, comments, tails and white space of 70 to 2000 characters, one of them arbitrary"),
    ],
    bounds="a deck of 13 lines with every kind of line; one change at a time: titles of up to 14 arbitrary ASCII characters, comments of 3 (thorough: 6 and 8), white space of up to 3 characters in every place; of 70 to 2000 characters with one arbitrary", outside="other decks (the reader treats each line by itself); characters outside ASCII")
PLAN["C16"] = dict(
    tasks=[T("c16_many", "one of eight sections of similar names"), T("c16_six", "six library cards of three files in three directories"), T("c16_section", "two sections among cards, in either order, arbitrary values"), T("c16_names", "arbitrary section names of up to 2 letters", ["first", "second", "end"], shards=5), T("c16_dir", "the library beside, below and above the deck, with another of that name in the working directory"), T("c16_two", "two library cards, of one file and of two, with subcircuits"), T("c16_noise", "arbitrary text of 4 characters outside of the section", shards=3),
        T("c16_clash", "14 section names that are also names of definitions, cards, files, commands"),
        T("c16_noted", "comments that look like sections, in every line of the library"),
        T("c16_body", "every kind of card in a section, six paths to the file"),
        T("c16_mix", "150 generated decks spread over sections of one or two libraries", ["end"], shards=2),
        T("c16_mix_deep", "500 more", ["end"], shards=4, weight=3, tier="thorough"),
        T("c16_crowd", "30 library cards of ten files or with a definition each, a section of 100 cards"),
    ],
    bounds="libraries of two sections and cards outside them, section names of up to 2 characters, two library cards, every value; fixed: 30 library cards of ten files, sections of 100 cards",
    outside="nested library cards; a first line of the library that is not a title or comment (skipped like a deck's); sections of the same name")
PLAN["C17"] = dict(
    tasks=[T("c17_many", "a dozen commands in one block or four, arbitrary numbers"), T("c17_tran", "a tran command with arbitrary numbers, among options"), T("c17_last", "two analysis commands, in every order"), T("c17_options", "three options in every order, repeated ones"), T("c17_unknown", "commands of up to 3 arbitrary characters", ["op", "unknown", "end"]), T("c17_option_names", "options of arbitrary names of up to 5 characters, and ones of up to 7 that look like a known one", ["known", "end"], shards=8), T("c17_go", "the engine runs the analysis asked for"),
        T("c17_text", "numbers in 14 notations in every place"),
        T("c17_mix", "300 generated sequences of control blocks, arbitrary numbers", ["end"], shards=1),
        T("c17_mix_deep", "3000 more", ["end"], shards=4, weight=3, tier="thorough"),
        T("c17_crowd", "control blocks of 60 commands, arbitrary last ones"),
    ],
    bounds="control blocks of up to 4 commands (fixed: 60), every number, names of up to 5 characters", outside="numbers that cannot be read")
PLAN["C18"] = dict(
    tasks=[T("c18_names", "three nodes of arbitrary names, voltages that tell them apart", shards=6, weight=2), T("c18_alias", "a node with several names", shards=4), T("c18_rows", "nine sizes up to 101 nodes and 13 sources, arbitrary values and signs", shards=9), T("c18_digits", "eight concrete numbers"), T("c18_tran", "a transient with DC and time-dependent sources, in four orders", shards=2),
        T("c18_tiny", "steps of 1e-12 to 1e-9: rows whose times are printed alike"),
        T("c18_lines", "80 to 500 rows"),
        T("c18_wide", "11 instances and 12 sources", shards=2),
        T("c18_mix", "100 generated hierarchical decks, DC and transient, every name and column", ["end"], shards=2),
        T("c18_mix_deep", "300 more", ["end"], shards=4, weight=3, tier="thorough"),
        T("c18_longer", "a result of 1001 rows, an arbitrary source"),
    ],
    bounds="up to 101 nodes and 13 voltage-defined sources, 1001 rows, node names of up to 3 characters, every value", outside="the decimal expansion of a symbolic value (eight concrete ones are checked); an unwritable file")
PLAN["C19"] = dict(
    tasks=[T("c19_sequence", "the seventh run on one engine, circuits of one size, another engine in between"), T("c19_decks", "four decks in a row whose definitions have the same names"), T("c19_reuse", "an operating point after each of 36 pairs of runs", shards=4), T("c19_tran", "a transient after each of 24 pairs of runs", shards=4), T("c19_reread", "a deck read and run twice"),
        T("c19_pairs", "64 pairs of circuits of one size, with up to two diodes and two capacitors, DC and transient", shards=2),
        T("c19_failed", "after analyses that failed, were stopped, had other options, were larger or smaller"),
        T("c19_mix", "150 generated histories of up to four runs", ["end"], shards=2),
        T("c19_mix_deep", "800 more", ["end"], shards=8, weight=3, tier="thorough"),
        T("c19_unfinished", "an analysis stopped at its iteration limit after ones that converged")],
    bounds="six circuits with arbitrary source values in all ordered pairs, operating points and transients of up to 4 steps; twelve fixed sequences of six runs; four decks in a row; 150 (950) generated histories of up to four runs", outside="other long histories; larger circuits")
PLAN["C20"] = dict(
    tasks=[T("c20_places", "a faulty card in 13 places among 20 lines of every kind", ["good", "bad", "end"]), T("c20_names", "an arbitrary character in every place a node name can be", ["good", "bad", "end"], shards=4), T("c20_utf8", "an arbitrary two-byte character there", shards=8), T("c20_fields", "every card cut short at every field", shards=4), T("c20_values", "arbitrary text of up to 2 characters in place of a value; a fault anywhere in a deck of 400 lines", ["number", "no value", "end"], shards=2), T("c20_structure", "twelve arrangements of definitions, good and bad"), T("c20_dot", "dot-cards of up to 3 arbitrary characters"), T("c20_lib", "faults in a library, in the section used and in others"),
        T("c20_dot_long", "22 dot-cards of longer names, one arbitrary character in them"),
        T("c20_names_long", "an arbitrary character in names of 9 to 80 characters", ["good", "bad", "end"]),
        T("c20_brace", "arbitrary malformed text in braces in place of a value"),
        T("c20_twice", "two faults with good cards between them", shards=2),
        T("c20_mix", "200 generated decks with one fault anywhere, in the deck or a library; an arbitrary character", ["bad", "good", "end"], shards=2),
        T("c20_mix_deep", "600 more", ["bad", "good", "end"], shards=4, weight=3, tier="thorough"),
        T("c20_far", "a fault (or none: an arbitrary character) at four places of a deck of 150 or 400 lines", shards=4),
    ],
    bounds="node names of up to 3 characters with one arbitrary character in 32 places; cards cut at every field; text of up to 2 characters in place of a value", outside="unparsable numbers in control commands; invalid UTF-8; several faults at once")
PLAN["C23"] = dict(
    tasks=[T("c23_one", "one instance", shards=2), T("c23_two", "two instances", shards=2), T("c23_nest", "nested instances", shards=2), T("c23_param", "parameters"), T("c23_kinds", "sources in a subcircuit", shards=2), T("c23_kinds2", "more sources in a subcircuit", shards=8, weight=5, tier="thorough"), T("c23_lib", "a library and options", shards=2), T("c23_waves", "a transient", shards=5, weight=2), T("c23_wide", "names that start or end like others, tables of a dozen entries; any one key of a table", shards=4),
        T("c23_tail", "names that are tails of others; any one key of a table", shards=4),
        T("c23_wide2", "the same; any two keys", shards=16, weight=6, tier="thorough")]
        + [T("c23_%s3" % n, "%s; any three keys of a table" % d, shards=8, weight=w, tier="thorough") for n, d, w in [("one", "one instance", 1), ("two", "two instances", 1), ("nest", "nested instances", 1), ("param", "parameters", 1), ("kinds", "sources in a subcircuit", 3), ("waves", "a transient", 3)]]
        + [T("c23_mix", "16 generated decks; any one key of a table", ["end"], shards=8),
        T("c23_mix_deep", "120 more", ["end"], shards=8, weight=3, tier="thorough")],
    bounds="seven decks; the hashes of any two (thorough: three; one, thorough two, in the largest deck) keys of any one hash table arbitrary, the others equal",
    outside="orders that need more keys to move at once")

# properties without a check, and why
NA = {}
