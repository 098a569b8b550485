#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
P = []
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def where(name, files):
    for f in files:
        try:
            if ("fn %s" % name) in open(os.path.join("/repo", f)).read():
                return "%s: fn %s" % (f, name)
        except OSError:
            pass
    return files[0]
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=where(m, files)) for m in mech])))

p("C01", "DC operating point of a linear circuit satisfies Kirchhoff's laws",
  "For every circuit of resistors, DC current sources, DC voltage sources, VCVS (E) and VCCS (G) elements whose equations have a unique solution, the DC operating point holds ground at 0 V, sums the currents leaving every other node to zero, and satisfies every source's branch equation (v(p)-v(n)=V, resp. k*(v(cp)-v(cn))). A current source p n I drives I from p through itself to n, a G element drives k*(v(cp)-v(cn)) from p through itself to n, and the reported current of a voltage source is the one flowing into its p terminal through the source to n.",
  ["inputs", "programs"], "all topologies of at most the stated number of nodes and elements, all element values",
  "The tests check a handful of fixed decks with fixed values; a sign, terminal or ground-row slip in one stamp shows only for other terminal/ground combinations.",
  ["src/engine.rs", "src/circuit.rs", "src/element/vdepsrc.rs", "src/element/independent.rs"],
  ["elaborate", "stamp_resistor", "stamp_current_source", "stamp_voltage_source", "v_dependent_source_stamp", "dc_solve", "solve"])
p("C02", "The linear solver solves every uniquely solvable system",
  "Whatever the (square, nonsingular) nodal system a circuit gives rise to, including zero or small diagonal entries that force row exchanges, the values returned satisfy every equation of that system; no equation is dropped and no unknown is left at a default. Each elimination step pivots on an entry of largest magnitude.",
  ["inputs"], "all real matrices and right-hand sides up to the stated order (driven through circuits of G and I elements, which realise any matrix)",
  "Tests reach only the few pivot orders their decks produce; which row is swapped depends on the relative size of the coefficients.",
  ["src/engine.rs"], ["solve", "index_of_next_abs"])
p("C03", "Diode model: companion is tangent to the Shockley curve, with limiting",
  "For every saturation current, temperature and voltage the diode's linearised model (g, i) is the tangent of I(v)=Is*(exp(v/Vt)-1) at its linearisation voltage, with g at least GMIN. The linearisation voltage is the requested one whenever that is below the critical voltage or within 2*Vt of the last one; otherwise the step is limited: a higher request is approached logarithmically without being passed, a lower one falls back to the critical voltage Vt*ln(Vt/(sqrt(2)*Is)), and repeated requests of the same voltage reach it.",
  ["inputs", "histories"], "all Is>0, temperatures, voltages and previous voltages",
  "The only diode unit test prints a curve; limiting branches depend on the previous linearisation, i.e. on a history.",
  ["src/element/diode.rs"], ["linearize", "update_v_thermal", "update_v_crit"])
p("C04", "Converged diode circuits satisfy Kirchhoff's current law with the diode law",
  "When a DC analysis with diodes stops before its iteration limit, the reported voltages solve the circuit in which every diode is replaced by its tangent at its (limited) previous voltage, the last two iterates agree within VNTOL/ABSTOL + RELTOL*|x|, and iteration counts never exceed ITL1+1. A diode p n conducts from p to n: the exponential current leaves node p and enters node n.",
  ["inputs", "programs", "configurations"], "all element values, orientations incl. grounded terminals and floating diodes, tolerances",
  "Tests use diodes with one terminal pattern per deck and fixed values and tolerances.",
  ["src/engine.rs", "src/element/diode.rs"], ["nonlinear_stamp", "dc_solve", "convergence_check"])
p("C05", "Capacitors integrate by backward Euler between recorded time points",
  "In a transient analysis every accepted time point satisfies Kirchhoff's current law with each capacitor carrying C*(v(t)-v(t_prev))/(t-t_prev), where t and t_prev are the times printed for this point and the point accepted before it and v(t_prev) the voltages accepted there; the first step starts from the DC operating point. In DC a capacitor is an open circuit.",
  ["inputs", "histories", "configurations"], "all capacitances, step sequences within the bound, terminal/ground combinations",
  "The tests look at a few settled values; a wrong step size or initial state in one step is averaged away.",
  ["src/engine.rs", "src/element/capacitor.rs"], ["storage_stamp", "linearize", "transient_analysis"])
p("C06", "Transient time axis: starts at 0, strictly increases, reaches TSTOP",
  "For 0 < TSTOP and TSTART <= TSTOP, the recorded transient starts with the DC solution at t=0, then has strictly increasing times, each no more than RMAX*TSTEP after the previous accepted one, records every accepted point from TSTART on and none between 0 and TSTART, and ends exactly at TSTOP. Every recorded point is the solution for the sources' values at that recorded time.",
  ["inputs", "configurations", "histories"], "all TSTEP, TSTOP, TSTART, RMAX, FS within the bound on the number of steps",
  "Tests use a few tran cards and only check plausible extremes of the waveform.",
  ["src/engine.rs", "src/analysis.rs"], ["transient_analysis", "independent_source_stamp"])
p("C07", "Transient step control: retry smaller, give up honestly",
  "A time point that does not converge within ITL4 iterations is retried with the step multiplied by FT; when the step falls below RMIN*TSTEP, or the numbers become non-finite, the analysis stops and its reported end time is the last accepted time, short of TSTOP. A point converging in fewer than ITL3 iterations without retry doubles the next step, never above RMAX*TSTEP; the reported iteration count is the number of solves performed, DC included.",
  ["configurations", "histories"], "all ITL3, ITL4, FT, RMIN, RMAX and convergence histories within the bound",
  "No test makes a transient step fail.",
  ["src/engine.rs", "src/analysis.rs"], ["transient_analysis"])
p("C08", "PWL sources follow their points",
  "A PWL source without repeat is 0 before its delay, then interpolates linearly between its points, hits every listed value at its (delayed) time, and holds the last value from the last point on; with repeat it follows the same pattern periodically. It never yields a non-finite value for finite points with strictly increasing times.",
  ["inputs"], "all point lists up to the stated length, delays and times",
  "Existing tests only parse a PWL deck; none evaluates a source.",
  ["src/element/vpwl.rs", "src/spice.rs"], ["evaluate", "extract_v_pwl"])
p("C09", "SIN sources follow offset + amplitude*sin(2*pi*f*t)",
  "A SIN(vo va freq) voltage or current source has the value vo + va*sin(2*pi*freq*t) at every time t; DC analysis uses its value at t=0, and every transient point uses the value at that point's time. The card's three numbers land in offset, amplitude and frequency in that order, for both V and I sources.",
  ["inputs"], "all offsets, amplitudes, frequencies and times",
  "Tests sample a couple of sine decks with a zero offset.",
  ["src/element/isine.rs", "src/element/vsine.rs", "src/engine.rs", "src/spice.rs"], ["evaluate", "independent_source_stamp", "extract_v_sine", "extract_i_sine"])
p("C10", "Engineering numbers are read at their value, and junk never panics",
  "A numeric text [sign]digits[.[digits]] optionally followed by one of k m u n p (and any unit letters), or by an exponent e[sign]digits, denotes that decimal number times 1e3, 1e-3, 1e-6, 1e-9 or 1e-12 respectively (or ten to the exponent). Text that does not start like a number yields no value, and no text whatsoever makes the reader of numbers panic.",
  ["inputs"], "all texts up to the stated length",
  "The existing tests try about twenty hand-picked strings.",
  ["src/bracket_expression.rs"], ["extract_value"])
p("C11", "Bracket expressions name exactly one identifier",
  "A text {ident}, with optional blanks inside the braces, denotes the parameter named by exactly those alphanumeric characters; a text not starting with a brace is read as a number. A text starting with a brace that is not of that form (empty braces, a character that is not alphanumeric inside, no closing brace) is rejected, and no text makes the expression reader panic.",
  ["inputs"], "all texts up to the stated length",
  "The tests try a few well-formed texts; unterminated ones panic.",
  ["src/bracket_expression.rs"], ["extract_expression"])
p("C12", "Node names: same name same node, ground is global",
  "Within one scope two node names denote the same node exactly when they are equal, except that 0, gnd and GND all denote the one global ground, at every level of the hierarchy. Distinct nodes get distinct rows, and a circuit may have any number of nodes.",
  ["inputs", "programs"], "all node names up to the stated length, hierarchical or not",
  "Tests use a few fixed names.",
  ["src/circuit.rs", "src/spice.rs", "src/expander.rs"], ["add_node", "get_node_id", "extract_node", "local_connect", "count_nodes"])
p("C13", "Subcircuit expansion is flattening",
  "Expanding a deck (whose instances have distinct alphanumeric names within each scope and connect every port) yields exactly one element per card per instance path of its subcircuit: terminals on a port become the net the instance connects there (positionally), terminals on ground stay ground, and terminals on internal nets become nets private to that instance, shared by all cards of that instance that use the name. This holds for every element kind, including sources, and every nesting depth.",
  ["programs", "inputs"], "all hierarchical decks within the stated bound on subcircuits, ports, instances and cards",
  "The tests count nodes of two fixed decks; they never check who is connected to whom.",
  ["src/expander.rs", "src/circuit.rs", "src/spice.rs"], ["expand", "expand_instances", "expand_subckt", "expand_primitive", "local_connect"])
p("C14", "Parameters: instance override, else default, resolved in the right scope",
  "A subcircuit parameter takes the value given on the instance line if there is one and otherwise the default from the .subckt line; an identifier on an instance line is looked up in the scope of the instantiating circuit. Every element takes the value of its own card, independently for every instance.",
  ["programs", "inputs"], "all values and combinations of override/default/identifier within the stated hierarchy",
  "One fixed deck checks three propagated values.",
  ["src/expander.rs", "src/parameter.rs", "src/spice.rs"], ["expand_instances", "get_param_value", "extract_override", "extract_parameter"])
p("C15", "Title, comment and blank lines never change the circuit",
  "The first line of a deck, every line whose first non-blank character is *, blank lines, everything after a semicolon, and the amount of white space between fields have no influence on the circuit, the options or the analysis read from the deck.",
  ["inputs", "programs"], "all comment texts and placements within the stated bound",
  "Tests only read decks that happen to contain well-spaced comments.",
  ["src/spice.rs"], ["read_spice"])
p("C16", "A .lib card takes exactly the named section",
  "A card .lib <file> <section> contributes exactly the cards between .lib <section> and its .endl in that file, found relative to the including deck, and nothing from other sections or outside of sections. Subcircuits defined there are usable by the deck and the cards after the .lib card are read normally.",
  ["programs", "inputs"], "all section names up to the stated length and section orders",
  "Tests read two fixed library files.",
  ["src/spice.rs"], ["read_spice", "look_for_file"])
p("C17", "Control block: analysis and options are taken as written",
  "op selects the DC operating point; tran <step> <stop> [start] selects a transient with exactly those values; option ABSTOL|RELTOL|RMAX = value sets exactly that option. Everything not set keeps its default, unknown commands and options change nothing, and the last analysis command wins.",
  ["inputs", "programs"], "all values and command orders within the stated bound",
  "Tests use a few fixed control blocks and mostly observe indirect effects.",
  ["src/spice.rs", "src/analysis.rs"], ["read_spice", "extract_option"])
p("C18", "Waveform file: one named column per unknown, one row per accepted point",
  "The waveform file consists of a header naming Time, v(<node>) for every node in node order (ground first) and i(<k>) for every voltage-defined source, a units line (s, V..., A...) of the same width, and then rows of the same width holding the time and the unknowns in that order (to nine decimals), as accepted by the engine. Each v() column is headed by a name of the node it holds.",
  ["programs", "inputs"], "all node/source counts within the bound and all values",
  "Tests never read a waveform file back.",
  ["src/wavewriter.rs", "src/engine.rs", "src/circuit.rs"], ["header", "dump_vector", "build_node_id_lut"])
p("C19", "An engine gives the same answer whatever it simulated before",
  "Running an analysis on an engine that has already run other analyses, of the same or another circuit, gives the same operating point, iteration count and waveform as running it on a fresh engine with a freshly read circuit.",
  ["histories"], "all pairs of analyses over the stated element kinds and all element values",
  "Every test builds a fresh engine.",
  ["src/engine.rs", "src/element/diode.rs"], ["elaborate", "go", "dc_operating_point", "transient_analysis"])
p("C20", "A deck with errors is reported as such, a good deck is not",
  "Reading returns that there are errors when a card has an ill-formed node name, a device card lacks a terminal or value, a subcircuit definition is nested, .ends has no .subckt, or a dot-card is not supported; it returns no errors for a deck without such faults.",
  ["inputs", "programs"], "all single-fault decks within the stated bound",
  "No test reads a faulty deck.",
  ["src/spice.rs"], ["read_spice", "extract_node", "extract_primitive", "extract_parameter", "extract_override"])
p("C21", "Every node and every voltage-defined source has its own unknown",
  "For every circuit the number of nodes counted covers every node any element connects to (whatever their order of appearance or number), the number of voltage-defined sources counts each V, SIN, PWL and E element once, and their branch indices are exactly 0..count-1, so that no two unknowns share a matrix row.",
  ["programs", "inputs"], "all element lists within the bound, added in any order, before or after expansion",
  "Tests count nodes of fixed decks only.",
  ["src/circuit.rs", "src/expander.rs", "src/engine.rs"], ["count_nodes", "count_voltage_sources", "add_v", "add_v_sin", "add_v_pwl", "expand_primitive"])
p("C22", "Convergence test: every unknown within its own tolerance",
  "The convergence test accepts two successive solutions exactly when every entry is finite and every entry changed by no more than RELTOL*|x| plus VNTOL (node voltages) or ABSTOL (source currents); it reports an error exactly when the new solution has a non-finite entry.",
  ["inputs", "configurations"], "all IEEE doubles (including NaN, infinities) in vectors up to the stated length",
  "No test calls it directly.",
  ["src/engine.rs"], ["convergence_check"])
p("C23", "Results do not depend on hash seeds",
  "Reading and simulating the same deck gives the same circuit, the same column names, and the same waveform in every run, although the name tables are hash maps with a random seed per run.",
  ["schedules", "programs"], "all iteration orders of the name tables",
  "One run sees one seed, and the tests look at no node name.",
  ["src/circuit.rs", "src/expander.rs", "src/wavewriter.rs"], ["build_node_id_lut", "header", "expand_subckt"])

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
