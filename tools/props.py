"""Source of properties.jsonl and MANIFEST.json (run from anywhere)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DC = "qctrlopencontrols/driven_controls/driven_control.py"
DP = "qctrlopencontrols/driven_controls/predefined.py"
DS = "qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py"
SP = "qctrlopencontrols/dynamic_decoupling_sequences/predefined.py"
UT = "qctrlopencontrols/utils.py"
CO = "qctrlopencontrols/constants.py"
INIT = "qctrlopencontrols/__init__.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, **kw):
    assert len(title) <= 80, (id, len(title))
    rec = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        rec["anchors"]["observe_at"] = observe
    P.append((rec, note, kw))


prop("C01", "Driven-control construction accepts exactly the valid segment lists",
     "Building a driven control raises an error exactly when some duration is not strictly positive, some Rabi rate is "
     "negative, or a supplied array (Rabi rates, azimuthal angles, detunings) has a different length from the durations. "
     "Every such rejection is the package's own argument error and happens for lists and arrays alike, whichever "
     "arrays are omitted.",
     ["inputs", "configurations"], "every segment count n >= 1, all real values, lists and arrays, every subset of "
     "optional arrays", "a test samples a few arrays; the rule is an equivalence over all lengths and values",
     [DC, UT], [("constructor checks", DC + " DrivenControl.__init__"), ("argument check", UT + " check_arguments")],
     "raise condition extracted as one boolean term over symbolic length and elements, proved equivalent to the rule")

prop("C02", "A driven control stores its inputs unchanged and fills omitted ones with zeros",
     "After construction the durations, Rabi rates, azimuthal angles, detunings and name of a driven control equal the "
     "values supplied, element by element and in order. An omitted array reads as zero on every segment, and an omitted "
     "name reads as none.",
     ["inputs", "configurations"], "every segment count n >= 1, all valid values, integer or float elements, lists and "
     "arrays, every subset of optional arrays", "holds per element for all lengths; swapped or aliased fields can agree "
     "on sampled data", [DC], [("constructor", DC + " DrivenControl.__init__")],
     "stored field terms compared with input elements at a symbolic index")

prop("C03", "Derived quantities of a driven control follow from its segments",
     "For every driven control: amplitudes are rate times cosine/sine of the azimuthal angle; rotation angle per segment "
     "is sqrt(rate^2+detuning^2) times duration; times are the n+1 cumulative sums of durations starting at 0; maximum rate, maximum "
     "detuning and maximum/minimum duration are the extreme elements, total duration is the sum and the segment number is "
     "the number of durations. Each direction row is the unit vector (x amplitude, y amplitude, detuning)/norm of its segment, and all "
     "zeros for a segment with neither drive nor detuning. Unit-vector rows are claimed for segments whose norm is at least "
     "1e-12 of the largest.",
     ["inputs"], "every segment count n >= 1, all valid values, every subset of optional arrays",
     "formulas must hold at every index and for all values, including idle and single segments",
     [DC], [("accessors", DC + " DrivenControl properties")],
     "accessor terms compared with the documented formula at a symbolic index (sum/max binders for cumulative and extreme values)")

prop("C04", "Exporting a driven control lists every segment's value and duration",
     "The dictionary exported by a driven control has one list per quantity with one entry (value and duration) per segment in "
     "order: for cartesian coordinates X amplitude, Y amplitude and Detuning; for cylindrical coordinates the complex Rabi "
     "rate and Detuning. Rabi values are divided by the largest Rabi rate when the dimensionless option is on (the default) and that rate is "
     "not zero; detunings never are; the default coordinates are cylindrical. Any other coordinate name raises the package's argument error.",
     ["inputs", "configurations"], "every segment count n >= 1, all valid values, both coordinate systems, both settings of the option",
     "per-index equality over all lengths and the zero-drive corner cannot be enumerated",
     [DC, CO], [("export", DC + " DrivenControl.export"), ("coordinate enum", CO)],
     "returned dictionary extracted as exact key set plus per-index value terms")

prop("C05", "Files written by a driven control contain exactly its segments",
     "Exporting a driven control to a file opens the named path once for overwriting and writes, as comma-separated rows in "
     "column-name order with a header, or as one JSON object: duration and detuning per segment, the largest Rabi rate, and "
     "for cartesian the x/y amplitudes, for cylindrical the Rabi rates and azimuthal angles, with amplitudes and rates divided by "
     "the largest Rabi rate (undivided if it is zero). The name appears in the JSON object exactly when the control has one and never changes the CSV. "
     "Defaults are CSV and cylindrical.",
     ["inputs", "configurations"], "every segment count n >= 1, all valid values and names, both file types and coordinates",
     "row-by-row correspondence must hold for all lengths, names and zero-drive controls",
     [DC, CO], [("file export", DC + " DrivenControl.export_to_file")],
     "file effects (open mode, rows, JSON body) extracted from the effect trace and compared with the documented layout")

prop("C06", "File export rejects unsupported options before touching the file",
     "Exporting a driven control or a decoupling sequence to a file raises the package's argument error exactly when the file format, file type or coordinate "
     "name is not one of the documented values. When it raises for that reason no file has been opened or written.",
     ["inputs", "configurations", "fault_sequences"], "every string, and none at all, for each of the three options, both classes",
     "all strings, and an effect-order requirement that normal return values do not show",
     [DC, DS, CO], [("driven export", DC + " DrivenControl.export_to_file"),
                    ("sequence export", DS + " DynamicDecouplingSequence.export_to_file")],
     "effect-order analysis: raise conditions and the file effects that precede them")

prop("C07", "Printed forms of a driven control reproduce its stored values",
     "The text form of a driven control prints, in order and one number per segment, Rabi rates relative to the largest rate, azimuthal "
     "angles in units of pi, detunings relative to the largest absolute detuning and durations relative to the total, each "
     "followed by its scale, preceded by the name when there is one; if a scale is zero every number printed is 0. The evaluable form "
     "names the class and lists Rabi rates, azimuthal angles, detunings, durations and name with their stored values.",
     ["inputs"], "every segment count n >= 1, all valid values and names", "scale and order must be right for all values, "
     "including all-negative detunings and zero scales", [DC], [("text forms", DC + " DrivenControl.__str__ / __repr__")],
     "string built as a concatenation term with a join binder over segments")

prop("C08", "Primitive, BB1 and SK1 controls match their published pulse recipes",
     "For every target rotation in their domain, maximum rate and azimuthal angle, the primitive, BB1 and SK1 controls consist of exactly the "
     "published segments: every segment at the maximum rate with zero detuning, the published azimuthal angle (relative "
     "correction angle arccos(-theta/4pi)) and duration rotation/rate. The name given is the name of the control.",
     ["inputs"], "all real rotations in the domain, all positive rates, all azimuthal angles",
     "published angles are transcendental functions of the rotation; tests fix a few values", [DP],
     [("schemes", DP + " new_primitive_control / new_bb1_control / new_sk1_control")],
     "segment terms compared with the recipe in trigonometric normal form, symbolic rotation, rate and angle")

prop("C09", "CORPSE, CORPSE in BB1 and CORPSE in SK1 match their published recipes",
     "For every target rotation in their domain, maximum rate and azimuthal angle, the CORPSE, CORPSE-in-BB1 and CORPSE-in-SK1 controls "
     "consist of exactly the published segments: 2pi+theta/2-k, 2pi-2k, theta/2-k with k = arcsin(sin(theta/2)/2), followed by the "
     "BB1 or SK1 correction segments, all at the maximum rate with zero detuning.", ["inputs"],
     "all real rotations in the domain, all positive rates, all azimuthal angles",
     "the segment angles are nested inverse trigonometric functions of a continuous input", [DP],
     [("schemes", DP + " new_corpse_control / new_corpse_in_bb1_control / new_corpse_in_sk1_control")],
     "as C08; positivity of CORPSE segments rests on a stated analytic lemma |arcsin(sin(x)/2)| <= pi/6 bounds")

prop("C10", "SCROFULOUS, CORPSE in SCROFULOUS and WAMF1 use the tabulated solutions",
     "For target rotations pi, pi/2 and pi/4 the SCROFULOUS, CORPSE-in-SCROFULOUS and WAMF1 controls consist of exactly the published "
     "segments (tabulated angles and rates, azimuthal angles added to the requested one, zero detuning) for every maximum rate and azimuthal "
     "angle.", ["inputs"], "three targets, all positive rates, all azimuthal angles",
     "scaling in rate and angle must hold for all reals", [DP],
     [("schemes", DP + " new_scrofulous_control / new_corpse_in_scrofulous_control / new_wamf1_control")],
     "as C08 for each tabulated target")

prop("C11", "Predefined driven controls reject exactly the out-of-domain arguments",
     "A predefined driven control raises the package's argument error exactly when the maximum rate is not positive, or the rotation is not "
     "positive (more than 4pi for BB1, SK1 and their CORPSE versions), or, for SCROFULOUS, CORPSE in SCROFULOUS and WAMF1, not within numerical closeness of pi, "
     "pi/2 or pi/4. The modulated Gaussian raises it exactly when the rate or segment duration is not positive, the "
     "duration does not exceed the segment duration, or the rate is below sqrt(2pi)/(0.1*duration).",
     ["inputs"], "all real arguments", "boundary values of real intervals cannot be enumerated", [DP, UT],
     [("domain checks", DP + " all new_*_control"), ("argument check", UT)],
     "raise condition proved equivalent to the documented domain; exception classes collected over all raise sites")

prop("C15", "Decoupling-sequence construction accepts valid inputs only and stores them",
     "Building a decoupling sequence raises the package's argument error exactly when the duration is not positive, an offset is "
     "negative or exceeds the duration, or the arrays differ in length. Otherwise duration, offsets, rotations, azimuthal angles, "
     "detuning rotations and name equal the inputs element by element, for any number of offsets including none.",
     ["inputs", "configurations"], "every offset count n >= 0, all values, lists and arrays",
     "an equivalence over all lengths and values", [DS, UT],
     [("constructor", DS + " DynamicDecouplingSequence.__init__")],
     "raise condition and stored fields as in C01/C02")

prop("C16", "Exported and printed decoupling sequences reproduce every operation",
     "The exported dictionary has exactly the entries Rabi and Detuning, each with one item per offset in order giving the rotation "
     "(complex, rotation times exp(i azimuthal angle), for Rabi) and the offset. The text form prints duration, offsets relative to the duration and "
     "rotations and angles in units of pi (name first when present); the evaluable form lists duration, offsets, rotations, angles, detuning "
     "rotations and name with their stored values.", ["inputs"], "every offset count n >= 0, all valid values and names",
     "per-index correspondence over all lengths", [DS],
     [("export and text", DS + " DynamicDecouplingSequence.export / __str__ / __repr__")], "as C04 and C07")

prop("C18", "Single-axis sequences place pi pulses at their closed-form times",
     "Without pre/post rotations and for every duration T and pulse number m: Ramsey has no pulses, spin echo one X pulse at T/2, Carr-Purcell X and CPMG Y "
     "pulses at T(k-1/2)/m, Uhrig Y pulses at T sin^2(pi k/(2m+2)), periodic X pulses at T k/(m+1), k = 1..m. All are pi rotations with zero detuning rotation, azimuthal "
     "angle 0 for X and pi/2 for Y, and duration and name are passed through; leaving the pre/post option out means none.",
     ["inputs"], "all positive durations, all m >= 1", "closed forms hold for every m; tests fix a few", [SP],
     [("schemes", SP + " new_ramsey_sequence .. new_periodic_sequence")],
     "loops summarised to closed forms with symbolic m and duration, compared at a symbolic index")

prop("C19", "Quadratic sequences nest Uhrig timings of Z pulses inside X pulses",
     "Without pre/post rotations, a quadratic sequence of duration T with m outer and p inner pulses has the X pi pulses at "
     "T sin^2(pi j/(2m+2)), j = 1..m, and in each of the m+1 intervals between them (and the ends) p Z pi pulses "
     "(detuning rotation pi, no Rabi rotation) at the Uhrig fractions sin^2(pi k/(2p+2)) of that interval, in time order.",
     ["inputs"], "all positive durations, all m, p >= 1", "two independent symbolic counts with nested layout", [SP],
     [("scheme", SP + " new_quadratic_sequence / _uhrig_single_axis_offsets")],
     "two-dimensional loop summary flattened to block positions, proved for symbolic counts")

prop("C20", "Walsh sequences place X pi pulses at the sign changes of the Walsh function",
     "Without pre/post rotations, a Walsh sequence of Paley order k has exactly one X pi pulse at every sign change of the Walsh function "
     "of that Paley order (product of the Rademacher functions selected by the binary digits of k) stretched over the duration, in time order.",
     ["inputs"], "all positive durations; Paley orders 1 to 64 and selected larger ones up to 2000 (see evidence)",
     "the duration is continuous and the order ranges over 2000 values with different bit patterns", [SP],
     [("scheme", SP + " new_walsh_sequence")],
     "constant propagation of the order with symbolic duration; oracle computed from the binary definition")

prop("C21", "Concatenated sequences follow the concatenation recursion",
     "Without pre/post rotations, an X (XY) concatenated sequence of order l is built from order l-1 sequences over half (a quarter of) the duration "
     "separated by X (X,Y,X,Y) pulses, starting from free evolution, where pulses falling at the same time are multiplied: equal ones cancel and X with "
     "Y gives Z. The X sequence omits a pulse falling exactly at the end; the XY sequence keeps it.",
     ["inputs"], "all positive durations; X orders 1..9, XY orders 1..4 (thorough: X up to 10)",
     "coincident pulses cancel differently for every order parity", [SP],
     [("schemes", SP + " new_x_concatenated_sequence / new_xy_concatenated_sequence")],
     "constant propagation of the order with symbolic duration against the recursion over the Klein group")

prop("C22", "Pre/post rotations bracket a sequence and undo each other",
     "With pre/post rotations every predefined sequence equals the one without, plus a pi/2 X rotation (azimuthal angle 0) at time 0 and a pi/2 rotation at the "
     "final time, both with zero detuning rotation. The azimuthal angle of the closing rotation is pi when the number of X plus Z pulses is even and 0 when it is odd.",
     ["inputs", "configurations"], "all sequences, all durations, all pulse numbers for the single-axis ones; bounded counts and orders for "
     "the others", "parity and array insertion must be right for every pulse number", [SP],
     [("helper", SP + " _add_pre_post_rotations")],
     "symbolic pulse count with parity gate; constant propagation for quadratic, Walsh and concatenated orders")

prop("C23", "Predefined sequences reject exactly the out-of-domain arguments",
     "A predefined sequence raises the package's argument error exactly when its duration is not positive or a pulse number or order is below "
     "one (or a Paley order above 2000). No other kind of error escapes.", ["inputs", "configurations"],
     "all real durations, all integer pulse numbers, fractional numbers below one, orders below one and above 2000 and selected valid orders",
     "boundaries over reals and integers", [SP, UT, DS], [("domain checks", SP + " all new_*_sequence")],
     "raise condition proved equivalent to the documented domain")

prop("C25", "Conversion refuses sequences and limits that cannot be realised",
     "Converting a decoupling sequence to a driven control raises the package's argument error when a maximum rate is not positive, the "
     "minimum segment duration is negative, a Rabi rotation is negative, one operation has both a Rabi and a (positive or negative) detuning "
     "rotation, two operations coincide or are out of order, or pulses of finite width overlap, leave the sequence or come closer than the minimum segment duration. "
     "Closeness is judged up to a tolerance of 2e-5 of the minimum segment duration plus 2e-8 of the sequence duration.",
     ["inputs"], "any number of operations for limits and unrealisable operations; up to three operations of every kind and position for order and overlap, "
     "with all durations, rates, rotations and gaps free", "the refusal must happen for every arrangement, at any time scale and for each position of the offending operation", [DS, UT],
     [("conversion", DS + " convert_dds_to_driven_control"), ("operation check", DS + " _check_valid_operation")],
     "for each kind of offending input, the conversion is shown to have no returning path (raise condition equivalent to true)")

prop("C26", "Conversion turns each rotation into one pulse of the right rate, angle and width",
     "Converting an accepted decoupling sequence gives, in time order, one segment per non-identity operation and one idle segment per gap of non-zero length, with no "
     "zero-length segments. A Rabi rotation becomes a segment of width max(rotation / maximum Rabi rate, minimum segment duration) with rate rotation/width "
     "and the operation's azimuthal angle, a detuning rotation likewise with |rotation| and the maximum detuning rate and signed detuning rotation/width; idle segments have zero rate, angle and detuning, and the name is the one given. "
     "Rotations are zero or larger than 1e-8.",
     ["inputs", "configurations"], "up to three operations (four in the thorough tier) of every kind, first/last operation at or off the ends, gaps at and above the minimum, with and without a minimum segment duration; "
     "all durations, rates and rotations free", "pulse areas and ordering must hold for every rotation, rate and time scale", [DS, DC],
     [("conversion", DS + " convert_dds_to_driven_control")],
     "sequences parametrised by their gaps and rotations; the stored segment arrays are proved equal to the pulse list")

prop("C27", "Conversion keeps the time line: pulses at their offsets, total time unchanged",
     "The control obtained from an accepted decoupling sequence lasts exactly as long as the sequence. Each pulse is centred on its operation's offset, except that one at time zero "
     "starts at zero and one at the final time ends there, and segment boundaries are exactly the pulse edges.",
     ["inputs", "configurations"], "up to three operations (four in the thorough tier) of every kind, first/last operation at or off the ends, gaps at and above the minimum, with and without a minimum segment duration; "
     "all durations, rates and rotations free", "holds for every spacing and width, including pulses that touch", [DS, DC],
     [("conversion", DS + " convert_dds_to_driven_control"), ("times", DC + " DrivenControl.times")],
     "boundary terms of the converted control proved equal to the pulse edges computed from the offsets")

prop("C28", "A sequence's file is the file of its conversion at the requested rates",
     "Exporting a decoupling sequence to a file writes the same document as converting it at the given maximum rates (2 pi each when omitted), with the sequence's name, and exporting the resulting control with the same "
     "file type and coordinates. Unknown file types, formats or coordinates raise the package's argument error.",
     ["inputs", "configurations"], "up to three operations, every file type and coordinates, named or not, rates given or omitted; all durations, rates and rotations free",
     "needs argument forwarding and defaults to be right for all values", [DS, DC],
     [("export", DS + " DynamicDecouplingSequence.export_to_file"), ("document", DC + " DrivenControl._export_to_qctrl_expanded_format")],
     "written document extracted as a term and compared with the document of the specified segments")

prop("C12", "The modulated Gaussian control samples its documented envelope",
     "A modulated Gaussian control of duration T has n = ceil(T / minimum segment duration) equal segments whose signed rates follow a Gaussian of mean T/2 and width T/10 "
     "taken at the segment midpoints, times sin(2 pi f (t - T/2)) when the modulation frequency f is not zero, scaled so that the largest signed value is the maximum rate. "
     "For f = 0 it is further scaled down so that the total rotation is the largest full multiple of 2 pi (at least one); rates are stored as magnitudes with azimuthal angle 0 for non-negative values and pi for negative ones, without detuning.",
     ["inputs"], "all admissible rates, durations and frequencies; any segment count (and 2 to 5 and 11 explicitly)", "the envelope has to be right for every segment count and frequency", [DP],
     [("scheme", DP + " new_modulated_gaussian_control")],
     "segment arrays extracted with symbolic segment count and compared elementwise with the documented envelope")

prop("C13", "Predefined controls respect limits and follow the requested azimuth",
     "For every predefined composite control the largest segment rate equals the requested maximum Rabi rate, all detunings are zero and all segment durations positive; the requested azimuthal angle is "
     "added to every segment's azimuthal angle and changes nothing else. The modulated Gaussian control lasts exactly the requested duration without detuning, and no segment is shorter than the minimum segment duration.",
     ["inputs"], "all rotations in the domain, all rates and azimuthal angles", "relations between two calls over continuous arguments", [DP],
     [("schemes", DP + " all new_*_control")],
     "two symbolic calls compared with each other; the last clause is a listed known finding")

prop("C14", "Results do not depend on the unit of time",
     "Multiplying every time argument by a positive factor and dividing every rate and frequency by it multiplies all resulting durations and offsets by the factor, divides "
     "rates and detunings by it and leaves rotations and angles as they were. This holds for the predefined controls, the predefined sequences and the conversion of sequences to controls.",
     ["inputs", "configurations"], "all positive factors and all admissible arguments; any pulse number for single-axis sequences, selected counts and orders for the others, "
     "selected operation patterns for conversion", "tests run at one time scale", [DP, SP, DS],
     [("schemes", DP + " and " + SP), ("conversion", DS + " convert_dds_to_driven_control")],
     "two symbolic calls, the second with rescaled arguments, compared with each other")

prop("C29", "Reading, exporting and converting never change the object or the inputs",
     "Constructing a control or sequence leaves the caller's arrays and lists as they were. Reading any accessor, exporting, printing, writing files or converting leaves "
     "every stored value of the control or sequence unchanged.",
     ["inputs", "histories"], "all accessors, exports, text forms, file types and conversions; any number of segments or operations",
     "in-place numpy operations alter shared arrays without any visible error", [DC, DS, SP, DP],
     [("accessors and exports", DC + " DrivenControl"), ("sequence", DS + " DynamicDecouplingSequence and convert_dds_to_driven_control")],
     "heap effects of each call tracked symbolically; stored arrays proved equal before and after")

prop("C30", "Results do not depend on earlier calls",
     "A call to a predefined control, predefined sequence or conversion returns the same as in a fresh interpreter, whatever calls with other arguments came before. Reading accessors twice, "
     "in another order, or after an export, a printout or the construction of another control gives the same values, and so do exports and printouts of one object after those of another.",
     ["histories", "inputs"], "ordered pairs of calls with independent symbolic arguments, of the same or of different predefined functions, conversions, exports and text forms; sequences of accessor reads after each kind of export",
     "hidden state (caches, mutable defaults, module variables) shows only for particular call histories", [DC, DP, SP, DS],
     [("schemes", DP + " and " + SP), ("accessors", DC + " DrivenControl")],
     "the second of two calls in one abstract state compared with the same call in a fresh state")

EX = "qctrlopencontrols/exceptions.py"
prop("C31", "Argument errors name the argument at fault and show its value",
     "An argument error keeps its description, arguments and extras, and its message is the description followed by one line name=repr(value) per argument and per extra, in the order given; it is a package error and an ordinary exception. "
     "When exactly one argument of a public function or constructor is outside its domain, the error's arguments contain that argument's name, and every argument listed is shown with the value given for it (arrays as converted).",
     ["inputs", "configurations"], "all predefined functions, both classes, conversion and exports; all values outside each argument's domain",
     "every rejecting path has to report the right names; tests only look at the error class", [EX, UT, DC, DP, DS, SP],
     [("error", EX + " ArgumentsValueError"), ("raising", UT + " check_arguments")],
     "error objects on every raising path inspected; paths lacking the name are shown unreachable")

prop("C32", "Documented argument order and defaults of every public function",
     "Every public function, constructor and export means the same when its arguments are given by position in the documented order as when given by name. Leaving an optional argument out means its documented default "
     "(azimuthal angle 0, no name, no pre/post rotations, zero rates, angles and detunings, zero minimum segment duration, CSV, cylindrical, dimensionless rates, 2 pi rates).",
     ["inputs", "configurations"], "all public callables with symbolic arguments; every optional argument in turn",
     "tests call by keyword with all arguments given", [DC, DP, DS, SP, "qctrlopencontrols/__init__.py"],
     [("signatures", "all exported functions, constructors and export methods")],
     "results of the two symbolic calls compared with each other")

prop("C33", "Composite controls perform the requested rotation",
     "The segments of every predefined composite control, applied in order, compose to a rotation by the requested angle about the requested equatorial axis, up to global phase (for SCROFULOUS variants, whose published angles are rounded, up to 2e-3). "
     "The modulated Gaussian control performs a whole non-zero number of turns without modulation, and rotations that cancel with modulation.",
     ["inputs"], "all rotation angles in the domain, all rates and azimuthal angles; Gaussian with 2 to 7 segments",
     "an identity over continuous angles involving inverse trigonometric functions", [DP],
     [("schemes", DP + " all new_*_control")],
     "segment angles extracted as terms; their quaternion product reduced modulo the trigonometric relations (Groebner basis)")

prop("C34", "Sequences with pre/post rotations leave the z axis alone",
     "With pre/post rotations, the ideal instantaneous operations of every predefined decoupling sequence, applied in time order, compose to the identity or a rotation about z, so that a qubit starting in a "
     "computational state ends in the same one.",
     ["inputs", "configurations"], "pulse numbers 1 to 8, quadratic counts 1 to 3, Walsh orders 1 to 16 and selected up to 255, concatenation orders 1 to 5 (X) and 1 to 3 (XY)",
     "depends on the parity of three kinds of pulses together with the closing rotation", [SP],
     [("helper", SP + " _add_pre_post_rotations")],
     "extracted operations multiplied exactly as quaternions over algebraic constants")

prop("C35", "Shared helpers: representation by attribute names and argument check",
     "The representation helper renders a control or sequence as its class name followed by name=value for the requested attribute names, in the order requested and repeated if repeated, answers an empty request with a message "
     "naming the class, and rejects a missing object, a missing list or a name that is not text with the package's argument error. "
     "The argument check returns quietly when its condition is true (by truth value) and otherwise raises the package's argument error carrying the given description, arguments and extras unchanged.",
     ["inputs", "configurations"], "all attribute selections up to 5 names over controls with any number of segments and sequences with any number of operations; all descriptions, arguments and extras",
     "every printed object and every rejected argument of the package passes through these two helpers with different inputs", [UT, EX],
     [("representation", UT + " create_repr_from_attributes"), ("argument check", UT + " check_arguments")],
     "text and raise conditions extracted as terms over symbolic objects and compared with the documented layout")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for rec, _, _ in P:
            fh.write(json.dumps(rec) + "\n")
        for rec, _ in NA:
            fh.write(json.dumps(rec) + "\n")
    checks = []
    for rec, note, kw in P:
        i = rec["id"]
        checks.append({
            "property": i, "quick_cmd": "python3-vt /verif/run_check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt /verif/run_check.py %s --tier thorough" % i,
            "evidence_file": "/verif/evidence/%s.json" % i,
            "technique": kw.get("technique", "static analysis: abstract interpretation of the source into a gated value graph, "
                                             "compared with the specification by algebraic normalisation"),
            "level": "other", "level_note": note})
    man = {"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": rec["id"], "reason": why} for rec, why in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
