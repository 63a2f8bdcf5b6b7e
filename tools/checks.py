"""Which stages decide which property."""

CHECKS = {}


def check(pid, rule, stages, **kw):
    """stages: (variant, bin, group, quick cases, quick deadline s, thorough cases, thorough deadline s, extra args)"""
    def run(r):
        for variant, binary, group, nq, dq, nt, dt, *extra in stages:
            if r.enough():
                break
            if r.tier == "quick" and nq:
                r.stage(variant, binary, group, nq, dq, extra)
            elif r.tier == "thorough" and nt:
                r.stage(variant, binary, group, nt, dt, extra)
    CHECKS[pid] = dict(rule=rule, run=run, stages=stages, **kw)


LAYOUT = ("random array shapes (0 to 9 axes) and layouts (chains of borrowing and consuming views over a larger buffer, generated backwards from the target shape), "
          "every element type; distinct = distinct (element type, kinds of view steps, axis count, size class, operation) signatures")

check("C03", LAYOUT + "; after every step every element address, the shape and the strides of the real view are compared with the definition",
      [("dev", "c03", "C03", 480000, 60, 3000000, 900)], need_events=["view_states_checked"])
check("C06", LAYOUT + "; after every step the reported flags are compared with the addresses",
      [("dev", "c03", "C06", 480000, 60, 3000000, 900)], need_events=["contiguous_states", "non_contiguous_states", "uniform_states", "fresh_arrays_checked"])

check("C04", LAYOUT + "; the whole buffer, the written view, its source and another overlapping view are compared with the model after every write",
      [("dev", "write", "C04", 300000, 60, 2000000, 900), ("release", "write", "C04", 180000, 30, 1000000, 600),
       ("release", "write", "C04", 240, 30, 6000, 300, "--huge")],
      need_events=["writes", "writes_refused", "overlapping_views_compared"])
check("C05", LAYOUT + "; every result is checked for address overlap with its operands, then operands and result are overwritten in turn and the other side compared",
      [("dev", "write", "C05", 360000, 60, 2000000, 900),
       ("release", "write", "C05", 240, 30, 6000, 300, "--huge")], need_events=["results_checked_independent"])
check("C07", LAYOUT + "; every element of every result compared bit for bit with the scalar operator",
      [("dev", "elem", "C07", 240000, 60, 1500000, 900), ("release", "elem", "C07", 240000, 40, 1500000, 600),
       ("release", "elem", "C07", 240, 30, 6000, 300, "--huge")],
      need_events=["binary_operations", "scalar_operations", "unary_operations"])
check("C08", LAYOUT + "; destination elements compared bit for bit with the scalar operator, all other memory with its previous contents",
      [("dev", "elem", "C08", 240000, 60, 1500000, 900), ("release", "elem", "C08", 240000, 40, 1500000, 600),
       ("release", "elem", "C08", 240, 30, 6000, 300, "--huge")],
      need_events=["in_place_operations", "in_place_refused", "in_place_operations_within_one_array"])
check("C09", LAYOUT + "; result compared with an exact (integer) or error-bounded (compensated double-double) reference reduction",
      [("dev", "reduce", "C09", 360000, 60, 2000000, 900), ("release", "reduce", "C09", 300000, 40, 1500000, 600),
       ("release", "reduce", "C09", 240, 30, 6000, 300, "--huge")], need_events=["reductions_checked"])
check("C10", LAYOUT + "; every element of every axis reduction compared with the reference reduction of the elements that belong to it",
      [("dev", "reduce", "C10", 360000, 60, 2000000, 900), ("release", "reduce", "C10", 300000, 40, 1500000, 600),
       ("release", "reduce", "C10", 240, 30, 6000, 300, "--huge")], need_events=["axis_reductions_checked"])
check("C11", LAYOUT + "; every element compared with the textbook sum of products",
      [("dev", "linalg", "C11", 240000, 60, 1500000, 900), ("release", "linalg", "C11", 180000, 40, 1000000, 600),
       ("release", "linalg", "C11", 240, 30, 6000, 300, "--huge")], need_events=["products_checked"])
check("C12", LAYOUT + "; addresses of diagonals and values of traces compared with the definition",
      [("dev", "linalg", "C12", 360000, 60, 1500000, 900),
       ("release", "linalg", "C12", 240, 30, 6000, 300, "--huge")], need_events=["diagonals_checked", "traces_checked"])
check("C13", LAYOUT + "; random subscripts over 1 to 4 operands; every output element compared with the direct evaluation of the sum",
      [("dev", "linalg", "C13", 150000, 60, 1000000, 900), ("release", "linalg", "C13", 150000, 40, 1000000, 600),
       ("release", "linalg", "C13", 240, 30, 6000, 300, "--huge")],
      need_events=["einsums_checked", "einsum_views_checked", "einsum_views_refused"])

check("C14", LAYOUT + "; every item of flat, first-axis, single-axis and several-axes iteration compared with the model, and the iterators driven past their end",
      [("dev", "iter", "C14", 360000, 60, 2000000, 900),
       ("release", "iter", "C14", 120, 30, 6000, 300, "--huge")], need_events=["elements_visited", "sub_arrays_visited"])
check("C15", LAYOUT + "; valid, out-of-range and wrong-count indices read and assigned, the whole buffer compared after each",
      [("dev", "iter", "C15", 360000, 60, 2000000, 900), ("release", "iter", "C15", 180000, 30, 1000000, 600)],
      need_events=["reads", "writes", "out_of_range_refused", "wrong_count_refused", "writes_refused"])
check("C16", "random constructor calls for every element type (nested arrays and vectors, fills, ranges, intervals; ragged and empty input); distinct = distinct (constructor, element type, shape) signatures",
      [("dev", "misc", "C16", 360000, 60, 2000000, 900), ("release", "misc", "C16", 180000, 30, 1000000, 600),
       ("release", "misc", "C16", 240, 30, 6000, 300, "--huge")],
      need_events=["arrays_constructed", "tensors_constructed", "ragged_refused", "empty_refused", "intervals_checked"])
check("C17", "random shapes, bounds and element types; every sample range-checked, Kolmogorov, moment, coverage and lag-correlation tests (false alarm probability below 1e-12 each) on large samples; distinct = distinct (constructor, type, size class) signatures",
      [("dev", "misc", "C17", 72000, 60, 400000, 900), ("release", "misc", "C17big", 160, 40, 4000, 600)],
      need_events=["samples_in_range", "distributions_tested", "ranges_covered", "call_pairs_compared", "large_samples_checked", "threads_compared", "processes_compared", "call_sequences_tested"])
check("C18", LAYOUT + "; every converted element, every comparison and every debug text compared with the definition",
      [("dev", "misc", "C18", 480000, 60, 2000000, 900),
       ("release", "misc", "C18", 240, 30, 6000, 300, "--huge")],
      need_events=["conversions_checked", "conversions_refused", "equalities_checked", "texts_checked"])


GRAPH = ("random tensor programs (f32, f64; up to 24 operations of every kind, by value and by reference, with sharing, broadcasting and reuse), compared with an independent "
         "double precision reverse-mode interpreter that carries an error bound for every value; distinct = distinct (element type, sequence of operation kinds)")
check("C19", GRAPH + "; one backward call per program with ones or a seed in a random layout, every gradient element of every leaf compared",
      [("dev", "tensor", "C19", 900000, 60, 2500000, 900), ("release", "tensor", "C19", 240000, 40, 1500000, 600),
       ("release", "tensor", "C19", 160, 30, 4000, 300, "--huge")],
      need_events=["backward_calls", "gradients_checked", "gradient_absences_checked"])
check("C20", GRAPH + "; histories of building, backward, zeroing, enabling and dropping, all gradients compared after each",
      [("dev", "tensor", "C20", 900000, 60, 2000000, 900), ("release", "tensor", "C20", 180000, 40, 1500000, 600),
       ("release", "tensor", "C20", 160, 30, 4000, 300, "--huge")],
      need_events=["backward_calls", "gradients_checked", "gradient_absences_checked", "gradients_zeroed", "tensors_dropped", "tensors_rechecked"])
check("C21", GRAPH + "; every result compared bit for bit with the array operation on the same contents, all values again after every backward call and conversion",
      [("dev", "tensor", "C21", 900000, 60, 2000000, 900), ("release", "tensor", "C21", 180000, 40, 1500000, 600),
       ("release", "tensor", "C21", 160, 30, 4000, 300, "--huge")],
      need_events=["tensor_and_array_results_compared", "conversions_checked", "tensors_rechecked", "backward_calls"])


check("C22", "random arrays, tensors and layouts, given every kind of argument that violates a requirement (shapes, axes, slices, offsets, subscripts, counts, sizes that overflow, read-only destinations, seeds); "
      "the call must panic and every buffer, shape, stride, flag and gradient must be as before and usable; distinct = distinct (kind of call, element type, layout) signatures",
      [("dev", "invalid", "C22", 900000, 60, 4000000, 900), ("release", "invalid", "C22", 900000, 40, 3000000, 600)],
      need_events=["calls_refused", "arrays_unchanged", "tensors_unchanged"])

MIX = ("the workloads of all other checks (every view, operator, reduction, product, iterator, constructor, tensor program and refused call, random layouts, element types and hostile arguments) "
       "plus programs in which owners change hands, training loops and panics half-way; distinct = distinct (workload, signature) pairs")
check("C01", MIX + "; run under AddressSanitizer and inside the Miri interpreter, which end the process at the first invalid access, use of uninitialised memory or other undefined behaviour",
      [("asan", "mix", "C01", 60000, 60, 0, 0), ("asan1", "mix", "C01", 0, 0, 2000000, 900), ("msan", "mix", "C01", 16000, 40, 400000, 900), ("miri", "mix", "C01", 800, 120, 20000, 1500, "--tiny")],
      need_events=["workloads_completed", "panics_observed", "training_steps", "owners_rechecked"])
check("C02", MIX + "; every allocation carries its layout and canaries, every free is checked against them, and each workload is repeated until its effect on the number of live blocks and bytes is known to be nil",
      [("dev0", "mix", "C02", 120000, 60, 0, 0), ("dev", "mix", "C02", 0, 0, 4000000, 900), ("release", "mix", "C02", 0, 0, 2000000, 600)],
      need_events=["allocations_watched", "leak_comparisons", "releases_measured", "training_steps", "panics_observed", "owners_rechecked"])


check("C23", "writes, operators, in-place operators, reductions, products, traces, einsum and gradients in builds with the vector library and BLAS paths compiled in; the library routines are stand-ins that check their arguments; distinct = distinct workload signatures",
      [("accel", "accel", "C23", 60000, 60, 1000000, 900), ("accelblas", "accel", "C23", 40000, 40, 1000000, 600), ("neon", "accel", "C23", 40000, 40, 1000000, 600)],
      need_events=["accelerated_workloads"])


check("C24", "programs that keep a view, iterator, slice, gradient, reference or graph beyond the life of its source (each way of deriving one x each way of ending the source, and chains of two); the compiler's verdict is observed, accepted programs run under AddressSanitizer and compare values; distinct = distinct programs",
      [], custom="escape", need_events=["programs_rejected_whose_control_compiles", "programs_accepted_and_run"])


def setup(build):
    bins = {}
    for c in CHECKS.values():
        for s in c["stages"]:
            bins.setdefault(s[0], set()).add(s[1])
    for v, b in bins.items():
        build(v, sorted(b))


NOT_CLAIMED = {}
