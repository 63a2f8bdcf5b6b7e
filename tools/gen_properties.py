#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Safe API calls never cause an invalid memory access",
 "No program that uses only the safe public API of arrays and tensors reads or writes memory outside a live buffer it may access, reads uninitialised memory, or otherwise executes undefined behaviour: a call either completes within the elements its operands denote or panics. This holds for every layout (contiguous, strided, transposed, sliced, broadcast, diagonal), every element type and also for hostile arguments.",
 ["inputs", "programs"], "for all sequences of public API calls, shapes, layouts, element types and argument values",
 "Tests run a few fixed shapes without a sanitizer; an out-of-bounds read usually returns a plausible number, so an assertion on values cannot see it.",
 ["src/ndarray/", "src/ops/", "src/linalg/", "src/util/flatten.rs", "src/tensor/", "src/autograd/"],
 [("raw pointer kernels stay within shape/stride footprint", "src/ops/*.rs, src/linalg/*.rs"),
  ("bounds checks before pointers are formed", "src/ndarray/slice.rs, src/ndarray/index_impl.rs")],
 ["every load/store of the real code under AddressSanitizer", "Miri on the same calls"])
prop("C02", "Every buffer is released exactly once with the layout it was allocated with",
 "Each data buffer an array or tensor owns is freed exactly once, with the size and alignment it was allocated with, when its last owner goes away, and nothing stays allocated afterwards. This holds through any chain of construction, consuming and borrowing views, copies, conversion to a vector, graph building, backward passes, and panics in between.",
 ["histories", "programs"], "for all histories of creating, consuming, viewing, copying, converting and dropping arrays and tensors in any order",
 "Tests never look at the allocator: a leak, a double free or a free with the wrong layout is invisible to value assertions.",
 ["src/ndarray/constructors.rs", "src/ndarray/reshape.rs", "src/ndarray/methods.rs", "src/tensor/methods.rs", "src/tensor/reshape.rs", "src/autograd/"],
 [("ownership flag and capacity carried by the array, freed in Drop", "src/ndarray/constructors.rs"),
  ("ownership transfer by consuming views and into_data_vector", "src/ndarray/reshape.rs, src/ndarray/methods.rs")],
 ["every allocation and deallocation event of the process (recording global allocator)"])
prop("C03", "A view denotes exactly the source elements its definition says, without copying",
 "The element at every multi-index of a view (reshape, squeeze, unsqueeze, transpose, slice, index along an axis, diagonal, broadcast, subscript view, or any composition of them) is the very memory cell of the source that the mathematical definition of that view names. The view's shape, strides, dimensions and size agree with that, and no element is copied.",
 ["inputs", "programs"], "for all source shapes and all compositions of view operations with all legal arguments",
 "Tests sample a few two- or three-dimensional views and compare values, which repeat, instead of addresses.",
 ["src/common/reshape.rs", "src/ndarray/slice.rs", "src/ndarray/broadcast.rs", "src/linalg/matrix_ops.rs", "src/linalg/einsum.rs", "src/util/index.rs"],
 [("shape/stride/offset arithmetic", "src/common/reshape.rs, src/ndarray/slice.rs, src/ndarray/broadcast.rs, src/linalg/matrix_ops.rs")],
 ["addresses yielded by the element pointer iterator of view and source", "shape(), stride(), size(), ndims(), len()"])
prop("C04", "A write through an array or view changes exactly the elements it denotes",
 "Filling, zeroing, or assigning an element through an array or any writable view stores the value in exactly the cells the view denotes. The source and every other overlapping view observe the new values immediately, and every other cell of every buffer keeps its value.",
 ["inputs", "histories"], "for all layouts, view chains, sequences of writes and element types",
 "Tests check the written view, rarely the untouched neighbours, and only for a few layouts.",
 ["src/ndarray/fill.rs", "src/ops/fill.rs", "src/ndarray/index_impl.rs"],
 [("strided fill recursion", "src/ops/fill.rs"), ("mutable indexing", "src/ndarray/index_impl.rs")],
 ["full contents of all live buffers before and after every write"])
prop("C05", "Results share no memory with operands, and operands are never modified",
 "Every copying operation (clone, flatten, conversion, arithmetic, reductions, linear algebra, iteration items, detach) returns an array with its own storage holding the right values: later writes to the result or to the operands are not visible in each other. Evaluating any such operation leaves all operand elements and metadata unchanged.",
 ["inputs", "histories"], "for all operations, operand layouts (also aliasing operands) and later write histories",
 "Tests inspect results, not the operands afterwards nor aliasing between result and operands.",
 ["src/ndarray/clone.rs", "src/ndarray/reshape.rs", "src/ndarray/astype.rs", "src/ndarray/binary_ops.rs", "src/tensor/autograd.rs"],
 [("fresh buffer per result", "src/ndarray/clone.rs, src/ndarray/binary_ops.rs")],
 ["address ranges of results and operands", "operand contents before and after"])
prop("C06", "Layout metadata tells the truth about memory",
 "If an array reports itself contiguous, its elements in logical order occupy consecutive memory cells and its data slice equals its logical contents; if it reports a uniform stride k, consecutive logical elements lie exactly k cells apart; arrays produced by constructors and copying operations always report contiguous. An array reports itself as a view exactly when it does not own its storage.",
 ["inputs", "programs"], "for all arrays reachable through constructors, operations and view chains",
 "Kernels choose fast paths from these flags; tests check the flags on a handful of slices only.",
 ["src/common/methods.rs", "src/ndarray/slice.rs", "src/ndarray/iterator/collapse_contiguous.rs", "src/ndarray/flags.rs", "src/ndarray/methods.rs"],
 [("flag recomputation on every view", "src/ndarray/slice.rs"), ("uniform stride analysis", "src/ndarray/iterator/collapse_contiguous.rs")],
 ["is_contiguous, is_uniformly_strided, has_uniform_stride, is_view, data_slice versus element addresses"])
prop("C07", "Element-wise operators equal scalar operators under NumPy broadcasting",
 "For every pair of broadcast-compatible arrays (or array and scalar) the result of + - * / % & | << >> and unary minus has the NumPy broadcast shape, and each element is the scalar operator applied to the corresponding broadcast elements. The result depends only on the logical contents, never on memory layout, on whether operands are passed by value or reference, or on size.",
 ["inputs"], "for all element types, operators, compatible shapes, layouts of either operand and values",
 "There are nine kernels per operator chosen by stride pattern; tests hit a few small shapes per type and mostly contiguous data.",
 ["src/ndarray/binary_ops.rs", "src/ops/binary_ops.rs", "src/ops/binary_op_add.rs", "src/ops/unary_ops.rs", "src/ndarray/broadcast.rs"],
 [("stride-pattern dispatch", "src/ops/binary_ops.rs"), ("shape/stride broadcasting", "src/ndarray/broadcast.rs")],
 ["every element and the shape of every result against a scalar reference"])
prop("C08", "In-place operators update exactly the destination, or refuse",
 "x op= y stores, in exactly the elements x denotes, the value of the element-wise operator with y broadcast to x's shape, for every layout of x and y; y and all memory outside x stay unchanged (unless y itself overlaps x partially) and x keeps its shape. A read-only (broadcast) destination, or a y that cannot be broadcast to x, is refused with a panic that leaves all memory unchanged.",
 ["inputs", "histories"], "for all operators, element types, destination and source layouts",
 "Tests only use contiguous destinations of a few elements.",
 ["src/ndarray/assign_ops.rs", "src/ops/binary_ops.rs"],
 [("destination stride handling and writeable flag", "src/ndarray/assign_ops.rs")],
 ["all buffers before and after each in-place operation"])
prop("C09", "Full reductions equal the mathematical reduction of all elements",
 "sum, product, min, max, min_magnitude, max_magnitude and mean of an array equal the reduction over all its logical elements taken exactly once (floating point sums within rounding of the exact value), with a scalar result. The value does not depend on memory layout or size, including infinities and extreme values of the type (min and max of NaN, and magnitudes the type cannot represent, are left open).",
 ["inputs"], "for all element types, shapes, layouts and values",
 "Tests sample small contiguous arrays; fast paths depend on stride patterns and length.",
 ["src/ndarray/reduce.rs", "src/ops/reduce_sum.rs", "src/ops/reduce_max.rs", "src/ops/reduce_min.rs", "src/ops/reduce_product.rs", "src/ops/reduce_max_magnitude.rs", "src/ops/reduce_min_magnitude.rs"],
 [("uniform stride fast path and generic fallback", "src/ops/reduce_*.rs")],
 ["result value and shape against a reference reduction"])
prop("C10", "Axis reductions reduce exactly the requested axes",
 "sum, product, min, max, min_magnitude, max_magnitude and mean along any set of distinct axes (in any order, negative axes counting from the end where supported) give an array whose shape drops exactly those axes and whose elements are the reductions over them. Reducing over all axes agrees with the full reduction.",
 ["inputs"], "for all element types, shapes, layouts, axis subsets and orders",
 "Tests sample a few axis choices on small contiguous arrays.",
 ["src/ndarray/reduce.rs", "src/ndarray/iterator/"],
 [("output index mapping", "src/ndarray/reduce.rs: reduced_shape_and_stride, reduce_along")],
 ["result shape and every element against a reference reduction"])
prop("C11", "dot, matmul and bmm equal the textbook products",
 "Dot products, matrix-vector, matrix-matrix and batched matrix products return the textbook sum of products with the textbook shape for every compatible operand shape (including size-1 dimensions) and every layout of both operands (transposed, sliced, strided, broadcast), for integer and floating point types.",
 ["inputs"], "for all element types, compatible shapes, operand layouts and values",
 "Tests use a few fixed sizes and mostly contiguous operands; kernels depend on strides and axis ordering.",
 ["src/linalg/matrix_ops.rs", "src/ops/dot_product.rs", "src/linalg/sum_of_products.rs", "src/linalg/specialized_einsum.rs"],
 [("kernel selection by stride", "src/linalg/sum_of_products.rs"), ("matrix product entry points", "src/linalg/matrix_ops.rs")],
 ["every element and shape of every product against a naive product"])
prop("C12", "Traces and diagonals follow NumPy's definition for any offset and axes",
 "diagonal, offset_diagonal and the _along forms return the view of the elements (i, i+offset) of the two chosen axes, with the diagonal as the last axis and the remaining axes in order; trace and its variants are the sum of that diagonal over its last axis. This holds for rectangular, higher-dimensional and non-contiguous inputs and positive, negative and zero offsets.",
 ["inputs"], "for all shapes with at least two axes, axis pairs (either order, negative), offsets and layouts",
 "Tests cover a few square matrices and a few axis pairs.",
 ["src/linalg/matrix_ops.rs"],
 [("diagonal offset, length and stride computation", "src/linalg/matrix_ops.rs: offset_diagonal_along")],
 ["shape, addresses and values of every diagonal and trace against the definition"])
prop("C13", "einsum computes the Einstein summation its subscripts specify",
 "For any list of operands (at least one of them not a scalar) and well-formed subscripts, einsum returns, for each assignment of output labels, the sum over all other labels of the product of the operand elements, with output axes in the order written. einsum_view returns the equivalent view exactly when every operand label appears in the output and nothing otherwise; the result never depends on operand layout or on the order in which axes are iterated.",
 ["inputs"], "for all operand counts, label assignments (repeated, permuted, summed, broadcast-free; no blanks or ellipsis), shapes, layouts and element types",
 "Specialised loops exist per operand count, label count and stride pattern; tests sample a few dozen strings.",
 ["src/linalg/einsum.rs", "src/linalg/specialized_einsum.rs", "src/linalg/sum_of_products.rs", "src/ndarray/iterator/multi_flat_index_generator.rs"],
 [("label parsing, axis ordering, specialised loops", "src/linalg/einsum.rs, src/linalg/specialized_einsum.rs")],
 ["every element and shape of results against a nested-loop interpreter of the subscripts"])
prop("C14", "Iteration visits every element or sub-array exactly once, in row-major order",
 "Flat iteration yields each logical element exactly once in row-major order and then ends for good; iterating over the first axis, a given axis, or several axes yields the sub-arrays at successive positions of those axes, in row-major order, each exactly once, with the remaining axes in order. This holds for every layout and dimension count.",
 ["inputs"], "for all shapes, layouts, axes and axis sets",
 "Index generators collapse axes depending on strides; tests iterate a few shapes.",
 ["src/ndarray/iterator/"],
 [("odometer over collapsed axes", "src/ndarray/iterator/flat_index_generator.rs"), ("sub-array iterator", "src/ndarray/iterator/tensor_iterator.rs")],
 ["the full sequence of yielded values, addresses and sub-arrays"])
prop("C15", "Indexing reads and writes the addressed element and refuses anything else",
 "Indexing with one coordinate per axis, each below that axis' length, reads or writes exactly that element, for every layout; this agrees with iteration order. An index with the wrong number of coordinates, or any coordinate out of range, is refused with a panic and changes nothing.",
 ["inputs"], "for all shapes, layouts, valid and invalid index tuples",
 "Tests index a few elements; out-of-range coordinates that land inside the buffer are not sampled.",
 ["src/ndarray/index_impl.rs"],
 [("bounds check and offset", "src/ndarray/index_impl.rs")],
 ["value and address of each indexed element; panics; buffer contents"])
prop("C16", "Constructors produce exactly the specified contents and shape",
 "Arrays and tensors built from nested data, a fill value, zeros, ones, a scalar, an integer or float range, or an evenly spaced interval have exactly the documented shape, element count and elements, for every element type. Ragged, empty or inconsistent input is refused with a panic.",
 ["inputs"], "for all element types, nesting shapes, range endpoints, steps and counts",
 "Tests sample a few ranges; element counts depend on floating point rounding and magnitude.",
 ["src/common/constructors.rs", "src/util/flatten.rs", "src/util/shape.rs", "src/util/homogenous.rs"],
 [("range length computation", "src/common/constructors.rs: arange_with_step, linspace"), ("flattening and homogeneity check", "src/util/flatten.rs, src/util/homogenous.rs")],
 ["shape and every element against exact references"])
prop("C17", "Random constructors respect their shape, range and distribution",
 "rand, uniform, randint and randn return arrays of the requested shape whose samples always lie in the documented half-open range (randint: integers, low included and high excluded), reach the whole range, and follow the documented distribution. Successive elements, successive calls, and calls in different threads or processes are not copies of each other.",
 ["inputs", "histories"], "for all shapes, ranges the element type resolves finely (integer ranges well below the precision of the sampling type), element types and any number of samples",
 "Tests draw a handful of samples; a boundary value that appears rarely is missed.",
 ["src/common/random.rs"],
 [("sampling and rounding", "src/common/random.rs")],
 ["every sample of large draws; empirical moments and frequencies"])
prop("C18", "Conversion, equality and printing reflect logical contents only",
 "astype converts every element to the target type with the value preserved (truncation toward zero for float to integer) or panics when it cannot be represented; equality holds exactly when shapes match and all elements are equal; the debug text lists all elements in row-major order nested by shape. None of these depends on layout.",
 ["inputs"], "for all pairs of element types, shapes, layouts and values",
 "Tests compare a few contiguous arrays and types.",
 ["src/ndarray/astype.rs", "src/ndarray/equals.rs", "src/ndarray/print.rs", "src/tensor/equals.rs"],
 [("element-wise conversion and comparison over logical order", "src/ndarray/astype.rs, src/ndarray/equals.rs")],
 ["converted values, equality outcomes, parsed debug text"])
prop("C19", "backward computes the true gradient of the recorded computation",
 "For any computation built from tensor operators (+ - * / with tensors and scalars, negation, dot, matmul, bmm, reshape, squeeze, unsqueeze, transpose, view) with any broadcasting, sharing and reuse of intermediates, backward (with ones or a given seed) leaves in every gradient-requiring leaf the vector-Jacobian product of that computation, in the leaf's shape.",
 ["programs", "inputs"], "for all expression graphs (as deep as the call stack allows), shapes, broadcasts, leaves requiring gradients, and seeds",
 "Tests check one operator or a few fixed small graphs; rules interact through broadcasting reduction, layout and accumulation.",
 ["src/autograd/", "src/tensor/"],
 [("backward rules and gradient reduction over broadcast axes", "src/autograd/*.rs")],
 ["every element of every leaf gradient against forward-mode derivatives of an independent evaluator"])
prop("C20", "Gradients accumulate, reset and propagate exactly as the call history says",
 "A leaf's gradient always equals the sum of the contributions of all backward calls since it was enabled or last zeroed, wherever the graph came from and however often it is reused; leaves not involved, or not requiring gradients, are unaffected. Gradient requirement and leaf status propagate from operands to results, and graphs keep working after the tensors that built them are dropped.",
 ["histories"], "for all histories of building graphs, backward, zeroing, enabling, detaching, dropping (disabling a leaf that a graph already uses, and seeding with a view of a leaf's own gradient, are left open)",
 "Tests run single backward passes; interleaved histories are not sampled.",
 ["src/autograd/accumulate_grad.rs", "src/tensor/autograd.rs", "src/tensor/reshape.rs"],
 [("accumulation node", "src/autograd/accumulate_grad.rs"), ("flag propagation", "src/tensor/ops.rs, src/tensor/constructors.rs")],
 ["gradient, requires_grad, is_leaf of every live tensor after every event of a history"])
prop("C21", "Tensor operations compute the same values as the array operations",
 "Every tensor operation returns, with or without gradient tracking, exactly the shape and values of the corresponding array operation on the same contents; conversions between tensors and arrays (reference, shared, consuming, detached) preserve contents. Enabling gradients or running backward never changes any tensor's values.",
 ["programs", "inputs"], "for all tensor programs, shapes, layouts and gradient settings",
 "Tests compare a few forward results; consuming views of tensors whose storage is shared with a graph are not sampled.",
 ["src/tensor/ops.rs", "src/tensor/matrix_ops.rs", "src/tensor/reshape.rs", "src/tensor/methods.rs"],
 [("delegation to arrays, shared storage handling", "src/tensor/*.rs")],
 ["shape and values of every intermediate tensor against the reference evaluator"])
prop("C22", "Invalid arguments are refused with a panic and have no effect",
 "A call whose arguments violate its documented requirements (incompatible shapes, out-of-range or duplicate axes, out-of-range slices, wrong dimension counts, bad offsets, malformed subscripts, element-count mismatch, ragged data, value of a multi-element array, taking the vector of a view) panics. After the panic all arrays involved still have their previous contents and remain usable.",
 ["inputs", "fault_sequences"], "for all public calls and argument tuples outside their documented domain",
 "Tests have a few should_panic cases; silently accepted bad arguments are not sampled.",
 ["src/ndarray/", "src/common/", "src/linalg/", "src/util/axis.rs"],
 [("argument checks", "src/util/axis.rs, src/ndarray/broadcast.rs, src/linalg/einsum.rs, src/linalg/matrix_ops.rs, src/ndarray/slice.rs")],
 ["panic or return of every call; contents of all arrays after a caught panic"])
prop("C23", "Accelerated builds compute the same results as the portable build",
 "Building with the vendor vector library, BLAS or NEON code paths enabled changes no observable result of arithmetic, fills, reductions or linear algebra beyond floating point rounding, for any layout, size or element type, and passes only valid pointers, strides and lengths to those libraries.",
 ["configurations", "inputs"], "for all acceleration configurations, operations, sizes, strides and layouts",
 "The accelerated paths are not compiled on the machine that runs the tests.",
 ["src/acceleration/", "src/ops/", "src/linalg/matrix_ops.rs", "src/linalg/sum_of_products.rs"],
 [("conditional kernels", "src/ops/*.rs, src/linalg/*.rs under cfg")],
 ["arguments of every library call (instrumented stand-ins) and all results"])
prop("C24", "No safe program can use an array after its storage is gone",
 "A view, iterator, data slice, gradient or recorded graph never outlives the storage it refers to: programs that would use freed storage are either rejected by the compiler or keep the storage alive and read correct values.",
 ["programs"], "for all safe programs that try to keep a view, iterator, slice, gradient or graph beyond the life of its source",
 "Tests contain only programs that compile and behave; the property is about all the others.",
 ["src/ndarray.rs", "src/ndarray/iterator/", "src/ndarray/reshape.rs", "src/ndarray/methods.rs", "src/tensor/"],
 [("lifetime parameters of views and iterators", "src/ndarray.rs, src/ndarray/iterator/*.rs"), ("reference-counted storage", "src/tensor/mod.rs")],
 ["compiler verdict for each escape program; sanitizer and value monitor for those that compile"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    # at most three sentences
    import re
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
print(len(P))
