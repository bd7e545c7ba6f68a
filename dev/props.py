# Single source of properties.jsonl; `python3 dev/gen.py` writes properties.jsonl and MANIFEST.json
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    return d
E_="SeQuant/core/expressions/"
PROPS=[
P("C01","Rewriting an expression never changes its value",
 "For every well-formed tensor expression, expand, flatten, rapid_simplify, simplify and canonicalize (with any canonicalization method) return an expression that has, for every assignment of numerical values to tensors (respecting their declared symmetries), variables and index ranges, the same value for every assignment of the external indices as the original. They neither throw on such input nor produce an ill-formed expression, and rewriting a clone leaves the original expression untouched.",
 ["inputs","configurations"],"all expressions built from sums, products, powers, scalars and tensors (any symmetry, auxiliary and proto indices), all canonicalization methods",
 "The tests compare the output of these algorithms with a few dozen expected strings; they never evaluate an expression, so a wrong sign, a dropped term or a captured dummy index on another input shows in no test.",
 [E_+"expr_algorithms.cpp",E_+"expr.cpp",E_+"product.hpp",E_+"sum.hpp",E_+"tensor.hpp","SeQuant/core/tensor_network/v3.cpp","SeQuant/core/tensor_canonicalizer.cpp"],
 [("expand/flatten/simplify visitors",E_+"expr_algorithms.cpp"),("like-term collection",E_+"expr.cpp HashingAccumulator"),("graph canonicalization with sign bookkeeping","SeQuant/core/tensor_network/v3.cpp")],
 ["value of the returned expression","text of the original expression after rewriting a clone"]),
P("C02","Equivalent terms are brought to one canonical form and merged",
 "Two tensor-network terms that differ only by renaming dummy indices, reordering commuting factors, or permuting slots as the tensors' declared (anti/bra-ket/column) symmetries allow have, up to the sign this implies, identical canonical forms (external index labels being respected), and canonicalizing a canonical form again changes nothing. Consequently simplifying a sum merges all such terms into one with the sum of their coefficients, drops it if that is zero, and the result does not depend on the order of the summands.",
 ["inputs","configurations"],"all tensor networks with non-zero value (rank, symmetry, auxiliary and proto indices), topological and complete canonicalization, sums with any number of equivalent terms",
 "Tests canonicalize selected terms; equivalence classes are unbounded and the failing member may need a particular automorphism group, symmetry combination or factor order.",
 ["SeQuant/core/tensor_network/v3.cpp","SeQuant/core/tensor_network/vertex_painter.cpp",E_+"expr.cpp","SeQuant/core/tensor_canonicalizer.cpp","SeQuant/core/tensor_network/utils.hpp"],
 [("colored-graph canonical labeling","SeQuant/core/tensor_network/v3.cpp canonicalize_graph"),("two-pass sum canonicalization",E_+"expr.cpp Sum::canonicalize_impl"),("hash-keyed like-term collection",E_+"expr.cpp HashingAccumulator")],
 ["canonical forms of scrambled copies","number and coefficients of terms left by simplify"]),
P("C06","Wick's theorem reproduces the operator algebra",
 "For every product (or sum of products) of normal operators and tensors, WickTheorem::compute returns, for full contractions, exactly the vacuum expectation value of the input and, otherwise, an operator equal to the input, for both vacua, for fermionic, spin-free and bosonic operators. The result does not depend on the topological shortcuts, on declaring external indices explicitly, or on input canonicalization; with connectivity or avoidance constraints it is exactly the sum of the contractions satisfying them.",
 ["inputs","configurations"],"all operator strings and tensor-operator products, both vacua, all statistics, topology on/off, any connectivity constraints",
 "The tests count terms or compare strings for a few operator products; a wrong sign, multiplicity or missing contraction for another rank pattern, index-space overlap or symmetry of identical operators is visible only against the algebra itself.",
 ["SeQuant/core/wick.impl.hpp","SeQuant/core/wick.hpp","SeQuant/core/op.hpp"],
 [("recursive contraction with parity","SeQuant/core/wick.impl.hpp recursive_nontensor_wick"),("topological equivalence of operators and degeneracy","SeQuant/core/wick.impl.hpp compute_nopseq"),("delta reduction of contracted indices","SeQuant/core/wick.impl.hpp reduce")],
 ["value of the returned expression","matrix elements of the returned operator in Fock space"]),
P("C04","Expressions stay coherent under every history of operations",
 "After any sequence of public operations (arithmetic operators, append/prepend/scale, adjoint, in-place mutation through iterators or mutators, flatten, cloning, accumulation) every live expression has exactly the value (including the order of non-commuting factors) that the operations prescribe. Its hash, equality and derived data equal those of an identical expression built from scratch; equal expressions have equal hashes, clones are equal and share no node, operator< is a strict weak order consistent with equality, and no other expression changes.",
 ["inputs","histories"],"all sequences of operations on expressions, including an expression used as its own operand",
 "Hashes are memoized and nodes are shared by pointer, so a missing invalidation or an aliasing bug shows only in a particular order of operations; tests exercise single operations on fresh objects.",
 [E_+"product.hpp",E_+"sum.hpp",E_+"constant.hpp",E_+"variable.hpp",E_+"power.hpp",E_+"tensor.hpp",E_+"expr.cpp",E_+"expr_operators.hpp"],
 [("memoized hash and its invalidation",E_+"expr.hpp memoizing_hash"),("flattening append/prepend",E_+"product.hpp"),("like-term accumulation",E_+"expr.cpp HashingAccumulator")],
 ["value, hash, equality and order of every live expression after every step"],
 [("hash_value_","memoized hash of a node",E_+"expr.hpp"),("constant_summand_idx_","position of the constant in a Sum",E_+"sum.hpp"),("bra_net_rank_","derived rank of a Tensor",E_+"tensor.hpp")]),
P("C05","Serialized expressions read back unchanged; bad text is rejected",
 "Any expression (tensors with all symmetries, proto and spin-labelled indices, operators of both statistics and vacua, variables, powers, exact rational coefficients of any size) and any result written as text is read back, from wide or UTF-8 text and with any blanks between tokens, as an identical expression if it is flat and as one of equal value if it is nested; writing the copy reproduces the text, and omitted annotations take exactly the requested defaults. Text that is not valid is rejected with a library exception whose position lies within the text: it never crashes, hangs, escapes as another exception or is read as something that cannot be written and read again.",
 ["inputs","faults"],"all expressions and results, number literals, annotation styles and defaults, and all malformed texts (complex coefficients excepted: known findings)",
 "Tests read and write a list of hand-picked texts; names that look like numbers, large rationals, nested sums or unusual forms are combinations nobody listed.",
 ["SeQuant/core/io/serialization/v1/serialize.cpp","SeQuant/core/io/serialization/v1/deserialize.cpp","SeQuant/core/io/serialization/v1/ast_conversions.hpp","SeQuant/core/io/serialization/v1/semantic_actions.hpp"],
 [("writer","SeQuant/core/io/serialization/v1/serialize.cpp"),("grammar","SeQuant/core/io/serialization/v1/deserialize.cpp"),("AST to expression","SeQuant/core/io/serialization/v1/ast_conversions.hpp")],
 ["the expression read back","the text written again","type and position of the error"]),
P("C03","Matched tensor networks are equal up to the reported order and phase",
 "Two tensor networks that differ only by renaming indices (named or not), reordering factors or permuting slots as the tensors' symmetries allow have equal canonical graphs and hashes under canonicalize_slots, whichever indices are declared named. Conversely, whenever the canonical graphs of two networks are equal, the values of the networks, as arrays over the reported canonical list of named indices and multiplied by the reported phase, are equal. Canonicalizing a network itself (all TensorNetwork versions) preserves its value and reports the input position of each tensor.",
 ["inputs","configurations"],"all networks of tensors (rank, symmetries, auxiliary hyperindices, proto indices), all sets of named indices, all versions of TensorNetwork within their documented domain",
 "Common subexpressions, optimized orders and cached intermediates are reused on the strength of a graph match; a false match or a wrong phase needs two networks and a numerical comparison, the tests compare graphs and hashes of a few networks.",
 ["SeQuant/core/tensor_network/v3.cpp","SeQuant/core/tensor_network/v2.cpp","SeQuant/core/tensor_network/v1.cpp","SeQuant/core/tensor_network/vertex_painter.cpp","SeQuant/core/tensor_network/utils.hpp","SeQuant/core/tensor_network/canonicals.hpp"],
 [("canonical list of named indices and phase","TensorNetworkV3::canonicalize_slots"),("graph and colors","TensorNetworkV3::create_graph, VertexPainter"),("network canonicalization","TensorNetworkV3::canonicalize_graph")],
 ["canonical graph, hash, index list and phase","value of the network over the canonical index list"]),
P("C16","The index-space registry is the set algebra of its registered spaces",
 "After every sequence of add, add_union, add_intersection, remove, replace, clear, copy, assignment, clone, defaults and mask changes, every query answers exactly as the sets of registered spaces (type and quantum-number bits) prescribe: lookups by label, index label or attributes, intersection (commutative, empty for disjoint types or quantum numbers) and union, base spaces and types, and whether a space is or contains (un)occupied. Refused operations leave the registry unchanged, clones are independent, and the built-in conventions (with added spin, AO, PAO, DF, THC or batching spaces) satisfy the same algebra.",
 ["histories","configurations"],"all sequences of registry operations on registries with any types, quantum numbers, sizes and fields, and all built-in conventions",
 "The results are memoized, defaults may depend on quantum numbers, and answers depend on which spaces happen to be registered; tests query a handful of pairs in one or two registries.",
 ["SeQuant/core/index_space_registry.hpp","SeQuant/core/index_space_registry.cpp","SeQuant/core/space.hpp","SeQuant/domain/mbpt/convention.cpp"],
 [("space algebra","SeQuant/core/index_space_registry.hpp intersection, unIon"),("memoized base spaces","SeQuant/core/index_space_registry.hpp base_spaces"),("occupancy queries","SeQuant/core/index_space_registry.hpp is_pure_occupied"),("built-in conventions","SeQuant/domain/mbpt/convention.cpp")],
 ["answer of every query after every operation"],
 [("spaces_","registered spaces, shared by copies","SeQuant/core/index_space_registry.hpp"),("base_spaces_","memoized base spaces","SeQuant/core/index_space_registry.hpp")]),
P("C17","Indices are what their labels say; generated ones are unique; contexts scoped",
 "However an Index is built (label in any spelling, space and ordinal, proto indices in any order), copied, moved, transformed or given another space, its label, ordinal, space, proto indices, equality, order and hash are those of the same index built afresh, and malformed or reserved labels and ordinals are refused with a library exception. Generated indices are unique, satisfy their validator and keep space and proto indices, whatever the context and however many threads generate them. After any nesting of scoped default contexts (core and mbpt), leaving a scope restores exactly the previous context, and equal contexts are interchangeable.",
 ["inputs","histories","schedules"],"all index constructions and transformations, all interleavings of index generators, all sequences and nestings of context changes",
 "Labels are memoized and moved with the object, counters and contexts are global state shared by everything that runs in the process; tests use fresh objects, one thread and well-nested scopes.",
 ["SeQuant/core/index.hpp","SeQuant/core/index.cpp","SeQuant/core/context.cpp","SeQuant/core/utility/context.hpp","SeQuant/domain/mbpt/context.cpp"],
 [("memoized labels","SeQuant/core/index.hpp label_, full_label_"),("temporary index counter","SeQuant/core/index.hpp next_tmp_index"),("per-space counters","SeQuant/core/index.hpp IndexFactory"),("scoped contexts","SeQuant/core/utility/context.hpp set_scoped_implicit_context")],
 ["accessors, order, equality and hash of every index","labels of generated indices","default context before, within and after every scope"],
 [("tmp_index_accessor","global counter of generated indices","SeQuant/core/index.hpp"),("implicit_context_instance","global default context","SeQuant/core/utility/context.hpp")]),
P("C08","Optimization preserves value and finds a cheapest contraction tree",
 "For every product, sum or result expression and every combination of objective and options, optimize() returns an expression of the same value and leaves its input unchanged; each product becomes a binary tree over exactly its tensors, and each sum a permutation of its optimized summands (in order if reordering is off). No binary tree in the searched space (trees free of outer products if these are pruned) is cheaper in the chosen cost model: flops or size including replay weights and footprint penalties, or peak memory within the tolerance with the least work for it, batched or not. Fusing two products and clustering the terms of a sum lose and duplicate nothing.",
 ["inputs","configurations"],"all tensor networks (with traces, hyperindices, proto indices), extents, objectives and options",
 "Optimality means comparing with all trees, whose number grows factorially; tests compare a handful of textbook networks with known answers.",
 ["SeQuant/core/optimize/optimize.cpp","SeQuant/core/optimize/single_term.hpp","SeQuant/core/optimize/single_term_detail.hpp","SeQuant/core/optimize/cost_model.hpp","SeQuant/core/optimize/sum.cpp","SeQuant/core/optimize/fusion.cpp"],
 [("subset dynamic programming","SeQuant/core/optimize/cost_model.hpp solve_single_term"),("additive and peak cost models","SeQuant/core/optimize/cost_model.hpp AdditiveModel, PeakModel, PeakBatchedModel"),("placeholders for nested sums","SeQuant/core/optimize/optimize.cpp opt_mixed_product"),("reordering","SeQuant/core/optimize/sum.cpp clusters"),("fusion","SeQuant/core/optimize/fusion.cpp")],
 ["the expression returned and the input afterwards","its numerical value in a random model","the tree's cost against all trees"],
 [("DP table","per-subset state","SeQuant/core/optimize/cost_model.hpp")]),
P("C09","Evaluation trees give the expression's value, with or without the cache",
 "For every expression (products, sums, nested, hyperindices, scalars), binarize() builds a tree whose evaluation with any tensor backend, in any requested index order, gives the expression's value, and to_expr() reads the tree back as an equal expression. Evaluating terms through the cache manager, one by one or accumulated, with intermediates that persist across iterations, with batching over index blocks or with forced hash collisions, gives the same values and never changes the leaf evaluator's data. Each cached intermediate is computed once per evaluation (persistent ones once until dropped, and only if no volatile tensor enters), used exactly as often as announced and released after its last use.",
 ["inputs","history","configurations"],"all expressions, term sequences, cache configurations, batch policies and iterations",
 "Sharing of intermediates depends on which subtrees of which terms coincide up to renaming, symmetry and sign; tests evaluate a few coupled-cluster terms.",
 ["SeQuant/core/eval/eval_expr.cpp","SeQuant/core/eval/eval_expr.hpp","SeQuant/core/eval/eval.hpp","SeQuant/core/eval/eval_node_compare.hpp","SeQuant/core/eval/cache_manager.hpp","SeQuant/core/batch_policy.hpp"],
 [("binarization","SeQuant/core/eval/eval_expr.cpp binarize"),("node identity","SeQuant/core/eval/eval_node_compare.hpp TreeNodeEqualityComparator"),("cache lifetimes","SeQuant/core/eval/cache_manager.hpp"),("evaluation and accumulation","SeQuant/core/eval/eval.hpp evaluate")],
 ["every evaluated value","the leaf evaluator's data afterwards","which nodes are computed, held and released"],
 [("cache entry","life count, data","SeQuant/core/eval/cache_manager.hpp")]),
P("C10","Common-subexpression elimination and subtree extraction preserve every value",
 "For every list of results, including ones that use earlier results, eliminate_common_subexpressions() returns a list in which every result keeps its name, order and value, every inserted definition has a new name, precedes and reaches a use, and is exactly where the returned positions say; nothing the filter rejects is named and nothing it accepts still occurs twice in the results. extract_subtrees() takes out exactly the maximal subtrees the predicate selects, leaves a leaf with the same payload in place of each, changes nothing else, and the one representative kept for equal subtrees has the value of each, up to the sign both carry.",
 ["inputs","configurations"],"all lists of expressions, filters, batch indices, predicates, with and without hash collisions",
 "Whether two subtrees are equal depends on symmetry, sign and index order in combinations that textual expected outputs cannot enumerate.",
 ["SeQuant/core/optimize/common_subexpression_elimination.hpp","SeQuant/core/optimize/extract_subtrees.hpp","SeQuant/core/eval/eval_node_compare.hpp","SeQuant/core/eval/eval_expr.hpp"],
 [("identification","SeQuant/core/optimize/common_subexpression_elimination.hpp SubexpressionIdentifier"),("replacement","SeQuant/core/optimize/common_subexpression_elimination.hpp SubexpressionReplacer"),("extraction","SeQuant/core/optimize/extract_subtrees.hpp")],
 ["the transformed list of trees","every result's numerical value before and after","uses and definitions in evaluation order"],
 [("replacer","names, offsets","SeQuant/core/optimize/common_subexpression_elimination.hpp")]),
P("C11","Exported programs compute the values of the exported expressions",
 "For every group of results and every export setting, the operations export emits (with or without the generation optimizer) never use an object that is not in memory, declare what they use, release what they acquire in stack order, and store exactly the values of the exported expressions, in order. The optimizer never adds work or changes a stored value, and reordering contexts permute inputs and results consistently. The Python (NumPy), Julia (TensorOperations) and ITF programs produced, when executed, store the same values.",
 ["inputs","configurations"],"all expression groups, index symmetries, pruning, strategies, declaration scopes, batching, memory layouts, back ends",
 "Expected-text tests pin a few programs; whether an emitted program is executable and right depends on the interplay of tree shape, shared blocks, scalar factors and strategies.",
 ["SeQuant/core/export/export.hpp","SeQuant/core/export/export.cpp","SeQuant/core/export/generation_optimizer.hpp","SeQuant/core/export/reordering_context.cpp","SeQuant/core/export/python_einsum.hpp","SeQuant/core/export/julia_tensor_operations.hpp","SeQuant/core/export/itf.cpp"],
 [("driver","SeQuant/core/export/export.hpp GenerationVisitor, PreprocessVisitor"),("optimizer","SeQuant/core/export/generation_optimizer.hpp"),("back ends","SeQuant/core/export/*.hpp Generators")],
 ["every create, load, set_to_zero, compute, unload and persist call with its operands","memory and stack contents of an exact machine executing them","text of the emitted programs, executed exactly"],
 [("result selection, renaming, pruning","usages, scalar factors, compute selection","SeQuant/core/export/export.hpp PreprocessResult")]),
P("C12","Spin tracing preserves the value of every expression",
 "For every expression over spin-orbital tensors that conserve spin, spintrace, closed_shell_spintrace (partial or full expansion) and their ResultExpr forms return a spin-free expression whose value equals the original summed over all spins of internal indices and of external index groups. open_shell_spintrace and open_shell_CC_spintrace return, for every spin case of the external indices, an expression with that value (up to the remaining same-spin antisymmetrizers). Expanding antisymmetric tensors, adding, flipping and removing spin labels preserve values, too.",
 ["inputs"],"all sums of products of spin-conserving tensors of any symmetry, traces, external ranks 0-3, aux indices, antisymmetrizers, scalars",
 "Tests pin a few coupled-cluster terms; the sign, loop count and spin-case bookkeeping depends on the index network and on how canonicalization renames it.",
 ["SeQuant/domain/mbpt/spin.cpp","SeQuant/domain/mbpt/spin.hpp","SeQuant/core/utility/permutation.hpp","SeQuant/core/utility/indices.hpp"],
 [("tracers","SeQuant/domain/mbpt/spin.cpp spintrace_impl, closed_shell_spintrace_impl, open_shell_spintrace_impl, open_shell_CC_spintrace"),("loops","SeQuant/core/utility/permutation.hpp count_cycles")],
 ["input and output expressions of every tracer evaluated exactly on spin-orbital and spatial models"],
 [("external indices","groups, names and symmetrizers of results","SeQuant/domain/mbpt/spin.cpp")]),
P("C15","Adjoint is Hermitian conjugation",
 "For every expression of tensors, scalars, normal-ordered operators (both vacua and statistics) and many-body operators, the adjoint represents the complex conjugate (or conjugate transpose) of the value, whether taken before or after expansion, simplification, canonicalization, lowering or Wick's theorem. It leaves its argument alone, is an involution however often it is applied, reverses products, and keeps attributes, quantum numbers, hashes and labels consistent.",
 ["inputs","histories"],"all expressions, operator strings and products, repeated applications of adjoint",
 "Tests check a handful of printed forms; whether the marker, the slots, the order of factors and the conjugated scalars stay consistent under repeated use depends on the expression.",
 ["SeQuant/core/expressions/expr.cpp","SeQuant/core/expressions/tensor.cpp","SeQuant/core/op.hpp","SeQuant/domain/mbpt/op.ipp","SeQuant/core/expressions/power.hpp"],
 [("expressions","SeQuant/core/expressions/expr.cpp Product::adjoint, Sum::adjoint; tensor.cpp Tensor::adjoint"),("operators","SeQuant/core/op.hpp NormalOperator::adjoint; SeQuant/domain/mbpt/op.ipp Operator::adjoint")],
 ["values and Fock-space matrices of the expression and of its adjoint, exact complex arithmetic"],
 [("adjoint markers","label suffix and flags of tensors and operators","SeQuant/domain/mbpt/op.ipp, SeQuant/core/expressions/tensor.cpp")]),
P("C07","Expectation values of many-body operators",
 "For all many-body operators, products and sums of them, and any choice of required or forbidden connections, screening and topology options, the vacuum average equals the sum of the complete contractions of the lowered operators that satisfy those connections; without connections it is the exact Fock-space expectation value. Screening by quantum numbers only discards terms that are zero, and the reported quantum-number changes contain the actual ones. Expanding, simplifying, canonicalizing and lowering an operator expression keeps the operator it represents.",
 ["inputs"],"all operator products, connection lists, options and coefficients",
 "Tests compare term counts and a few coupled-cluster results; a wrong connection, a lost commutation or too eager a screen only shows in other products of operators.",
 ["SeQuant/domain/mbpt/vac_av.cpp","SeQuant/domain/mbpt/vac_av.hpp","SeQuant/domain/mbpt/op.cpp","SeQuant/domain/mbpt/op.hpp","SeQuant/domain/mbpt/op.ipp","SeQuant/core/wick.impl.hpp"],
 [("average","SeQuant/domain/mbpt/vac_av.cpp expectation_value_impl, ref_av/op_aver"),("screening","SeQuant/domain/mbpt/op.cpp combine, raises_vacuum_to_rank, can_change_qns"),("commutation","SeQuant/domain/mbpt/op.ipp Operator::commutes_with_atom, is_less_than_rank")],
 ["value of the average, brute-force value over all complete contractions of the lowered strings, Fock-space matrices of the operators"],
 [("options","connect, do_not_connect, screen, use_topology","SeQuant/domain/mbpt/vac_av.hpp EVOptions")]),
P("C22","Shared building blocks keep their contracts",
 "For all inputs, permutation parity, loop counts, enumeration of unique permutations and subset masks, numeric conversions, rationalization, complex arithmetic and the ordering of asymptotic costs agree with their mathematical definitions (total orders, ring laws, error bounds). For all histories, binary trees visit every node exactly once in the stated order, and a memoized function is computed exactly once per key, returns stable references and recovers from failed computations, also under concurrency. Index bookkeeping (used, unique, external and target indices) and replacing a subexpression, indices adapted, give exactly what a direct definition gives.",
 ["inputs","histories","schedules"],"all argument values, tree shapes, call histories and expressions",
 "Every layer leans on these helpers; tests call them with a handful of values each, and a wrong sign, a cost order that is not transitive, or a reference that dangles only shows with other values or histories.",
 ["SeQuant/core/utility/permutation.hpp","SeQuant/core/utility/memoize.hpp","SeQuant/core/utility/indices.hpp","SeQuant/core/utility/expr.hpp","SeQuant/core/utility/conversion.hpp","SeQuant/core/asy_cost.cpp","SeQuant/core/binary_node.hpp","SeQuant/core/rational.hpp","SeQuant/core/complex.hpp","SeQuant/core/algorithm.hpp"],
 [("costs","SeQuant/core/asy_cost.cpp AsyCost comparison, sums and products"),("trees","SeQuant/core/binary_node.hpp FullBinaryNode visit, constructors"),("memoize","SeQuant/core/utility/memoize.hpp"),("replacement","SeQuant/core/utility/expr.hpp replace"),("indices","SeQuant/core/utility/indices.hpp get_used_indices, get_unique_indices, target indices")],
 ["returned values, call counts and references, visited nodes in order, resulting expressions"],
 [("memo table","per-key entries and waiting callers","SeQuant/core/utility/memoize.hpp")]),
P("C21","Coupled-cluster engine derives the equations that define the model",
 "For every excitation rank, ansatz (traditional or unitary, with or without singles), truncation of the commutator series and choice of screening, topology and canonicalization, the amplitude, energy and lambda equations, density matrices, perturbed amplitude equations and equation-of-motion equations produced by the CC engine have, for all tensor values, the value of the vacuum average of the similarity-transformed operators that defines them. Similarity transformation of any operators equals the nested-commutator series to the requested order, in both forms. Screening an expression before taking its vacuum average never changes that average.",
 ["inputs","histories"],"all engine options, ranks, operators and tensor values",
 "These equations are the package's end product; tests only compare numbers of terms, which dropped or sign-flipped terms may leave unchanged.",
 ["SeQuant/domain/mbpt/models/cc.cpp","SeQuant/domain/mbpt/utils.cpp","SeQuant/domain/mbpt/op.cpp","SeQuant/domain/mbpt/vac_av.cpp","SeQuant/core/wick.ipp"],
 [("equations","SeQuant/domain/mbpt/models/cc.cpp CC::t, CC::λ, CC::energy, CC::rdm, CC::tʼ, CC::λʼ, CC::eom_r, CC::eom_l"),("similarity transform","SeQuant/domain/mbpt/utils.cpp lst"),("screening","SeQuant/domain/mbpt/utils.cpp screen_vac_av")],
 ["returned equations evaluated on random tensors","Fock-space matrix elements of the defining operators"],
 [("CC options","ansatz, ranks, screening and truncation","SeQuant/domain/mbpt/models/cc.hpp")]),
P("C19","No input makes the library crash or corrupt memory",
 "For every expression, operator, index or text that can be constructed, however ill-formed, every public operation (canonicalization, simplification, Wick's theorem, vacuum averages, spin tracing, optimization, evaluation trees, export, printing, serialization, networks, rewriting rules) either returns or reports a standard exception. It never terminates the process, reads or writes memory it does not own, or runs into undefined behaviour. This also holds for operations whose worker threads fail, and while well-formed inputs of any shape are processed.",
 ["inputs","faults"],"all expressions, operators, texts and call sequences",
 "A crash or silent corruption loses a long derivation; the tests exercise well-formed inputs without instrumentation, where an out-of-bounds access usually goes unnoticed.",
 ["SeQuant/core/wick.ipp","SeQuant/core/runtime.hpp","SeQuant/core/tensor_network/v1.cpp","SeQuant/core/tensor_network/v3.cpp","SeQuant/core/expressions/expr.cpp","SeQuant/core/eval/eval_expr.cpp","SeQuant/domain/mbpt/spin.cpp","SeQuant/core/export/export.hpp","SeQuant/core/io/serialization/v1/deserialize.cpp"],
 [("argument checking","SeQuant/core/utility/macros.hpp SEQUANT_ASSERT and the exceptions thrown by every entry point"),("parallel loops","SeQuant/core/runtime.hpp parallel_do, for_each, transform_reduce"),("index bookkeeping","SeQuant/core/utility/indices.hpp")],
 ["sanitizer reports","how every call ends (return, standard exception, anything else)","process exit status"],
 [("expression trees and index lists","ownership and bounds","SeQuant/core/expressions/expr.hpp")]),
P("C18","Parallel execution is race-free and independent of the number of threads",
 "Expanding, canonicalizing, simplifying, optimizing, spin-tracing expressions, Wick's theorem and vacuum averages give the same expression (up to the order of tied terms) and refuse the same inputs for every number of library threads and every schedule, without a data race. Several user threads working on their own expressions get the results they would get alone, and temporary-index generation, index factories, registry queries, factorials and singletons may be used by all threads at once: generated indices stay unique, cached values right, one instance is made. The parallel loops visit every element exactly once, reduce completely and deliver exceptions.",
 ["inputs","schedules"],"all expressions, numbers of threads and schedules; contexts and the index-space registry unchanged meanwhile; no expression node shared between user threads",
 "The tests run with one schedule that happens to occur and no race detector; a race or a lost update shows only for particular interleavings.",
 ["SeQuant/core/runtime.hpp","SeQuant/core/runtime.cpp",E_+"expr.cpp",E_+"sum.hpp","SeQuant/core/wick.impl.hpp","SeQuant/core/optimize/optimize.cpp","SeQuant/core/index.hpp","SeQuant/core/index_space_registry.hpp","SeQuant/core/utility/singleton.hpp","SeQuant/core/math.hpp"],
 [("parallel_do/for_each/transform_reduce","SeQuant/core/runtime.hpp"),("term-parallel canonicalization and Wick contraction","SeQuant/core/expressions/expr.cpp, SeQuant/core/wick.impl.hpp"),("atomic temporary-index counters","SeQuant/core/index.hpp")],
 ["data-race reports","results with 1 and with several threads","visited elements, exceptions"]),
P("C14","Density fitting, hypercontraction and CSV expansion are substitutions",
 "density_fit, tensor_hypercontract and csv_transform return the value obtained by substituting every target tensor (label, rank; protoindices for CSV) by its defining product (antisymmetrized if the target is), for every value of the factors, keep everything else, leave no target behind and do not change their argument. The indices they introduce are captured by nothing in the term: neither external, auxiliary nor earlier introduced ones, so the rules may be applied one after another.",
 ["inputs"],"all sums of products of tensors and scalars, any auxiliary space including one already in use, any sequence of the rules",
 "The tests apply each rule to a handful of terms and compare text; index capture, signs of antisymmetric targets and mixed products depend on the input.",
 ["SeQuant/domain/mbpt/rules/df.cpp","SeQuant/domain/mbpt/rules/thc.cpp","SeQuant/domain/mbpt/rules/csv.cpp"],
 [("substitution per factor","SeQuant/domain/mbpt/rules/df.cpp density_fit_impl"),("new auxiliary indices","SeQuant/domain/mbpt/rules/thc.cpp tensor_hypercontract"),("expansion of protoindexed slots","SeQuant/domain/mbpt/rules/csv.cpp csv_transform_impl")],
 ["value of the returned expression","text of the argument afterwards","target tensors left"]),
]
