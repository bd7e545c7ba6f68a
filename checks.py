# What each check runs. `runs`: monitors (CMake targets) with their build flavour.
CHECKS = {}
def C(id, rule, technique, note, runs=None, level="exploration", **kw):
    CHECKS[id] = dict(level=level, technique=technique, level_note=note, rule=rule, runs=runs or [dict(target=id.lower())], **kw)

C("C01",
  "random well-formed expressions (products of tensors with symmetries, sums with scrambled copies, nested sums/products, auxiliary and proto indices), each rewritten by several algorithms; non-trivial: the reference value is a non-zero array; distinct by text",
  "runtime monitoring: randomized rewriting watched by an exact numerical oracle",
  "Held on the executions explored. Every output is evaluated exactly in F_p[i], p=2^61-1, for random symmetric tensors over 1-2 orbitals per space, so a wrong result escapes only by a 2^-60 coincidence or if the expressions differ only for larger spaces. Trusts the evaluator in harness/common/model.cpp and the generators.",
  require={"values_compared": 20000, "nonzero_reference": 10000}, min_nontrivial=5000)
C("C02",
  "random networks and 4 random equivalent copies of each (dummies renamed, factors reordered, slots permuted with sign), and sums of several groups of copies; non-trivial: the term's value is non-zero; distinct by text",
  "runtime monitoring: metamorphic oracle over randomly scrambled equivalent terms",
  "Held on the executions explored. Equivalence is by construction and confirmed by exact evaluation; forms are compared with the library's equality and by text.",
  require={"equivalent_pairs": 20000, "differences_checked": 20000, "sums": 1500}, min_nontrivial=5000)
C("C06",
  "random strings of 1-4 normal operators (fermionic, spin-free, bosonic; both vacua; repeated indices; connectivity constraints) and tensor expressions incl. coupled-cluster-like products; non-trivial: the vacuum average (or the operator) is non-zero for some index assignment; distinct by text",
  "runtime monitoring: exact Fock-space oracle observing Wick's theorem on random operator products",
  "Held on the executions explored. The oracle applies the operators to all determinants of a 2-4 orbital Fock space (or occupation-number space for bosons) with exact arithmetic; connectivity constraints are judged by an independent enumeration of pairings, itself cross-checked against the Fock space. Operator strings of up to 8 (14 for coupled-cluster-like products) operators.",
  require={"nonzero_vacuum_average": 8000, "constrained_nonzero": 1000, "nonzero_coupled_cluster": 200, "spinfree_full": 3000, "boson_partial": 1500, "oracles_agree": 8000}, min_nontrivial=8000)
C("C04",
  "random histories (3-9 steps) of 25 public operations over a pool of expressions with memoized hashes warmed at random; self-operands; term accumulation; orderings of random sets; tensor mutators. Non-trivial: every complete history (distinct by text)",
  "runtime monitoring: model-based history checking against an independent non-commutative polynomial",
  "Held on the histories explored. After every step each live expression is compared with its model value, its hash with that of an expression rebuilt from scratch, equality/clone/ownership and all pairs are checked. Shapes that only a sum with zero or nested summands can have are checked for value only.",
  require={"states_checked": 200000, "order_pairs": 100000, "accumulations": 8000, "self_operand": 500, "tensor_states": 5000}, min_nontrivial=20000)
C("C05",
  "random flat and nested expressions (exotic names, spin labels, proto indices, all symmetries, operators of both statistics and vacua, powers, exact big rationals), results, number literals, omitted/partial annotations, and mutated texts; non-trivial: every text (distinct)",
  "runtime monitoring: round-trip and robustness oracle over generated and mutated texts",
  "Held on the executions explored. Copies are compared by an accessor-level dump, by the library's equality and hash, and (nested ones) by exact evaluation. Malformed texts are up to 600 characters; deep nesting (parser recursion) and ill-formed UTF-8 are outside.",
  require={"exact_round_trips": 6000, "values_compared": 1000, "rejected": 5000, "accepted": 3000, "numbers": 2500, "latex_forms": 1000}, min_nontrivial=15000)
C("C03",
  "random tensor networks (rank, symmetries, auxiliary hyperindices, proto indices, random sets of named indices) with 3 renamed/reordered/permuted copies and 3 near misses each; non-trivial: every network (distinct by text)",
  "runtime monitoring: numerical oracle over networks matched by canonical graphs",
  "Held on the executions explored. Values are exact over F_p[i], p=2^61-1, with 1-3 orbitals per space; equivalent copies are generated, near misses change one name, symmetry or connection. TensorNetworkV1/V2 only on networks without auxiliary/proto indices, bra-ket symmetric tensors, column-nonsymmetric tensors and named contracted indices.",
  require={"equivalent_pairs": 20000, "near_misses_told_apart": 10000, "phase_minus": 500, "near_misses_equal": 100}, min_nontrivial=8000)
C("C16",
  "random histories (6-36 steps) of registry operations over up to 4 registries (copies, clones, assignments), random spin registries passed to add_fermi_spin, and all 24 built-in conventions with 3 sets of extra spaces; non-trivial: every history (distinct by text)",
  "runtime monitoring: model-based history checking of the registry against set algebra on bit masks",
  "Held on the histories explored. All pairs of spaces are queried after each checked step (sampled above 14 spaces). Outside: shallow copies after the shared spaces were changed through another copy, valid_union for nested spaces, add_intersection yielding a base space.",
  require={"states checked": 20000, "pairs": 200000, "refusals": 1000, "assignments": 500, "conventions": 72, "unoccupied spaces checked": 500}, min_nontrivial=4000)
C("C17",
  "random indices built by every constructor and pushed through random operations, random malformed labels, concurrent generators (1-6 threads), and random histories of default and scoped contexts (up to 4 nested scopes); non-trivial: every history (distinct by text)",
  "runtime monitoring: model-based checking of indices, generated labels and context scopes",
  "Held on the executions explored. Proto indices are themselves free of proto indices (documented domain); contexts are changed by one thread at a time (the library's context lock is a build option that is off).",
  require={"indices checked": 20000, "relations": 50000, "unique generated indices": 10000, "concurrent generators": 200, "scopes": 1000, "context states": 10000, "refused": 500}, min_nontrivial=6000)

C("C08",
  "random networks of 1-6 tensors (traces, hyperindices, proto indices, scalars) with random extents, all four objectives and random options, each compared with every binary tree; random sums with nested sums and shared intermediates; pairs of products with a common part; fixed degenerate products; non-trivial: networks of three or more tensors, sums, fusions (distinct by text and options)",
  "runtime monitoring: exhaustive-tree cost oracle and numerical evaluation of the real optimizer's output",
  "Held on the executions explored. Optimality is judged within the documented search space; with subnet CSE only where no two subnetworks can be equivalent.",
  require={"optimality_checked": 5000, "choice_mattered": 4000, "values_compared": 8000, "orders_changed": 100, "shared_intermediates_seen": 100, "fused": 1500, "degenerate_inputs": 100}, min_nontrivial=8000)

C("C09",
  "random expressions and forests of terms built from shared cores (renamed, reordered, twisted by exchanged indices or signs), evaluated by the real evaluator with an exact tensor backend: plain, cached, with forced hash collisions, repeatedly with volatile tensors, and batched; non-trivial: forests with cached, persistent or batched nodes and trees of more than 5 nodes (distinct by text)",
  "runtime monitoring: exact-arithmetic backend under the real evaluator and cache, with an online monitor of every cache miss, life count and leaf",
  "Held on the executions explored. One label stands for one tensor per rank; exact access counts are asserted for min_repeats <= 2.",
  require={"values_compared": 40000, "entries_checked": 20000, "computed_once_checked": 12000, "to_expr_compared": 4000, "persistent_nodes": 400, "batched_nodes": 400, "sums_twisted": 3000}, min_nontrivial=6000)

C("C10",
  "random lists of 2-5 results built from shared, renamed and twisted cores (some using earlier results), random filters, batch indices and predicates, with and without forced hash collisions; non-trivial: lists with at least one named or extracted subexpression (distinct by text)",
  "runtime monitoring: the real passes' output executed in order by an exact backend that records definitions and uses, compared with the original program",
  "Held on the executions explored. A definition is only required to be used at least once: a subexpression inside another definition is not shared (documented TODO).",
  require={"values_compared": 8000, "subexpressions_named": 4000, "captured": 3000, "representatives_compared": 2000, "leftovers_checked": 4000, "anchored_to_expression": 8000}, min_nontrivial=4000)

C("C11",
  "random groups of 1-4 results (sums, nested sums, products with scalars, variables, powers, symmetric tensors, results reused later) under random pruning, strategies, scopes, batch indices, layouts, with and without the optimizer, plus emitted NumPy, Julia and ITF programs; non-trivial: programs (distinct by text) run to the end",
  "runtime monitoring: the real exporter drives a machine that executes every call exactly (F_p[i]) while checking memory, stack, declaration and nesting rules; the emitted text is executed by an exact interpreter; stored values compared with the expressions' values",
  "Held on the executions explored. ITensor back end, PyTorch back end and traces not executed; label collisions of ITF indices are a known finding and such programs are skipped.",
  require={"values_compared": 6000, "inputs_reordered": 800, "op_compute": 40000, "op_load0": 7000, "results_reused": 500, "calls_saved": 800, "text_numpy": 120, "text_julia": 120, "text_itf": 60}, min_nontrivial=1800)

C("C12",
  "random sums of spin-conserving tensor networks (ranks 1-3, antisymmetric and nonsymmetric tensors, all bra-ket and column symmetries, traces, density-fitting-like aux indices, variables) with 0-3 external index groups and optional antisymmetrizers through every tracer; non-trivial: inputs with a non-zero value",
  "runtime monitoring: outputs of the real tracers evaluated exactly over F_p[i] on a spatial (or spin-labelled) model and compared with the input's value on the spin-orbital model, spins of externals summed or fixed",
  "Held on the executions explored. Inputs with an antisymmetrizer use canonical names (a documented precondition); spin tracing of a bare traced tensor is outside.",
  require={"values_compared": 20000, "with_antisymmetrizer": 300, "rank3": 200, "cc_spin_cases": 150, "spin_cases": 250, "results_traced": 50, "full_expansion": 100, "expanded": 100}, min_nontrivial=800)

C("C15",
  "random nested sums and products of tensors of all symmetries, conjugated variables, powers and complex scalars; random fermionic and bosonic normal-operator products and sums with attached tensors; operator sequences; every kind of many-body operator and products of them; non-trivial: non-zero values or matrices",
  "runtime monitoring: value (exact, over F_p[i]) or Fock-space matrix of the real adjoint's output compared with the conjugate (transpose) of the input's; online structural monitors for involution, argument preservation and stale hashes",
  "Held on the executions explored. NormalOperatorSequence has no clone(), so it is only adjointed by value.",
  require={"cnumber_adjoints": 8000, "boson_adjoints": 800, "fermi_vacuum_adjoints": 2000, "physical_vacuum_adjoints": 800, "wick_of_adjoint": 250, "sequences": 2000, "manybody_adjoints": 1000, "manybody_products": 700}, min_nontrivial=8000)

C("C07",
  "products and sums of 2..5 random many-body operators (all kinds, ranks, non-conserving ones, general operators) with scalar coefficients, random required/forbidden connections, screening and topology on and off; coupled-cluster-shaped products with default connections; screening questions for random products; random operator sums through expand/simplify/canonicalize/lower; non-trivial: non-zero values or a product really reaching the asked rank",
  "runtime monitoring: value (exact, over F_p[i], random tensors) of the real average compared with a brute-force sum over all complete contractions and with Fock-space matrices; the screening answer of the real code compared with the reachable ranks in the Fock-space matrices",
  "Held on the executions explored. Operators with extra free indices, square-root normalization of unequal ranks and the spin-free basis are outside the generated operators.",
  require={"checked:plain": 1400, "nonzero_averages": 700, "connected_averages": 1500, "nonzero_connected": 400, "with_avoided": 250, "with_required": 600, "kept": 20000, "screened_out": 40000, "really_reaches": 9000, "operator_sums": 1300, "normalizations": 250}, min_nontrivial=2200)

C("C22",
  "random permutations, integer and floating-point values at and around the limits of every type, random sums of cost monomials, random binary trees, random call histories of memoized functions with failures and threads, random expressions with counted index uses and random replacements; non-trivial: distinct inputs of each of these",
  "runtime monitoring: oracles computing each helper's mathematical definition independently, and online monitors of call counts, references and visited nodes",
  "Held on the executions explored. Cost ordering is asserted for non-negative prefactors, rationalization may give up on values next to an integer, permutation parity up to length 40; UTF conversions are outside.",
  runs=[dict(target="c22", scale=3.0)],
  require={"permutations_walked": 1000000, "parities": 10000, "rationalized": 10000, "complex_pairs": 15000, "cost_pairs": 1000000, "tree_states": 150000, "traversals": 10000, "keys_memoized": 40000, "failed_computations": 2500, "counted": 15000, "subsets_checked": 100000, "replacements": 9000, "results": 8000}, min_nontrivial=60000)

C("C21",
  "random coupled-cluster engines (rank 1-3, traditional and unitary, with and without singles, screening, topology, truncation and frozen core, both canonicalizations): amplitude, energy, lambda, density, perturbed and equation-of-motion equations, and similarity transforms of random operators; non-trivial: distinct equations with a nonzero value",
  "runtime monitoring: value oracle comparing every derived equation, evaluated on random tensors, with the exact Fock-space matrix element that defines it",
  "Held on the executions explored. Fock spaces of 4-8 spin orbitals with exact modular arithmetic and random non-symmetric integrals; EOM left/right operators with normalizations that are not roots of 2 are outside.",
  require={"nonzero_elements": 250, "nonzero_density_elements": 150, "transformed": 150, "screened": 150, "compared:t": 80, "compared:energy": 60, "compared:lambda": 20, "compared:t'": 15, "compared:lambda'": 10, "compared:eom_r": 60, "compared:eom_l": 40}, min_nontrivial=300)

C("C19",
  "arbitrary, mostly ill-formed expressions (repeated and null indices, mismatched ranks, empty sums and products, misplaced operators, protoindices, powers), well-formed expressions with one thing spoiled, and random products of many-body operators, each driven through randomly chosen entry points out of 41; plus the workloads of the other checks, all under the sanitizers; non-trivial: distinct expressions driven",
  "runtime monitoring: address, undefined-behaviour and library-assertion sanitizers on hostile and realistic workloads; process-exit monitor",
  "Held on the executions explored. -fsanitize=vptr,null,alignment are off (not supported by the expression templates used or noise in Boost); leaks and reads of uninitialized memory are not checked; running out of time or memory on exponentially large problems is outside.",
  runs=[dict(target="c19", flavour="asan", scale=4.0, seconds=60)] +
       [dict(target=t, flavour="asan", scale=x, seconds=25) for t, x in [("c01", 0.05), ("c03", 0.06), ("c04", 0.06), ("c05", 0.15), ("c06", 0.04), ("c09", 0.06), ("c10", 0.06), ("c11", 0.06), ("c12", 0.05), ("c16", 0.15)]],
  judge=[":abnormal-end:", "foreign-exception"], quick_s=300,
  require={"returned": 30000, "refused": 15000}, min_nontrivial=3000)

C("C18", rule="random sums, sums sharing nodes, Wick and vacuum-average problems processed with 1 and with 2-8 threads; several user threads with their own expressions; shared helpers (index factories, registry, factorials, singletons, parallel loops) hammered with injected delays; the same under ThreadSanitizer; non-trivial: distinct sums with several terms and distinct per-thread results",
  technique="runtime monitoring: ThreadSanitizer on the library's parallel loops and on concurrent user threads, plus comparison of results across numbers of threads and schedules",
  note="Held on the schedules that occurred. The order of tied terms inside nested sums depends on addresses even with one thread and is only counted; one expression node or index shared by several user threads is outside (its memo fields are unsynchronized by design); contexts are not changed concurrently (that lock is a build option that is off).",
  runs=[dict(target="c18", nthreads=4, scale=5.0, seconds=40), dict(target="c18", flavour="tsan", nthreads=4, scale=0.7, shards=4, seconds=50), dict(target="c17", flavour="tsan", nthreads=4, scale=0.08, shards=2, seconds=20)],
  judge=["tsan:", ":abnormal-end:", "result:", "refusal:", "users:", "tmp-index", "factory", "registry", "factorial", "singleton", "loop", "reduce", "parallel_do"],
  require={"compared": 1500, "compared_sums": 800, "user_results": 3000, "temporary_indices": 5000, "factory_indices": 5000, "registry_queries": 200, "loop_elements": 5000, "singletons": 200}, min_nontrivial=2000),

C("C14", rule="random sums of products holding 1-3 two-body target tensors (plain and antisymmetric) among tensors of other ranks, variables and auxiliary indices, or tensors with protoindices; each rule alone and in sequences; non-trivial: inputs with a non-zero value (distinct by rule and text)",
  technique="runtime monitoring: the real rule's output evaluated exactly over F_p[i] and compared with an independent substitution of the defining product",
  note="Held on the executions explored. Density fitting and hypercontraction are documented for (sums of) products of tensors, nested sums inside products are left alone by design; targets without empty slots; in the CSV overlap shortcut the basis is orthonormal and equal to the space of the expanded indices.",
  runs=[dict(target="c14", scale=4.0, seconds=60)],
  require={"compared:density_fit": 2000, "compared:tensor_hypercontract": 1200, "compared:csv_transform": 3000, "compared:chain": 600, "antisymmetric_targets": 1500, "auxiliary_space_in_use": 600, "overlaps": 60, "csv_slots": 6000, "simplified": 6000}, min_nontrivial=5000),
