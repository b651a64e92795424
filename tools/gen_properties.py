#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements).  Run: python3 tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: d["anchors"]["observe_at"] = obs
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

Q = "include/Conserved/quantity.h"; QI = "include/Conserved/Composite/quantity_impl.h"
CQ = "include/Conserved/Composite/cquantity.h"; QV = "include/Conserved/Composite/quantity_vector.h"
QVI = "include/Conserved/Composite/quantity_vector_impl.h"
FM = "include/blockTensor/flat_map.h"; BH = "include/blockTensor/btensor.h"; BC = "sources/btensor.cpp"
BLH = "include/blockTensor/LinearAlgebra.h"; BLC = "sources/btensor_linalg.cpp"
LH = "include/LinearAlgebra.h"; LC = "sources/LinearAlgebra.cpp"
MH = "include/MPT.h"; MC = "sources/MPT.cpp"; DH = "include/dmrg.h"; DC = "sources/dmrg.cpp"
MOH = "include/models.h"; MOC = "sources/models.cpp"; OPH = "include/operators.h"; OPC = "sources/operators.cpp"

prop("Q01", "Conserved quantities form Abelian groups with canonical values",
 "Conserved quantities (integers, cyclic groups, and their composites) form Abelian groups: the product is commutative and associative, the default element and the neutral() element are neutral, an element times its inverse is neutral, and inversion is an involution, whichever of the equivalent in-place, out-of-place, conditional or operator forms is used. A cyclic value built from any signed integer is always reduced into [0,N) and agrees with integer arithmetic modulo N, so two equal group elements always compare equal. The ordering is a strict total order compatible with equality and the distance between two elements is the Euclidean distance of their component values.",
 ["inputs"], "all int16 values and cycle lengths for the simple groups; all composites of them; all operand pairs and triples; all forms of the operation (op, op_to, *=, +=, *, +, rvalue forms, conditional op).",
 "The tests evaluate about ten fixed elements of Z, C<2>, C<5>; the laws quantify over all values, and every block-sparsity decision of the library rests on them.",
 [Q, QI, CQ, "sources/groups.cpp", "sources/any_quantity.cpp"],
 [("C<N>, Z group operations", Q), ("quantity<Groups...> component-wise composition", QI), ("value-semantic wrapper", CQ)],
 ["values returned by product/inverse/neutral/comparison/distance"])

prop("Q02", "Type-erased conserved quantities have value semantics and type safety",
 "A type-erased conserved quantity behaves as an independent value: copies, assignments, moves and swaps between any two of them (also of different underlying groups) preserve the values and never make two objects share state. Combining or comparing quantities of different underlying groups raises a bad-cast error and leaves both operands exactly as they were. Operations observe the same values whether reached through the owning object, a reference to it or an element reference of a container.",
 ["histories"], "all sequences of construct/copy/assign/move/swap/combine/compare over a pool of quantities of several underlying types, including failing combinations.",
 "The tests exercise each member once on one pair of types; aliasing and partial-failure bugs appear only over histories mixing types and reference kinds.",
 [CQ, QI, QVI], [("clone-based value semantics", CQ), ("dynamic_cast type check before mutation", QI)])

prop("Q03", "The container of conserved quantities behaves like a typed vector",
 "A container of conserved quantities behaves exactly like a std::vector of values of one group type under every sequence of construction, insertion, erasure, assignment, resize, element access and iteration, and permuting it reorders its content as requested. Inserting or assigning a quantity of another group type is refused with an error and leaves the container unchanged. Copies of a container are independent of the original.",
 ["histories", "inputs"], "all operation histories on containers of several group types, including self-sourced ranges, mismatched types, empty containers and every permutation.",
 "The tests run one short scripted history; vector equivalence is a property of all histories.",
 [QV, QVI], [("quantity_vector<T...> over std::vector", QVI), ("any_quantity_vector wrapper", QV)])

prop("F01", "flat_map is observationally an ordered map",
 "Under every sequence of insertions (single, hinted, range, sorted or not, overwriting or not), list assignments, lookups, bound and range queries, erasures and comparisons, the contiguous map holds the same keys and values, in the same strictly increasing key order without duplicates, as a standard ordered map given the same calls. Lookups of absent keys report absence, and return values (iterators, insertion flags, erase counts) designate the same elements. Bulk construction from unsorted or repeated content yields the same map as inserting the elements one by one.",
 ["histories"], "all histories of the public container operations over arbitrary key sets, including empty maps, absent keys, duplicate keys and wrong hints.",
 "The tests use one 5-10 element scripted sequence per method; the block list of every tensor is this container, and corruption needs particular relative orders of old and new keys.",
 [FM], [("sorted contiguous storage with binary search", FM)])

prop("F02", "Merging maps applies the right callback exactly once per element",
 "When one sorted map is inserted or merged into another with a collision callback and a no-collision callback, the result holds exactly the union of the keys; for a key present in both, the collision callback is called exactly once with (destination, source); for a key only in the source, the no-collision callback is applied exactly once to the newly inserted element. Elements only in the destination are left untouched, and merging in place reuses or moves the source in agreement with its documented ownership.",
 ["inputs", "histories"], "all pairs of sorted maps (disjoint, interleaved, nested, equal, empty) and repeated merges.",
 "Tests check two fixed pairs; the bug classes (callback applied to a pre-existing element, skipped tail, double application) depend on where the last new key lies relative to the old ones. Sparse tensor addition and subtraction are this operation.",
 [FM, BC], [("sorted insert with collision / no-collision callbacks", FM), ("merge", FM)])

prop("T01", "Dense contraction and index tools compute the documented results",
 "The dense generalized contraction equals the mathematical contraction scaled and accumulated as documented, for every pair of tensors and every set of contracted dimensions, in the returning, accumulating and output-argument forms, without modifying its inputs. The dense LAPACK-style helpers for multi-index reshaping and slicing return tensors with exactly the shape and elements their specification gives. Mismatched contraction requests are rejected.",
 ["inputs"], "all ranks, shapes, contracted dimension sets and orders, scalars alpha/beta, contiguous and non-contiguous operands and outputs.",
 "Tests check a few shapes with default layouts; contiguity-, order- and scalar-dependent paths are not sampled.",
 ["include/tensorgdot.h", "sources/tensorgdot.cpp", "include/dimension_manip.h", "sources/dimension_manip.cpp"],
 [("transpose-reshape-gemm", "sources/tensorgdot.cpp")])

prop("T02", "Dense tensor SVD and eigendecomposition reconstruct, with bounded truncation",
 "Splitting any dense tensor at any bond by SVD gives isometric factors and non-negative, non-increasing singular values whose product is the tensor, and the Hermitian eigendecomposition gives a unitary and real eigenvalues reproducing the tensor. With truncation, the bond never exceeds the requested maximum, never falls below the requested minimum that exists, the discarded weight (sum of the discarded values to the requested power) does not exceed the requested tolerance raised to that power unless forced by the maximum, and no value that could be discarded within those limits is kept; the kept values are the largest ones. The factors have the shapes of the two groups of indices joined by the new bond.",
 ["inputs"], "all ranks, shapes, split positions, real and complex dtypes, rank-deficient and degenerate spectra, tolerances, minimum and maximum sizes and powers.",
 "Tests decompose one or two random tensors without truncation edge cases.",
 [LH, LC], [("svd/eigh with split, truncate", LC)])

prop("O01", "Local operators satisfy their defining algebra",
 "The fermion and Pauli operator generators return matrices satisfying their defining algebra: fermion operators obey the canonical anticommutation relations once dressed with the returned parity operator, number operators and identities have the right spectra, and Pauli matrices obey their commutation relations. The block-sparse versions built on any admissible charge-labelled shape have the same dense matrices and conserve the charges of that shape. A shape whose size does not match the operator is rejected.",
 ["inputs", "configurations"], "dense versions and block versions on every admissible two- or four-state labelled shape (groups, charge values, section arrangement).",
 "Tests compare one labelled shape; the algebra must hold for every labelling that a model may use.",
 [OPH, OPC], [("operator construction and from_basic_tensor", OPC)])

prop("B01", "Every block tensor the library returns is structurally valid",
 "Every block tensor produced by the public operations from valid operands is structurally valid: per-dimension section sizes and charges are consistent, every stored block has a unique in-range index in increasing order, the exact shape given by its sections and the tensor's scalar type, and the charges of a stored block multiply to the selection rule. The library's own validity test agrees with the index, shape and conservation part of this definition, accepting all such tensors and rejecting corrupted ones. Quantities derived from the layout (dim, sizes, section queries, element counts) agree with each other.",
 ["inputs", "histories"], "all chains of public tensor operations starting from valid tensors of any rank, groups, sections, sparsity, selection rule and scalar type.",
 "Tests assert validity of a handful of results; the invariant must survive arbitrary compositions of operations.",
 [BH, BC], [("block_conservation_rule_test, check_tensor", BC), ("per-operation rebuilding of metadata", BC)],
 state=[("block list", "index tuple -> dense block", BH), ("sections_by_dim, sections_sizes, c_vals, sel_rule", "layout and charges", BH)])

prop("B02", "Element-wise arithmetic on block tensors equals dense arithmetic",
 "Adding, subtracting, multiplying, dividing, raising to a power, taking roots, absolute values, conjugates, sums and scalar combinations of block tensors gives a tensor whose dense form equals the same operation applied to the dense forms, blocks absent from an operand counting as zeros (for operations that map zero to zero), whichever blocks each operand happens to store. Broadcasting of size-one or missing dimensions gives the same values as dense broadcasting. The in-place, out-of-place and operator forms agree.",
 ["inputs"], "all pairs of compatible block tensors with arbitrary, also disjoint or empty, sets of allocated blocks; all scalars; broadcast shapes; real and complex types.",
 "Tests use operands with the same or fixed block sets; mistakes depend on which blocks are present in only one operand and on their order.",
 [BH, BC, FM], [("merge of block lists", FM), ("add/sub/mul/div and scalar forms", BC)])

prop("B03", "Block tensor contraction equals dense contraction",
 "Contracting two block tensors over any compatible dimensions gives a block tensor whose dense form equals the dense contraction of the operands' dense forms, whose free dimensions keep their sections and charges in order, and whose selection rule is the product of the operands'. Batched matrix multiplication likewise equals the dense one. Only blocks allowed by conservation are produced and no contribution is lost or counted twice, whatever the order of sections and blocks.",
 ["inputs"], "all ranks including full contraction, all contracted dimension sets and orders, repeated charges, empty operands, missing blocks, non-neutral selection rules, real and complex types.",
 "Tests contract three fixed pairs; correctness depends on block multiplicities and on the permutation of dimensions.",
 [BH, BC], [("tensordot: grouping of blocks by contracted index, accumulation", BC), ("bmm", BC)])

prop("B04", "Permuting, transposing, reshaping and squeezing preserve the tensor",
 "Permuting or transposing a block tensor permutes its dense form and its charges accordingly; grouping dimensions preserves every element, the norm, the conservation law and, for each grouped dimension, the set of product charges, with a documented inverse that restores the original tensor exactly; reshaping to the shape of another tensor is done exactly when both shapes have, in order, the same possible blocks (as many elements each, and the same charges unless they are overwritten), and refused otherwise; removing size-one dimensions leaves all elements in place and keeps the tensor valid. The in-place and out-of-place forms agree, and invalid requests are refused.",
 ["inputs"], "all ranks, permutations (negative dimensions included), groupings, missing blocks, charged size-one dimensions.",
 "Tests use one rank-3/rank-5 example each; index arithmetic errors need unequal section sizes, several sections and non-involutive permutations to show.",
 [BH, BC], [("permute/transpose/reshape/reshape_as/squeeze", BC)])

prop("B05", "Views, block access and block assignment address exactly the right data",
 "Every block is reachable by exactly its index tuple, element decomposition maps each element position to its section and offset, and iterating visits every stored block once in increasing order. Fixing some dimensions of a tensor to given sections gives a view whose dense form is the corresponding slice of the dense tensor (kept or dropped dimensions as requested), sharing storage with the original. Assigning a tensor into such a slot writes exactly that slice and nothing else, and requests that violate conservation or shape are refused.",
 ["inputs"], "all ranks, all subsets of fixed dimensions (leading, trailing, all, none) with rank preserved or not, absent blocks, all element positions.",
 "Tests cover two fixed views; slicing errors depend on which dimensions are fixed and on absent blocks.",
 [BH, BC], [("basic_create_view / basic_index_put_ / block / block_at / element_index_decompose", BC)])

prop("B06", "Factories and dense conversions are faithful",
 "Converting a dense tensor that respects a charge-labelled shape to block form and back returns the same tensor, and elements forbidden by conservation never appear in the result; every factory (zeros, ones, full, eye, random families and their like-variants) produces exactly the values on exactly the allowed blocks, with the requested shape, selection rule and scalar type. The selection rule deduced from a dense tensor is the one its elements obey. Conversions of scalar type keep structure and values.",
 ["inputs", "configurations"], "all labelled shapes, selection rules, scalar types, and dense contents including zeros and below-cutoff elements.",
 "Tests convert a couple of fixed matrices.",
 [BH, BC], [("from_basic_tensor, to_dense, find_selection_rule, factories", BC)])

prop("B07", "Incompatible block tensor operations are rejected and leave operands intact",
 "Requests that violate conservation or shape (adding tensors of different charges, sections or selection rules, contracting dimensions whose charges or sections do not match, ill-formed constructor data, blocks of wrong shape or forbidden charge, wrong permutations, out-of-range dimensions or block indices) raise an exception instead of returning a result. After a refused request the operands hold the same structure and values as before.",
 ["inputs", "fault_sequences"], "all one-fault mutations (shape, section split, charge, selection rule, rank, index) of valid requests.",
 "Tests try a few invalid constructors; a missing check silently yields tensors that break conservation.",
 [BH, BC], [("check_tensor, test_same_shape, check_product_compat, constructor validation", BC)])

prop("B08", "Out-of-place operations never modify their operands",
 "Operations that return a new tensor leave every operand unchanged: same structure, charges, selection rule and bit-identical block contents, also when the same tensor is passed as several operands. In-place operations modify only their target. Modifying a freshly computed result of an arithmetic or contraction operation in place never changes the operands it was computed from.",
 ["histories", "inputs"], "all public non-mutating operations on tensors with aliased, shared or partially absent blocks.",
 "Tests do not re-inspect operands; blocks are shared handles, so aliasing errors show only in later reads.",
 [BH, BC, BLC], [("block handles shared between tensors; copy-before-write in out-of-place forms", BC)])

prop("B09", "Charge transformations keep tensors conserving and values in place",
 "Conjugation, charge inversion, charge shifting of a dimension and selection-rule changes keep every stored element at its place (conjugated when so documented), transform charges and selection rule exactly as documented, and always return a tensor that still satisfies conservation. Shifting charges on one dimension is compensated in the selection rule, inverse transformations undo each other, and the contraction of a tensor with its conjugate over all dimensions is its squared norm.",
 ["inputs", "histories"], "all groups, shifts, dimensions, selection rules and sequences of these transformations, in-place and out-of-place.",
 "Tests check one shift on one tensor.",
 [BH, BC], [("conj/inverse_cvals/cval_shift/shift_selection_rule/set_selection_rule/neutral_selection_rule", BC)])

prop("B10", "Shape algebra yields the promised sections, charges and selection rules",
 "Shapes extracted from tensors (whole, neutral, or with some dimensions fixed), composed from others, or formed by a tensor product hold no blocks and have exactly the sections, sizes, charges and selection rule that the composition rule promises. A tensor allocated on the shape of an expression is compatible with the result of that expression.",
 ["inputs"], "all combinations of shapes, fixed indices and product operands.",
 "Tests check two examples.",
 [BH, BC], [("shape_from overloads, neutral_shape, tensor_product_shape", BC)])

prop("L01", "Block SVD reconstructs the tensor with charge-conserving isometries",
 "Splitting any block tensor at any bond by singular value decomposition yields block tensors U, d, V where U and V are isometries on the new bond, d is real and non-negative, every factor conserves charge with consistent charges on the shared bond, and contracting them reproduces the input. The multiset of non-zero singular values equals that of the dense matrix of the tensor. The input is unchanged.",
 ["inputs"], "all ranks and split positions, groups, selection rules, missing blocks, blocks with repeated charges, rank-deficient blocks, real and complex types; network (split) and batched matrix forms.",
 "Tests decompose two fixed neutral tensors.",
 [BLH, BLC], [("grouping into independent charge blocks (compact_dense), dense svd, scatter", BLC)])

prop("L02", "Truncated block SVD keeps the largest values across all charge sectors",
 "A truncated decomposition keeps singular values selected globally over all charge sectors: every kept value is at least as large as every discarded one (up to degeneracy), the kept number does not exceed the maximum beyond a degenerate multiplet nor fall below the minimum (of at least one) that exists among the non-zero values, and the discarded weight (sum of discarded values to the requested power) does not exceed the tolerance raised to that power unless the maximum forces it. Nothing that could be discarded within those limits is kept. The error of the reconstruction equals the discarded weight, and the truncated factors remain valid conserving isometries.",
 ["inputs"], "all spectra (degenerate, decaying, rank deficient) spread over several sectors, tolerances, minimum and maximum sizes, powers.",
 "Tests truncate one tensor with one tolerance.",
 [BLH, BLC], [("global sort and cut of singular values", BLC)])

prop("L03", "Block eigendecomposition of Hermitian tensors is correct in every sector",
 "For every Hermitian block tensor, viewed as a matrix between its first and last groups of indices, the eigendecomposition yields real eigenvalues and a unitary block tensor, conserving charge, that together reproduce the input, and the multiset of eigenvalues equals that of the dense matrix on the sectors present. Its truncated form keeps the eigenvalues of largest magnitude, with their eigenvectors and within the requested limits. The input is unchanged.",
 ["inputs"], "all Hermitian tensors: groups, sections, repeated charges, absent diagonal blocks, real and complex types; network (split) and batched matrix forms.",
 "Tests decompose one fixed tensor.",
 [BLH, BLC], [("compact_dense grouping, dense eigh", BLC)])

prop("N01", "Tensor network containers only hold valid networks",
 "Matrix product states and operators, dense or block, can only be built from tensors of the right rank with matching neighbouring bonds (and, for block ones, matching bond charges and sections), an ill-formed list being refused. Their sequence interface (size, iteration, indexing, copy, move, swap, orthogonality centre) behaves as that of the list of tensors they hold, an out-of-range orthogonality centre is refused, and copies keep the tensors and the centre.",
 ["inputs", "histories"], "all lengths, ranks, bond mismatches (size, charge, section split), centre positions; histories of container operations.",
 "Tests build two or three networks.",
 [MH, MC], [("check_ranks / check_one constructors, vector_lift", MH)])

prop("N02", "Moving the orthogonality centre preserves the state and gives canonical form",
 "Moving the orthogonality centre of a matrix product state to any site leaves the represented state unchanged (amplitudes, charges and norm), reports the new centre, and makes every tensor left of the centre a left isometry and every tensor right of it a right isometry in the region swept. Bond dimensions never grow beyond the smaller of the adjacent matrix dimensions and the network remains valid. A centre outside the chain is refused without modifying the state.",
 ["histories", "inputs"], "all sequences of moves on all dense and block states, lengths, bond dimensions, charge sectors.",
 "Tests move the centre of one random state and compare no amplitudes.",
 [MH, MC, BLC], [("move_oc by successive svd", MC)])

prop("N03", "Network contraction equals the contraction of the dense objects",
 "Contracting two matrix product states, or two states through an operator network, with or without edge tensors, gives the number obtained by expanding the networks into dense vectors and matrices. The value is the same for block and dense representations of the same network. The networks are not modified.",
 ["inputs"], "all lengths, bond dimensions, physical dimensions (also site-dependent), charge sectors, real and complex tensors, edge tensors.",
 "Tests contract one product or random state with identities.",
 [MH, MC], [("contract overloads, edge trivialization", MC)])

prop("N04", "Random states and network conversions deliver what was requested",
 "Random matrix product states have the requested length, physical dimensions, bond limit and, for block states, the requested total charge: every non-zero amplitude of the expanded state lies in the requested charge sector. A request with no admissible state is refused or yields a zero state and never a state in another sector. Regrouping an operator network's sections or converting between local and network forms keeps its dense content.",
 ["inputs", "configurations"], "all lengths, shapes, groups, target charges (reachable or not), bond limits, random seeds.",
 "Tests draw one state per configuration and check sizes only.",
 [MH, MC], [("random_bMPS, random_MPS, coalesce", MC)])

prop("M01", "The Heisenberg network is the Heisenberg Hamiltonian",
 "For every chain length and coupling, the Heisenberg operator network, dense or block, expands to the spin-1/2 nearest-neighbour Heisenberg matrix H = -J sum_i S_i.S_{i+1} with that coupling on an open chain. It is Hermitian, conserves every charge of the physical shape, and both representations are the same matrix.",
 ["inputs", "configurations"], "all lengths (small enough to expand, one site included), couplings, admissible charge labellings of the spin shape.",
 "Tests only run DMRG on it for one length and compare an energy.",
 [MOH, MOC, OPC], [("Heisenberg local MPO tensors and edges", MOC)])

prop("M02", "The Hubbard network is the Hubbard Hamiltonian",
 "For every chain length and parameters U and mu (unit hopping as documented), the Hubbard operator network, dense or block, expands to the open-chain Hubbard Hamiltonian with fermionic anticommutation: interaction, chemical potential and hopping terms with Jordan-Wigner strings (up to the conventional sign of the hopping and phase of the doubly occupied state). It is Hermitian, conserves particle number and spin, and both representations are the same matrix. Labellings incompatible with hopping are refused.",
 ["inputs", "configurations"], "all lengths (small enough to expand, one site included), U, mu, admissible and inadmissible charge labellings of the four-state shape.",
 "Tests only run DMRG for one parameter set.",
 [MOH, MOC, OPC], [("Hubbard local MPO tensors", MOC)])

prop("D01", "DMRG energies are variational and the reported energy is the state's energy",
 "DMRG returns an energy that is never below the exact ground energy of the Hamiltonian in the sector of the initial state. Unless the bond limit discards weight, it equals the expectation value of the Hamiltonian in the returned normalized state and does not exceed the energy of the initial state, up to the configured truncation. With bond dimension sufficient for exactness and enough iterations from a start overlapping the ground states it reaches the exact sector ground energy within the convergence criterion. Dense and block versions agree on the same problem.",
 ["inputs", "histories"], "Heisenberg, Hubbard and random Hermitian nearest-neighbour Hamiltonians (real and complex), lengths >= 2, initial states of any norm canonical about their reported centre or the random start of the library, sectors, starting centres and options with at least one iteration.",
 "Tests compare the energy to a loose threshold for one or two problems.",
 [DH, DC], [("two-site sweep, Lanczos-like update, svd truncation", DC)])

prop("D02", "DMRG leaves a valid normalized state and an unchanged Hamiltonian",
 "After DMRG the output state is a valid normalized network of the same length and physical shape as the input with a bond dimension within the configured limit (up to a degenerate multiplet), in the same charge sector, and it is canonical with respect to the orthogonality centre it reports. The Hamiltonian passed in and the tensors of the initial state are unchanged, and nothing tracks gradients unless the options ask for it. A chain of less than two sites, and a state of another length, of zero norm or of other physical dimensions than the Hamiltonian, is refused.",
 ["inputs", "histories"], "all initial centres, lengths, iteration counts (odd, even, single), sectors and options.",
 "Tests look only at the energy.",
 [DH, DC, MC], [("sweep direction and centre bookkeeping", DC)])

prop("D03", "DMRG runs within its configured limits and logs them faithfully",
 "DMRG terminates after at most the configured number of iterations, and earlier only when the configured convergence criterion (absolute energy change for dense, relative for block) is met. A logger receives, in order, one start notification, per-iteration events with consecutive iteration numbers and the current energy and state, and one end notification whose data agree with the returned energy and state. Logging never changes the result.",
 ["inputs", "configurations", "histories"], "all option combinations, loggers, lengths and starting points.",
 "Tests use the default logger only.",
 ["include/dmrg_logger.h", "include/dmrg_options.h", DH, DC], [("logger call protocol", DC)])

prop("P01", "Text renderings are faithful and harmless",
 "The text produced for a quantity, a container of quantities, a tensor or a block tensor holds all of its observable content: the components of quantities in order (equal quantities and only them having the same text, through whichever owning or reference type), a tensor's elements laid out on lines of the requested length, and a block tensor's rank, selection rule, sections and charges followed by each stored block once, with its index and elements, in order. Formatting always ends, never modifies the object, and unsupported format options are refused with a format error.",
 ["inputs", "configurations"], "all quantities of all groups, dense tensors of any shape and type (empty, rank 0, undefined), block tensors of any layout, all format specifications.",
 "No test looks at the text; a specification with a line length is never used by the tests.",
 ["include/torch_formatter.h", BH, Q, QI, CQ, "sources/any_quantity.cpp"],
 [("fmt::formatter specialisations", "include/torch_formatter.h"), ("fmt::formatter<btensor>", BH)],
 ["the text returned by fmt::format, to_string and streams"])

prop("S01", "Library operations are free of memory errors and undefined behaviour",
 "No valid sequence of public operations, and no rejected invalid request, reads or writes outside live objects, uses freed or uninitialised memory, dereferences null, overflows signed arithmetic or leaks. This holds also for boundary inputs such as rank-0, empty, single-section or block-free tensors and minimal networks.",
 ["inputs", "histories"], "the workloads of all other checks plus boundary inputs, under address and undefined-behaviour instrumentation with checked standard containers.",
 "Tests run uninstrumented on regular inputs; out-of-bounds reads usually go unnoticed.",
 [BC, BLC, MC, DC, FM, QVI], [("manual iterator and stack-buffer arithmetic", BC)])

prop("S02", "Concurrent use of shared read-only tensors is safe and deterministic",
 "Threads that share tensors, quantities, networks and Hamiltonians only for reading, or that work on distinct objects (shallow copies of shared ones included, as long as only copies are modified through operations that do not write shared blocks), can run any library operations concurrently without data races. Each thread obtains exactly the result it would obtain running alone.",
 ["schedules", "inputs"], "all interleavings of read-only operations (contraction, arithmetic, decomposition, network contraction, DMRG on private copies of shared states and Hamiltonians) over shared operands.",
 "Tests are single threaded.",
 [BC, BLC, MC, DC, CQ], [("absence of hidden mutable or static state in const operations", BC)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
