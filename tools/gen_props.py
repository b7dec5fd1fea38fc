"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=["tensornetwork/"+f for f in files],mechanism=mech)))

prop("P01","The network graph stays well formed under every operation",
 "After any sequence of public network operations (creating, connecting, disconnecting, contracting, splitting, flattening and splitting edges, reordering, removing, copying) every surviving node has exactly one edge per tensor axis, the edge listed in slot k names that node and axis k as one of its ends, every edge with two ends appears in exactly those two slots and joins axes of equal dimension, and a node's axis names, when present, are one per axis. Connecting refuses edges that are not dangling, an edge with itself, or axes of different dimension, and disconnecting refuses a dangling edge; a refused call leaves the graph as it was.",
 ["histories","inputs"],"every finite history of public graph operations starting from freshly built nodes of any rank and dimensions, including trace edges, parallel edges and rank-0 nodes",
 "the tests inspect a handful of fixed networks after one operation; the invariant is over arbitrary operation histories and ranks, and a mislabelled endpoint shows only in a later operation",
 ["network_components.py","network_operations.py","utils.py"],
 ["Edge endpoints (node1/axis1/node2/axis2) are updated together with the node's edge list in connect, disconnect, reorder_edges, _remove_edges, flatten, split and remove operations"])
prop("P02","Contracting edges computes the Einstein sum in the documented edge order",
 "Contracting an edge, all edges between two nodes, parallel edges, a trace edge, or taking an outer product replaces the nodes involved by one whose tensor is exactly the corresponding Einstein sum of the old tensors, and whose dangling edges are the surviving edges. The result's axes come in the documented order (first node's remaining edges, then the second's, each in their original order, unless an explicit output edge order is given, which is then obeyed), and every surviving edge keeps pointing at the same data whether or not operands are swapped internally.",
 ["inputs","configurations"],"all pairs of nodes of any rank, any set and order of shared or trace edges, any output edge order, copy nodes, numpy, JAX and TensorFlow backends",
 "tests contract fixed small examples; swapping operands, mixed axis orders and output-order bookkeeping only matter for particular rank/edge-order combinations",
 ["network_components.py","network_operations.py","backends/numpy/numpy_backend.py","backends/jax/jax_backend.py","backends/tensorflow/tensorflow_backend.py","backends/tensorflow/tensordot2.py"],
 ["contract_between/contract/_trace_edge/contract_trace_edges compute axes lists from edge endpoints and call backend tensordot/trace, then _remove_edges rewires survivors"])
prop("P03","Reordering, flattening and splitting edges keeps every edge on its data",
 "Reordering a node's edges or axes, transposing, flattening edges into one and splitting an edge into several only re-index a node's tensor: each surviving edge still addresses the same tensor entries, a flattened edge enumerates the combined index of its parts in the given order with the first part slowest, and splitting undoes flattening. Consequently the value of the whole network, contracted to a given dangling-edge order, is unchanged by any such operation.",
 ["inputs","histories"],"all ranks, dimensions, permutations, groups of parallel, trace or dangling edges and factorisations of an edge's dimension",
 "a wrong permutation is invisible on symmetric shapes or on the tests' single orderings; the claim quantifies over all permutations and groupings",
 ["network_components.py","network_operations.py"],
 ["reorder_edges/reorder_axes/tensor_from_edge_order compute permutations applied both to the tensor and to the edge list; flatten_edges and split_edge pair the axes of both ends in the same order"])
prop("P04","Splitting a node yields factors that reproduce it on the chosen edges",
 "Splitting a node into left and right edges (by truncated SVD, full SVD, QR or RQ) puts exactly the requested edges, in the requested order, on each factor joined by one new edge per cut, and contracting the factors back gives the original tensor whenever nothing was truncated. When truncation happens, the squared error of the reconstruction equals the sum of squares of the returned discarded singular values.",
 ["inputs","configurations"],"every node rank at least two, every ordered split of its edges (dangling or connected), every truncation setting, numpy, JAX and TensorFlow backends",
 "tests check shapes and a few reconstructions; the edge order and the truncation bookkeeping quantify over all splits and settings",
 ["network_operations.py","backends/numpy/decompositions.py","backends/jax/jax_backend.py","backends/tensorflow/decompositions.py"],
 ["split_node, split_node_qr, split_node_rq, split_node_full_svd reorder the node, call the backend decomposition at the pivot and re-attach left and right edges"])
prop("P05","Matrix decompositions factor the tensor and truncation follows its stated rule",
 "For every tensor and pivot, svd, qr and rq return factors of the documented shapes whose product is the input, with isometric outer factors, singular values non-increasing and non-negative, and with the non-negative-diagonal option giving a triangular factor with non-negative diagonal. SVD truncation keeps the largest singular values: the smallest number of discarded ones that satisfies the maximum-count bound, and otherwise as many discarded as possible while the norm of the discarded values stays within the (absolute or relative) error bound; kept and discarded values together are exactly the full spectrum.",
 ["inputs","configurations"],"all shapes, pivots, ranks, spectra including ties and zeros, and all combinations of max_singular_values, max_truncation_error and relative, for the numpy, JAX and TensorFlow backends and the public linalg functions",
 "tests use a few spectra per backend; the truncation rule quantifies over every spectrum and threshold, where off-by-one and comparison errors hide",
 ["backends/numpy/decompositions.py","backends/tensorflow/decompositions.py","backends/jax/jax_backend.py","linalg/linalg.py"],
 ["svd computes the truncation count from cumulative squared singular values, intersected with max_singular_values; qr/rq fix phases of the triangular factor"])
prop("P06","ncon computes the labelled Einstein sum for every valid labelling",
 "For any list of tensors and any valid network structure of integer or string labels, ncon returns the sum over all contracted labels with the open labels in the documented default or requested output order, whatever contraction order is given and whether or not tensors are passed as wrapped Tensor objects. Repeated traces, outer products, scalars and batched (repeatedly shared) labels give the same value as direct summation, and invalid or unsupported structures are rejected with an error instead of returning a number.",
 ["inputs","configurations"],"all tensors, label structures (positive, negative, string, traced, batched), contraction orders and output orders, numpy, JAX and TensorFlow backends",
 "tests list a few dozen structures; correctness is over the product of structures and contraction orders, and ncon's own test module does not run in this environment",
 ["ncon_interface.py"],
 ["check of the structure, canonical relabelling, then repeated partial traces and pairwise tensordot or batched contraction, final transposition to out_order"])
prop("P07","Every contractor returns the same network value in the requested edge order",
 "The greedy, branch, optimal, auto, custom-path and bucket contractors return a node whose tensor equals the Einstein sum of the whole network, with axes in the requested output edge order, for every network including disconnected parts, trace edges, parallel edges and a single node. The result does not depend on the algorithm, the order in which nodes are listed, or a memory limit that some pairwise order meets.",
 ["inputs","configurations"],"all finite networks of dense nodes (bucket: networks with copy nodes), all output edge orders, all algorithms",
 "tests use three or four fixed networks per contractor; path-to-node bookkeeping errors depend on the path chosen",
 ["contractors/opt_einsum_paths/path_contractors.py","contractors/opt_einsum_paths/utils.py","contractors/bucket_contractor.py"],
 ["contract_path replays opt_einsum pair positions on a shrinking node list; base removes trace edges first and reorders the final edges; utils.get_path maps edges to index sets"])
prop("P08","Copies reproduce the network exactly and share no structure with it",
 "Copying nodes, replicating a network, forming its conjugate or a reduced density keeps tensors (conjugated when requested), names, axis names and connectivity among the copied nodes, with edges leaving the copied set becoming dangling. The returned maps send each original node and edge to its counterpart, and operations on a copy never affect the original.",
 ["inputs","histories"],"all networks, all subsets of nodes copied (including trace and parallel edges and edges that leave the subset) and every later operation on the copy",
 "tests copy one or two small graphs; dropped or crossed edges depend on the subset and on edge orientation",
 ["network_operations.py","network_components.py","linalg/node_linalg.py"],
 ["copy walks nodes and re-creates each edge once through node and edge dictionaries; replicate_nodes and reduced_density build on it"])
prop("P09","Saving and loading a network round-trips it",
 "Writing a network to an HDF5 file or to a JSON string and reading it back gives nodes with equal tensors, names and axis names and the same connectivity and edge names, for every network and, for JSON (which covers dense nodes), every chosen subset and named edge binding. Saving does not change the network that is saved.",
 ["inputs","histories"],"all networks of dense nodes and copy nodes incl. trace, parallel and dangling edges, more than ten nodes, any names",
 "tests save a few fixed networks and compare some attributes; ordering and naming errors need larger or differently oriented networks",
 ["utils.py","network_operations.py","network_components.py"],
 ["save_nodes/load_nodes temporarily rename nodes and edges to unique keys; nodes_to_json/nodes_from_json index nodes and edges; to_serial_dict/from_serial_dict"])
prop("P10","Matrix product states keep the represented state and their canonical form",
 "Moving the orthogonality centre, canonicalising and applying one- or two-site gates or a transfer operator change a finite matrix product state exactly as the corresponding dense operation does (up to a positive normalisation when normalising, and up to the reported truncation when truncating), and arrays passed in are not modified. After the centre is set to a site, every tensor left of it is a left isometry and every tensor right of it a right isometry, and the reported centre, bond dimensions and canonical check agree with that. Canonicalising an infinite matrix product state (with or without an initial state for the transfer matrix) leaves the state it describes unchanged, with left-isometric tensors and a connector that brings it to the symmetric canonical form.",
 ["inputs","histories"],"all lengths, bond and physical dimensions, dtypes, centre positions, normalise flags and truncation settings, every sequence of moves and gates; numpy and JAX backends",
 "tests run a few random chains of fixed length; an index or direction slip in the sweeps shows only for particular start and end positions",
 ["matrixproductstates/base_mps.py","matrixproductstates/finite_mps.py","matrixproductstates/infinite_mps.py"],
 ["position sweeps QR to the right and RQ to the left absorbing the remainder into the neighbour; canonicalize, apply_two_site_gate, apply_one_site_gate, apply_transfer_operator"])
prop("P11","Expectation values and correlators of an MPS match the dense state",
 "For a finite matrix product state in canonical form, local expectation values, two-point correlators and reduced environments equal those computed from the dense state vector, entry by entry in the order of the requested sites. Measuring never changes the state, including sites requested in any order or repeatedly.",
 ["inputs","histories"],"all lengths, centre positions, operators (non-Hermitian and complex included), site lists; left and right environments for every site list",
 "tests compare a few operators on a fixed chain with nearly symmetric requests",
 ["matrixproductstates/base_mps.py","matrixproductstates/finite_mps.py"],
 ["left_envs/right_envs build environments from the canonical centre outwards; measure_local_operator and measure_two_body_correlator combine them with operators"])
prop("P12","Matrix product Hamiltonians and DMRG agree with exact linear algebra",
 "The provided matrix product operators (XXZ, transverse-field Ising, two-dimensional free fermions) expand to exactly the Hamiltonian they are documented to represent, for all couplings (free fermions: grids of height at least two). A DMRG run keeps the state normalised and canonical, its environments equal the contraction of state, operator and conjugate state, and the energy it reports is the expectation value of that operator (for a truncating two-site update: before that last truncation), never below the true ground energy and equal to it at convergence on full bond dimension.",
 ["inputs","configurations"],"all chain lengths at least two and coupling vectors, random initial states, one- and two-site algorithms, sweep counts and bond dimensions; DMRG on the NumPy backend, whose Krylov solver runs here",
 "tests compare ground energies of one or two fixed Hamiltonians; single wrong entries are invisible for uniform or zero couplings",
 ["matrixproductstates/mpo.py","matrixproductstates/dmrg.py"],
 ["MPO tensors are written entry by entry; position/add_left_layer/add_right_layer keep environments in step with the centre; local optimisation by Lanczos"])
prop("P13","Symmetry charges obey the group laws and their bookkeeping is exact",
 "Fusing, dualising and comparing U(1), Z2, ZN and product charges follows the group law elementwise (identity, inverse, associativity, order of the Cartesian product of entries), whatever compact storage is used. Unique, reduce, intersect, indexing, sorting and equality of charges agree with the same operations on the plain list of charge values, and fusing indices respects each index's flow.",
 ["inputs"],"all charge sequences, charge types and products, flows, target charges and index sets",
 "tests draw a few random charge vectors per type; label/unique tables go out of step only for particular sequences (missing labels, negative values, reordered uniques)",
 ["block_sparse/charge.py","block_sparse/utils.py","block_sparse/index.py"],
 ["BaseCharge stores unique_charges and charge_labels; fuse, reduce, unique, intersect and __getitem__ keep them consistent; fuse_ndarrays fixes the ordering"])
prop("P14","Block-sparse tensor operations agree with dense tensors",
 "Every operation on symmetric block-sparse tensors (elementwise arithmetic, conjugation, transposition, reshape, contraction, outer product, trace, diagonal and conversion from and to dense) yields a tensor whose dense form equals the same operation on the dense forms, is zero on charge-violating entries, and whose reported shape, charges and flows describe it. The result does not depend on storage order, contiguity, or whether block caching is enabled.",
 ["inputs","configurations","histories"],"all ranks, charges, flows, axis choices, storage orders after transposes and reshapes; caching on or off; the block-sparse API and the symmetric backend",
 "tests sample a few shapes with a single charge type; block maps depend jointly on charges, flows, partition and permutation",
 ["block_sparse/blocksparsetensor.py","block_sparse/blocksparse_utils.py","block_sparse/linalg.py","block_sparse/caching.py","backends/symmetric/symmetric_backend.py"],
 ["_find_diagonal_sparse_blocks/_find_transposed_diagonal_sparse_blocks compute linear positions of symmetric blocks; reduce_charges; contiguous permutes data"])
prop("P15","Block-sparse decompositions factor the tensor and conserve charge",
 "Singular value, QR, RQ, eigenvalue, inverse and pseudo-inverse decompositions of symmetric matrices and tensors, including truncated SVD over all charge sectors together, return charge-conserving factors whose dense product equals the input (up to the reported discarded values), with isometric factors and singular or eigenvalues equal to those of the dense form. Truncation keeps the globally largest singular values across sectors under the same rule as for dense tensors.",
 ["inputs","configurations"],"all charge-conserving matrices and tensors, pivots, sector sizes, spectra and truncation settings",
 "tests compare a few random matrices; sector bookkeeping and global truncation depend on the joint distribution of spectra over sectors",
 ["block_sparse/linalg.py","backends/symmetric/decompositions.py"],
 ["decomposition per diagonal block, re-assembled with a charge for the new bond; global sort of singular values decides the number kept per sector"])
prop("P16","Path solvers return valid contraction orders and true costs",
 "Every contraction-order solver (greedy by size, greedy by cost, exhaustive) returns a complete valid sequence of pairwise contractions that leaves one tensor, the cost it reports is the cost of that sequence, and the exhaustive solver's reported cost is minimal over all sequences it is documented to search. Orders translated to ncon form contract every internal label exactly once and give the same value as any other order.",
 ["inputs"],"all networks and log bond dimensions, including outer products and disconnected networks",
 "tests check a few networks against known costs",
 ["contractors/custom_path_solvers/pathsolvers.py","contractors/custom_path_solvers/nconinterface.py"],
 ["greedy and full solvers update a log-dimension adjacency matrix per contraction; ord_to_ncon converts pair orders to label orders"])
prop("P17","Krylov solvers return what they claim",
 "The Lanczos, Arnoldi and GMRES solvers return, for any suitable linear map given as a function and any starting vector, eigenpairs that satisfy the eigenvalue equation and the requested ordering, or a solution whose residual meets the tolerance, with the convergence flag true only if it does. They never modify the caller's initial vector, operator or arguments.",
 ["inputs","configurations"],"all Hermitian or general maps, real and complex, dimensions, Krylov sizes, tensor-shaped vectors; numpy and symmetric backends and the public linalg front-ends (the JAX solvers use jax.ops.index_update, which the installed jax no longer has)",
 "tests use random matrices of one size; early termination, restarts and degenerate starting vectors are input-dependent",
 ["backends/numpy/numpy_backend.py","backends/symmetric/symmetric_backend.py","backends/abstract_backend.py","linalg/krylov.py"],
 ["three-term recurrence with optional reorthogonalisation; restart loops of GMRES with residual test; vectors are rebuilt from coefficients"])
prop("P18","All dense backends implement the same tensor operations",
 "Each elementary backend operation (tensordot, transpose, reshape, slice, trace, diagonal, diagflat, outer product, norm, elementwise functions, broadcasting multiplications, pivot, matmul, shape queries, initialisers, serialisation) returns on the NumPy, JAX and TensorFlow backends the value its documentation defines, for every input of every rank and offset; operations a backend documents as unsupported are refused. The wrapped tensor functions and node helpers of the public linear-algebra module give the same value as the operation they wrap and leave their operands unchanged.",
 ["inputs","configurations"],"all shapes, axes, offsets, perms, dtypes; numpy, JAX and TensorFlow backends",
 "each backend's test module exercises one or two inputs per operation; negative offsets, axis pairs and rectangular shapes are sampled thinly, and the wrapper test modules do not run here",
 ["backends/numpy/numpy_backend.py","backends/jax/jax_backend.py","backends/tensorflow/tensorflow_backend.py","backends/abstract_backend.py","linalg/operations.py","linalg/node_linalg.py","linalg/initialization.py","tensor.py"],
 ["thin wrappers that choose axes, offsets and reshapes around library calls"])
prop("P19","Scoped defaults are restored exactly and new nodes join only the active scope",
 "Inside a default-backend scope every node or tensor created without an explicit backend uses the innermost scope's backend, and leaving the scope, normally or by an exception, restores the previous default exactly for any nesting. A node collection gathers exactly the nodes created while it is the innermost active one, and changing the global default inside a scope is refused.",
 ["histories","inputs"],"every properly nested sequence of entering and leaving scopes with exceptions at any point",
 "tests nest two scopes; the claim is over every nesting depth and exit path",
 ["backend_contextmanager.py","ops.py","network_operations.py","network_components.py","backends/backend_factory.py"],
 ["stack push on enter and pop on exit; node constructor consults the top of the stack"])
prop("P20","Quantum operators and vectors obey operator algebra",
 "Composition, tensor product, scaling, adjoint, trace, partial trace, projector, norm and reduced density of tensor-network operators and vectors evaluate to the corresponding dense matrix operations with output and input subsystems in the documented order. Operations with incompatible spaces are refused and no operation changes its operands.",
 ["inputs","histories"],"all subsystem dimensions and counts, all compositions of the operations, scalars and (adjoint) vectors as operands, partial traces over any subset",
 "tests evaluate a few compositions with equal subsystem dimensions, where ordering mistakes cancel",
 ["quantum/quantum.py"],
 ["operators hold out/in edge lists of a replicated network; composition connects in-edges to out-edges in order; eliminate_identities removes copy-tensor identities"])
prop("P21","Tensor-network layers compute the dense map their weights define",
 "Each tensor-network Keras layer computes, for every admissible configuration, batch size and input, exactly the activation of the linear map given by contracting its weight tensors plus its bias, produces the output shape it announces, and has the parameter shapes implied by its configuration.",
 ["inputs","configurations"],"all layer configurations accepted by the constructors, batch sizes and inputs",
 "tests check shapes and training runs for a few configurations, never the values against an independent contraction",
 ["tn_keras/dense.py","tn_keras/mpo.py","tn_keras/entangler.py","tn_keras/condenser.py","tn_keras/expander.py","tn_keras/conv2d_mpo.py"],
 ["build creates the weights from configuration, call contracts nodes in a fixed edge order, compute_output_shape announces the shape"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
