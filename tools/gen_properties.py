"""Writes properties.jsonl (kept as code so the texts stay readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=list(files),
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=None)))


p('C01', 'Spherical and solid harmonics equal their defining polynomials everywhere',
  'For every direction, the real spherical harmonics returned for each degree and order are the '
  'standard real harmonics (no Condon-Shortley phase) scaled by the requested normalization, in the '
  'requested Cartesian or by-order component ordering; the solid harmonics are the matching '
  'homogeneous polynomials of the unnormalised vector. The value depends only on the direction of the '
  'vector (unless the caller declares it normalized), components of degree l have parity (-1)^l, and '
  'batched evaluation equals element-wise evaluation.',
  ['inputs', 'configurations'],
  'all real vectors r != 0 (as n*u with u on the unit sphere, n in [1e-3, 1e3]), all four normalizations, '
  'both component orderings, normalized and unnormalized inputs, degrees up to 6 (quick) / 10 (thorough)',
  'Tests compare a few hard-coded vectors at a few degrees; equality of polynomials at every vector, for every '
  'normalization and ordering combination, is never established.',
  ['e3x/so3/irreps.py', 'e3x/so3/_spherical_harmonics_lut.py', 'e3x/so3/_symbolic.py', 'e3x/so3/_common.py', 'e3x/so3/_normalization.py'],
  [('monomial table times coefficient matrix', 'so3/irreps.py: spherical_harmonics'),
   ('Cartesian permutation of orders', 'so3/_common.py: _cartesian_permutation')],
  ['e3x.so3.spherical_harmonics', 'e3x.so3.solid_harmonics'])

p('C02', 'Wigner-D matrices represent rotations on irreps',
  'For every rotation matrix R, the Wigner-D matrix D(R) satisfies Y(r R) = Y(r) D(R) for every vector r '
  'and every degree, is block diagonal and orthogonal, equals the identity for R = 1, and is a '
  'homomorphism: D(R1 R2) = D(R1) D(R2). The same holds in both component orderings and for batches of '
  'rotations.',
  ['inputs', 'configurations'],
  'all rotations (unit quaternions, and all rotations about coordinate axes, which generate the group), all vectors, degrees up to 3 (quick) / 4 (thorough)',
  'Tests check a handful of random rotations at low degree; the entries are polynomials of degree l in nine matrix '
  'elements taken from a generated table, so a wrong coefficient or permutation can be invisible at sampled points.',
  ['e3x/so3/rotations.py', 'e3x/so3/_wigner_d_lut.py', 'e3x/so3/_symbolic.py', 'e3x/so3/_common.py'],
  [('polynomial in the entries of the rotation matrix', 'so3/rotations.py: wigner_d')],
  ['e3x.so3.wigner_d'])

p('C03', 'Clebsch-Gordan coefficients couple irreps equivariantly',
  'Coupling two irreps with the Clebsch-Gordan coefficients commutes with every rotation: rotating both '
  'factors and then coupling equals coupling and then rotating the result. For each allowed pair of degrees '
  'the coefficients form an orthogonal change of basis, they vanish unless |l1-l2| <= l3 <= l1+l2, and '
  'the tables for a single degree triple and for all degrees up to a maximum agree, in both component orderings '
  'and for unequal maximum degrees.',
  ['inputs', 'configurations'],
  'all rotations (symbolic rotations about two coordinate axes generate the group), all pairs of irreps, degrees up to 3 (quick) / 4 (thorough) including unequal triples',
  'Tests compare tables with themselves or sample random rotations; equivariance is a universally quantified identity over the rotation group.',
  ['e3x/so3/irreps.py', 'e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_symbolic.py', 'e3x/so3/_common.py'],
  [('table lookup, slicing and permutation', 'so3/irreps.py: clebsch_gordan, clebsch_gordan_for_degrees')],
  ['e3x.so3.clebsch_gordan', 'e3x.so3.clebsch_gordan_for_degrees'])

p('C04', 'Irreps and traceless symmetric tensors convert back and forth exactly',
  'Converting an irrep to its Cartesian tensor and back is the identity, the tensor is symmetric and traceless, '
  'and conversion commutes with every rotation (rotating each tensor index equals rotating the irrep). '
  'Every traceless symmetric tensor converts to an irrep and back unchanged, the irrep of the traceless part of the outer powers of r is '
  'proportional to the harmonics of r in the requested normalization and ordering, and the traceless-symmetric test accepts exactly such tensors (within its tolerances).',
  ['inputs', 'configurations'],
  'all irrep vectors, all traceless symmetric tensors, all rotations about coordinate axes, degrees 0..4, both orderings, all normalizations',
  'Tests use fixed examples; these are linear identities over every tensor.',
  ['e3x/so3/irreps.py', 'e3x/so3/_tensor_conversion_lut.py', 'e3x/so3/_normalization.py'],
  [('conversion matrices', 'so3/irreps.py: tensor_to_irreps, irreps_to_tensor')],
  ['e3x.so3.tensor_to_irreps', 'e3x.so3.irreps_to_tensor', 'e3x.so3.is_traceless_symmetric'])

p('C05', 'Rotation constructors return the proper rotation they document',
  'Rotations built from an axis and angle, from Euler angles, by aligning two vectors, or at random are always '
  'proper orthogonal matrices; the axis is kept fixed and perpendicular vectors turn counterclockwise by the angle, '
  'Euler rotations turn about x, then y, then z, extracting Euler angles and rebuilding gives the same rotation, and the aligning rotation '
  'maps the direction of the first vector to the second along the shortest arc, also for parallel and antiparallel vectors. '
  'A random rotation with perturbation 0 is the identity, its rotation angle never exceeds perturbation times pi, values outside [0, 1] are clamped, and num gives the leading dimension.',
  ['inputs', 'configurations'],
  'all axes, angles, vector pairs, and all values of the underlying random draws; batched and unbatched',
  'Tests sample fixed angles and seeds; degenerate configurations (antiparallel vectors, gimbal lock, extreme random draws) are measure-zero.',
  ['e3x/so3/rotations.py', 'e3x/ops/safe.py'],
  [('half-angle quaternion formula', 'so3/rotations.py: rotation'),
   ('skew-symmetric formula', 'so3/rotations.py: alignment_rotation'),
   ('slerp with identity', 'so3/rotations.py: random_rotation')],
  ['e3x.so3.rotation', 'e3x.so3.rotation_euler', 'e3x.so3.euler_angles_from_rotation', 'e3x.so3.alignment_rotation', 'e3x.so3.random_rotation'])

p('C06', 'Quadrature rules: right grid for the request, exact up to its precision',
  'A quadrature request by precision returns the smallest available rule whose precision is at least that requested, and a request by number of '
  'points returns the most precise available rule with at most that many points; requests beyond the available range are clamped to the nearest available rule, and '
  'giving both or neither is an error. Every point lies on the unit sphere, weights sum to one, and the returned rule integrates every polynomial up to the requested precision exactly.',
  ['inputs', 'configurations'],
  'all integer requests; all harmonics (hence all polynomials) up to the returned rule\'s precision within the degree bound',
  'Tests try a few requests; the selection must be right for every integer and exactness for every polynomial.',
  ['e3x/so3/quadrature.py'],
  [('grid selection', 'so3/quadrature.py: _lebedev/_delley selection')],
  ['e3x.so3.lebedev_quadrature', 'e3x.so3.delley_quadrature'])

p('C07', 'Indexed reductions equal the mathematical segment reduction for all lists',
  'For every index list, mask and value array, indexed sum, min and max return for each destination exactly the sum, minimum or maximum '
  'over the entries assigned to it; masked or padded entries influence neither values nor derivatives (whatever value they hold), and the sparse and dense representations of the same list agree. '
  'Indexed softmax is positive, sums to the mask-weighted total of one over each destination, is invariant under adding a constant per destination, and applies the multiplicative '
  'mask as a factor inside the normalised exponential; destinations without contributing entries get zero weights and no NaN. All of this holds for leading batch dimensions and any trailing feature dimensions.',
  ['inputs', 'configurations'],
  'all index values (symbolic, in range plus the padding value), all masks, all real values; up to 4 nodes and 5 entries, batch and feature dimensions up to 2',
  'Tests use a few fixed index lists; duplicates, empty destinations, padding and batch dimensions interact combinatorially.',
  ['e3x/ops/indexed.py'],
  [('segment reductions and dense masked reductions', 'ops/indexed.py: indexed_sum, indexed_min, indexed_max, indexed_softmax')],
  ['e3x.ops.indexed_sum', 'e3x.ops.indexed_min', 'e3x.ops.indexed_max', 'e3x.ops.indexed_softmax'])

p('C08', 'Gathers and index-list conversions preserve the neighbour relation',
  'Gathering sources or destinations returns, for every entry of any index list, exactly the row of the indexed node (batch element by batch element), and the '
  'dense and sparse forms agree. Converting dense to sparse lists and back preserves the set of (destination, source) pairs for every list, padding '
  'entries never introduce or drop pairs, and the pairwise lists contain every ordered pair of distinct nodes exactly once.',
  ['inputs', 'configurations'],
  'all index values and masks within the bound (up to 4 nodes, 4 slots per node), all feature values; pairwise lists for every number of nodes up to 8',
  'Tests use fixed small lists; correctness is quantified over all lists and paddings.',
  ['e3x/ops/indexed.py'],
  [('gather and list conversion', 'ops/indexed.py: gather_src, gather_dst, dense_to_sparse_indices, sparse_to_dense_indices, *_pairwise_indices')],
  ['e3x.ops.gather_src', 'e3x.ops.gather_dst', 'e3x.ops.dense_to_sparse_indices', 'e3x.ops.sparse_to_dense_indices'])

p('C09', 'Safe norm and normalize: right value, right derivative, zero-safe',
  'For every array and choice of axes, the safe norm is the Euclidean norm and its derivative is the directional derivative of the norm, and the derivative is exactly zero at zero vectors. '
  'Normalising a nonzero vector yields the unit vector in its direction with the derivative of that map, and a zero vector is returned unchanged; at zero vectors and at nonzero vectors of ordinary magnitude, values, first and second derivatives are never NaN.',
  ['inputs', 'configurations'],
  'all real vectors (including zero), all axis/keepdims choices for up to rank 3',
  'Tests evaluate a few vectors; the derivative rule is custom and must hold for all vectors and tangents, and at the singular point.',
  ['e3x/ops/safe.py'],
  [('custom derivative rule', 'ops/safe.py: norm'), ('masked division', 'ops/safe.py: normalize_and_return_norm')],
  ['e3x.ops.norm', 'e3x.ops.normalize', 'e3x.ops.normalize_and_return_norm'])

p('C10', 'Derivative helper and inverse softplus compute what they document',
  'For every function and input, the derivative helper returns the value and all requested derivatives up to the maximum order, each equal to the true derivative along the '
  'input\'s own element. Inverse softplus is the exact inverse of softplus for every positive input, small or large.',
  ['inputs', 'programs'],
  'polynomial functions with arbitrary coefficients and all inputs; all positive reals',
  'Tests use fixed functions and points.',
  ['e3x/ops/helpers.py'],
  [('nested forward mode', 'ops/helpers.py: evaluate_derivatives'), ('thresholded inverse', 'ops/helpers.py: inverse_softplus')],
  ['e3x.ops.evaluate_derivatives', 'e3x.ops.inverse_softplus'])

p('C11', 'Rotating, reflecting, adding and reshaping features obey the irrep algebra',
  'Rotating features multiplies each degree by its rotation matrix in every parity channel; reflecting changes exactly the sign of odd-parity components (odd degrees for features without '
  'pseudotensors; the whole odd channel otherwise). Changing maximum degree or type keeps every component that exists in both formats at its place and fills the rest with zeros, and adding two feature '
  'arrays adds components of equal degree and parity after promotion to the larger format; all commute with rotation and reflection.',
  ['inputs', 'configurations'],
  'all feature values, all rotations about coordinate axes, degrees 0..3, both feature types and orderings, batch dimensions 0..2',
  'Tests cover a few format combinations with random numbers.',
  ['e3x/nn/features.py'],
  [('parity masks', 'nn/features.py: even_degree_mask, odd_degree_mask'), ('type conversion', 'nn/features.py: change_max_degree_or_type')],
  ['e3x.nn.rotate', 'e3x.nn.reflect', 'e3x.nn.change_max_degree_or_type', 'e3x.nn.add'])

p('C12', 'Activations are equivariant gates with the documented scalar function',
  'Every activation multiplies all components of a feature channel by one gate computed from the channel\'s even-parity scalar only, so it commutes with every rotation and reflection and never mixes channels. '
  'On the scalar component it equals the documented activation function for every input value, including the documented parameters.',
  ['inputs', 'configurations'],
  'all feature values (scalars in the stated range), all rotations about coordinate axes, all activations and parameter choices',
  'Tests sample a few random features; a gate reading the wrong component or a wrong branch at rare values passes.',
  ['e3x/nn/activations.py'],
  [('gated linear', 'nn/activations.py: _gated_linear')],
  ['e3x.nn.relu', 'e3x.nn.silu', 'e3x.nn.mish', 'e3x.nn.gelu'])

p('C13', 'Dense layers and embeddings are equivariant linear maps per degree',
  'For every choice of weights and inputs, a dense layer acts on each degree and parity separately with one matrix over feature channels, adds its bias only to the even scalar, and therefore commutes with every rotation and reflection. '
  'Embeddings return for every index exactly the row of the table as scalar features.',
  ['inputs', 'configurations'],
  'all weights, all inputs, all rotations about coordinate axes, both feature types, degrees 0..5, all indices',
  'Tests draw random weights; the statement is over all of them.',
  ['e3x/nn/modules.py'],
  [('one kernel per degree and parity', 'nn/modules.py: Dense'), ('table lookup', 'nn/modules.py: Embed')],
  ['e3x.nn.Dense', 'e3x.nn.Embed'])

p('C14', 'Tensor layers are equivariant and equal the weighted coupling sum',
  'For every choice of weights and inputs, the tensor, fused tensor and tensor-dense layers commute with every rotation and reflection. '
  'Each output component is the sum over allowed degree/parity pairs of weight times Clebsch-Gordan coefficient times the two input components; forbidden couplings (triangle rule, parity) contribute nothing, '
  'with and without pseudotensors and for unequal maximum degrees of inputs and output.',
  ['inputs', 'configurations'],
  'all weights and inputs, all rotations about coordinate axes, all combinations of maximum degrees up to 2 (quick) / 3 (thorough) and parities',
  'Tests check equivariance at random rotations in a few configurations.',
  ['e3x/nn/modules.py', 'e3x/so3/irreps.py'],
  [('parity-masked kernel times Clebsch-Gordan contraction', 'nn/modules.py: Tensor, FusedTensor, TensorDense')],
  ['e3x.nn.Tensor', 'e3x.nn.FusedTensor', 'e3x.nn.TensorDense'])

p('C15', 'Message passing sums neighbour messages equivariantly on any graph',
  'For every graph, weights, features and basis, message passing returns at each node the sum over its incoming entries of the coupling of the source features with the (weighted) edge basis. It commutes with rotations, reflections and relabelling of nodes, '
  'padding or masked entries and entries of other graphs never contribute, and sparse and dense neighbour lists give the same result.',
  ['inputs', 'configurations'],
  'all weights/features/basis values, all index values (symbolic) for up to 3 nodes and 4 entries, all rotations about coordinate axes',
  'Tests fix one graph with random numbers.',
  ['e3x/nn/modules.py', 'e3x/ops/indexed.py'],
  [('gather, couple, reduce', 'nn/modules.py: MessagePass, _Conv')],
  ['e3x.nn.MessagePass'])

p('C16', 'Attention layers are equivariant, normalised and local',
  'For every graph, weights, features, basis and cutoff values, attention commutes with rotations, reflections and node relabelling, and sparse and dense lists agree. '
  'Attention coefficients are invariants that form, per head and destination, a cutoff-weighted softmax over the incoming entries, so entries with zero cutoff, masked or padded entries have no influence.',
  ['inputs', 'configurations'],
  'all weights/features/basis/cutoff values on small graphs (up to 3 nodes), all rotations about coordinate axes',
  'Tests fix one graph with random numbers.',
  ['e3x/nn/modules.py', 'e3x/ops/indexed.py'],
  [('relative positional encodings and indexed softmax', 'nn/modules.py: MultiHeadAttention, SelfAttention')],
  ['e3x.nn.MultiHeadAttention', 'e3x.nn.SelfAttention'])

p('C17', 'Basis functions factorise, are equivariant and vanish beyond the cutoff',
  'For every displacement r, the basis equals radial function of |r| times cutoff times spherical harmonics of the direction, so it transforms under rotations of r like irreps and is invariant in its scalar part. '
  'With a cutoff, all components are exactly zero at and beyond the cutoff radius; the returned norm and cutoff values equal |r| and the cutoff function, and damping multiplies as documented.',
  ['inputs', 'configurations'],
  'all displacements, all rotations about coordinate axes, arbitrary (symbolic) radial and cutoff functions, degrees up to 3',
  'Tests evaluate a few displacements and functions.',
  ['e3x/nn/wrappers.py', 'e3x/so3/irreps.py'],
  [('radial x angular product', 'nn/wrappers.py: basis, ExponentialBasis')],
  ['e3x.nn.basis', 'e3x.nn.ExponentialBasis'])

p('C18', 'Radial functions keep their ranges, supports and partition identities',
  'Bernstein families are non-negative and sum to one, cutoff and switch functions stay in [0, 1], are one (or zero) outside their ranges exactly and change monotonically in between, window functions are non-negative with '
  'support on their own interval, mappings send the non-negative axis into their documented range monotonically, and inside its range every radial, mapping, damping, cutoff and switch function equals its closed formula. This holds for every distance and every parameter in the documented domain, and custom derivative rules equal the derivative of the function.',
  ['inputs', 'configurations'],
  'all distances in the stated range, symbolic cutoffs/limits/exponents, number of functions up to 6',
  'Tests plot or sample grids; the claims are inequalities and identities on intervals.',
  ['e3x/nn/functions/bernstein.py', 'e3x/nn/functions/cutoff.py', 'e3x/nn/functions/switch.py', 'e3x/nn/functions/window.py', 'e3x/nn/functions/mappings.py', 'e3x/nn/functions/damping.py', 'e3x/nn/functions/chebyshev.py', 'e3x/nn/functions/gaussian.py', 'e3x/nn/functions/trigonometric.py'],
  [('closed formulas with guards', 'nn/functions/*')],
  ['e3x.nn.basic_bernstein', 'e3x.nn.smooth_cutoff', 'e3x.nn.smooth_switch', 'e3x.nn.reciprocal_mapping'])

p('C19', 'No NaN or infinity in values or derivatives at any finite input',
  'For every input in the documented domain, including zero distances, zero vectors, the cutoff radius itself and very large or very small magnitudes (up to 1e18, down to the smallest normal number), the activations, mappings, radial functions, cutoffs, windows, '
  'basis, spherical harmonics, rotations, indexed softmax and sum, and safe operations return finite values and finite first derivatives (forward mode, and reverse mode with cotangents of order one) in single precision.',
  ['inputs', 'configurations'],
  'all float32 inputs of magnitude 0 or 1e-38 to 1e18 (smaller upper bounds for sinc, angles and three-dimensional rotation axes, see DESIGN.md), under an interval semantics of IEEE arithmetic with overflow, underflow to zero and NaN',
  'Tests check a few special points; overflow regions and singular points are tiny sets.',
  ['e3x/nn/activations.py', 'e3x/nn/functions', 'e3x/nn/wrappers.py', 'e3x/ops/safe.py'],
  [('guards by where/clip', 'nn/functions/*, nn/activations.py')],
  ['e3x.nn.*'])

p('C20', 'Initialisers zero forbidden couplings and scale by the allowed fan',
  'Tensor initialisers return, for every random draw, exact zeros for all couplings forbidden by the triangle rule or parity, and elsewhere zero-mean values with variance scale divided by the number of allowed couplings (fan) of the requested mode; '
  'the fused variants do the same for their compact layout.',
  ['inputs', 'configurations'],
  'all random draws (symbolic), all degree/parity shapes up to degree 3, all modes and distributions',
  'Tests check sample statistics.',
  ['e3x/nn/initializers.py'],
  [('masked variance scaling', 'nn/initializers.py')],
  ['e3x.nn.initializers'])

p('C21', 'Lookup tables do not depend on cache history',
  'Harmonics, Wigner-D, Clebsch-Gordan and tensor-conversion tables depend only on the requested degree: using, extending or writing an on-disk cache in any order never changes a coefficient.',
  ['histories', 'configurations'],
  'all sequences of up to three requests for each table (degrees up to 2 or 3), each with or without a configured cache file, with one or several processes, starting from a missing, empty or partially filled package table; all coefficient values',
  'Tests use one fresh cache per table.',
  ['e3x/so3/_lookup_table_generation_utility.py', 'e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_wigner_d_lut.py', 'e3x/so3/_spherical_harmonics_lut.py', 'e3x/so3/_tensor_conversion_lut.py'],
  [('partial load and extension', 'so3/_*_lut.py')],
  ['e3x.so3.*'])

p('C22', 'Matrices assembled from irreps are equivariant and invert to their blocks',
  'A matrix assembled from irreps transforms under every rotation as D(R)^T M D(R) with the block-diagonal rotation matrices of its row and column degrees; the assembly uses every irreducible component exactly once (it preserves the norm of the irreps and the advertised multiplicities count them), adds an identity matrix exactly when requested, the learned combination uses one weight matrix per degree, and the trace helper returns the rotation-invariant traces of its blocks.',
  ['inputs', 'configurations'],
  'all irreps values, all rotations about coordinate axes, small block structures up to degree 2',
  'The matrix tests compare shapes and a few random rotations.',
  ['e3x/matrix/matmat.py'],
  [('Clebsch-Gordan assembly', 'matrix/matmat.py')],
  ['e3x.matrix'])

p('C23', 'Shape validation accepts exactly the documented shapes',
  'The broadcast test is true exactly when the shapes are broadcastable to one another under standard rules, and feature arrays are accepted exactly when the parity axis is 1 or 2 and the degree axis is a perfect square, in which case the inferred maximum degree is the square root minus one.',
  ['inputs'],
  'all shapes with 0 to 4 dimensions and all non-negative sizes (degree axis up to 1681)',
  'Tests list a few shapes.',
  ['e3x/util.py', 'e3x/nn/features.py'],
  [('shape checks', 'util.py: is_broadcastable; nn/features.py: _extract_max_degree_and_check_shape')],
  ['e3x.util.is_broadcastable'])

p('C24', 'Configured defaults take effect in every later call',
  'After any sequence of calls that change the configured defaults for normalization, component order or fused tensor products, every later function call (and every module constructed later) that does not pass the option explicitly behaves as if the most recently configured value had been passed; '
  'explicitly passed options win over the configuration, a rejected value leaves the configuration unchanged, and a setter called without argument restores the documented default.',
  ['inputs', 'histories', 'configurations'],
  'all real inputs and parameters; histories of up to four setter calls mixed with library calls, for every function and module with a configurable option; degrees up to 3',
  'No test changes the configuration, and equality with the explicit option must hold for every input.',
  ['e3x/config.py', 'e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/nn/wrappers.py', 'e3x/nn/modules.py'],
  [('options that default to the configuration', 'so3/irreps.py, so3/rotations.py, nn/wrappers.py, nn/modules.py')],
  ['e3x.Config', 'e3x.so3.*', 'e3x.nn.*'])

p('C25', 'Batch elements are processed independently',
  'Every function and module accepts leading batch axes, and element b of the result depends on element b of the inputs alone: it equals the result of the call on that element without the batch axes, with the neighbour list of that element. '
  'Calling the unbatched function under jax.vmap gives the same result as passing the batch directly.',
  ['inputs', 'configurations'],
  'all real inputs and parameters of ordinary magnitude; batch shapes (2,), (2, 1), (1, 2), (2, 2); graphs of up to 3 nodes with a different neighbour list for every element; degrees up to 3',
  'Tests check shapes of batched calls, or compare one random batch; a mix-up between batch elements shows only for some index lists and values.',
  ['e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/ops/indexed.py', 'e3x/nn/features.py', 'e3x/nn/modules.py', 'e3x/nn/wrappers.py', 'e3x/matrix/matmat.py'],
  [('batched index operations', 'ops/indexed.py'), ('batched contractions', 'nn/modules.py, so3/irreps.py')],
  ['e3x.so3.*', 'e3x.ops.*', 'e3x.nn.*', 'e3x.matrix.*'])

p('C26', 'Arguments outside the documented domain are rejected, all others accepted',
  'A call raises ValueError exactly when its arguments violate the documented preconditions: cutoff radii are positive, switch limits ordered, the numbers of radial functions and of nodes are at least one, degrees and derivative orders are not negative, the output degree of a tensor product is at most the sum of the input degrees, '
  'the features of an attention layer are divisible by the number of heads, and array shapes fit: vectors end in 3, rotation matrices in 3 x 3, irreps of degree l in 2l+1, Cartesian tensors in l axes of size 3, Wigner-D matrices in (L+1)^2 x (L+1)^2, index lists and masks share the leading axes of the values they index, summands have equal leading axes and features.',
  ['inputs', 'configurations'],
  'all integers and real numbers as degrees, counts, cutoffs and limits; all shapes with positive sizes and up to 4 or 5 axes',
  'Tests try one bad value per check, if any; an off-by-one in a bound or a precondition that rejects valid arguments stays hidden.',
  ['e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/so3/_common.py', 'e3x/nn/functions/cutoff.py', 'e3x/nn/functions/switch.py', 'e3x/nn/features.py', 'e3x/nn/modules.py', 'e3x/ops/indexed.py', 'e3x/ops/helpers.py'],
  [('argument checks', 'all public functions that raise ValueError')],
  ['e3x.so3.*', 'e3x.ops.*', 'e3x.nn.*'])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for x in P:
      f.write(json.dumps(x) + '\n')
