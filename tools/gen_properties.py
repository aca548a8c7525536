"""writes /verif/properties.jsonl"""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

G = 'e2cnn/group/'
add('C01', 'Group composition, inversion, identity and equality obey the group laws',
    'For every supported symmetry group (cyclic, dihedral, SO(2), O(2)) and all of its elements, composing is associative and stays inside the group, the identity is neutral, and every element composed with its inverse gives the identity. Element equality is an equivalence compatible with composition, membership accepts exactly the elements, and a finite group lists each of its elements exactly once.',
    ['inputs', 'configurations'], 'all elements (symbolic integers / real angles) of each group, all groups up to the stated order',
    'tests evaluate a fixed list of sampled elements; the continuous groups have uncountably many and wrap-around happens only at special angles',
    [G+'groups/cyclicgroup.py', G+'groups/dihedralgroup.py', G+'groups/so2group.py', G+'groups/o2group.py', G+'group.py'],
    [('combine/inverse/equal/is_element', G+'groups/*.py')], ['group.combine', 'group.inverse', 'group.equal', 'group.is_element', 'group.elements'])
add('C02', 'Subgroup embeddings are injective homomorphisms with an exact partial inverse',
    'For every group and every valid subgroup identifier, embedding subgroup elements into the group preserves products, is injective and lands on the documented elements. The map back returns the corresponding (valid) subgroup element for exactly those group elements that lie in the subgroup, and nothing for any other element.',
    ['inputs', 'configurations'], 'all elements of group and subgroup (symbolic), all subgroup ids up to the stated order',
    'tests check a few ids on a sample of elements; the failing elements are isolated (wrap-around, negative angles)',
    [G+'groups/cyclicgroup.py', G+'groups/dihedralgroup.py', G+'groups/so2group.py', G+'groups/o2group.py', 'e2cnn/gspaces/r2/*.py'],
    [('subgroup / restrict', 'Group.subgroup, GSpace.restrict')], ['group.subgroup(id)', 'gspace.restrict(id)'])
add('C03', 'Every representation is a homomorphism, orthogonal and with the right character',
    'For every representation the library builds (irreducible, regular, quotient, induced, trivial, direct sums, changes of basis), the matrix of a product of two elements is the product of their matrices and the identity is sent to the identity matrix. Matrices of irreducible representations are orthogonal, and the character of any element is the trace of its matrix.',
    ['inputs', 'configurations'], 'all pairs of group elements (symbolic), all irreps up to the stated frequency, listed composite representations',
    'tests compare sampled pairs of elements; a wrong frequency, sign or phase on one family of irreps or elements can hide between samples',
    [G+'irrep.py', G+'representation.py', G+'group.py', G+'groups/*.py'],
    [('irrep/regular/quotient/induced construction', G+'groups/*.py'), ('directsum, change_basis', G+'representation.py')], ['repr(g)', 'repr.character(g)'])
add('C04', 'Restriction and induction preserve the matrices they must preserve',
    'Restricting a representation to a subgroup gives a representation of that subgroup whose matrix at every subgroup element equals the original matrix at the embedded element. Inducing a representation from a subgroup gives a representation of the full group of size index times size, that contains the original one when restricted back.',
    ['inputs', 'configurations'], 'all subgroup elements (symbolic), every group/subgroup/irrep within the stated bounds',
    'tests sample a few elements, ids and frequencies',
    [G+'representation.py', G+'groups/*.py', G+'group.py'],
    [('restrict_representation, _restrict_irrep, _induced_from_irrep', G+'groups/*.py')], ['group.restrict_representation', 'group.induced_representation'])
add('C05', 'Every representation equals its stated decomposition into irreps',
    'For every representation and every group element, the matrix equals change-of-basis times the block diagonal of the listed irreps times the inverse change-of-basis, and the two change-of-basis matrices are inverse to each other. Disentangling a representation yields an equivalent one, related by the returned matrix, whose listed pieces together form exactly the same irreps.',
    ['inputs', 'configurations'], 'all group elements (symbolic), listed representations',
    'tests sample elements and a few representations',
    [G+'representation.py', 'e2cnn/nn/field_type.py', 'e2cnn/nn/modules/disentangle_module.py'],
    [('Representation.__init__, directsum, disentangle, FieldType.change_of_basis', G+'representation.py')], ['repr.change_of_basis', 'repr.irreps', 'disentangle(repr)'])
add('C06', 'Steerable kernel bases satisfy the equivariance constraint at every point',
    'Every kernel in a basis built for a symmetry and a pair of representations satisfies K(g x) = rho_out(g) K(x) rho_in(g)^-1 for every group element g and every point x of the plane. This holds for all radial rings, frequency and offset limits, flip axes, and representations in any basis.',
    ['inputs', 'configurations'], 'all points (symbolic polar coordinates) and all group elements (symbolic), configurations within the stated frequency bounds',
    'tests sample random points and elements for a few representation pairs',
    ['e2cnn/kernels/irreps_basis.py', 'e2cnn/kernels/steerable_basis.py', 'e2cnn/kernels/basis.py', 'e2cnn/kernels/r2.py', 'e2cnn/gspaces/r2/*.py'],
    [('angular solutions and radial profiles', 'e2cnn/kernels/irreps_basis.py'), ('change of basis of the stacked solutions', 'e2cnn/kernels/steerable_basis.py')],
    ['gspace.build_kernel_basis(...).sample'])
add('C07', 'Steerable kernel bases are linearly independent and complete',
    'No kernel of a basis is a linear combination of the others, and every kernel with angular frequencies within the requested limits that satisfies the equivariance constraint is a combination of basis kernels. The attributes listed for each basis element describe that element.',
    ['inputs', 'configurations'], 'all real coefficient vectors (existential/universal linear algebra over all angles), configurations within the stated bounds',
    'tests never check completeness, and independence only through numerical rank on samples',
    ['e2cnn/kernels/irreps_basis.py', 'e2cnn/kernels/utils.py', 'e2cnn/kernels/r2.py', 'e2cnn/kernels/steerable_basis.py'],
    [('frequency and offset enumeration', 'e2cnn/kernels/irreps_basis.py, utils.py')], ['KernelBasis.sample', 'len(basis)', 'basis[i]'])
add('C08', 'Differential operator bases are equivariant and discretised exactly',
    'Every differential operator in a basis built for a symmetry satisfies the equivariance constraint on its polynomial symbol for every group element, no operator is a combination of the others, and every operator within the requested orders that satisfies the constraint is one. Finite difference stencils applied to polynomials of degree up to their order of accuracy give the exact derivative.',
    ['inputs', 'configurations'], 'all group elements and polynomial arguments (symbolic), all polynomial coefficients, orders within the stated bound',
    'tests sample elements and points; stencils are compared on fixed examples',
    ['e2cnn/diffops/*.py', 'e2cnn/gspaces/r2/*.py'],
    [('diffop solutions', 'e2cnn/diffops/irreps_basis.py'), ('stencils', 'e2cnn/diffops/utils.py, basis.py')], ['gspace.build_diffop_basis(...)', 'discretised stencils'])
add('C09', 'Results do not depend on what was built before (caches are transparent)',
    'Building a group, a representation, a basis or a layer gives the same mathematical object whatever was built earlier in the same process. In particular two spaces, bases or layers that differ in any parameter (flip axis, rings, widths, cut-offs, operator order, discretisation) never share cached data that makes one of them wrong; and changing, casting or loading one layer does not affect another.',
    ['histories', 'configurations'], 'all ordered pairs (first built, second built) of configurations out of the stated families, against a fresh build',
    'tests build each configuration in isolation or in one fixed order',
    ['e2cnn/gspaces/r2/general_r2.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py', 'e2cnn/kernels/r2.py', 'e2cnn/kernels/basis.py', G+'group.py'],
    [('kernel/diffop basis memory', 'GeneralOnR2'), ('sampled filter memory keyed by basis equality', 'basisexpansion_singleblock.py'), ('group/representation instances', 'groups/factory.py')],
    ['R2Conv filters', 'build_kernel_basis', 'build_diffop_basis'])
add('C10', 'Steerable convolution commutes with grid symmetries for all inputs and weights',
    'For every input feature field, every value of the weights and bias, and every group element that maps the pixel grid to itself, convolving the transformed input gives the transform of the convolved input. This holds for every supported group, representation mix, kernel size, stride, dilation, grouping and padding setting that preserves the grid symmetry.',
    ['inputs', 'configurations'], 'all inputs and weights (symbolic tensors), listed configurations, tensor sizes within the stated bounds',
    'tests draw random weights and inputs and skip stride/dilation/group/padding-mode combinations',
    ['e2cnn/nn/modules/r2_conv/r2convolution.py', 'e2cnn/nn/modules/r2_conv/basisexpansion*.py', 'e2cnn/kernels/*.py'],
    [('filter expansion and convolution', 'R2Conv.forward/expand_parameters')], ['R2Conv(x)'])
add('C11', 'Transposed convolution and differential operator layers are equivariant',
    'For all inputs and weights and all grid symmetries, the transposed steerable convolution and the differential-operator layer commute with the group action.',
    ['inputs', 'configurations'], 'all inputs and weights (symbolic), listed configurations within the stated sizes',
    'tests use random weights and inputs on few settings',
    ['e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py', 'e2cnn/nn/modules/r2_conv/r2diffop.py'],
    [('filter expansion', 'R2ConvTransposed/R2Diffop.forward')], ['module(x)'])
add('C12', 'Training, evaluation and exported modules compute the same function',
    'For all inputs, weights and statistics, a layer in evaluation mode computes the same function as in training mode (where the two are specified to agree), also after weights change between switches, and the exported plain PyTorch module computes exactly the evaluation-mode function of the equivariant module.',
    ['inputs', 'histories', 'configurations'], 'all inputs, weights and running statistics (symbolic), switch histories train/eval/update/eval, listed modules and options',
    'tests compare on random inputs for default options and a single switch',
    ['e2cnn/nn/modules/**/*.py'], [('train(mode), export()', 'every EquivariantModule')], ['module.eval()(x)', 'module.export()(x)'])
add('C13', 'Non-linearities are equivariant for every input and parameter',
    'For all inputs and parameter values, each non-linearity (pointwise, norm, gated, concatenated, vector-field, induced variants) commutes with the action of every group element, for every supported mix and order of field representations. Each output field depends only on the input fields it is defined from.',
    ['inputs', 'configurations'], 'all inputs and parameters (symbolic), listed representation mixes, every group element of the listed groups',
    'tests sample inputs; fields of mixed types, non contiguous layouts and shared parameters are seldom combined',
    ['e2cnn/nn/modules/nonlinearities/*.py'], [('field indexing and multipliers', 'nonlinearities/*.py')], ['module(x)'])
add('C14', 'Spatial pooling, upsampling and masking are equivariant for every input',
    'For all inputs and all grid symmetries, max, average, adaptive, norm-based and antialiased pooling, upsampling and spatial masking commute with the group action, and norm-based pooling always returns one of the input vectors of the window with the largest norm.',
    ['inputs', 'configurations'], 'all inputs (symbolic; ties between candidates excluded), listed sizes/strides/paddings',
    'tests sample inputs on few window configurations',
    ['e2cnn/nn/modules/pooling/*.py', 'e2cnn/nn/modules/r2upsampling.py', 'e2cnn/nn/modules/masking_module.py'], [('pooling', 'pooling/*.py')], ['module(x)'])
add('C15', 'Normalisation layers are equivariant and keep correct statistics',
    'For all batches, parameters and running statistics, each batch-normalisation layer commutes with the group action in training and in evaluation mode. The statistics it stores after a training step are the documented running averages of the documented per-field statistics and do not change when the batch is transformed by a group element. In evaluation mode every field is centred and scaled by its own stored statistics and learnt parameters.',
    ['inputs', 'histories', 'configurations'], 'all inputs, parameters and running statistics (symbolic), one or two training steps, listed representation mixes',
    'tests sample batches and seldom check the stored statistics',
    ['e2cnn/nn/modules/batchnormalization/*.py'], [('statistics and running averages', 'batchnormalization/*.py')], ['module(x)', 'running statistics'])
add('C16', 'Invariant maps really are invariant and equal their definition',
    'For all inputs and group elements, group pooling, norm pooling and induced norm pooling give the documented statistic of each field, unchanged when the fibers are transformed and moved only spatially when the field is transformed.',
    ['inputs', 'configurations'], 'all inputs (symbolic), listed representation mixes, every element of the listed groups',
    'tests sample inputs', ['e2cnn/nn/modules/invariantmaps/*.py'], [('pooling over the channels of a field', 'invariantmaps/*.py')], ['module(x)'])
add('C17', 'Structural modules route every field exactly where their types say',
    'For all inputs, the modules that reorder, split, merge, branch, route by label, restrict, chain or disentangle fields return exactly the requested fields with the matching types, and commute with the action of every element of the (sub)group. None of them mixes, drops or duplicates channels beyond the request, or changes its arguments.',
    ['inputs', 'configurations'], 'all inputs (symbolic), all label assignments / permutations within the stated field counts',
    'tests use a few fixed layouts', ['e2cnn/nn/modules/*_module.py', 'e2cnn/nn/modules/module_list.py'], [('channel indices', '*_module.py')], ['module(x)'])
add('C18', 'Geometric tensors: indexing, splitting, summing and transforming respect fields',
    'For all tensors, slicing and splitting select exactly the requested fields and positions with the matching type, direct sums concatenate data and types in order, and arithmetic acts elementwise. Transforming a tensor is the documented group action: acting with a product equals acting twice, and fibers and base space move together.',
    ['inputs', 'configurations'], 'all data (symbolic), all slice bounds and break points (symbolic integers) within the stated field counts',
    'tests use a handful of slices', ['e2cnn/nn/geometric_tensor.py', 'e2cnn/gspaces/*.py'], [('__getitem__, split, transform, tensor_directsum', 'geometric_tensor.py')], ['tensor[...]', 'tensor.split', 'tensor.transform'])
add('C19', 'Field types keep sizes, boundaries, order and equality consistent',
    'For every list of representations, the field type reports sizes, field boundaries, irreps and change of basis consistent with the list; addition, sorting, selection, labelling and restriction return the documented list of fields; two field types compare equal exactly when they describe the same space and the same list.',
    ['inputs', 'configurations'], 'all lists up to the stated length over a pool of representations (symbolic choice per position)',
    'tests use a few lists', ['e2cnn/nn/field_type.py', 'e2cnn/gspaces/r2/*.py'], [('FieldType', 'field_type.py')], ['FieldType attributes'])
add('C20', 'Declared output shapes and types are the actual ones',
    'For every module and every input shape it accepts, the predicted output shape equals the shape of the output really computed, and the output has the declared type.',
    ['inputs', 'configurations'], 'all spatial sizes and hyper-parameters (symbolic integers) within the stated ranges',
    'tests check a few shapes', ['e2cnn/nn/modules/**/*.py'], [('evaluate_output_shape', 'every module')], ['module.evaluate_output_shape', 'module(x).shape'])
add('C21', 'Dropout removes whole fields and is unbiased',
    'For all inputs and all random draws, field dropout in training multiplies the whole vector of a field (at a position of a sample) by a single factor that is zero or 1/(1-p), the latter with probability 1-p and independently for different fields and samples; pointwise dropout does so per channel; in evaluation mode both are the identity; the input is altered only when the in-place option is on.',
    ['inputs', 'configurations'], 'all inputs and all random draws (symbolic), listed representation mixes and probabilities',
    'tests cannot enumerate the random draws', ['e2cnn/nn/modules/dropout/*.py'], [('masks', 'dropout/*.py')], ['module(x)'])
add('C22', 'Weight initialisation yields the documented filters and variances',
    'For every random draw, the generalised He initialisation gives independent weights whose variances, over all the weights feeding one output irrep, add up to one: shared equally among the distinct input irreps which reach it and, within each, equally among their basis filters. The delta-orthogonal initialisation yields filters supported on the origin only, which are orthonormal maps between isotypic components (zero between different irreps).',
    ['inputs', 'configurations'], 'all random draws (symbolic), listed layers',
    'statistical tests are skipped in the suite', ['e2cnn/nn/init.py'], [('init functions', 'e2cnn/nn/init.py')], ['weights after initialisation'])
add('C23', 'Layer filters are the described sum of exactly the admissible kernels',
    'For every value of the weights, the filter of a convolution, transposed convolution or differential-operator layer is the sum of its weights times the sampled, normalised kernels that the basis provides for each pair of an input and an output field. There is exactly one weight for each kernel admitted by the frequency cut-off (or order limit) and by the user filter, the information reported for a weight (by index, name or iteration) describes that very kernel and its fields, and the bias has exactly one parameter per invariant direction of the output.',
    ['inputs', 'configurations'], 'all weights and biases (symbolic), listed layers with repeated and interleaved fields',
    'equivariance tests cannot see missing, duplicated or misplaced kernels: fewer kernels are still equivariant; the descriptions of the weights are not tested at all',
    ['e2cnn/nn/modules/r2_conv/*.py'], [('block layout', 'basisexpansion_blocks.py'), ('sampling and normalisation', 'basisexpansion_singleblock.py'), ('cut-offs and grids', 'compute_basis_params')],
    ['layer.expand_parameters()', 'layer.basisexpansion.get_basis_info / get_element_info / get_basis_names'])
add('C24', 'The saved state of a module determines its function',
    'Loading the state dictionary of a module into another one built with the same arguments (both in the same mode) makes the two compute the same function, then and after switching modes, for all parameters, statistics and inputs. A deep copy computes the same function and changing it leaves the original alone. Names, order and meaning of the parameters do not depend on the order in which Python happens to iterate over sets.',
    ['inputs', 'histories', 'configurations'], 'all parameters, statistics and inputs (symbolic), both modes, several iteration orders of sets',
    'tests never store and load states, and one process sees one hash order only',
    ['e2cnn/nn/modules/*.py', 'e2cnn/nn/modules/r2_conv/*.py'], [('registered buffers and parameters', 'module constructors, train()'), ('order of the basis elements', 'basisexpansion_blocks.py')],
    ['state_dict / load_state_dict / deepcopy'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
