"""C23: the filter of a layer is the weighted sum of exactly the admissible kernels, each weight being what its description says."""
import math
from common import *
from e2cnn.kernels import EmptyBasisException
from e2cnn.diffops import DiscretizationArgs
from c10 import R, SO2, O2, FR, FL, TR, twisted

INFO = dict(
    level='model_checking',
    functions=['R2Conv, R2ConvTransposed, R2Diffop: __init__, expand_parameters', 'compute_basis_params, get_grid_coords, bandlimiting_filter, order_filter (run with the configuration)',
               'BlocksBasisExpansion: __init__, forward, _expand_block, get_basis_names, get_element_info, get_basis_info, dimension',
               'SingleBlockBasisExpansion: __init__, forward, normalize_basis; _retrieve_indices, _compute_attrs_and_ids'],
    bounds='weights and bias: all real values in [-1,1] (the filter is linear in them, so every scale); kernel size 1..7, dilation 1..2, <= 5 fields with repeated and '
           'interleaved representations, groups 1..3; configurations as listed in case_list',
    outside='whether the sampled kernels stay independent on the pixel grid (only the analytical ones are: C07); rings with repeated radii; float rounding beyond tolerance 1e-4',
    assumptions=['the analytical bases (build_kernel_basis, build_diffop_basis) and their listed attributes are right: that is C06, C07, C08',
                 'elements which vanish on all sampled points are discarded (documented in SingleBlockBasisExpansion)'],
)
T = 1e-4


def grid(k, d):
    c = (k - 1) / 2
    return np.array([[(j - c) * d, (c - i) * d] for i in range(k) for j in range(k)], dtype=float).T


def same(a, b):
    if isinstance(a, (str, bytes, type(None), tuple, list, bool)):
        return a == b
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def is_orthogonal(r):
    return np.allclose(r.change_of_basis @ r.change_of_basis.T, np.eye(r.size), atol=1e-8)


def reference(build, keep, it, ot, pts):
    """(out field, in field, attributes, kernel on the points) of every admissible element; built pair by pair from the analytical bases"""
    ref = []
    for o, ro in enumerate(ot.representations):
        for i, ri in enumerate(it.representations):
            try:
                B = build(ri, ro)
            except EmptyBasisException:
                continue
            mask = np.array([bool(keep(a)) for a in B])
            if not mask.any():
                continue
            S = B.sample_masked(pts, mask)      # operators beyond the requested order may not fit the grid
            for n, a in enumerate([a for a, k in zip(B, mask) if k]):
                K = S[:, :, n, :]
                nrm = math.sqrt((K ** 2).sum() / a['shape'][0])
                if nrm < 1e-6:
                    continue
                ref.append((o, i, dict(a), K / nrm, is_orthogonal(ri) and is_orthogonal(ro)))
    return ref


def obligations(E, m, it, ot, build, keep, pts, k, transposed=False, bias_type=None):
    obs = []
    be = m.basisexpansion
    ref = reference(build, keep, it, ot, pts)
    infos = list(be.get_basis_info())
    names = list(be.get_basis_names())
    D = be.dimension()
    obs.append(Fact('one weight per admissible element', m.weights.numel() == D == len(infos) == len(names) == len(ref),
                    f'weights {m.weights.numel()}, dimension {D}, infos {len(infos)}, names {len(names)}, admissible {len(ref)}'))
    obs.append(Fact('names are different', len(set(names)) == len(names)))
    if not all(o.ok for o in obs):
        return obs
    # descriptions agree with each other
    bad = []
    for n, a in enumerate(infos):
        for b in (be.get_element_info(n), be.get_element_info(names[n])):
            if set(a) != set(b) or not all(same(a[q], b[q]) for q in a) or a['id'] != names[n] or a['idx'] != n:
                bad.append((n, names[n]))
    obs.append(Fact('index, name and iteration describe the same element', not bad, str(bad[:3])))
    # descriptions and admissible elements are in one to one correspondence
    pos = lambda t: np.cumsum([0] + [len(r.irreps) for r in t.representations])
    pi, po = pos(it), pos(ot)
    free = list(range(len(ref)))
    match = [None] * len(infos)
    for n, a in enumerate(infos):
        for q in free:
            o, i, ra, K, orth = ref[q]
            if (a['out_field_position'], a['in_field_position']) == (o, i) and all(same(a.get(key, None), v) for key, v in ra.items() if key not in ('idx', 'id')):
                match[n] = q
                free.remove(q)
                break
    obs.append(Fact('every weight is described as a different admissible element', not free and None not in match, f'no element described as {[ref[q][:3] for q in free[:2]]}'))
    if free or None in match:
        return obs
    bad = []
    for n, a in enumerate(infos):
        o, i, ra, K, orth = ref[match[n]]
        want = dict(in_repr=it.representations[i].name, out_repr=ot.representations[o].name,
                    in_irreps_position=pi[i] + ra['in_irrep_idx'], out_irreps_position=po[o] + ra['out_irrep_idx'])
        if any(a[key] != v for key, v in want.items()):
            bad.append((n, {key: (a[key], v) for key, v in want.items() if a[key] != v}))
    obs.append(Fact('fields and irreps named in the descriptions', not bad, str(bad[:2])))
    # the filter is the sum of the described elements
    with E.run():
        f, b = m.expand_parameters()
    shape = (it.size, ot.size, k, k) if transposed else (ot.size, it.size, k, k)
    obs.append(Fact('filter shape', tuple(f.shape) == shape, f'{tuple(f.shape)} {shape}'))
    if tuple(f.shape) != shape:
        return obs
    A = np.zeros((len(infos), ot.size, it.size, k * k))
    for n in range(len(infos)):
        o, i, ra, K, orth = ref[match[n]]
        A[n, ot.fields_start[o]:ot.fields_end[o], it.fields_start[i]:it.fields_end[i]] = K
    if transposed:
        A = A.transpose(0, 2, 1, 3)
    w = m._parameters['weights']
    obs.append(Eq('filter == weighted sum of the described kernels', f, lin(A.reshape(len(infos), -1).T, w, shape), T))
    # the bias spans the invariant vectors of the output
    bt = bias_type or ot
    if getattr(m, 'bias', None) is not None:
        cols = []
        p = 0
        for r in bt.representations:
            q = 0
            for s in r.irreps:
                s = r.group.irreps[s]
                if s.is_trivial():
                    v = np.zeros(bt.size)
                    v[p:p + r.size] = r.change_of_basis[:, q]
                    cols.append(v)
                q += s.size
            p += r.size
        obs.append(Fact('one bias per invariant vector', len(cols) == m._parameters['bias'].numel(), f"{len(cols)} {m._parameters['bias'].numel()}"))
        if obs[-1].ok:
            obs.append(Eq('bias == weighted sum of the invariant vectors', b, lin(np.array(cols).T, m._parameters['bias'], (bt.size,)), T))
    return obs


def lin(A, w, shape):
    """A @ w"""
    if isinstance(w, st.SymTensor):
        return st.new(P.linmap(__import__('scipy.sparse').sparse.csr_matrix(A), st.pm(w)), shape, w.dtype)
    return (torch.tensor(A) @ w.double()).reshape(shape).float()


def default_cutoff(k):
    """the documented default policy: 0 at the origin, 2 r inside (one less on even rings), at most 2 on the outer ring"""
    def f(r):
        return 0. if r == 0. else min(2 * r, 2 if r == k // 2 else 2 * r - (r + 1) % 2)
    return f


def conv(gs_f, ins, outs, k, transposed=False, dilation=1, rings=None, sigma=None, cutoff=None, offset=None, flt=None, groups=1, **kw):
    def fn(E):
        gs = gs_f()
        it, ot = ft(gs, *ins), ft(gs, *outs)
        a = dict(kw)
        for n, v in (('rings', rings), ('sigma', sigma), ('frequencies_cutoff', cutoff), ('maximum_offset', offset), ('basis_filter', flt)):
            if v is not None:
                a[n] = v
        m = (enn.R2ConvTransposed if transposed else enn.R2Conv)(it, ot, kernel_size=k, initialize=False, dilation=dilation, groups=groups, **a)
        m.train()
        E.params(m)
        rr = rings if rings is not None else [x * dilation for x in np.linspace(0, (k - 1) // 2, math.ceil(k / 2))]
        ss = sigma if sigma is not None else [0.005 if x == 0 else 0.6 if n < len(rr) - 1 else 0.4 for n, x in enumerate(rr)]
        ss = [ss] * len(rr) if isinstance(ss, float) else ss
        co = cutoff if callable(cutoff) else (lambda r: cutoff * r) if cutoff is not None else default_cutoff(k)
        M = int(max(co(r) for r in rr))
        keep = lambda d: abs(d['frequency']) <= co(d['radius']) and (flt is None or flt(d))
        build = lambda ri, ro: gs.build_kernel_basis(ri, ro, list(ss), list(rr), maximum_frequency=M, maximum_offset=offset)
        bt = ot
        if groups > 1:
            if transposed:
                ot = enn.FieldType(gs, ot.representations[:len(ot) // groups])
            else:
                it = enn.FieldType(gs, it.representations[:len(it) // groups])
        return obligations(E, m, it, ot, build, keep, grid(k, dilation), k, transposed, bt)
    return fn


def diffop(gs_f, ins, outs, k, order, dilation=1, flt=None, power=None, offset=None, groups=1, method='fd', smoothing=None, **kw):
    def fn(E):
        gs = gs_f()
        it, ot = ft(gs, *ins), ft(gs, *outs)
        a = dict(kw)
        for n, v in (('maximum_power', power), ('maximum_offset', offset), ('basis_filter', flt), ('smoothing', smoothing)):
            if v is not None:
                a[n] = v
        m = enn.R2Diffop(it, ot, kernel_size=k, maximum_order=order, initialize=False, dilation=dilation, groups=groups, rbffd=method == 'rbffd', **a)
        m.train()
        E.params(m)
        keep = lambda d: d['order'] <= order and (flt is None or flt(d))
        disc = DiscretizationArgs(method=method, smoothing=smoothing, angle_offset=kw.get('angle_offset', None), phi='ga')
        build = lambda ri, ro: gs.build_diffop_basis(ri, ro, order // 2 if power is None else min(power, order // 2), disc, maximum_frequency=order, maximum_offset=offset)
        bt = ot
        if groups > 1:
            it = enn.FieldType(gs, it.representations[:len(it) // groups])
        return obligations(E, m, it, ot, build, keep, grid(k, dilation), k, bias_type=bt)
    return fn


def cases(tier):
    C = []

    def add(name, *a, **k):
        C.append(('conv ' + name, conv(*a, **k)))

    def both(name, *a, **k):
        C.append(('conv ' + name, conv(*a, **k)))
        C.append(('transposed ' + name, conv(*a, transposed=True, **k)))

    def dop(name, *a, **k):
        C.append(('diffop ' + name, diffop(*a, **k)))
    X = dict(rings=[0., 1., 1.4], sigma=[0.3, 0.5, 0.6], cutoff=2.)
    both('c4 one pair', R(4), [reg, reg], [reg], 3, **X)
    both('c4 interleaved', R(4), [reg, irr(1), reg, triv, irr(1)], [irr(1), triv, irr(1), reg], 3, **X)
    both('c4 input interleaved', R(4), [irr(1), triv, irr(1)], [reg, reg, irr(1)], 3, **X)
    both('c4 output interleaved', R(4), [irr(1), irr(1), triv], [reg, irr(1), reg], 3, **X)
    both('d4 interleaved', FR(4), [reg, irr(1, 1), reg], [irr(1, 1), irr(1, 0), irr(1, 1)], 3, **X)
    both('d3 axis', FR(3, axis=0.4), [irr(1, 1), reg], [irr(1, 1), irr(1, 0), irr(1, 1)], 3, **X)
    both('flip', FL(), [reg, irr(1), reg], [irr(1), reg, irr(1)], 3, **X)
    both('trivial group', TR, [triv, triv], [triv, triv, triv], 3, **X)
    both('so2', SO2(), [irr(0), irr(1), irr(0)], [irr(1), irr(2), irr(1)], 3, **X)
    both('o2', O2(), [irr(0, 0), irr(1, 1), irr(0, 0)], [irr(1, 1), irr(1, 2), irr(1, 0)], 3, **X)
    both('impossible pairs', SO2(8), [irr(0), irr(8)], [irr(8), irr(0), irr(1)], 3, **X)        # some pairs admit no kernel
    both('c8', R(8), [irr(3), irr(0), irr(3)], [irr(1), irr(4), irr(1)], 5, rings=[0., 1., 2.], sigma=0.6, cutoff=1.5)
    both('quotient', FR(4), [quo((0, 1)), triv, quo((0, 1))], [quo((None, 2)), triv], 3, **X)
    both('twisted', R(4), [lambda gs: twisted(gs.regular_repr, 1), triv], [lambda gs: twisted(gs.regular_repr, 2)], 3, **X)
    both('dilation', R(4), [reg, triv], [irr(1), triv], 3, dilation=2, rings=[0., 2., 2.8], sigma=[0.3, 0.9, 1.], cutoff=1.)
    both('kernel2', R(4), [reg, triv], [irr(1), triv], 2, rings=[0.7], sigma=[0.6], cutoff=3.)
    both('kernel4', FR(4), [reg, triv], [irr(1, 1), triv], 4, rings=[0.7, 2.1], sigma=[0.6, 0.6], cutoff=2.)
    both('kernel1', FR(4), [reg, irr(1, 1)], [irr(1, 1), reg], 1, rings=[0.], sigma=[0.6], cutoff=2.)
    both('cutoff function', R(8), [reg], [irr(1), irr(2), irr(1)], 5, rings=[0., 1., 2.], sigma=[.3, .6, .4], cutoff=lambda r: [0., 3., 1.][int(r)])
    both('cutoff between', R(6), [reg], [irr(1), irr(2)], 5, rings=[1.5, 2.], sigma=[.3, .6], cutoff=1.5)
    both('offset', R(4), [reg, irr(1)], [irr(2), irr(1)], 3, offset=0, **X)
    both('offset1', FR(4), [irr(1, 1)], [irr(1, 1), triv], 3, offset=1, **X)
    both('filter', R(4), [reg, irr(1), reg], [irr(1), irr(1)], 3, flt=lambda d: d['frequency'] % 2 == 0, **X)
    both('filter by irrep', FR(4), [reg, irr(1, 1), reg], [irr(1, 1), reg], 3, flt=lambda d: d['in_irrep_idx'] == 0, **X)
    both('ring order', R(4), [reg, triv], [irr(1)], 5, rings=[2., 0., 1.], sigma=[0.5, 0.2, 0.7], cutoff=2.)
    both('recompute', R(4), [reg, irr(1), reg], [irr(1), reg], 3, recompute=True, **X)
    both('groups2', R(4), [reg, triv, reg, triv], [irr(1), triv, irr(1), triv], 3, groups=2, **X)
    both('groups3', FR(2), [reg] * 3, [irr(1, 1)] * 3, 3, groups=3, **X)
    both('bias', FR(4), [triv], [lambda gs: group.directsum([gs.irrep(1, 1), gs.trivial_repr, gs.irrep(1, 0), gs.trivial_repr], name='mix'), reg, irr(1, 1), lambda gs: twisted(gs.regular_repr, 3)], 3, **X)
    for k in (1, 3, 5, 7):
        add(f'default k{k}', R(4), [reg, irr(1), reg], [irr(1), triv, irr(1)], k)
        add(f'default d4 k{k}', FR(4), [irr(1, 1), triv], [irr(1, 1), irr(1, 0)], k)
        add(f'default k{k} dilation', R(8), [irr(2), irr(1)], [irr(1)], k, dilation=2)
    for meth, sm in (('fd', None),):       # the other methods need the RBF package, which is not installed
        n = f'{meth} '
        q = dict(method=meth, smoothing=sm)
        dop(n + 'c4', R(4), [reg, irr(1), reg], [irr(1), triv, irr(1)], 3, 2, **q)
        dop(n + 'd4', FR(4), [irr(1, 1), reg, irr(1, 1)], [irr(1, 1), irr(1, 0), reg], 5, 3, **q)
        dop(n + 'so2', SO2(), [irr(0), irr(1), irr(0)], [irr(1), irr(2), irr(1)], 5, 4, **q)
        dop(n + 'flip', FL(), [reg, irr(1)], [irr(1), reg], 3, 1, **q)
        dop(n + 'dilation', R(4), [irr(1), triv], [triv, irr(1)], 3, 2, dilation=2, **q)
        dop(n + 'power', R(4), [irr(1), triv], [triv, irr(1)], 5, 4, power=1, **q)
        dop(n + 'power0', FR(4), [irr(1, 1), triv], [triv, irr(1, 1)], 5, 4, power=0, **q)
        dop(n + 'offset', R(4), [reg, triv], [triv, irr(1)], 3, 2, offset=0, **q)
        dop(n + 'filter', R(4), [reg, triv, reg], [triv, irr(1)], 5, 4, flt=lambda d: d['order'] % 2 == 0, **q)
        dop(n + 'groups', R(4), [reg, triv] * 2, [triv, irr(1)] * 2, 3, 2, groups=2, **q)
    if tier == 'thorough':
        sp = [('c4', R(4), [reg, triv, irr(1), irr(2)]), ('c6', R(6), [reg, triv, irr(1), irr(3)]), ('d4', FR(4), [reg, triv, irr(1, 1), irr(1, 0)]),
              ('d6', FR(6, axis=0.2), [triv, irr(1, 1), irr(1, 3), irr(1, 2)]), ('so2', SO2(), [triv, irr(1), irr(2), irr(3)]), ('o2', O2(), [triv, irr(1, 1), irr(1, 2), irr(1, 0)])]
        for n, g, rs in sp:
            for a in itertools.product(range(4), repeat=3):
                if len(set(a)) == 3 or len(set(a)) == 2 and a[0] == a[2]:
                    b = [rs[(q + 1) % 4] for q in a[::-1]]
                    both(f'sweep {n} {a}', g, [rs[q] for q in a], b, 3, **X)
        for k in (3, 5, 7, 9):
            for cut in (0.5, 1., 2., 3.5):
                if (k, cut) == (3, 0.5):
                    continue        # no admissible kernel
                both(f'sweep k{k} cutoff {cut}', R(8), [irr(2), triv, irr(2)], [irr(1), irr(4)], k, rings=[float(x) for x in range(k // 2 + 1)], sigma=0.6, cutoff=cut)
    return C
