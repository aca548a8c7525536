"""C13: non-linearities commute with the group action, for every input and parameter."""
import math
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted

INFO = dict(
    level='model_checking',
    functions=['ReLU, ELU, PointwiseNonLinearity, NormNonLinearity, InducedNormNonLinearity, GatedNonLinearity1, GatedNonLinearity2, InducedGatedNonLinearity1, '
               'ConcatenatedNonLinearity (and _transform_representation), VectorFieldNonLinearity: __init__ and forward',
               'representations used by them (run to obtain constant matrices)'],
    bounds='inputs, biases: all real values in [-1,1]; spatial 2x2 and 2x3, batch 1..2, <= 6 fields per type; groups C1..C8, D1..D6, SO(2), O(2), flips; '
           'all elements for finite groups on the fiber (spatial action for those preserving the grid), the 4 (8) grid elements for SO(2)/O(2)',
    outside='inputs where a maximum is attained by two entries (vector-field; not continuous there) and fields of norm below 1e-5; larger batches/fields',
    assumptions=['relu/max are exact; sqrt, reciprocal exact by definition; exp, sigmoid, tanh, elu are uninterpreted functions (sound for equivariance)', 'tolerance 1e-3'],
)


def grid_or_all(gs):
    """elements whose spatial action preserves the grid; the others are checked on the fibers only (1x1 image, no spatial action)"""
    return grid_elements(gs)


def nl_case(cls, gs_f, ins, hw=(2, 2), batch=1, deps='own', two=False, fiber=True, lo=-1., **kw):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = getattr(enn, cls)(it, **kw)
        E.params(m)
        x = E.var('x', (batch, it.size, *hw), lo)
        obs = equivariance(E, m, it, m.out_type, x)
        # fiber action alone (1 pixel): every element of a finite group
        if fiber and gs.fibergroup.order() > 0:
            x1 = E.var('f', (1, it.size, 1, 1), lo)
            with E.run():
                y1 = m(enn.GeometricTensor(x1, it)).tensor
            for e in gs.fibergroup.elements:
                with E.run():
                    l = m(enn.GeometricTensor(act(x1, it, e, False), it)).tensor
                obs.append(Eq(f'fiber g={e}', l, act(y1, m.out_type, e, False)))
        if deps == 'own':
            obs += own_fields(E, m, it, x)
        elif deps == 'gated':
            obs += gated_deps(E, m, it, x, kw.get('gates'))
        return obs
    return fn


def splits(ftype):
    out, p = [], 0
    for r in ftype.representations:
        out.append((p, p + r.size))
        p += r.size
    return out


def mix(E, x, z, keep):
    """tensor equal to x in the channels of keep and to z elsewhere"""
    mask = torch.zeros(x.shape[1])
    for i in keep:
        mask[i] = 1.
    mask = mask.view(1, -1, 1, 1)
    with E.run():
        return x * mask + z * (1 - mask)


def own_fields(E, m, it, x):
    """field i of the output depends on field i of the input only"""
    obs = []
    z = E.var('other', x.shape)
    with E.run():
        y = m(enn.GeometricTensor(x, it)).tensor
    si, so = splits(it), splits(m.out_type)
    for i, (a, b) in enumerate(si):
        with E.run():
            y2 = m(enn.GeometricTensor(mix(E, x, z, range(a, b)), it)).tensor
        c, d = so[i]
        obs.append(Eq(f'field {i} depends on itself only', y[:, c:d], y2[:, c:d]))
    # pointwise in space
    mask = torch.zeros(x.shape[2:])
    mask[0, 0] = 1.
    with E.run():
        y2 = m(enn.GeometricTensor(x * mask + z * (1 - mask), it)).tensor
    obs.append(Eq('pixel depends on itself only', y[:, :, :1, :1], y2[:, :, :1, :1]))
    return obs


def gated_deps(E, m, it, x, gates):
    """every gated field is scaled by exactly one gate, each gate is used by exactly one field"""
    n = len(it)
    gates = gates or ['gate'] * (n // 2) + ['gated'] * (n // 2)
    si = splits(it)
    so = splits(m.out_type)
    gate_fields = [i for i in range(n) if gates[i] == 'gate']
    z = E.var('other', x.shape)
    obs = []
    with E.run():
        y = m(enn.GeometricTensor(x, it)).tensor
    used = []
    o = 0
    for i in range(n):
        if gates[i] == 'gate':
            if not m.drop_gates:
                with E.run():
                    y2 = m(enn.GeometricTensor(mix(E, x, z, range(*si[i])), it)).tensor
                obs.append(Eq(f'gate {i} depends on itself only', y[:, slice(*so[o])], y2[:, slice(*so[o])]))
                o += 1
            continue
        s = slice(*so[o])
        o += 1
        mine = None
        for g in gate_fields:
            keep = list(range(*si[i])) + list(range(*si[g]))
            with E.run():
                y2 = m(enn.GeometricTensor(mix(E, x, z, keep), it)).tensor
            if same(E, y[:, s], y2[:, s]):
                mine = g
                obs.append(Eq(f'field {i} depends on itself and gate {g} only', y[:, s], y2[:, s]))
                break
        obs.append(Fact(f'field {i} has one gate', mine is not None))
        used.append(mine)
    obs.append(Fact('gates are not shared', len(set(used)) == len(used), str(used)))
    return obs


def same(E, a, b):
    if E.symbolic:
        return P.sub(st.pm(a), st.pm(b)).nnz == 0
    return bool((a - b).abs().max() < 1e-6)


def gated2_case(gs_f, gins, ins, hw=(2, 2), batch=1):
    def fn(E):
        gs = gs_f()
        gt, it = ft(gs, *gins), ft(gs, *ins)
        m = enn.GatedNonLinearity2((gt, it))
        E.params(m)
        g = E.var('g', (batch, gt.size, *hw))
        x = E.var('x', (batch, it.size, *hw))
        with E.run():
            y = m(enn.GeometricTensor(g, gt), enn.GeometricTensor(x, it))
        obs = [Fact('type', y.type == it)]
        for e in grid_elements(gs):
            with E.run():
                l = m(enn.GeometricTensor(act(g, gt, e), gt), enn.GeometricTensor(act(x, it, e), it)).tensor
            obs.append(Eq(f'g={e}', l, act(y.tensor, it, e)))
        z = E.var('other', x.shape)
        for i, (a, b) in enumerate(splits(it)):
            with E.run():
                y2 = m(enn.GeometricTensor(g, gt), enn.GeometricTensor(mix(E, x, z, range(a, b)), it)).tensor
            obs.append(Eq(f'field {i} depends on itself only', y.tensor[:, a:b], y2[:, a:b]))
        used = []
        zg = E.var('otherg', g.shape)
        for i, (a, b) in enumerate(splits(it)):
            mine = None
            for k in range(len(gt)):
                with E.run():
                    y2 = m(enn.GeometricTensor(mix(E, g, zg, [k]), gt), enn.GeometricTensor(x, it)).tensor
                if same(E, y.tensor[:, a:b], y2[:, a:b]):
                    mine = k
            used.append(mine)
        obs.append(Fact('one gate per field', None not in used and len(set(used)) == len(used), str(used)))
        return obs
    return fn


def ind(sub, *irrep):
    def f(gs):
        sg = gs.fibergroup.subgroup(sub)[0]
        return gs.induced_repr(sub, sg.irrep(*irrep))
    return f


def cases(tier):
    C = []

    def n(name, cls, *a, **k):
        C.append((f'{cls}-{name}', nl_case(cls, *a, **k)))

    def g2(name, *a, **k):
        C.append((f'GatedNonLinearity2-{name}', gated2_case(*a, **k)))

    pw = [('c4', R(4), [reg, triv, quo(2)]), ('c8', R(8), [reg, quo(4), triv]), ('c3', R(3), [reg, triv, reg]), ('d4', FR(4), [reg, quo((0, 1)), quo((None, 2)), triv]),
          ('d3', FR(3), [reg, quo((None, 3)), quo((0, 1))]), ('d2', FR(2), [reg, triv]), ('flip', FL(), [reg, triv]), ('so2', SO2(), [triv, triv]), ('o2', O2(), [triv, triv]),
          ('o2-induced', O2(), [ind((None, -1), 0), triv]), ('trivial', TR, [triv, triv]), ('d4-axis0', FR(4, axis=0.), [reg, quo((1, 2))]), ('c4-batch', R(4), [triv, reg])]
    for nm, gs, ins in pw:
        n(nm, 'ReLU', gs, ins, (2, 3) if nm in ('flip', 'trivial') else (2, 2), batch=2 if 'batch' in nm else 1)
        n(nm, 'PointwiseNonLinearity', gs, ins, function='p_relu')
    for nm, gs, ins in pw[:4]:
        n(nm, 'ELU', gs, ins, alpha=0.7)
        for f in ('p_elu', 'p_sigmoid', 'p_tanh'):
            n(f'{f}-{nm}', 'PointwiseNonLinearity', gs, ins, function=f)
    n('inplace', 'ReLU', R(4), [reg], inplace=False)
    nm_ = [('c4', R(4), [irr(1), triv, reg, irr(1)]), ('c4-contig', R(4), [irr(1), irr(1), triv, triv]), ('c8', R(8), [irr(1), irr(4), irr(3), irr(0)]),
           ('d4', FR(4), [irr(1, 1), irr(1, 0), triv, irr(1, 1)]), ('d4b', FR(4), [irr(0, 2) if False else irr(1, 2), reg, irr(1, 1)]), ('so2', SO2(), [irr(1), irr(0), irr(2), irr(1)]),
           ('o2', O2(), [irr(1, 1), irr(1, 0), irr(0, 0), irr(1, 2)]), ('flip', FL(), [irr(1), triv, reg]), ('d3', FR(3), [irr(1, 1), irr(1, 0), irr(1, 1)]),
           ('quotient', FR(4), [quo((0, 1)), irr(1, 1)])]
    for nm, gs, ins in nm_:
        for f in ('n_relu', 'n_sigmoid'):
            n(f'{f}-{nm}', 'NormNonLinearity', gs, ins, function=f)
    for nm, gs, ins in nm_[:2] + nm_[3:4]:
        n(f'squash-{nm}', 'NormNonLinearity', gs, ins, function='squash', bias=False)
        n(f'nobias-{nm}', 'NormNonLinearity', gs, ins, function='n_relu', bias=False)
    n('batch', 'NormNonLinearity', R(4), [irr(1), triv, irr(1)], batch=2)
    # induced
    si = [('o2', O2(), [ind((None, -1), 1), ind((None, -1), 1)]), ('o2-mixed', O2(), [ind((None, -1), 1), ind((None, -1), 0), ind((None, -1), 2)]),
          ('d4', FR(4), [ind((None, 4), 1), ind((None, 4), 0), ind((None, 4), 1)]), ('d4-flip', FR(4), [ind((0, 1), 1), ind((0, 1), 0)]), ('d3', FR(3), [ind((None, 3), 1)])]
    for nm, gs, ins in si:
        n(nm, 'InducedNormNonLinearity', gs, ins)
        n('nobias-' + nm, 'InducedNormNonLinearity', gs, ins, bias=False)
        n('sigmoid-' + nm, 'InducedNormNonLinearity', gs, ins, function='n_sigmoid')
    G, D = 'gate', 'gated'
    n('default', 'GatedNonLinearity1', R(4), [triv, triv, irr(1), irr(2)], deps='gated')
    n('same-size', 'GatedNonLinearity1', R(4), [triv, triv, irr(1), irr(1)], deps='gated')
    n('interleaved', 'GatedNonLinearity1', R(4), [irr(1), triv, reg, triv, irr(1), triv], deps='gated', gates=[D, G, D, G, D, G])
    n('keep', 'GatedNonLinearity1', R(4), [irr(1), triv, reg, triv], deps='gated', gates=[D, G, D, G], drop_gates=False)
    n('keep-contig', 'GatedNonLinearity1', R(4), [triv, triv, reg, irr(1)], deps='gated', drop_gates=False)
    n('gated-trivial', 'GatedNonLinearity1', R(4), [triv, triv, irr(1), triv], deps='gated', gates=[G, D, D, G])
    n('gated-trivial-keep', 'GatedNonLinearity1', R(4), [triv, triv, irr(1), triv], deps='gated', gates=[G, D, D, G], drop_gates=False)
    n('d4', 'GatedNonLinearity1', FR(4), [irr(1, 1), triv, irr(1, 0), triv, triv, irr(1, 1)], deps='gated', gates=[D, G, D, G, G, D])
    n('so2', 'GatedNonLinearity1', SO2(), [irr(1), triv, irr(0), triv, triv, irr(3)], deps='gated', gates=[D, G, D, G, G, D])
    n('o2', 'GatedNonLinearity1', O2(), [irr(1, 1), triv, irr(1, 0), triv, triv, irr(1, 2)], deps='gated', gates=[D, G, D, G, G, D], batch=2)
    n('flip', 'GatedNonLinearity1', FL(), [triv, irr(1), triv, reg], (2, 3), deps='gated', gates=[G, D, G, D])
    g2('c4', R(4), [triv, triv, triv], [irr(1), reg, irr(1)])
    g2('c4-contig', R(4), [triv, triv, triv], [irr(1), irr(1), irr(2)])
    g2('d4', FR(4), [triv] * 4, [irr(1, 1), irr(1, 0), reg, irr(1, 1)])
    g2('so2', SO2(), [triv] * 3, [irr(2), irr(0), irr(1)], batch=2)
    g2('o2', O2(), [triv] * 3, [irr(1, 2), irr(1, 0), irr(1, 1)])
    i0 = ind((None, -1), 0)
    n('o2', 'InducedGatedNonLinearity1', O2(), [i0, i0, ind((None, -1), 1), ind((None, -1), 2)], deps='gated')
    n('o2-mixed', 'InducedGatedNonLinearity1', O2(), [i0, ind((None, -1), 1), i0, i0], deps='gated', gates=[G, D, G, D])
    n('o2-keep', 'InducedGatedNonLinearity1', O2(), [ind((None, -1), 1), i0, i0, i0], deps='gated', gates=[D, G, G, D], drop_gates=False)
    j0 = ind((None, 4), 0)
    n('d4', 'InducedGatedNonLinearity1', FR(4), [ind((None, 4), 1), j0, j0, ind((None, 4), 2), j0, ind((None, 4), 1)], deps='gated', gates=[D, G, G, D, G, D])
    for nm, gs, ins in [('c4', R(4), [reg, irr(2), triv]), ('c2', R(2), [irr(1), reg]), ('d4', FR(4), [irr(1, 0), irr(1, 2), triv]), ('d4-reg', FR(4), [reg]), ('flip', FL(), [irr(1), triv, reg]),
                        ('d4-quo', FR(4), [quo((0, 1)), irr(1, 0)]), ('d4-ind', FR(4), [ind((0, 1), 1)])]:
        for f in ('c_relu', 'c_sigmoid', 'c_tanh') if nm in ('c4', 'd4') else ('c_relu',):
            n(f'{f}-{nm}', 'ConcatenatedNonLinearity', gs, ins, function=f)
    for k in (3, 4, 5, 8):
        n(f'c{k}', 'VectorFieldNonLinearity', R(k), [reg, reg] if k < 8 else [reg], deps='own', hw=(2, 2))
    if tier == 'thorough':
        for k in (2, 5, 6, 7, 12, 16):
            n(f'c{k}', 'ReLU', R(k), [reg, triv, reg])
            n(f'c{k}', 'NormNonLinearity', R(k), [reg, irr(1), triv, irr(1)])
            n(f'c{k}-gated', 'GatedNonLinearity1', R(k), [irr(1), triv, reg, triv], deps='gated', gates=[D, G, D, G])
        for k in (5, 6, 8):
            n(f'd{k}', 'ReLU', FR(k), [reg, triv])
            n(f'd{k}', 'NormNonLinearity', FR(k), [reg, irr(1, 1), irr(1, 0)])
            n(f'd{k}', 'ConcatenatedNonLinearity', FR(k), [reg, irr(1, 0)])
        n('c12', 'VectorFieldNonLinearity', R(12), [reg], hw=(1, 1))
        import itertools
        F = [irr(1), triv, reg]
        for i, perm in enumerate(itertools.product(range(3), repeat=4)):
            n(f'order{i}', 'NormNonLinearity', R(3), [F[j] for j in perm], hw=(2, 2), fiber=False)
        for i, gt in enumerate(itertools.product((G, D), repeat=4)):
            if gt.count(G) != 2:
                continue
            for j, sizes in enumerate(itertools.product((irr(1), triv, reg), repeat=2)):
                it_ = iter(sizes)
                n(f'order{i}-{j}', 'GatedNonLinearity1', R(4), [triv if a == G else next(it_) for a in gt], deps='gated', gates=list(gt))
                it_ = iter(sizes)
                n(f'order{i}-{j}-keep', 'GatedNonLinearity1', R(4), [triv if a == G else next(it_) for a in gt], deps='gated', gates=list(gt), drop_gates=False)
    return C
