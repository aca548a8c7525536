"""C16: invariant maps equal their definition and are invariant."""
import math
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from c13 import splits, ind

INFO = dict(
    level='model_checking',
    functions=['GroupPooling, NormPool, InducedNormPool: __init__ and forward', 'indexes_from_labels', 'gspaces trivial_repr, FieldType'],
    bounds='inputs: all real values in [-1,1]; batch 1..2, spatial up to 2x3, <= 6 fields; every element of the listed finite groups on the fibers; grid elements on the plane',
    outside='larger images and batches; groups beyond C12, D6',
    assumptions=['max exact; sqrt exact by definition', 'tolerance 1e-3'],
)


def size_of_subfield(r):
    return [int(s.split('_')[-1]) for s in r.supported_nonlinearities if s.startswith('induced_norm')][0]


def define(cls, r, f):
    """the documented statistic of one field (batch, size, h, w)"""
    if cls == 'GroupPooling':
        return f.amax(dim=1, keepdim=True)
    if cls == 'NormPool':
        return (f ** 2).sum(1, keepdim=True).sqrt()
    k = size_of_subfield(r)
    b, s, h, w = f.shape
    return (f.reshape(b, s // k, k, h, w) ** 2).sum(2).sqrt().amax(dim=1, keepdim=True)


def inv_case(cls, gs_f, ins, hw=(2, 2), batch=1):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = getattr(enn, cls)(it)
        ot = enn.FieldType(gs, [gs.trivial_repr] * len(ins))
        x = E.var('x', (batch, it.size, *hw))
        obs = equivariance(E, m, it, ot, x)
        with E.run():
            y = m(enn.GeometricTensor(x, it)).tensor
        for i, ((a, b), r) in enumerate(zip(splits(it), it.representations)):
            with E.run():
                d = define(cls, r, x[:, a:b])
            obs.append(Eq(f'field {i} is its documented statistic', y[:, i:i + 1], d))
        els = gs.fibergroup.elements if gs.fibergroup.order() > 0 else grid_elements(gs)
        x1 = E.var('f', (1, it.size, 1, 1))
        with E.run():
            y1 = m(enn.GeometricTensor(x1, it)).tensor
        for e in els:
            with E.run():
                l = m(enn.GeometricTensor(act(x1, it, e, False), it)).tensor
            obs.append(Eq(f'fiber invariant g={e}', l, y1))
        return obs
    return fn


def cases(tier):
    C = []

    def n(name, cls, *a, **k):
        C.append((f'{cls}-{name}', inv_case(cls, *a, **k)))

    for nm, gs, ins in [('c4', R(4), [reg, triv, quo(2)]), ('c4-mixed', R(4), [reg, triv, reg, quo(2), triv, quo(2)]), ('c4-contig', R(4), [triv, triv, reg, reg]), ('c8', R(8), [quo(4), reg, quo(2), triv]),
                        ('c3', R(3), [triv, reg, triv]), ('c6', R(6), [quo(3), reg, quo(2)]), ('d4', FR(4), [reg, quo((0, 1)), triv]), ('d4b', FR(4), [quo((None, 2)), quo((1, 2)), triv, quo((0, 1))]),
                        ('d3', FR(3), [quo((None, 3)), reg, triv]), ('flip', FL(), [reg, triv, reg]), ('trivial', TR, [triv, triv]), ('so2', SO2(), [triv, triv]),
                        ('o2', O2(), [ind((None, -1), 0), triv, ind((None, -1), 0)]), ('d4ax', FR(4, axis=0.), [reg, triv])]:
        n(nm, 'GroupPooling', gs, ins, (2, 3) if nm in ('flip', 'trivial') else (2, 2), batch=2 if nm in ('c4', 'c4-mixed', 'flip') else 1)
        n(nm, 'NormPool', gs, ins, (2, 3) if nm in ('flip', 'trivial') else (2, 2), batch=2 if nm in ('c4', 'c4-mixed', 'flip') else 1)
    for nm, gs, ins in [('c4i', R(4), [irr(1), triv, irr(1), irr(2)]), ('c8i', R(8), [irr(3), irr(1), irr(4), irr(2)]), ('d4i', FR(4), [irr(1, 1), irr(1, 0), irr(1, 1), triv]), ('so2i', SO2(), [irr(2), irr(0), irr(1)]),
                        ('o2i', O2(), [irr(1, 1), irr(1, 0), irr(1, 2)]), ('c4i-contig', R(4), [irr(1), irr(1), irr(2), triv]), ('c4-sum', R(4), [lambda g: group.directsum([g.irrep(1), g.irrep(2)]), triv])]:
        n(nm, 'NormPool', gs, ins, batch=2 if nm == 'c4i' else 1)
    N = (None, -1)
    for nm, gs, ins in [('o2', O2(), [ind(N, 1), ind(N, 1)]), ('o2-mixed', O2(), [ind(N, 1), ind(N, 0), ind(N, 2), ind(N, 0)]), ('d4', FR(4), [ind((None, 4), 1), ind((None, 4), 0), ind((None, 4), 1)]),
                        ('d4b', FR(4), [ind((0, 1), 1), ind((None, 4), 1), ind((0, 1), 0)]), ('d3', FR(3), [ind((None, 3), 1), ind((0, 1), 1)]), ('d6', FR(6), [ind((None, 6), 1), ind((None, 2), 1)]),
                        ('d4c', FR(4), [ind((None, 2), 1), ind((None, 4), 2), ind((None, 4), 1)])]:
        n(nm, 'InducedNormPool', gs, ins, batch=2 if nm in ('d4', 'o2') else 1)
    if tier == 'thorough':
        for i, perm in enumerate(itertools.product(range(3), repeat=5)):
            n(f'order{i}', 'GroupPooling', R(4), [[reg, triv, quo(2)][j] for j in perm], (1, 1), batch=2)
            n(f'order{i}', 'NormPool', R(4), [[reg, triv, irr(1)][j] for j in perm], (1, 1), batch=2)
            n(f'order{i}', 'InducedNormPool', FR(4), [[ind((None, 4), 1), ind((0, 1), 1), ind((None, 4), 0)][j] for j in perm], (1, 1))
        for k in (2, 5, 7, 12, 16):
            n(f'c{k}', 'GroupPooling', R(k), [reg, triv, reg])
            n(f'c{k}', 'NormPool', R(k), [reg, irr(1), triv, reg])
        for k in (5, 6, 8):
            n(f'd{k}', 'GroupPooling', FR(k), [reg, triv, quo((None, k))])
            n(f'd{k}', 'InducedNormPool', FR(k), [ind((None, k), 1), ind((0, 1), 1)])
    return C
