"""C17: structural modules route every field exactly where the types say."""
import math
import copy
from collections import OrderedDict
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from c13 import splits, ind

INFO = dict(
    level='model_checking',
    functions=['ReshuffleModule, BranchingModule, MergeModule, MultipleModule, RestrictionModule, SequentialModule, DisentangleModule, IdentityModule, ModuleList: __init__, add_module, forward',
               'indexes_from_labels, check_consecutive_numbers', 'FieldType.index_select, group_by_labels, restrict', 'GSpace.restrict', 'disentangle'],
    bounds='inputs: all real values in [-1,1], batch 1..2, 2x2 or 2x3 images, <= 6 fields; in the thorough tier every permutation of 4 fields and every labelling of 4 fields with 3 labels',
    outside='larger field lists; duplicate entries in a permutation (not a permutation)',
    assumptions=['tolerance 1e-3'],
)


def parts(x, it):
    return [x[:, a:b] for a, b in splits(it)]


def args_intact(label, before, after):
    return Fact(f'{label}: arguments unchanged', before == after, f'{before} -> {after}')


def fields_eq(E, label, y, it, fields, x):
    """y holds exactly the listed fields of x, in order"""
    p = parts(x, it)
    with E.run():
        want = torch.cat([p[i] for i in fields], 1)
    return Eq(label, y, want)


def reshuffle_case(gs_f, ins, perm, hw=(2, 2), batch=1):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        pl = list(perm)
        m = enn.ReshuffleModule(it, pl)
        x = E.var('x', (batch, it.size, *hw))
        with E.run():
            x0 = x.clone()
        ot = enn.FieldType(gs, [it.representations[i] for i in perm])
        obs = [args_intact('permutation', list(perm), pl)]
        obs += equivariance(E, m, it, ot, x)
        with E.run():
            y = m(enn.GeometricTensor(x, it))
        obs.append(fields_eq(E, 'fields in the requested order', y.tensor, it, perm, x))
        obs.append(Eq('input unchanged', x, x0))
        return obs
    return fn


def sort_fields(it, labels, level):
    reps = it.representations
    idx = list(range(len(reps)))
    if level == 0:
        return idx
    keys = [(labels[i], reps[i].size, reps[i].name)[:level] for i in idx]
    return sorted(idx, key=lambda i: keys[i])


def branch_case(gs_f, ins, labels, level=0, hw=(2, 2), batch=1):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        lab = list(labels)
        m = enn.BranchingModule(it, lab, reshuffle=level)
        x = E.var('x', (batch, it.size, *hw))
        with E.run():
            x0 = x.clone()
            y = m(enn.GeometricTensor(x, it))
        obs = [args_intact('labels', list(labels), lab), Fact('labels', set(y) == set(labels)), Fact('out_type labels', set(m.out_type) == set(labels))]
        order = sort_fields(it, labels, level)
        for l in sorted(set(labels)):
            sel = [i for i in order if labels[i] == l]
            ot = enn.FieldType(gs, [it.representations[i] for i in sel])
            obs.append(Fact(f'type of {l}', y[l].type == ot and m.out_type[l] == ot))
            obs.append(fields_eq(E, f'fields of {l}', y[l].tensor, it, sel, x))
        for e in grid_elements(gs):
            with E.run():
                g = m(enn.GeometricTensor(act(x, it, e), it))
            for l in sorted(set(labels)):
                obs.append(Eq(f'{l} g={e}', g[l].tensor, act(y[l].tensor, y[l].type, e)))
        obs.append(Eq('input unchanged', x, x0))
        return obs
    return fn


def kinds(kind, t):
    """a module acting on the type t"""
    if kind == 'id':
        return enn.IdentityModule(t)
    if kind == 'relu':
        return enn.ReLU(t, inplace=False)
    if kind == 'norm':
        return enn.NormNonLinearity(t)
    if kind == 'conv':
        return enn.R2Conv(t, enn.FieldType(t.gspace, [t.gspace.trivial_repr, t.gspace.irreps[sorted(t.gspace.irreps)[-1]]]), 3, padding=1)
    if kind == 'gpool':
        return enn.GroupPooling(t)
    if kind == 'normpool':
        return enn.NormPool(t)
    raise ValueError(kind)


def multiple_case(gs_f, ins, labels, spec, level=0, hw=(3, 3), batch=1, via_merge=False):
    """spec: list of (kind, label or list of labels)"""
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        order = sort_fields(it, labels, level)
        sel = {l: [i for i in order if labels[i] == l] for l in set(labels)}
        types = {l: enn.FieldType(gs, [it.representations[i] for i in sel[l]]) for l in sel}
        mods = []
        for k, l in spec:
            if k == 'gated2':
                mods.append((enn.GatedNonLinearity2(tuple(types[q] for q in l)), list(l)))
            else:
                mods.append((kinds(k, types[l]), l))
        for q, (m_, _) in enumerate(mods):
            E.params(m_, f'p{q}')
        arg = list(mods)
        m = enn.MultipleModule(it, list(labels), arg, reshuffle=level)
        obs = [Fact('arguments unchanged', len(arg) == len(mods) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(arg, mods)))]
        x = E.var('x', (batch, it.size, *hw))
        with E.run():
            x0 = x.clone()
            y = m(enn.GeometricTensor(x, it))
        ot = enn.FieldType(gs, sum([list(a.out_type.representations) for a, _ in mods], []))
        obs.append(Fact('type', y.type == ot and m.out_type == ot))
        p = parts(x, it)
        outs = []
        for a, l in mods:
            ls = l if isinstance(l, list) else [l]
            with E.run():
                outs.append(a(*[enn.GeometricTensor(torch.cat([p[i] for i in sel[q]], 1), types[q]) for q in ls]).tensor)
        with E.run():
            want = torch.cat(outs, 1)
        obs.append(Eq('every label goes through its module', y.tensor, want))
        obs += equivariance(E, m, it, ot, x)
        obs.append(Eq('input unchanged', x, x0))
        obs.append(Fact('predicted shape', tuple(m.evaluate_output_shape(tuple(x.shape))) == tuple(y.tensor.shape)))
        return obs
    return fn


def restrict_case(gs_f, ins, sid, hw=(2, 2), chain=None):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = enn.RestrictionModule(it, sid)
        sub, par, chi = gs.restrict(sid)
        x = E.var('x', (1, it.size, *hw))
        with E.run():
            y = m(enn.GeometricTensor(x, it))
        ot = m.out_type
        obs = [Fact('type', y.type == ot and ot.gspace == sub and len(ot) == len(it) and [r.size for r in ot.representations] == [r.size for r in it.representations]), Eq('data untouched', y.tensor, x)]
        els = list(sub.fibergroup.elements) if sub.fibergroup.order() > 0 else grid_elements(sub) + list(sub.fibergroup.testing_elements())[:6]
        for h in els:
            g = par(h)
            same_pl = np.allclose(spatial_matrix(sub, h), spatial_matrix(gs, g), atol=1e-6)
            obs.append(Fact(f'restricted space moves the plane as before h={h}', same_pl))
            obs.append(Eq(f'fibers h={h}', act(x, ot, h, False), act(x, it, g, False)))
        ge = grid_elements(sub)
        for h in ge:
            with E.run():
                l = m(enn.GeometricTensor(act(x, it, par(h)), it))
            obs.append(Eq(f'h={h}', l.tensor, act(y.tensor, ot, h)))
        if chain:
            o2 = enn.FieldType(sub, [sub.trivial_repr, sub.irreps[sorted(sub.irreps)[-1]]])
            c = enn.R2Conv(ot, o2, 3, padding=1)
            E.params(c)
            s = enn.SequentialModule(m, c)
            x3 = E.var('y', (1, it.size, 3, 3))
            with E.run():
                y0 = s(enn.GeometricTensor(x3, it))
            obs.append(Fact('chain type', y0.type == o2))
            for h in ge:
                with E.run():
                    l = s(enn.GeometricTensor(act(x3, it, par(h)), it))
                obs.append(Eq(f'restricted then convolved h={h}', l.tensor, act(y0.tensor, o2, h)))
        return obs
    return fn


def disentangle_case(gs_f, mk, hw=(1, 1)):
    def fn(E):
        gs = gs_f()
        it = enn.FieldType(gs, mk(gs))
        m = enn.DisentangleModule(it)
        x = E.var('x', (1, it.size, *hw))
        ot = m.out_type
        with E.run():
            y = m(enn.GeometricTensor(x, it))
        obs = [Fact('type', y.type == ot and ot.size == it.size), Fact('same irreps', sorted(ot.irreps) == sorted(it.irreps))]
        els = gs.fibergroup.elements if gs.fibergroup.order() > 0 else list(gs.fibergroup.testing_elements())[:8]
        for e in els:
            with E.run():
                l = m(enn.GeometricTensor(act(x, it, e, False), it)).tensor
            obs.append(Eq(f'g={e}', l, act(y.tensor, ot, e, False)))
        # every field keeps its own channels: the output slot of a field depends on that field only, and nothing is lost
        z = E.var('z', x.shape)
        for a, b in splits(it):
            mask = torch.zeros(it.size)
            mask[a:b] = 1.
            mask = mask.view(1, -1, 1, 1)
            with E.run():
                y2 = m(enn.GeometricTensor(x * mask + z * (1 - mask), it)).tensor
            obs.append(Eq(f'channels {a}:{b} stay together', y2[:, a:b], y.tensor[:, a:b]))
        with E.run():
            n0 = (x ** 2).sum()
            n1 = (y.tensor ** 2).sum()
        obs.append(Eq('permutation of the channels: norm preserved', n1, n0))
        I = torch.eye(it.size).view(it.size, it.size, 1, 1)
        D = m(enn.GeometricTensor(I, it)).tensor[:, :, 0, 0]
        obs.append(Fact('invertible', int(torch.linalg.matrix_rank(D)) == it.size))
        return obs
    return fn


def seq_case(gs_f, ins, kinds_, named=False, hw=(3, 3)):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        mods, t = [], it
        for k in kinds_:
            mods.append(kinds(k, t))
            t = mods[-1].out_type
        for q, m_ in enumerate(mods):
            E.params(m_, f'p{q}')
        if named == 'grow':
            m = enn.SequentialModule()
            for i, q in enumerate(mods):
                m.add_module(f'b{9 - i}', q)
        else:
            m = enn.SequentialModule(OrderedDict((f'm{9 - i}', q) for i, q in enumerate(mods))) if named else enn.SequentialModule(*mods)
        x = E.var('x', (1, it.size, *hw))
        obs = [Fact('types', m.in_type == it and m.out_type == t)]
        with E.run():
            y = m(enn.GeometricTensor(x, it))
            z = enn.GeometricTensor(x, it)
            for q in mods:
                z = q(z)
        obs.append(Eq('composition in order', y.tensor, z.tensor))
        obs += equivariance(E, m, it, t, x)
        return obs
    return fn


def reject_case(gs_f, ins):
    """chains whose types do not match and inputs of the wrong type are refused"""
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        ot = ft(gs, *ins[::-1])
        x = E.var('x', (1, it.size, 2, 2))
        obs = []

        def refuses(label, f):
            try:
                with E.run():
                    f()
                obs.append(Fact(label, False, 'accepted'))
            except (AssertionError, ValueError):
                obs.append(Fact(label, True))
        a, b = enn.IdentityModule(it), enn.IdentityModule(ot)
        refuses('sequence of mismatching types', lambda: enn.SequentialModule(a, b))
        for m in (enn.IdentityModule(it), enn.SequentialModule(enn.IdentityModule(it)), enn.ReshuffleModule(it, list(range(len(it)))), enn.BranchingModule(it, ['a'] * len(it)),
                  enn.DisentangleModule(it), enn.MultipleModule(it, ['a'] * len(it), [(enn.IdentityModule(it), 'a')])):
            refuses(f'{type(m).__name__} with another type', lambda: m(enn.GeometricTensor(x, ot)))
        refuses('branch of another type', lambda: enn.MultipleModule(it, ['a'] * len(it), [(enn.IdentityModule(ot), 'a')]))
        refuses('tensor of another size', lambda: enn.GeometricTensor(x[:, 1:], it))
        refuses('incomplete permutation', lambda: enn.ReshuffleModule(it, list(range(len(it) - 1))))
        return obs
    return fn



def shuffled_sum(n, seed=3, part='reg'):
    """direct sum of representations hidden behind a permutation of the channels"""
    def mk(gs):
        G = gs.fibergroup
        r = {'reg': lambda: [gs.regular_repr] * n, 'irr': lambda: [G.irreps[k] for k in sorted(G.irreps)], 'mix': lambda: [gs.regular_repr, gs.trivial_repr, G.irreps[sorted(G.irreps)[-1]]]}[part]()
        s = sum(q.size for q in r)
        Pm = np.eye(s)[np.random.RandomState(seed).permutation(s)]
        a = group.directsum(r, change_of_basis=Pm)
        b = group.directsum(r, change_of_basis=np.eye(s)[np.random.RandomState(seed + 1).permutation(s)], name='other')
        return [a, gs.trivial_repr, b, a]
    return mk


def cases(tier):
    C = []

    def c(name, fn):
        C.append((name, fn))
    A = [reg, triv, irr(1), triv]
    for i, p in enumerate([(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 0, 3, 1)]):
        c(f'reshuffle-c4-{i}', reshuffle_case(R(4), A, p))
    c('reshuffle-d4', reshuffle_case(FR(4), [irr(1, 1), reg, irr(1, 0)], (2, 0, 1)))
    c('reshuffle-o2', reshuffle_case(O2(), [irr(1, 1), irr(0, 0), irr(1, 0), irr(1, 2)], (3, 1, 0, 2), batch=2))
    c('reshuffle-flip', reshuffle_case(FL(), [irr(1), triv, reg], (1, 2, 0), hw=(2, 3)))
    for lv in (0, 1, 2, 3):
        c(f'branch-c4-{lv}', branch_case(R(4), [reg, triv, irr(1), triv, reg], 'abaab', lv))
        c(f'branch-c4b-{lv}', branch_case(R(4), [irr(2), reg, triv, irr(1), triv, irr(1)], 'babcbc', lv, batch=2))
        c(f'branch-contig-{lv}', branch_case(R(4), [irr(1), irr(1), triv, triv], 'aabb', lv))
        c(f'branch-so2-{lv}', branch_case(SO2(), [irr(2), irr(0), irr(1), irr(0)], 'baba', lv))
    c('branch-flip', branch_case(FL(), [irr(1), triv, reg], 'aba', 1, hw=(2, 3)))
    c('branch-one', branch_case(FR(4), [irr(1, 1), reg, triv], 'aaa', 0))
    for lv in (0, 1, 2, 3):
        c(f'multiple-c4-{lv}', multiple_case(R(4), [reg, triv, irr(1), triv, reg], 'abcbb', [('relu', 'a'), ('id', 'b'), ('norm', 'c')], lv))
        c(f'multiple-conv-{lv}', multiple_case(R(4), [reg, irr(1), reg, irr(1)], 'abab', [('norm', 'b'), ('conv', 'a')], lv))
    c('multiple-order', multiple_case(R(4), [triv, irr(1), reg], 'abc', [('relu', 'c'), ('id', 'a'), ('norm', 'b')]))
    c('multiple-gated', multiple_case(R(4), [triv, irr(1), triv, irr(1)], 'gxgx', [('gated2', ['g', 'x'])], hw=(2, 2)))
    c('multiple-gated2', multiple_case(FR(4), [triv, reg, irr(1, 1), triv, irr(1, 0)], 'gaxgx', [('relu', 'a'), ('gated2', ['g', 'x'])], hw=(2, 2)))
    c('multiple-gated-first', multiple_case(FR(4), [triv, reg, irr(1, 1), triv, irr(1, 0)], 'gaxgx', [('gated2', ['g', 'x']), ('relu', 'a')], hw=(2, 2), level=1))
    c('multiple-o2', multiple_case(O2(), [irr(1, 1), irr(0, 0), irr(1, 2), irr(0, 0)], 'nana', [('norm', 'n'), ('relu', 'a')], hw=(2, 2)))
    rs = [('c4-2', R(4), [reg, irr(1), triv], 2), ('c8-4', R(8), [reg, irr(1), irr(3)], 4), ('c8-2', R(8), [reg, irr(4)], 2), ('c6-3', R(6), [reg, irr(1)], 3), ('c4-1', R(4), [reg, irr(1)], 1),
          ('d4-rot', FR(4), [reg, irr(1, 1), irr(1, 0)], (None, 4)), ('d4-flip', FR(4), [reg, irr(1, 1), irr(1, 0)], (0, 1)), ('d4-flip1', FR(4), [reg, irr(1, 1)], (1, 1)),
          ('d4-flip3', FR(4), [reg, irr(1, 1)], (3, 1)), ('d4-d2', FR(4), [reg, irr(1, 1)], (0, 2)), ('d4-d2b', FR(4), [reg, irr(1, 1)], (1, 2)), ('d4-c2', FR(4), [irr(1, 1), reg], (None, 2)),
          ('d4ax-flip', FR(4, axis=0.), [reg, irr(1, 1)], (1, 1)), ('d4ax-d2', FR(4, axis=math.pi / 4), [reg, irr(1, 1)], (1, 2)), ('d3-flip', FR(3), [reg, irr(1, 1)], (2, 1)),
          ('so2-4', SO2(), [irr(1), irr(2), irr(3)], 4), ('so2-8', SO2(), [irr(1), irr(0)], 8), ('o2-so2', O2(), [irr(1, 1), irr(1, 0), irr(0, 0)], (None, -1)), ('o2-d4', O2(), [irr(1, 1), irr(1, 0), irr(1, 2)], (0., 4)),
          ('o2-d4ax', O2(), [irr(1, 1), irr(1, 2)], (math.pi / 4, 4)), ('o2-flip', O2(), [irr(1, 1), irr(1, 0)], (0., 1)), ('o2-flipax', O2(), [irr(1, 1), irr(1, 0)], (math.pi / 2, 1)), ('o2-c4', O2(), [irr(1, 1), irr(1, 2)], (None, 4)),
          ('o2-o2', O2(), [irr(1, 1), irr(1, 2)], (math.pi / 4, -1)), ('o2ax-d4', (lambda: gspaces.FlipRot2dOnR2(-1, maximum_frequency=3, axis=0.)), [irr(1, 1), irr(1, 0)], (math.pi / 4, 4)), ('flip-triv', FL(), [reg, irr(1)], 1), ('o2-c1', O2(), [irr(1, 1), irr(1, 0)], (None, 1))]
    for nm, gs, ins, sid in rs:
        c(f'restrict-{nm}', restrict_case(gs, ins, sid, chain=nm in ('c4-2', 'd4-flip', 'd4-flip1', 'd4-d2b', 'o2-d4', 'o2-so2', 'd4ax-flip', 'so2-4', 'o2-d4ax', 'c8-4')))
    for nm, gs in [('c4', R(4)), ('d3', FR(3)), ('d4', FR(4)), ('flip', FL())]:
        for part in ('reg', 'irr', 'mix'):
            c(f'disentangle-{nm}-{part}', disentangle_case(gs, shuffled_sum(2, 3, part)))
    c('disentangle-plain', disentangle_case(R(4), lambda g: [g.regular_repr, g.irrep(1), g.regular_repr]))
    c('disentangle-restricted', disentangle_case(R(2), lambda g: [gspaces.Rot2dOnR2(4).restrict(2)[0].fibergroup and gspaces.Rot2dOnR2(4).fibergroup.restrict_representation(2, gspaces.Rot2dOnR2(4).regular_repr), g.trivial_repr]))
    c('disentangle-restricted-d4', disentangle_case(R(4), lambda g: [gspaces.FlipRot2dOnR2(4).fibergroup.restrict_representation((None, 4), gspaces.FlipRot2dOnR2(4).regular_repr), g.irrep(1)]))
    c('disentangle-default-names', disentangle_case(R(4), lambda g: [group.directsum([g.irrep(1), g.irrep(2)]), group.directsum([g.irrep(1), g.irrep(2)], change_of_basis=np.eye(3)[[2, 0, 1]]), g.trivial_repr]))
    c('seq', seq_case(R(4), [reg, reg], ['conv', 'norm', 'id']))
    c('seq-named', seq_case(FR(4), [reg, triv], ['relu', 'conv', 'norm', 'normpool'], named=True))
    c('seq-pool', seq_case(R(4), [reg, triv], ['gpool', 'relu', 'conv'], named='grow'))
    c('seq-o2', seq_case(O2(2), [irr(1, 1), triv], ['norm', 'conv', 'normpool']))
    c('reject', reject_case(R(4), [irr(1), reg, triv]))
    c('reject-flip', reject_case(FL(), [irr(1), reg, reg]))
    if tier == 'thorough':
        for i, p in enumerate(itertools.permutations(range(4))):
            c(f'reshuffle-all-{i}', reshuffle_case(R(4), [reg, irr(1), triv, irr(2)], p))
        for i, lab in enumerate(itertools.product('abc', repeat=4)):
            for lv in (0, 1, 2, 3):
                c(f'branch-all-{i}-{lv}', branch_case(R(4), [irr(1), reg, triv, irr(1)], ''.join(lab), lv, hw=(1, 1)))
        for i, lab in enumerate(itertools.product('abc', repeat=4)):
            ls = sorted(set(lab))
            for lv in (0, 1, 3):
                c(f'multiple-all-{i}-{lv}', multiple_case(R(4), [reg, triv, quo(2), triv], ''.join(lab), [('relu', l) for l in ls[::-1]], lv, hw=(2, 2)))
        for n in (8, 12):
            for k in range(1, n + 1):
                if n % k == 0:
                    c(f'restrict-c{n}-{k}', restrict_case(R(n), [reg, irr(1), irr(2)], k))
        for n in (3, 4, 6, 8):
            for k in range(1, n + 1):
                if n % k == 0:
                    c(f'restrict-d{n}-n{k}', restrict_case(FR(n), [reg, irr(1, 1), irr(1, 0)], (None, k)))
                    for a in range(n // k):
                        c(f'restrict-d{n}-{a}-{k}', restrict_case(FR(n), [reg, irr(1, 1), irr(1, 0)], (a, k)))
        for n in range(1, 9):
            c(f'restrict-so2-{n}', restrict_case(SO2(4), [irr(1), irr(2), irr(4)], n))
            for a in (0., 0.3, 1.1):
                if a < 2 * math.pi / n:
                    c(f'restrict-o2-{a}-{n}', restrict_case(O2(4), [irr(1, 1), irr(1, 3), irr(1, 0)], (a, n)))
    return C
