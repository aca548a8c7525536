"""C19: field types: sizes, boundaries, order, selection, equality.

Part of the cases gives FieldType representations whose sizes are symbolic integers (so every statement about sizes, boundaries
and order holds for all sizes); the others use the real representations with symbolic group elements, a symbolic axis and a
symbolic choice of the representation at each position.
"""
from kcommon import *
from c03 import subgroup_ids
from e2cnn import nn as enn
from e2cnn.nn import FieldType
from scipy.linalg import block_diag

INFO = dict(
    level='model_checking',
    technique='symbolic execution of FieldType over representations of symbolic size, symbolic indices and labels, symbolic group elements and axes; z3 decides every assertion on every path; counterexamples replayed',
    functions=['FieldType.__init__, size, fields_start, fields_end, irreps, change_of_basis(_inv), get_dense_change_of_basis(_inv), representation', 'FieldType.__add__, sorted, index_select, group_by_labels, restrict, __iter__, __len__, fields_names', 'FieldType.__eq__, __hash__', 'gspaces __eq__, __hash__'],
    bounds='lists of up to 4 fields (thorough 5) in every pattern of repetition, sizes symbolic in 1..64; indices symbolic in -2..n+1, up to 3 at a time; up to 3 labels, symbolic per field; real representations: T, F, C2..C6, D2..D4, SO(2), O(2), elements symbolic; equality: axes symbolic, identical or 1e-3 apart',
    outside='longer lists; axes closer than 1e-3 but not identical (compared with a tolerance by design); different representations given the same name by the user',
    assumptions=['arithmetic on integers is exact'],
)


class Stub(Representation):
    """a representation of symbolic size"""

    def __init__(self, group, size, k):
        self.group, self.size = group, size
        self.name = f'stub{k}'
        self.irreps = [self.name]
        self.change_of_basis = np.eye(1) * (k + 1)
        self.change_of_basis_inv = np.eye(1) / (k + 1)
        self.supported_nonlinearities = {'norm'}
        self.irreducible = False

    def __repr__(self):
        return self.name

    def __hash__(self):
        return hash(self.name)


def patterns(n):
    """every way to repeat representations in a list of n"""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return out


def stubs(E, pat):
    gs = gspaces.Rot2dOnR2(4)
    pool = [Stub(gs.fibergroup, E.int(f's{k}', 1, 64), k) for k in range(max(pat) + 1)]
    return gs, pool, [pool[k] for k in pat]


def listing(t, reps, label, obs, gs):
    obs.append(Holds(f'{label}: fields', len(t) == len(reps) and all(a is b for a, b in zip(t.representations, reps)), str(t.fields_names() if len(reps) < 50 else '')))
    obs.append(Holds(f'{label}: space', t.gspace == gs))


def bounds_of(t, reps, label, obs):
    p = 0
    st, en = list(t.fields_start), list(t.fields_end)
    obs.append(Holds(f'{label}: number of boundaries', len(st) == len(en) == len(reps)))
    for i, r in enumerate(reps):
        obs.append(Holds(f'{label}: start {i}', st[i] == p))
        p = p + r.size
        obs.append(Holds(f'{label}: end {i}', en[i] == p))
    obs.append(Holds(f'{label}: size', t.size == p))


def structure(pat):
    def fn(E):
        gs, pool, L = stubs(E, pat)
        given = list(L)
        obs = []
        with E.run():
            t = FieldType(gs, given)
            given.append(pool[0])            # the caller's list is the caller's
            listing(t, L, 'type', obs, gs)
            bounds_of(t, L, 'type', obs)
            obs.append(Holds('iteration', [a is b for a, b in zip(list(t), L)] == [True] * len(L)))
            obs.append(Holds('names', t.fields_names() == [r.name for r in L]))
            obs.append(Holds('irreps', t.irreps == [i for r in L for i in r.irreps]))
            obs.append(Holds('fibergroup', t.fibergroup == gs.fibergroup))
            # the caller may write on what is handed out
            t.fields_names().append('x')
            t.irreps.append('x')
            bounds_of(t, L, 'again', obs)
            obs.append(Holds('names again', t.fields_names() == [r.name for r in L] and t.irreps == [i for r in L for i in r.irreps]))
        return obs
    return fn


def addition(p1, p2):
    def fn(E):
        gs, pool, L = stubs(E, p1 + p2)
        g3 = gspaces.Rot2dOnR2(3)
        other = FieldType(g3, [g3.trivial_repr])
        A, B = L[:len(p1)], L[len(p1):]
        obs = []
        with E.run():
            a, b = FieldType(gs, A), FieldType(gs, B)
            a.fields_start, b.fields_end
            t = a + b
            listing(t, L, 'sum', obs, gs)
            bounds_of(t, L, 'sum', obs)
            listing(a, A, 'first', obs, gs)
            listing(b, B, 'second', obs, gs)
            bounds_of(a, A, 'first', obs)
            try:
                a + other
                obs.append(Holds('other space refused', False))
            except AssertionError:
                pass
        return obs
    return fn


def sorting(pat):
    def fn(E):
        gs, pool, L = stubs(E, pat)
        obs = []
        with E.run():
            t = FieldType(gs, L)
            s = t.sorted()
            idx = [[j for j, r in enumerate(L) if r is q] for q in s.representations]
            obs.append(Holds('same fields', sorted(id(r) for r in s.representations) == sorted(id(r) for r in L)))
            for i in range(len(L) - 1):
                a, b = s.representations[i], s.representations[i + 1]
                obs.append(Holds(f'ordered {i}', a.size <= b.size))
                # stable: fields of the same size keep their order
                if a is not b:
                    obs.append(Implies(f'stable {i}', a.size == b.size, max(idx[i]) < max(idx[i + 1]) or min(idx[i]) < min(idx[i + 1]) or any(x < y for x in idx[i] for y in idx[i + 1])))
            # the exact stable order, by insertion
            want = []
            for r in L:
                k = len(want)
                while k > 0 and want[k - 1].size > r.size:
                    k -= 1
                want.insert(k, r)
            obs.append(Holds('stable order', all(a is b for a, b in zip(want, s.representations))))
            bounds_of(s, want, 'sorted', obs)
            listing(t, L, 'original', obs, gs)
        return obs
    return fn


def selection(pat, k):
    def fn(E):
        gs, pool, L = stubs(E, pat)
        n = len(L)
        idx = [E.int(f'i{j}', -2, n + 1) for j in range(k)]
        obs = []
        with E.run():
            t = FieldType(gs, L)
            good = all((i >= 0) and (i < n) for i in idx)
            try:
                s = t.index_select(list(idx))
            except (AssertionError, IndexError):
                return [Holds('refused only outside the list', not good)]
            obs.append(Holds('indices outside the list are refused', good))
            if good:
                want = [L[i] for i in idx]
                listing(s, want, 'selection', obs, gs)
                bounds_of(s, want, 'selection', obs)
                listing(t, L, 'original', obs, gs)
        return obs
    return fn


def labelling(pat):
    def fn(E):
        gs, pool, L = stubs(E, pat)
        lab = [E.choose(f'l{i}', ['a', 'b', 'c']) for i in range(len(L))]
        obs = []
        with E.run():
            t = FieldType(gs, L)
            d = t.group_by_labels(lab)
            obs.append(Holds('labels', set(d) == set(lab)))
            obs.append(Holds('order of the labels', list(d) == list(dict.fromkeys(lab))))
            for l in dict.fromkeys(lab):
                want = [r for r, m in zip(L, lab) if m == l]
                listing(d[l], want, f'label {l}', obs, gs)
                bounds_of(d[l], want, f'label {l}', obs)
            for bad in (lab[:-1], lab + ['a']):
                try:
                    t.group_by_labels(bad)
                    obs.append(Holds('wrong number of labels refused', False))
                except AssertionError:
                    pass
        return obs
    return fn


def pool_of(gs):
    G = gs.fibergroup
    out = [G.irreps[i] for i in list(G.irreps)[:3]] + list(rich(G).values())
    return out


def real(mk, pick):
    """the representation of the type: block diagonal, for all elements"""
    def fn(E):
        gs = mk()
        P = pool_of(gs)
        L = [P[k % len(P)] for k in pick]
        t = FieldType(gs, L)
        G = gs.fibergroup
        g = element(E, G, 'g')
        n = sum(r.size for r in L)
        rep_ = t.representation
        Q, Qi = np.asarray(t.change_of_basis.todense()), np.asarray(t.change_of_basis_inv.todense())
        obs = [Holds('size', t.size == n == rep_.size), Holds('irreps', list(t.irreps) == [i for r in L for i in r.irreps] == list(rep_.irreps)),
               Zero('change of basis', Q - block_diag(*[r.change_of_basis for r in L])), Zero('inverse', Q @ Qi - np.eye(n)), Zero('inverse (2)', Qi @ Q - np.eye(n)),
               Zero('dense change of basis', t.get_dense_change_of_basis().numpy() - Q, 1e-5), Zero('dense inverse', t.get_dense_change_of_basis_inv().numpy() - Qi, 1e-5),
               Holds('group', rep_.group == G == t.fibergroup), Holds('same space', FieldType(gs, L) == t and hash(FieldType(gs, L)) == hash(t))]
        bounds_of(t, L, 'type', obs)
        with E.run():
            D = block_diag(*[np.asarray(r(g), dtype=object) for r in L])
            obs.append(Same('representation', rep_(g), D))
            from c04 import block
            obs.append(Same('decomposition', Q @ block(G, t.irreps, g) @ Qi, D))
        return obs
    return fn


def restricted(mk, pick, ident):
    def fn(E):
        gs = mk()
        P = pool_of(gs)
        L = [P[k % len(P)] for k in pick]
        t = FieldType(gs, L)
        sub, emb, _ = gs.restrict(ident)
        r = t.restrict(ident)
        h = element(E, sub.fibergroup, 'h')
        obs = [Holds('space', r.gspace == sub), Holds('number of fields', len(r) == len(L)), Holds('sizes', [a.size for a in r] == [a.size for a in L]),
               Holds('original', t.representations == L and t.gspace == gs)]
        bounds_of(r, list(r), 'restricted', obs)
        with E.run():
            g = emb(h)
            for k, (a, b) in enumerate(zip(r.representations, L)):
                obs.append(Same(f'field {k}', a(h), b(g)))
            obs.append(Same('representation', r.representation(h), block_diag(*[np.asarray(b(g), dtype=object) for b in L])))
        return obs
    return fn


KINDS = [('F', lambda a: gspaces.Flip2dOnR2(axis=a), True), ('D2', lambda a: gspaces.FlipRot2dOnR2(2, axis=a), True), ('D4', lambda a: gspaces.FlipRot2dOnR2(4, axis=a), True), ('O2', lambda a: gspaces.FlipRot2dOnR2(-1, 2, axis=a), True),
         ('C2', lambda a: gspaces.Rot2dOnR2(2), False), ('C4', lambda a: gspaces.Rot2dOnR2(4), False), ('SO2', lambda a: gspaces.Rot2dOnR2(-1, 2), False), ('T', lambda a: gspaces.TrivialOnR2(), False)]


def equality(k1, k2, n1, n2):
    """equal exactly when the space and the list are the same; equal types have equal hashes"""
    def fn(E):
        (l1, f1, ax1), (l2, f2, ax2) = KINDS[k1], KINDS[k2]
        a = E.real('a', -7., 7.) if ax1 else None
        # the second axis: the same or another one
        d = E.choose('d', [0, 1, -1]) if ax1 and ax2 else 0
        e = E.real('e', 1e-3, 3.) if d else 0.
        b = (a + d * e if d else a) if ax1 else (E.real('a2', -7., 7.) if ax2 else None)
        f1(.3), f2(.3)
        with E.run():
            g1, g2 = f1(a), f2(b)
        P1, P2 = pool_of(g1)[:4], pool_of(g2)[:4]
        c1 = [E.choose(f'p{i}', list(range(len(P1)))) for i in range(n1)]
        c2 = [E.choose(f'q{i}', list(range(len(P2)))) for i in range(n2)]
        with E.run():
            t1, t2 = FieldType(g1, [P1[i] for i in c1]), FieldType(g2, [P2[i] for i in c2])
            same = k1 == k2 and not d and c1 == c2
            obs = [Holds('equal iff same', bool(t1 == t2) == same, f'{t1} {t2}'), Holds('different iff not the same', bool(t1 != t2) == (not same)), Holds('symmetric', bool(t2 == t1) == same)]
            obs.append(Holds('not equal to other things', not t1 == g1 and not t1 == None and not t1 == t1.representations))
            if same:
                obs.append(Holds('equal hashes', hash(t1) == hash(t2)))
                obs.append(Holds('reflexive', t1 == t1 and hash(t1) == hash(t1)))
        return obs
    return fn


def cases(tier):
    big = tier == 'thorough'
    C = []
    add = lambda n, f, **kw: C.append((n, pe.case(f, **kw), 'custom'))
    for n in range(1, 6 if big else 5):
        for p in patterns(n):
            s = ''.join(map(str, p))
            add(f'structure {s}', structure(p))
            add(f'sorted {s}', sorting(p))
            if n <= 4:
                add(f'labels {s}', labelling(p))
            for k in (1, 2, 3) if n <= 3 or big else (1, 2):
                add(f'select {k} of {s}', selection(p, k))
            for k in range(1, n):
                add(f'add {s[:k]}+{s[k:]}', addition(p[:k], p[k:]))
    spaces = [('T', T), ('F', F(.7)), ('F0', F(0.))] + [(f'C{n}', R(n)) for n in range(2, 7)] + [(f'D{n}', FR(n)) for n in range(2, 5)] + [('D4ax', FR(4, .7)), ('SO2', R(-1)), ('O2', FR(-1)), ('O2ax', FR(-1, 1.1))]
    for n, mk in spaces:
        picks = [(0,), (3, 0, 3), (1, 4, 2), (5, 3, 5, 0), (2, 6, 1, 1), (4, 3)]
        for p in picks:
            add(f'real {n} {p}', real(mk, p))
    D = {4: [(0, 1), (1, 1), (0, 2), (1, 2), (None, 2), (None, 4), (None, 1), (3, 1), (0, 4)], 3: [(None, 3), (2, 1), (0, 3), (None, 1)], 6: [(None, 3), (1, 3), (4, 1), (1, 2), (None, 1), (0, 6)]}
    for n in (3, 4, 6):
        for i in D[n]:
            for ax, lab in ((math.pi / 2, ''), (.7, 'ax')):
                for p in ((0, 3, 1), (4, 5, 2, 4)):
                    add(f'restrict D{n}{lab} {i} {p}', restricted(FR(n, ax), p, i))
    for n, ids in ((6, (1, 2, 3, 6)), (4, (1, 2, 4)), (5, (1, 5)), (12, (3, 4, 6))):
        for i in ids:
            for p in ((0, 3, 1), (4, 5, 2, 4)):
                add(f'restrict C{n} {i} {p}', restricted(R(n), p, i))
    for i in (1, 2, 5, 8):
        add(f'restrict SO2 {i}', restricted(R(-1), (2, 0, 4, 2), i))
    for i in ((None, 1), (None, 4), (None, -1), (0.5, 1), (0., 4), (1.3, 3), (2., -1)):
        add(f'restrict O2 {i}', restricted(FR(-1, .4), (2, 0, 3, 2), i))
    for ax in (0., .7):
        add(f'restrict F {ax}', restricted(F(ax), (1, 0, 2, 1), 1))
    for k1 in range(len(KINDS)):
        for k2 in range(len(KINDS)):
            for n1, n2 in ((1, 1), (2, 2), (1, 2)) + (((3, 3),) if big and k1 == k2 else ()):
                if k1 != k2 and (n1, n2) != (1, 1):
                    continue
                add(f'equal {KINDS[k1][0]} {KINDS[k2][0]} {n1} {n2}', equality(k1, k2, n1, n2))
    return C
