"""C05: decomposition into irreps; disentangling."""
from gcommon import *
from c03 import orth, general, some, subgroup_ids, families, constructions
from c04 import block

INFO = dict(
    level='model_checking',
    technique='symbolic execution of representations on symbolic group elements (exact Fourier series); z3 decides the matrix identities for all elements; counterexamples replayed',
    functions=['Representation.__init__, __call__, direct_sum_factory', 'directsum, change_basis, disentangle', 'build_regular_representation, build_induced_representation, quotient/induced/restricted representations'],
    bounds='rotation orders 1..8 and 12 (thorough 1..16), SO(2) and O(2) with frequencies up to 6; every irrep, regular, quotient and induced representation (orders up to 6; thorough 10), direct sums, orthogonal and general changes of basis, restrictions; disentangling of all of these; all elements symbolic',
    outside='larger orders; numerically nearly singular changes of basis; floating point rounding below 1e-6',
    assumptions=['numpy cos/sin/matmul/inv compute the exact functions up to rounding'],
)


def decomposition(mk, build):
    def fn(E):
        G = mk()
        r = build(G)
        G = r.group
        g = element(E, G, 'g')
        Q, Qi = np.asarray(r.change_of_basis), np.asarray(r.change_of_basis_inv)
        I = np.eye(r.size)
        obs = [Holds('listed irreps exist', all(i in G.irreps for i in r.irreps), str(r.irreps)), Holds('sizes add up', sum(G.irreps[i].size for i in r.irreps) == r.size, str(r.irreps)),
               Zero('inverse change of basis', Q @ Qi - I), Zero('inverse change of basis (2)', Qi @ Q - I)]
        with E.run():
            obs.append(Same('decomposition', r(g), Q @ block(G, r.irreps, g) @ Qi))
        obs.append(Holds('irreducible flag', bool(r.irreducible) == (len(r.irreps) == 1 and np.allclose(Q, I)), f'{r.irreducible} {r.irreps}'))
        return obs
    return fn


def flags(mk, build):
    """is_trivial / contains_trivial tell the truth"""
    def fn(E):
        G = mk()
        r = build(G)
        G = r.group
        g = element(E, G, 'g')
        obs = []
        from c03 import average
        tot = 0.
        with E.run():
            if r.is_trivial():
                obs.append(Same('is_trivial', r(g), np.eye(1)))
            for s in ((0, 1) if isinstance(g, tuple) else (None,)):
                e = g if s is None else (s, g[1])
                tot = tot + average(E, G, np.trace(np.asarray(r(e))), lambda t: np.trace(np.asarray(r(like(G, e, t))))) * (1. if s is None else .5)
        m = round(tot)
        obs.append(Zero('multiplicity of the trivial representation', tot - sum(1 for i in r.irreps if G.irreps[i].is_trivial())))
        obs.append(Holds('contains_trivial', bool(r.contains_trivial()) == (m > 0), f'{r.name} {m}'))
        return obs
    return fn


def disentangled(mk, build):
    def fn(E):
        G = mk()
        r = build(G)
        G = r.group
        Q0 = np.array(r.change_of_basis)
        n0 = list(r.irreps)
        M, parts_ = disentangle(r)
        g = element(E, G, 'g')
        M = np.asarray(M)
        obs = [Holds('sizes add up', sum(p.size for p in parts_) == r.size), Holds('same irreps', sorted(i for p in parts_ for i in p.irreps) == sorted(r.irreps), f'{[p.irreps for p in parts_]} {r.irreps}'),
               Holds('returned matrix is a permutation', bool(np.all((np.abs(M) < 1e-9) | (np.abs(M - 1) < 1e-9))) and np.allclose(M.sum(0), 1) and np.allclose(M.sum(1), 1)),
               Holds('same group', all(p.group == G for p in parts_)), Holds('argument untouched', np.array_equal(Q0, r.change_of_basis) and n0 == list(r.irreps))]
        with E.run():
            from scipy.linalg import block_diag
            D = block_diag(*[np.asarray(p(g), dtype=object) for p in parts_])
            obs.append(Same('equivalent through the returned matrix', M @ np.asarray(r(g)) @ M.T, D))
            # finest: no part can be split further by a permutation of its entries
            for k, p in enumerate(parts_):
                obs.append(Holds(f'part {k} is connected', len(disentangle(p)[1]) == 1 if not E.symbolic else connected(p), p.name))
        return obs
    return fn


def connected(p):
    A = np.abs(np.asarray(p.change_of_basis, dtype=float)) > 1e-6
    pos, cols = 0, []
    for i in p.irreps:
        s = p.group.irreps[i].size
        cols.append(A[:, pos:pos + s].any(1))
        pos += s
    left = set(range(1, len(cols)))
    reach = cols[0].copy()
    while True:
        new = [c for c in left if (cols[c] & reach).any()]
        if not new:
            return not left
        for c in new:
            reach |= cols[c]
            left.discard(c)


def cases(tier):
    q = tier == 'quick'
    C = []
    add = lambda n, f: C.append((n, pe.case(f), 'custom'))
    fin, cont = families(tier)
    for n, mk in fin + cont:
        G = mk()
        L = list(constructions(n, mk, tier)) + [(f'irrep:{i}', lambda G, i=i: G.irreps[i]) for i in G.irreps]
        L.append(('sum-mixed', lambda G: directsum([some(G)[-1], some(G)[0], some(G)[-1], some(G)[1 % len(some(G))]], name='mix')))

        def shuffled(G):
            b = directsum(some(G) + [change_basis(directsum(some(G)[:2], name='a1'), orth(sum(r.size for r in some(G)[:2])), 'a2')], name='a3')
            p = np.random.RandomState(5).permutation(b.size)
            return change_basis(b, np.eye(b.size)[p], 'a4')
        L.append(('shuffled', shuffled))
        if n not in ('SO2', 'O2'):
            L.append(('regular', lambda G: G.regular_representation))
            ids = subgroup_ids(G) if rot_order(G) <= (6 if q else 10) else []
            for id in ids:
                L.append((f'quotient{id}', lambda G, id=id: G.quotient_representation(id)))
                L.append((f'restricted-regular{id}', lambda G, id=id: G.regular_representation.restrict(id)))
                H = G.subgroup(id)[0]
                for i in list(H.irreps)[1:]:
                    if rot_order(G) <= 4 or i == list(H.irreps)[-1] or not q:
                        L.append((f'induced{id}{i}', lambda G, id=id, i=i: G.induced_representation(id, G.subgroup(id)[0].irreps[i])))
                if rot_order(G) % 2 == 0 or not q:
                    L.append((f'restricted-sum{id}', lambda G, id=id: directsum(some(G), name='rs').restrict(id)))
        else:
            ids = (1, 2, 3, 4, 6) if n == 'SO2' else ((None, 1), (None, 3), (None, 4), (0.3, 1), (0., 2), (.5, 3), (.2, 4), (None, -1), (1.1, -1))
            for id in ids:
                L.append((f'restricted-sum{id}', lambda G, id=id: directsum(some(G), name='rs').restrict(id)))
            if n == 'O2':
                for k in range(4):
                    L.append((f'induced-{k}', lambda G, k=k: G.induced_representation((None, -1), G.subgroup((None, -1))[0].irrep(k))))
        for l, b in L:
            add(f'decomposition-{n}-{l}', decomposition(mk, b))
            add(f'flags-{n}-{l}', flags(mk, b))
            if not l.startswith('irrep'):
                add(f'disentangle-{n}-{l}', disentangled(mk, b))
    return C
