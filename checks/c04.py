"""C04: restriction and induction."""
from gcommon import *
from c03 import orth, general, some, subgroup_ids, families, constructions, mean

INFO = dict(
    level='model_checking',
    technique='symbolic execution of restricted and induced representations on symbolic subgroup/group elements (exact Fourier series); z3 decides the matrix identities for all elements; counterexamples replayed',
    functions=['Group.restrict_representation, _restrict_irrep of all four groups, Representation.restrict', 'subgroup() mappings', 'induced_representation, quotient_representation, build_induced_representation, O2._induced_from_irrep'],
    bounds='rotation orders 1..8 (thorough 1..12) with every subgroup identifier and irrep; SO(2), O(2) with frequencies up to 8, subgroup orders 1..6 (thorough 1..12), 4 axes (thorough 8); induction for orders up to 6 (thorough 8); all elements symbolic',
    outside='larger orders and frequencies; other axes; floating point rounding below 1e-6',
    assumptions=['numpy cos/sin/matmul compute the exact functions up to rounding'],
)


def restriction(mk, build, id):
    def fn(E):
        G = mk()
        r = build(G)
        H, up, _ = G.subgroup(id)
        s = r.restrict(id)
        h = element(E, H, 'h')
        with E.run():
            obs = [Holds('of the subgroup', s.group == H, f'{s.group.name} {H.name}'), Holds('size', s.size == r.size), Same('matrix of every subgroup element', s(h), r(up(h))),
                   Holds('irreps exist', all(i in H.irreps for i in s.irreps) and sum(H.irreps[i].size for i in s.irreps) == r.size, str(s.irreps))]
            # its own decomposition
            obs.append(Same('decomposition', np.asarray(s.change_of_basis_inv) @ np.asarray(s(h)) @ np.asarray(s.change_of_basis), block(H, s.irreps, h)))
        return obs
    return fn


def block(H, names, h):
    from scipy.linalg import block_diag
    return block_diag(*[np.asarray(H.irreps[i](h), dtype=object) for i in names])


def trivial_flag(mk, id):
    """restrictions which are trivial are recognised as such"""
    def fn(E):
        G = mk()
        H, up, _ = G.subgroup(id)
        h = element(E, H, 'h')
        obs = []
        for n, irr in list(G.irreps.items()):
            s = irr.restrict(id)
            with E.run():
                obs.append(Same(f'{n}: matrix', s(h), irr(up(h))))
            if s.is_trivial():
                obs.append(Holds(f'{n}: trivial restrictions have size one', s.size == 1))
                with E.run():
                    obs.append(Same(f'{n}: is_trivial', s(h), np.eye(1)))
        return obs
    return fn


def induction(mk, id, name):
    def fn(E):
        G = mk()
        H, up, down = G.subgroup(id)
        psi = H.irreps[name] if name in H.irreps else H.irrep(int(name.split('_')[1]))
        r = G.induced_representation(id, psi)
        index = G.order() // H.order() if not G.continuous else 2
        k = psi.size
        h, g = element(E, H, 'h'), element(E, G, 'g')
        with E.run():
            M = np.asarray(r(up(h)))
            obs = [Holds('of the group', r.group == G), Holds('size is index times size', r.size == index * k, f'{r.size} {index} {k}')]
            A = np.asarray(r(g))
            # imprimitive: at most one block of each block row and column is not zero, and the matrix is orthogonal
            for i in range(index):
                for j in range(index):
                    for l in range(j + 1, index):
                        if index > 6 and (i + j + l) % 3:
                            continue
                        x, y = A[i * k:(i + 1) * k, j * k:(j + 1) * k], A[i * k:(i + 1) * k, l * k:(l + 1) * k]
                        obs.append(Zero('one block per block row', np.multiply.outer(x, y)))
            obs.append(Same('orthogonal', A @ A.T, np.eye(r.size)))
            # frobenius: the character is the sum over cosets, so the restriction contains psi
            reps = cosets(G, H, up) if not G.continuous else [G.identity, G.reflection]
            chi = 0.
            for c in reps:
                x = down(G.combine(G.inverse(c), G.combine(g, c)))
                if x is not None:
                    chi = chi + np.trace(np.asarray(psi(x if not G.continuous else x)))
            obs.append(Same('character of the induced representation', np.trace(A), chi))
            obs.append(Same('contains the original: first block', M[:k, :k], psi(h)))
            if index > 1:
                obs.append(Zero('contains the original: invariant subspace', np.concatenate([M[:k, k:], M[k:, :k].T], 1)))
        return obs
    return fn


def cosets(G, H, up):
    """one representative of each left coset"""
    seen, out = set(), []
    for e in G.elements:
        if e not in seen:
            out.append(e)
            for h in H.elements:
                seen.add(G.combine(e, up(h)))
    return out


def refused(mk, id, who):
    def fn(E):
        G = mk()
        E.int('dummy', 0, 1)
        H = G.subgroup(id)[0]
        try:
            G.induced_representation(id, who(H))
            ok = False
        except Exception:
            ok = True
        return [Holds('not inducible', ok)]
    return fn


def cases(tier):
    q = tier == 'quick'
    C = []
    add = lambda n, f: C.append((n, pe.case(f), 'custom'))
    top = 8 if q else 12
    fin = [(f'C{n}', mkC(n)) for n in range(1, top + 1)] + [(f'D{n}', mkD(n)) for n in range(1, top + 1)]
    SO, O = ('SO2', lambda: SO2(8)), ('O2', lambda: O2(8))
    sub = {n: subgroup_ids(mk()) for n, mk in fin}
    orders = range(1, 7 if q else 13)
    sub['SO2'] = list(orders)
    axes = (0., .25, .5, .8) if q else (0., .25, .5, .8, .1, .33, .66, .95)
    sub['O2'] = [(None, d) for d in orders] + [(f * TWO_PI / d, d) for d in orders for f in axes] + [(None, -1), (0., -1), (.7, -1), (math.pi / 2, -1), (4., -1)]
    for n, mk in fin + [SO, O]:
        for id in sub[n]:
            add(f'irreps-{n}-{id}', trivial_flag(mk, id))
            for l, b in constructions(n, mk, tier)[1:4] + ([('regular', lambda G: G.regular_representation)] if n not in ('SO2', 'O2') else []):
                if q and l in ('add',) or q and n.endswith(('5', '7', '8')) and l != 'change-orthogonal':
                    continue
                add(f'restrict-{l}-{n}-{id}', restriction(mk, b, id))
    for n, mk in fin:
        G = mk()
        if rot_order(G) > (6 if q else 8):
            continue
        for id in sub[n]:
            H = G.subgroup(id)[0]
            for i in H.irreps:
                add(f'induce-{n}-{id}-{i}', induction(mk, id, i))
    for k in range(5):
        add(f'induce-O2-(None, -1)-irrep_{k}', induction(O[1], (None, -1), f'irrep_{k}'))
    add('refused-O2', refused(O[1], (None, 4), lambda H: H.irrep(1)))
    add('refused-reducible', refused(mkD(4), (None, 4), lambda H: H.regular_representation))
    return C
