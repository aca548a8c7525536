"""C03: representations are homomorphisms; irreps are orthogonal, irreducible and inequivalent; characters are traces."""
from gcommon import *

INFO = dict(
    level='model_checking',
    technique='symbolic execution of the representations on symbolic group elements (matrices of exact Fourier series); z3 decides each matrix identity for all elements; counterexamples replayed',
    functions=['irrep() of CyclicGroup, DihedralGroup, SO2, O2', 'group.utils.psi, chi, psichi', 'Representation.__call__, character, direct_sum_factory', 'directsum, change_basis, disentangle', 'build_regular_representation, build_quotient_representation, build_induced_representation, O2._induced_from_irrep', 'restrict_representation'],
    bounds='rotation orders 1..8 and 12 (thorough 1..16), SO(2) and O(2) with frequencies up to 6; every irrep, regular, every quotient and induced representation (orders up to 6; thorough 10), direct sums of up to 4 representations, orthogonal and non orthogonal changes of basis; all elements symbolic',
    outside='larger orders; build_from_discrete_group_representation (needs the optional pymanopt); floating point rounding below 1e-6',
    assumptions=['numpy cos/sin/matmul compute the exact functions up to rounding'],
)


def orth(n, seed=3):
    return np.linalg.qr(np.random.RandomState(seed).randn(n, n))[0]


def general(n, seed=4):
    return np.eye(n) + .3 * np.random.RandomState(seed).rand(n, n)


def some(G):
    """a few irreps"""
    names = list(G.irreps)
    return [G.irreps[n] for n in names[:3] + names[-2:]]


def mean(v):
    """average over the group (for the current reflection part)"""
    if pe.isnum(v):
        return float(v)
    return pe.Trig.of(v).d.get(((), ()), 0j).real


def hom(mk, build):
    def fn(E):
        G = mk()
        r = build(G)
        a, b = element(E, G, 'a'), element(E, G, 'b')
        with E.run():
            A, B = r(a), r(b)
            obs = [Holds('size', np.shape(A) == (r.size, r.size), f'{np.shape(A)} {r.size}'), Same('homomorphism', r(G.combine(a, b)), np.asarray(A) @ np.asarray(B)),
                   Same('identity', r(G.identity), np.eye(r.size)), Same('inverse', np.asarray(r(G.inverse(a))) @ np.asarray(A), np.eye(r.size)), Same('character is the trace', r.character(a), np.trace(np.asarray(A)))]
            if r.irreducible:
                obs.append(Same('orthogonal', np.asarray(A) @ np.asarray(A).T, np.eye(r.size)))
        return obs
    return fn


def permutation(mk, build, perm):
    """regular and quotient representations permute the elements / cosets"""
    def fn(E):
        G = mk()
        r = build(G)
        a = element(E, G, 'a')
        with E.run():
            A = np.asarray(r(a))
            one = np.ones(r.size)
            obs = [Zero('entries are 0 or 1', A * A - A), Same('rows sum to one', A.sum(1), one), Same('columns sum to one', A.sum(0), one)]
            if perm:
                el = G.elements
                v = np.zeros(r.size)
                v[[i for i, e in enumerate(el) if e == G.identity][0]] = 1.
                obs.append(Holds('one basis vector per element', len(el) == r.size))
                # e_h is sent to e_{a h}: the vector of e_id goes to e_a, and the order of the basis is that of G.elements
                want = np.array([indicator(G, a, e) for e in el], dtype=object)
                obs.append(Same('the identity vector goes to the vector of the element', A @ v, want))
        return obs
    return fn


def indicator(G, a, e):
    """1 if a = e, as a function of the symbolic a"""
    s, t = parts(G, a)
    u, v = parts(G, e)
    if not pe.symbolic(t):
        return 1. if (s, t) == (u, v) else 0.
    if s != u:
        return 0.
    n = rot_order(G)
    return sum(((t - v) * (TWO_PI * k / n)).cos() if k else 1. for k in range(n)) * (1. / n)


def irreducible(mk, first, second):
    """schur orthogonality of the characters"""
    def fn(E):
        G = mk()
        x, y = first(G), second(G)
        a = element(E, G, 'a')
        b = like(G, a, a[1]) if isinstance(a, tuple) else a
        tot = 0.
        with E.run():
            for s in ((0, 1) if isinstance(a, tuple) else (None,)):
                e = a if s is None else (s, a[1])
                p = np.trace(np.asarray(x(e))) * np.trace(np.asarray(y(e)))
                tot = tot + average(E, G, p, lambda t: np.trace(np.asarray(x(like(G, e, t)))) * np.trace(np.asarray(y(like(G, e, t))))) * (1. if s is None else .5)
        want = x.sum_of_squares_constituents if x.name == y.name else 0
        return [Zero(f'{x.name} and {y.name}', tot - want)]
    return fn


def average(E, G, p, f):
    if E.symbolic:
        return mean(p)
    n = rot_order(G)
    return float(np.mean([f(t) for t in (range(n) if n > 0 else np.arange(64) * TWO_PI / 64)]))


def complete(mk):
    def fn(E):
        G = mk()
        n = G.order()
        E.int('dummy', 0, 1)
        return [Holds('the irreps listed are all the irreps', sum(i.size ** 2 / i.sum_of_squares_constituents for i in G.irreps.values()) == n, str({k: v.size for k, v in G.irreps.items()})),
                Holds('trivial representation', np.allclose([G.trivial_representation(g) for g in G.elements], 1.) and G.trivial_representation.is_trivial())]
    return fn


def subgroup_ids(G):
    if isinstance(G, DihedralGroup):
        n = G.rotation_order
        return [(ax, d) for d in range(1, n + 1) if n % d == 0 for ax in [None] + list(range(n // d))]
    return [d for d in range(1, G.order() + 1) if G.order() % d == 0]


def families(tier):
    q = tier == 'quick'
    Ns = list(range(1, 9)) + [12] if q else list(range(1, 17))
    fin = [(f'C{n}', mkC(n)) for n in Ns] + [(f'D{n}', mkD(n)) for n in Ns]
    return fin, [('SO2', lambda: SO2(6)), ('O2', lambda: O2(6))]


def constructions(name, mk, tier):
    """(label, builder) of the composite representations of one group"""
    out = [('sum', lambda G: directsum(some(G), name='mysum')), ('sum-cob', lambda G: directsum(some(G)[:2], change_of_basis=orth(sum(r.size for r in some(G)[:2])), name='mycob')),
           ('add', lambda G: some(G)[0] + some(G)[-1]), ('change-orthogonal', lambda G: change_basis(directsum(some(G), name='s1'), orth(sum(r.size for r in some(G))), 's2')),
           ('change-general', lambda G: change_basis(directsum(some(G)[-2:], name='s3'), general(sum(r.size for r in some(G)[-2:])), 's4')), ('trivial', lambda G: G.trivial_representation),
           ('sum-of-changed', lambda G: directsum([change_basis(some(G)[-1], orth(some(G)[-1].size), 's5'), some(G)[0], some(G)[-1]], name='s6'))]
    def rich(G, q):
        L = [change_basis(some(G)[-1], general(some(G)[-1].size), 's7'), some(G)[0], some(G)[-1]]
        return directsum(L, change_of_basis=q(sum(r.size for r in L)), name='s8')
    out += [('sum-cob-general', lambda G: directsum(some(G)[-2:], change_of_basis=general(sum(r.size for r in some(G)[-2:])), name='s9')),
            ('rich-orthogonal', lambda G: rich(G, orth)), ('rich-general', lambda G: rich(G, general))]
    return out


def cases(tier):
    q = tier == 'quick'
    C = []
    add = lambda n, f: C.append((n, pe.case(f), 'custom'))
    fin, cont = families(tier)
    for n, mk in fin + cont:
        G = mk()
        irr = list(G.irreps)
        for i in irr:
            add(f'irrep-{n}-{i}', hom(mk, lambda G, i=i: G.irreps[i]))
        for l, b in constructions(n, mk, tier):
            add(f'{l}-{n}', hom(mk, b))
        for i in irr:
            for j in irr:
                if i <= j and (len(irr) <= 9 or i == j or not q):
                    add(f'schur-{n}-{i}-{j}', irreducible(mk, lambda G, i=i: G.irreps[i], lambda G, j=j: G.irreps[j]))
    for n, mk in fin:
        G = mk()
        add(f'complete-{n}', complete(mk))
        add(f'regular-{n}', hom(mk, lambda G: G.regular_representation))
        add(f'regular-permutes-{n}', permutation(mk, lambda G: G.regular_representation, True))
        if rot_order(G) <= (6 if q else 10):
            for sid in subgroup_ids(G):
                add(f'quotient-{n}-{sid}', hom(mk, lambda G, sid=sid: G.quotient_representation(sid)))
                add(f'quotient-permutes-{n}-{sid}', permutation(mk, lambda G, sid=sid: G.quotient_representation(sid), False))
                H = G.subgroup(sid)[0]
                for i in H.irreps:
                    if rot_order(G) <= (4 if q else 8) or i in (list(H.irreps)[1:2] + list(H.irreps)[-1:]):
                        add(f'induced-{n}-{sid}-{i}', hom(mk, lambda G, sid=sid, i=i: G.induced_representation(sid, G.subgroup(sid)[0].irreps[i])))
    for k in range(0, 5):
        add(f'induced-O2-irrep_{k}', hom(cont[1][1], lambda G, k=k: G.induced_representation((None, -1), G.subgroup((None, -1))[0].irrep(k))))
    return C
