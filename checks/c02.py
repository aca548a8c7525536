"""C02: subgroup embeddings."""
from gcommon import *

INFO = dict(
    level='model_checking',
    technique='symbolic execution of subgroup() mappings on symbolic elements with path exploration; z3 (linear integer/real arithmetic) decides on every path; counterexamples replayed',
    functions=['CyclicGroup/DihedralGroup/SO2/O2.subgroup and the parent/child mappings it returns', 'group.utils.cycle_isclose', 'combine, equal, is_element, identity of group and subgroup'],
    bounds='groups of rotation order 1..12 (thorough 1..30) with every subgroup identifier; SO(2) and O(2) with subgroup orders 1..6, 8, 12 (thorough 1..24), O(2)/SO(2) themselves, and 4 axes (thorough 9) per order; all elements symbolic, angles in [-4 pi, 4 pi]',
    outside='larger orders; axes not listed; floating point rounding (angles are reals; behaviour between 1e-10 and 1e-6 from an element is not constrained)',
    assumptions=['float arithmetic on angles behaves as real arithmetic', '2 pi is the float 2*math.pi'],
)


def documented(G, id, H, h):
    """the element of G which the subgroup element h stands for"""
    if isinstance(G, CyclicGroup):
        return h * (G.order() // id)
    if isinstance(G, SO2):
        return h * (TWO_PI / id)
    axis, order = id
    s, t = parts(H, h)
    dih = isinstance(G, DihedralGroup)
    if axis is None:
        ang = t if order < 0 else t * (G.rotation_order // order) if dih else t * (TWO_PI / order)
        return (0, ang)
    if order == 1:            # a reflection: the cyclic group of order two
        return (h, axis * h)
    ang = t if order < 0 else t * (G.rotation_order // order) if dih else t * (TWO_PI / order)
    return (s, ang + s * axis)


def near(G, a, b):
    s, t = parts(G, a)
    u, v = parts(G, b)
    return And(s == u, congruent(G, t, v))


def fn_for(mk, id, want):
    def fn(E):
        G = mk()
        H, up, down = G.subgroup(id)
        cls, order = want
        obs = [Holds('kind of subgroup', isinstance(H, cls) and H.order() == order, f'{H.name}')]
        a, b = element(E, H, 'a'), element(E, H, 'b')
        g = element(E, G, 'g')
        with E.run():
            pa, pb = up(a), up(b)
            obs.append(Holds('lands in the group', G.is_element(pa), str(pa)))
            obs.append(Holds('documented element', near(G, pa, documented(G, id, H, a)), f'{a} -> {pa}'))
            obs.append(Holds('preserves products', G.equal(up(H.combine(a, b)), G.combine(pa, pb))))
            obs.append(Holds('preserves inverses', G.equal(up(H.inverse(a)), G.inverse(pa))))
            obs.append(Holds('preserves the identity', G.equal(up(H.identity), G.identity)))
            if not H.continuous:
                obs.append(Implies('injective', G.equal(pa, pb), H.equal(a, b)))
            else:
                obs.append(Implies('injective', near(G, pa, pb), near(H, a, b)))
            back = down(pa)
            obs.append(Holds('embedded elements come back', back is not None, str(pa)))
            if back is not None:
                obs.append(Holds('come back as an element of the subgroup', H.is_element(back), f'{back}'))
                obs.append(Holds('come back unchanged', H.equal(back, a), f'{a} -> {pa} -> {back}'))
            h = down(g)
            if h is None:
                obs.append(Holds('nothing only outside the subgroup', Not(same_exact(G, g, pa)), f'{g} -> None but it is the image of {a}'))
            else:
                obs.append(Holds('returns an element of the subgroup', H.is_element(h), f'{g} -> {h}'))
                obs.append(Holds('returns the corresponding element', near(G, up(h), g), f'{g} -> {h} -> {up(h)}'))
        return obs
    return fn


def same_exact(G, a, b):
    s, t = parts(G, a)
    u, v = parts(G, b)
    n = rot_order(G)
    if n > 0:
        return And(s == u, (t - v) % n == 0)
    d = (t - v) % TWO_PI
    return And(s == u, Or(d <= 5e-12, d >= TWO_PI - 5e-12))


def bad_ids(mk, ids):
    def fn(E):
        G = mk()
        i = E.choose('id', ids)
        try:
            G.subgroup(i)
            ok = False
        except Exception:
            ok = True
        return [Holds('identifier without a subgroup is refused', ok, str(i))]
    return fn


def cases(tier):
    q = tier == 'quick'
    C = []
    add = lambda n, f: C.append((n, pe.case(f), 'custom'))
    for n in range(1, 13 if q else 31):
        divs = [d for d in range(1, n + 1) if n % d == 0]
        for d in divs:
            add(f'C{n}-{d}', fn_for(mkC(n), d, (CyclicGroup, d)))
            add(f'D{n}-(None,{d})', fn_for(mkD(n), (None, d), (CyclicGroup, d)))
            for ax in range(n // d):
                add(f'D{n}-({ax},{d})', fn_for(mkD(n), (ax, d), (CyclicGroup, 2) if d == 1 else (DihedralGroup, 2 * d)))
        add(f'C{n}-refused', bad_ids(mkC(n), [d for d in range(1, n + 3) if n % d]))  if n > 1 else None
        add(f'D{n}-refused', bad_ids(mkD(n), [(None, n + 1), (n, 1), (0, n + 1), (-1, 1)]))
    for d in ((1, 2, 3, 4, 5, 6, 8, 12) if q else range(1, 25)):
        add(f'SO2-{d}', fn_for(mkSO2, d, (CyclicGroup, d)))
        add(f'O2-(None,{d})', fn_for(mkO2, (None, d), (CyclicGroup, d)))
        for i in range(4 if q else 9):
            ax = (0., .25, .5, .77, .1, .9, .33, .999, 1e-3)[i] * TWO_PI / d
            add(f'O2-({ax:.4f},{d})', fn_for(mkO2, (ax, d), (CyclicGroup, 2) if d == 1 else (DihedralGroup, 2 * d)))
    add('O2-(None,-1)', fn_for(mkO2, (None, -1), (SO2, -1)))
    for ax in (0., .3, math.pi / 2, 2.5, math.pi, 5.):
        add(f'O2-({ax:.4f},-1)', fn_for(mkO2, (ax, -1), (O2, -1)))
    add('O2-refused', bad_ids(mkO2, [(0, 4), (3., 4), 'x', 4]))
    return C
