"""C01: group laws, for all elements (symbolic integers / reals)."""
from gcommon import *

INFO = dict(
    level='model_checking',
    technique='symbolic execution of the group code on symbolic elements with path exploration; z3 (linear integer/real arithmetic) decides every law on every path; counterexamples replayed',
    functions=['CyclicGroup/DihedralGroup/SO2/O2: combine, inverse, equal, is_element, identity, elements, order, testing_elements', 'group.utils.cycle_isclose',
               'factory functions cyclic_group, dihedral_group, so2_group, o2_group, trivial_group'],
    bounds='finite groups of rotation order 1..12 (thorough 1..36) with all elements symbolic; SO(2), O(2): every angle in [-4 pi, 4 pi] symbolic real, shifts by up to 3 full turns',
    outside='larger orders and angles; rounding of floating point sums (angles are real numbers here; equality of nearly equal angles is only constrained below 1e-10 and above 1e-6)',
    assumptions=['Python float arithmetic on angles behaves as real arithmetic up to the tolerance of the library\'s own equality', '2 pi is the float 2*math.pi'],
)


def laws(mk):
    def fn(E):
        G = mk()
        a, b, c = (element(E, G, n) for n in 'abc')
        obs = []
        with E.run():
            e = G.identity
            eq = lambda l, x, y: obs.append(Holds(l, G.equal(x, y), f'{x} vs {y}'))
            ab = G.combine(a, b)
            eq('associative', G.combine(ab, c), G.combine(a, G.combine(b, c)))
            eq('right identity', G.combine(a, e), a)
            eq('left identity', G.combine(e, a), a)
            eq('right inverse', G.combine(a, G.inverse(a)), e)
            eq('left inverse', G.combine(G.inverse(a), a), e)
            eq('inverse of a product', G.inverse(ab), G.combine(G.inverse(b), G.inverse(a)))
            for l, x in (('product', ab), ('inverse', G.inverse(a)), ('identity', e), ('element', a)):
                obs.append(Holds(f'{l} is an element', G.is_element(x), str(x)))
            if not G.continuous:
                obs.append(Holds('closed', And(*[valid(G, x) for x in (ab, G.inverse(a))])))
        return obs
    return fn


def model(mk):
    """the product is the documented one"""
    def fn(E):
        G = mk()
        a, b = element(E, G, 'a'), element(E, G, 'b')
        with E.run():
            ab, ia = G.combine(a, b), G.inverse(a)
            s, t = parts(G, a)
            u, v = parts(G, b)
            x, y = parts(G, ab)
            p, q = parts(G, ia)
            obs = [Holds('product: reflection part', x == (s + u) % 2), Holds('product: rotation part', congruent(G, y, t + (-v if s else v))),
                   Holds('inverse: reflection part', p == s), Holds('inverse: rotation part', congruent(G, q, t if s else -t))]
        return obs
    return fn


def equality(mk):
    def fn(E):
        G = mk()
        a, b, c = (element(E, G, n) for n in 'abc')
        obs = []
        with E.run():
            s, t = parts(G, a)
            u, v = parts(G, b)
            ab = G.equal(a, b)
            obs.append(Holds('reflexive', G.equal(a, a)))
            if not G.continuous:
                obs.append(Holds('symmetric', Iff(ab, G.equal(b, a))))
            if not G.continuous:
                obs.append(Holds('equal exactly for the same element', Iff(ab, And(s == u, t == v))))
                obs.append(Implies('transitive', And(ab, G.equal(b, c)), G.equal(a, c)))
                obs.append(Implies('compatible (left)', ab, G.equal(G.combine(c, a), G.combine(c, b))))
                obs.append(Implies('compatible (right)', ab, G.equal(G.combine(a, c), G.combine(b, c))))
            else:
                k = E.int('k', -3, 3)
                a2 = like(G, a, t + k * TWO_PI)
                obs.append(Holds('equal modulo full turns', G.equal(a, a2)))
                obs.append(Holds('equal modulo full turns (2)', G.equal(a2, a)))
                obs.append(Holds('compatible (left)', G.equal(G.combine(c, a), G.combine(c, a2))))
                obs.append(Holds('compatible (right)', G.equal(G.combine(a, c), G.combine(a2, c))))
                d = (t - v) % TWO_PI
                far = Or(s != u, And(d >= 1e-6, d <= TWO_PI - 1e-6))
                obs.append(Implies('different elements are not equal', far, And(Not(ab), Not(G.equal(b, a)))))
        return obs
    return fn


def membership(mk):
    def fn(E):
        G = mk()
        obs = []
        N = getattr(G, 'rotation_order', None) or G.order()
        with E.run():
            if isinstance(G, (DihedralGroup, O2)):
                s = E.int('s', -2, 3)
                t = E.int('t', -3 * abs(N), 3 * abs(N)) if N > 0 else E.real('t', -10., 10.)
                got = G.is_element((s, t))
                want = And(s >= 0, s <= 1, True if N < 0 else And(t >= 0, t < N))
                obs.append(Holds('pairs', Iff(bool(got), want), str((s, t))))
                for x in (None, 'e', 0, (0,), (0, 0, 0), [0, 0], (None, 0), (0, None)):
                    obs.append(Holds(f'{x!r} is not an element', Not(G.is_element(x))))
                if N > 0:
                    obs.append(Holds('float rotation is not an element', Not(G.is_element((0, 0.5)))))
            elif N > 0:
                t = E.int('t', -3 * N, 3 * N)
                obs.append(Holds('integers', Iff(bool(G.is_element(t)), And(t >= 0, t < N)), str(t)))
                for x in (None, 'e', (0, 0), 0.5, [0]):
                    obs.append(Holds(f'{x!r} is not an element', Not(G.is_element(x))))
            else:
                t = E.real('t', -20., 20.)
                obs.append(Holds('reals', G.is_element(t)))
                for x in (None, 'e', (0, 0.), [0.]):
                    obs.append(Holds(f'{x!r} is not an element', Not(G.is_element(x))))
            obs.append(Holds('identity is an element', G.is_element(G.identity)))
        return obs
    return fn


def listing(mk):
    """every element is listed exactly once"""
    def fn(E):
        G = mk()
        g = element(E, G, 'g')
        with E.run():
            hits = [G.equal(g, x) for x in G.elements]
            n = [E_ite(h) for h in hits]
            obs = [Holds('listed exactly once', sum(n) == 1, str(g)), Holds('as many as the order', len(G.elements) == G.order() == order_of(G)),
                   Holds('listed elements are elements', And(*[G.is_element(x) for x in G.elements])), Holds('as many names', len(G.elements_names) == len(G.elements) == len(set(G.elements_names))),
                   Holds('first is the identity', G.equal(G.elements[0], G.identity))]
            t = list(G.testing_elements())
            obs.append(Holds('testing elements are elements', And(*[G.is_element(x) for x in t]) and len(t) > 0))
        return obs
    return fn


def E_ite(h):
    if isinstance(h, pe.SBool) or type(h) is pe.SBool:
        t = pe.z3.Int(f'b{len(pe.X.atoms)}')
        pe.X.solver.add(t == pe.z3.If(h.f, 1, 0))
        return pe.SNum({pe.X.atom(t, True): pe.Fraction(1)}, pe.Fraction(0), True)
    return 1 if h else 0


def testing(mk):
    def fn(E):
        G = mk()
        t = list(G.testing_elements())
        i = E.choose('i', t)
        with E.run():
            return [Holds('testing elements are elements', G.is_element(i)), Holds('non trivial', len(t) > 1), Holds('infinite', G.order() == -1 and G.elements is None)]
    return fn


def identity_of_groups(fams):
    """== on groups distinguishes exactly the groups"""
    def fn(E):
        a, b = E.choose('a', fams), E.choose('b', fams)
        A, B = a[1](), b[1]()
        return [Holds('groups are equal exactly when they are the same', bool(A == B) == (a[0] == b[0]), f'{a[0]} {b[0]}')]
    return fn


def cases(tier):
    top = 12 if tier == 'quick' else 36
    C = []
    L = [(f'C{n}', mkC(n)) for n in range(1, top + 1)] + [(f'D{n}', mkD(n)) for n in range(1, top + 1)] + [('SO2', mkSO2), ('O2', mkO2)]
    for n, mk in L:
        for nm, f in (('laws', laws), ('product', model), ('equality', equality), ('membership', membership)):
            C.append((f'{nm}-{n}', pe.case(f(mk)), 'custom'))
        if n not in ('SO2', 'O2'):
            C.append((f'listing-{n}', pe.case(listing(mk)), 'custom'))
        else:
            C.append((f'testing-{n}', pe.case(testing(mk)), 'custom'))
    C.append(('group-equality', pe.case(identity_of_groups(L[:4] + L[top:top + 4] + L[-2:])), 'custom'))
    C.append(('factories', pe.case(factories), 'custom'))
    return C


def factories(E):
    from e2cnn.group import cyclic_group, dihedral_group, so2_group, o2_group, trivial_group
    n = E.choose('n', list(range(1, 13)))
    m = E.choose('m', [0, 1, 3])
    c, d, s, o, t = cyclic_group(n), dihedral_group(n), so2_group(m), o2_group(m), trivial_group()
    return [Holds('cyclic', isinstance(c, CyclicGroup) and c.order() == n), Holds('dihedral', isinstance(d, DihedralGroup) and d.order() == 2 * n and d.rotation_order == n),
            Holds('so2', isinstance(s, SO2) and s.order() == -1 and all(f'irrep_{k}' in s.irreps for k in range(m + 1))), Holds('o2', isinstance(o, O2) and o.order() == -1 and all(f'irrep_1,{k}' in o.irreps for k in range(m + 1))),
            Holds('trivial', t.order() == 1 and t.identity == t.elements[0])]
