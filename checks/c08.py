"""C08: differential operator bases: equivariant symbols, independent and complete, exact stencils."""
from kcommon import *
from c06 import lname, mul
import c07
from c07 import independent, complete, unknown_kernel, adapted, np_space, rank
from e2cnn.diffops import DiscretizationArgs
from e2cnn.diffops import utils as du

INFO = dict(
    level='model_checking',
    technique='the polynomial symbols of every operator are evaluated at a symbolic point and the representations executed on a symbolic element (exact trigonometric polynomials), z3 decides the constraint; linear independence and completeness are LRA queries over all coefficients; the sampled stencils are applied to polynomials with symbolic coefficients and z3 decides exactness for all of them; transform_polynomial is executed on a symbolic rotation; counterexamples replayed',
    functions=['diffops R2FlipsSolution, R2DiscreteRotationsSolution, R2ContinuousRotationsSolution, R2FlipsDiscreteRotationsSolution, R2FlipsContinuousRotationsSolution', 'SteerableDiffopBasis, TensorBasis, LaplaceProfile, DiffopBasis.sample/sample_masked', 'diffops_*_act_R2, build_diffop_basis', 'transform_polynomial, multiply_polynomials, expand_binomial, homogenized_cheby, laplacian_power, eval_polys', 'discretize_homogeneous_polynomial, discretize_1d/2d_monomial, fd_weights', 'required_points, largest_possible_order, guaranteed_accuracy, symmetric_points'],
    bounds='rotation orders 2..6, 8 (thorough 2..10), SO(2)/O(2) irreps up to frequency 3, six flip axes; every ordered pair of irreps, direct sums, regular representations (up to 8 elements), orthogonal and non orthogonal bases; frequency cut-offs up to 4, offsets up to 1, Laplacian powers up to 2; stencils of 2..7 points per axis with dilations 1, 2, 3; polynomials of every degree the stencil has to reproduce',
    outside='RBF and Gaussian discretisations (the optional package rbf is not installed); larger orders; rounding below 1e-6',
    assumptions=['sympy.finite_diff_weights and numpy compute exactly up to rounding'],
)


def build(gs, a, b, power, lim, disc=None):
    ri, ro = rep(gs, a), rep(gs, b)
    try:
        return ri, ro, gs.build_diffop_basis(ri, ro, power, disc or DiscretizationArgs(), **lim)
    except EmptyBasisException:
        return ri, ro, None


def symbol(co, x, y, shape):
    """matrix symbols at the point (x, y): array (out, in, dim, 1)"""
    K = np.zeros(shape + (len(co), 1), dtype=object)
    pw = {}

    def mono(n, k):
        if (n, k) not in pw:
            pw[n, k] = x ** (n - k) * y ** k
        return pw[n, k]
    for b, c in enumerate(co):
        n = c.shape[-1] - 1
        for i in range(shape[0]):
            for j in range(shape[1]):
                t = 0.0
                for k in range(n + 1):
                    if c[i, j, k] != 0:
                        t = t + float(c[i, j, k]) * mono(n, k)
                K[i, j, b, 0] = t
    return K


def constraint(mk, a, b, power, **lim):
    def fn(E):
        gs = mk()
        G = gs.fibergroup
        ri, ro, B = build(gs, a, b, power, lim)
        if B is None:
            return [Holds('empty basis', True)]
        g = element(E, G, 'g')
        r, p = E.real('x.r', 0.5, 2.0), E.real('x.phi', -math.pi, math.pi)
        with E.run():
            q = move(gs, g, p)
            sh = (ro.size, ri.size)
            K = symbol(B.coefficients, r * np.cos(p), r * np.sin(p), sh)
            Kg = symbol(B.coefficients, r * np.cos(q), r * np.sin(q), sh)
            obs = [Holds('shape', tuple(B.shape) == sh and all(c.shape[:2] == sh for c in B.coefficients) and len(B.coefficients) == B.dim)]
            obs.append(Same('P(gx) = out(g) P(x) in(g)^-1', Kg, mul(np.asarray(ro(g)), K, np.asarray(ri(G.inverse(g)))), 1e-5))
        return obs
    return fn


def harmonics(c):
    """Fourier coefficients on the unit circle of a homogeneous polynomial: dict frequency -> (cos, sin)"""
    n = len(c) - 1
    N = 2 * n + 4
    ph = np.arange(N) * TWO_PI / N
    v = sum(float(c[k]) * np.cos(ph) ** (n - k) * np.sin(ph) ** k for k in range(n + 1))
    return {w: ((v * np.cos(w * ph)).mean() * (1 if w == 0 else 2), (v * np.sin(w * ph)).mean() * (0 if w == 0 else 2)) for w in range(n + 1)}


def basis(mk, a, b, power, **lim):
    def fn(E):
        gs = mk()
        G = gs.fibergroup
        ri, ro, B = build(gs, a, b, power, lim)
        obs = []
        M = lim.get('maximum_frequency')
        if G.order() < 0:
            fr = lambda r: max(G.irreps[i].attributes['frequency'] for i in r.irreps)
            M = fr(ri) + fr(ro) + 1
        off = 'maximum_offset' in lim
        at = [B[i] for i in range(B.dim)] if B is not None else []
        # coordinates of an operator: (out, in, order of the homogeneous polynomial, frequency, part)
        co = []
        for c in B.coefficients if B is not None else []:
            d = {}
            for i in range(ro.size):
                for j in range(ri.size):
                    for w, (u, v) in harmonics(c[i, j]).items():
                        for part, val in (('c', u), ('s', v)):
                            if abs(val) > 1e-9:
                                d[i, j, c.shape[-1] - 1, w, part] = val
            co.append(d)
        if B is not None:
            it = list(B)
            obs.append(Holds('iteration lists the elements', len(it) == B.dim == len(B) and all(set(x) == set(y) and all(np.all(np.asarray(x[k] == y[k])) for k in x) for x, y in zip(it, at))))
            for i, (t, d) in enumerate(zip(at, co)):
                obs.append(Holds('order attribute', {k[2] for k in d} == {t['order']} and t['order'] == abs(t['frequency']) + 2 * t['power'], str(t)))
                obs.append(Holds('frequency attribute', {k[3] for k in d} == {abs(t['frequency'])}, str(t)))
                obs.append(Holds('irrep attributes', t['idx'] == i and t['in_irrep'] == ri.irreps[t['in_irrep_idx']] and t['out_irrep'] == ro.irreps[t['out_irrep_idx']], str(t)))
            obs.append(Holds('maximum order', B.maximum_order == max(t['order'] for t in at)))
            obs.append(Holds('powers', {t['power'] for t in at} == set(range(power + 1))))
            if M is not None:
                obs.append(Holds('frequencies within the limit', max(abs(t['frequency']) for t in at) <= M))
        if E.symbolic:
            ca = adapted([{(k[0], k[1], k[2], k[3], k[4]): v for k, v in d.items()} for d in co], ri, ro)
            if B is not None:
                obs.append(Holds('independent', independent(ca)))
            if M is not None and not off:
                A, eqs = unknown_kernel(E, gs, ri, ro, M)
                for pw in range(power + 1):
                    obs.append(Holds('complete', complete(A, eqs, [d for d, t in zip(ca, at) if t['power'] == pw])))
        else:
            if B is not None:
                keys = sorted({k for d in co for k in d}, key=str)
                v = np.array([[d.get(k, 0.) for k in keys] for d in co])
                obs.append(Holds('independent', rank(v) == B.dim, f'{B.dim} elements, rank {rank(v)}'))
            if M is not None and not off:
                S = np_space(gs, ri, ro, M)
                obs.append(Holds('complete', (B.dim if B is not None else 0) == len(S) * (power + 1), f'{B.dim if B is not None else 0} operators, {len(S)} solutions'))
        return obs
    return fn


def grid(n, dil=1):
    o = dil * (n - 1) / 2
    return np.array([(x * dil - o, o - y * dil) for y in range(n) for x in range(n)]).T


def stencil(mk, a, b, power, n, dil, angle_offset=None, **lim):
    """the sampled filters differentiate polynomials exactly"""
    def fn(E):
        gs = mk()
        disc = DiscretizationArgs(angle_offset=angle_offset)
        ri, ro, B = build(gs, a, b, power, lim, disc)
        if B is None or B.maximum_order > n - 1:
            return [Holds('no operator fits', True)]
        pts = grid(n, dil)
        W = B.sample(pts)
        # degree n - 1 in each variable; coefficients scaled so that every monomial is at most 1 on the grid
        s = max(1e-9, np.abs(pts).max())
        A = {(i, j): E.real(f'a{i},{j}', -1.0, 1.0) for i in range(n) for j in range(n)}
        coeffs = B.coefficients
        if angle_offset is not None:
            coeffs = [rotated(c, angle_offset) for c in coeffs]
        obs = [Holds('shape', W.shape == (ro.size, ri.size, B.dim, n * n), str(W.shape))]
        with E.run():
            R = np.zeros((ro.size, ri.size, B.dim), dtype=object)
            for o in range(ro.size):
                for i in range(ri.size):
                    for k in range(B.dim):
                        c = coeffs[k][o, i]
                        d = len(c) - 1
                        t = 0.0
                        for (u, v), coef in A.items():
                            got = float((W[o, i, k] * (pts[0] / s) ** u * (pts[1] / s) ** v).sum())
                            want = float(c[v]) * math.factorial(u) * math.factorial(v) / s ** (u + v) if u + v == d else 0.0
                            if got != want:
                                t = t + (got - want) * coef
                        R[o, i, k] = t
            obs.append(Zero('exact derivative of every polynomial', R))
            mask = np.array([(k * 5 + 1) % 3 != 0 for k in range(B.dim)])
            if mask.any():
                obs.append(Same('masked sampling selects elements', B.sample_masked(pts, mask), W[:, :, mask]))
        return obs
    return fn


def rotated(c, al):
    """coefficients of the operator rotated counter clockwise: P(R(-al) x), by interpolation on the circle"""
    n = c.shape[-1] - 1
    N = 2 * n + 4
    ph = np.arange(N) * TWO_PI / N
    mono = lambda a: np.stack([np.cos(a) ** (n - k) * np.sin(a) ** k for k in range(n + 1)], -1)
    v = np.asarray(c, dtype=float) @ mono(ph - al).T
    return v @ np.linalg.pinv(mono(ph)).T


def transform(n, batch, seed):
    """transform_polynomial by a rotation, executed on a symbolic angle"""
    def fn(E):
        c = np.random.RandomState(seed).randint(-3, 4, batch + (n + 1,)).astype(float)
        t, p = E.real('t', -math.pi, math.pi), E.real('p', -math.pi, math.pi)
        with E.run():
            m = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
            T = np.asarray(du.transform_polynomial(c, m))
            x, y = np.cos(p), np.sin(p)
            X, Y = np.cos(p - t), np.sin(p - t)
            ev = lambda cc, u, v: sum((cc[..., k] * (u ** (n - k) * v ** k) for k in range(n + 1)), 0.0)
            obs = [Holds('shape', T.shape == c.shape, str(T.shape)), Same('rotated polynomial', ev(T, x, y), ev(c, X, Y))]
            u = E.real('u', -2.0, 2.0)
            pts = np.array([[x, 1.0], [y, u]], dtype=object)
            V = du.eval_polys([c], pts if E.symbolic else pts.astype(float))
            obs.append(Same('eval_polys', V[0], np.stack([ev(c, x, y) + np.zeros(batch), ev(c, 1.0, u) + np.zeros(batch)], -1)))
        return obs
    return fn


def algebra(n, m):
    """products of polynomials with symbolic coefficients"""
    def fn(E):
        a = np.array([E.real(f'a{i}', -2.0, 2.0) for i in range(n)], dtype=object)
        b = np.array([E.real(f'b{i}', -2.0, 2.0) for i in range(m)], dtype=object)
        x = E.real('x', -1.0, 1.0)
        if not E.symbolic:
            a, b = a.astype(float), b.astype(float)
        else:
            a, b = (np.array([pe.Trig.of(v) for v in w], dtype=object) for w in (a, b))
        with E.run():
            p = du.multiply_polynomials(a, b)
            obs = [Holds('length', len(p) == n + m - 1)]
            T = lambda v: pe.Trig.of(v) if E.symbolic else v
            ev = lambda c: sum((T(c[k]) * T(x) ** k for k in range(len(c))), 0.0)
            obs.append(Same('product', ev(p), T(ev(a)) * T(ev(b))))
        return obs
    return fn


def accuracy(E):
    o, a, k = E.int('order', 0, 30), E.int('accuracy', 1, 30), E.int('points', 1, 60)
    with E.run():
        n = du.required_points(o, a)
        obs = [Holds('required points give the accuracy', du.guaranteed_accuracy(n, o) >= a), Holds('more points than the order', n >= o + 1)]
        if n - 1 >= o + 1:
            obs.append(Holds('one point less does not', du.guaranteed_accuracy(n - 1, o) < a))
        if k >= a:
            m = du.largest_possible_order(k, a)
            obs.append(Holds('largest order has the accuracy', du.guaranteed_accuracy(k, m) >= a))
            obs.append(Holds('the next order does not', du.required_points(m + 1, a) > k))
    return obs


def boosted(n, dil):
    """one dimensional stencils on symmetric points reach the guaranteed accuracy, for polynomials with symbolic coefficients"""
    def fn(E):
        pts = du.symmetric_points(n, dil)
        obs = [Holds('points', len(pts) == n and np.allclose(pts, [(i - (n - 1) / 2) * dil for i in range(n)]))]
        s = max(abs(p) for p in pts) or 1.
        for o in range(n):
            w = du.discretize_1d_monomial(o, pts)
            deg = o + du.guaranteed_accuracy(n, o) - 1
            A = [E.real(f'a{i}', -1.0, 1.0) for i in range(deg + 1)]
            with E.run():
                t = 0.0
                for i, c in enumerate(A):
                    got = float(sum(float(x) * (p / s) ** i for x, p in zip(w, pts)))
                    t = t + (got - (math.factorial(o) / s ** o if i == o else 0.)) * c
                obs.append(Zero(f'derivative {o}', t))
        return obs
    return fn


def spaces(tier):
    big = tier != 'quick'
    sp = [('trivial', T)] + [(f'flip({l})', F(a)) for l, a in AX]
    sp += [(f'C{n}', R(n)) for n in (range(2, 11) if big else (2, 3, 4, 5, 6, 8))] + [('SO2', R(-1, 3))]
    sp += [(f'D{n}', FR(n)) for n in (range(2, 9) if big else (2, 3, 4, 6))]
    sp += [(f'D{n}({l})', FR(n, a)) for l, a in AX if l != 'pi/2' for n in ((2, 3, 4, 6) if big else (3, 4))]
    sp += [('O2', FR(-1, f=3)), ('O2(0.7)', FR(-1, .7, 3)), ('O2(0)', FR(-1, 0., 3)), ('O2(pi/3)', FR(-1, math.pi / 3, 3))]
    return sp


def cases(tier):
    big = tier != 'quick'
    cs = []
    add = lambda nm, f, **k: cs.append((nm, pe.case(f, samples=1, **k), 'custom'))
    add('accuracy arithmetic', accuracy)
    for n in range(1, 8 if not big else 10):
        for d in (1, 2, 3):
            add(f'1d stencils {n} points dilation {d}', boosted(n, d))
    for n in range(0, 7 if not big else 9):
        add(f'transform degree {n}', transform(n, (), n + 1))
        add(f'transform degree {n} batch', transform(n, (2, 1), n + 2))
    for n in range(1, 5):
        for m in range(1, 5):
            add(f'product {n}x{m}', algebra(n, m))
    for lab, mk in spaces(tier):
        gs = mk()
        G = gs.fibergroup
        cont = G.order() < 0
        irr = ['irr:' + n for n in G.irreps]
        lims = [dict()] if cont else [dict(maximum_frequency=f) for f in ((0, 1, 2, 3, 4) if big else (1, 3, 2))]
        offs = [] if cont else [dict(maximum_offset=o) for o in (0, 1)] + [dict(maximum_frequency=3, maximum_offset=1)]
        k = 0
        for a in irr:
            for b in irr:
                k += 1
                pick = lims + offs if big else lims if cont else [lims[k % 3], offs[k % 3]]
                for l in pick:
                    pw = k % 3
                    nm = f'{lab} {a[4:]}->{b[4:]} power {pw} {lname(l)}'
                    add(nm + ' constraint', constraint(mk, a, b, pw, **l))
                    add(nm + ' basis', basis(mk, a, b, pw, **l))
                    if k % (1 if big else 3) == 0:
                        for n, dil, al in ((5, 1, None), (6, 2, None), (5, 3, .6), (7, 1, None))[k % 2:4 if big else k % 2 + 2]:
                            add(nm + f' stencil {n} dilation {dil} offset {al}', stencil(mk, a, b, pw, n, dil, al, **l))
        pairs = [('sum', 'orth'), ('general', 'sum'), ('orth', 'general'), (irr[-1], 'general')]
        if not cont and G.order() <= 8:
            pairs += [('regular', 'regular'), ('regular', irr[-1])]
        if '(' in lab and not big:
            pairs = pairs[1:3]
        for i, (a, b) in enumerate(pairs):
            l = {} if cont else dict(maximum_frequency=2 if i % 2 else 1)
            add(f'{lab} {a}->{b} {lname(l)} constraint', constraint(mk, a, b, 1, **l))
            add(f'{lab} {a}->{b} {lname(l)} basis', basis(mk, a, b, 1, **l))
            if i == 1:
                add(f'{lab} {a}->{b} {lname(l)} stencil', stencil(mk, a, b, 0, 5, 1, **l))
    return cs
