"""C06: steerable kernel bases satisfy the constraint at every point, for every element."""
from kcommon import *

INFO = dict(
    level='model_checking',
    technique='symbolic execution of basis.sample() on a symbolic point (polar coordinates) and of the representations on a symbolic group element; both sides become exact Fourier series in angle and element times monomials in the radial profile, z3 decides their equality; counterexamples replayed',
    functions=['R2FlipsSolution, R2DiscreteRotationsSolution, R2ContinuousRotationsSolution, R2FlipsDiscreteRotationsSolution, R2FlipsContinuousRotationsSolution (__init__, sample)', 'SteerableKernelBasis.sample, _change_of_basis', 'PolarBasis.sample, GaussianRadialProfile.sample', 'kernels_*_act_R2', 'build_kernel_basis of all spaces', 'Representation.__call__'],
    bounds='the origin and points with radius 1e-6..6 and any angle; all elements; rotation orders 2..6, 8 (thorough 2..12), SO(2), O(2) with irreps up to frequency 4; flip axes 0, pi/2, pi/4, pi/3, 0.7, -1.1; every ordered pair of irreps, regular, quotient, direct sums, orthogonal and non orthogonal bases; frequency cut-offs up to 5 and offsets up to 2; up to three rings',
    outside='larger orders and frequencies; floating point rounding below 1e-6; points closer than 1e-6 to the origin other than the origin itself',
    assumptions=['numpy cos/sin/exp/sqrt/arctan2 compute the exact functions up to rounding'],
)


def constraint(mk, a, b, rings, sigma, **lim):
    def fn(E):
        gs = mk()
        G = gs.fibergroup
        ri, ro = rep(gs, a), rep(gs, b)
        try:
            B = gs.build_kernel_basis(ri, ro, sigma, rings, **lim)
        except EmptyBasisException:
            return [Holds('empty basis', True)]
        g = element(E, G, 'g')
        r, p = point(E)
        with E.run():
            q = move(gs, g, p)
            x = cartesian([r], [p])
            y = cartesian([r], [q])
            K, Kg = B.sample(x), B.sample(y)
            P, Q = np.asarray(ro(g)), np.asarray(ri(G.inverse(g)))
            obs = [Holds('shape', K.shape == (ro.size, ri.size, B.dim, 1), str(K.shape))]
            W = np.einsum('ij,jkbp,kl->ilbp', P, np.asarray(K), Q) if not E.symbolic else mul(P, K, Q)
            if B.dim * ro.size * ri.size <= 64:
                o = np.zeros((2, 1))
                xs = np.concatenate([x, o, y], 1)
                keep = xs.copy()
                both = B.sample(xs)
                obs.append(Same('points are sampled one by one', both, np.concatenate([K, B.sample(o), Kg], -1)))
                obs.append(Same('points are not modified', xs, keep))
                mask = np.array([(i * 7 + 3) % 3 != 0 for i in range(B.dim)])
                obs.append(Same('masked sampling selects elements', B.sample_masked(x, mask), K[:, :, mask]))
            obs.append(Same('K(gx) = out(g) K(x) in(g)^-1', Kg, W))
        return obs
    return fn


def mul(P, K, Q):
    o = np.empty((P.shape[0], Q.shape[1]) + K.shape[2:], dtype=object)
    for b in range(K.shape[2]):
        for p in range(K.shape[3]):
            o[:, :, b, p] = P @ K[:, :, b, p] @ Q
    return o


def limits(tier):
    base = [dict(maximum_frequency=0), dict(maximum_frequency=3), dict(maximum_offset=1), dict(maximum_frequency=4, maximum_offset=1)]
    if tier != 'quick':
        base += [dict(maximum_frequency=f) for f in (1, 2, 5)] + [dict(maximum_offset=o) for o in (0, 2)] + [dict(maximum_frequency=5, maximum_offset=0), dict(maximum_frequency=6, maximum_offset=2)]
    return base


def spaces(tier):
    big = tier != 'quick'
    out = [('trivial', T)]
    for l, a in AX:
        out.append((f'flip({l})', F(a)))
    for n in (list(range(2, 13)) if big else [2, 3, 4, 5, 6, 8]):
        out.append((f'C{n}', R(n)))
    out.append(('SO2', R(-1)))
    for n in (list(range(2, 10)) if big else [2, 3, 4, 6]):
        out.append((f'D{n}', FR(n)))
    for l, a in AX:
        if l != 'pi/2':
            for n in ((2, 3, 4, 5) if big else (3, 4)):
                out.append((f'D{n}({l})', FR(n, a)))
    out.append(('O2', FR(-1)))
    for l, a in AX:
        if l != 'pi/2':
            out.append((f'O2({l})', FR(-1, a)))
    return out


def cases(tier):
    cs = []
    big = tier != 'quick'
    R1, S1 = [1.0], [0.6]
    R3, S3 = [0.0, 1.0, 2.5], [0.5, 0.6, 0.8]
    add = lambda nm, f: cs.append((nm, pe.case(f), 'custom'))
    for lab, mk in spaces(tier):
        gs = mk()
        G = gs.fibergroup
        cont = G.order() < 0
        lims = [dict()] if cont else limits(tier)
        irr = ['irr:' + n for n in G.irreps]
        k = 0
        for a in irr:
            for b in irr:
                k += 1
                for i, l in enumerate(lims if big else [lims[k % len(lims)], lims[(k + 1) % len(lims)]] if not cont else lims):
                    add(f'{lab} {a[4:]}->{b[4:]} {lname(l)}', constraint(mk, a, b, *((R3, S3) if (k + i) % 5 == 0 else (R1, S1)), **l))
        pairs = [('sum', 'orth'), ('orth', 'general'), ('general', 'sum'), ('general', irr[0]), (irr[-1], 'general'), ('orth', 'orth')]
        if not cont and G.order() <= (12 if big else 8):
            pairs += [('regular', 'regular'), ('regular', irr[-1]), (irr[-1], 'regular'), ('general', 'regular')]
            qs = list(quotients(G))
            for q in (qs if big else qs[:2]):
                pairs += [(q, 'regular'), (irr[-1], q), (q, q)]
        if not big and '(' in lab:
            pairs = pairs[1:4]
        for i, (a, b) in enumerate(pairs):
            ls = [dict()] if cont else ([dict(maximum_frequency=2), dict(maximum_offset=1)] if big else [[dict(maximum_frequency=2), dict(maximum_offset=1)][i % 2]])
            if not cont and G.order() > 6:
                ls = [dict(maximum_frequency=1), dict(maximum_offset=0)] if big else [dict(maximum_frequency=1)]
            for l in ls:
                add(f'{lab} {a}->{b} {lname(l)}', constraint(mk, a, b, *((R3, S3) if i == 0 else (R1, S1)), **l))
    return cs


def lname(l):
    return ','.join(k.replace('maximum_', 'max_') + '=' + str(v) for k, v in l.items())
