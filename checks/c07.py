"""C07: kernel bases are linearly independent and complete; their attributes describe the elements."""
from kcommon import *
from c06 import lname
import z3
import time

INFO = dict(
    level='model_checking',
    technique='the basis is executed at a symbolic point, giving the exact Fourier coefficients of every element; z3 (linear real arithmetic) decides over all real combination coefficients that none makes a vanishing combination, and over all kernels up to the frequency limit (unknown Fourier coefficients, constraint built by executing the representations on a symbolic element) that none satisfies the constraint while being orthogonal to the basis; counterexamples replayed numerically',
    functions=['the five R2*Solution classes (__init__, sample, __getitem__)', 'offset_iterator', 'SteerableKernelBasis (sample, __getitem__, __iter__)', 'PolarBasis (sample, __getitem__, __iter__)', 'GaussianRadialProfile', 'kernels_*_act_R2, build_kernel_basis'],
    bounds='rotation orders 2..6, 8 (thorough 2..10), SO(2)/O(2) irreps up to frequency 4, flip axes 0, pi/2, pi/4, pi/3, 0.7, -1.1; every ordered pair of irreps, direct sums and non trivial bases of size up to 5, regular representations of up to 8 (thorough 12) elements; cut-offs up to 5, offsets up to 2; linear combinations with coefficients in [-1, 1], tolerance 1e-4',
    outside='larger orders and representations; rings with identical radius and width (then the profiles themselves coincide); independence of distinct Gaussian profiles is a mathematical fact that is assumed',
    assumptions=['distinct Gaussian profiles and distinct circular harmonics are linearly independent functions'],
)
TOLC = 1e-4


def q(x):
    return z3.Q(round(float(x) * 2 ** 20), 2 ** 20)


def ask(cons, timeout=60000):
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.add(cons)
    t0 = time.time()
    r = s.check()
    pe.ST.solver_s += time.time() - t0
    pe.ST.queries += 1
    if r == z3.unsat:
        pe.ST.unsat += 1
    elif r == z3.sat:
        pe.ST.sat += 1
    else:
        pe.ST.unknown += 1
        raise pe.Unsupported('solver gave up')
    return r == z3.unsat


def small(t, tol=TOLC):
    return [t <= q(tol), t >= q(-tol)]


# --------------------------------------------------- coefficients of the elements
def coefficients(E, B):
    """list (one per element) of dicts (i, j, ring atom, frequency, part) -> real coefficient"""
    r, p = E.real('x.r', 1e-6, 6.0), E.real('x.phi', -math.pi, math.pi)
    with E.run():
        K = B.sample(cartesian([r], [p]))
    pa = next(iter(p.lin))
    out = []
    for b in range(B.dim):
        d = {}
        for i in range(K.shape[0]):
            for j in range(K.shape[1]):
                v = K[i, j, b, 0]
                for (f, m), c in pe.Trig.of(v).d.items():
                    fr = dict(f)
                    w = fr.pop(pa, 0)
                    if fr or w % pe.DR:
                        raise pe.Unsupported(f'unexpected term {f}')
                    w = w // pe.DR
                    # sum of c e^{iwp} over +-w: real part 2Re c cos(wp) - 2 Im c sin(wp)
                    if w < 0:
                        continue
                    s = 1 if w == 0 else 2
                    for part, val in (('c', s * c.real), ('s', -s * c.imag)):
                        if abs(val) > 1e-11:
                            d[i, j, m, w, part] = val
        out.append(d)
    return out


def numeric(B, ring_r, M, n=None):
    """Fourier coefficients of the elements at a given radius, from the real code: array (dim, o, i, M+1, 2)"""
    n = n or 4 * (M + 3)
    ph = np.arange(n) * TWO_PI / n
    K = np.asarray(B.sample(np.stack([ring_r * np.cos(ph), ring_r * np.sin(ph)])), dtype=float)
    o = np.zeros((B.dim, K.shape[0], K.shape[1], M + 1, 2))
    for w in range(M + 1):
        s = 1 if w == 0 else 2
        o[..., w, 0] = (K * np.cos(w * ph)).mean(-1).transpose(2, 0, 1) * s
        o[..., w, 1] = (K * np.sin(w * ph)).mean(-1).transpose(2, 0, 1) * s
    return o


def only_zero(rows, names, tol=TOLC):
    """z3: no x with |x| <= 1 and some x = 1 makes every row (dict name -> coefficient) vanish; decided per connected component"""
    par = {n: n for n in names}

    def find(n):
        while par[n] != n:
            par[n] = par[par[n]]
            n = par[n]
        return n
    for r in rows:
        ks = list(r)
        for k in ks[1:]:
            par[find(k)] = find(ks[0])
    comp = {}
    for n in names:
        comp.setdefault(find(n), ([], []))[0].append(n)
    for r in rows:
        if r:
            comp[find(next(iter(r)))][1].append(r)
    for ns, rs in comp.values():
        x = {n: z3.Real('x' + str(i)) for i, n in enumerate(ns)}
        cons = [z3.And(v <= 1, v >= -1) for v in x.values()]
        seen = set()
        for r in rs:
            m = max(abs(v) for v in r.values())
            k = tuple(sorted((str(n), round(v / m, 10)) for n, v in r.items() if abs(v / m) > 1e-10))
            if k in seen or m < 1e-10:
                continue
            seen.add(k)
            cons += small(z3.Sum([q(v / m) * x[n] for n, v in r.items() if abs(v / m) > 1e-10]), tol)
        if not ask(cons + [z3.Or([v == 1 for v in x.values()])]):
            return False
    return True


def adapted(co, ri, ro):
    """coordinates B^-1 K A: an invertible change of the unknowns which keeps the linear systems sparse"""
    A, B = np.asarray(ri.change_of_basis, dtype=float), np.linalg.inv(np.asarray(ro.change_of_basis, dtype=float))
    out = []
    for d in co:
        mats = {}
        for k, v in d.items():
            mats.setdefault(k[2:], np.zeros((ro.size, ri.size)))[k[0], k[1]] = v
        e = {}
        for key, m in mats.items():
            m = B @ m @ A
            for i, j in zip(*np.nonzero(np.abs(m) > 1e-10)):
                e[(int(i), int(j)) + key] = m[i, j]
        out.append(e)
    return out


def independent(co):
    rows = {}
    for b, d in enumerate(co):
        for k, v in d.items():
            rows.setdefault(k, {})[b] = v
    return only_zero(list(rows.values()), list(range(len(co))))


def spans(co, target):
    """every target (dict) is a combination of co: no vector is orthogonal to co and not to the target"""
    keys = sorted({k for d in co + [target] for k in d}, key=str)
    y = {k: z3.Real(f'y{i}') for i, k in enumerate(keys)}
    cons = [z3.And(v <= 1, v >= -1) for v in y.values()]
    for d in co:
        cons += small(z3.Sum([q(v) * y[k] for k, v in d.items()] + [z3.RealVal(0)]))
    t = z3.Sum([q(v) * y[k] for k, v in target.items()] + [z3.RealVal(0)])
    return ask(cons + [z3.Or(t >= q(1e-2), t <= q(-1e-2))])


def unknown_kernel(E, gs, ri, ro, M):
    """unknowns A[i,j,w,part] and the linear equations of the constraint, from the code on a symbolic element"""
    X = pe.X
    A = {}
    for i in range(ro.size):
        for j in range(ri.size):
            for w in range(M + 1):
                for part in 'cs' if w else 'c':
                    A[i, j, w, part] = E.real(f'A{i},{j},{w},{part}', -1.0, 1.0)
    ci, co_ = np.asarray(ri.change_of_basis, dtype=float), np.asarray(ro.change_of_basis, dtype=float)
    ii, io = np.linalg.inv(ci), np.linalg.inv(co_)
    inv = {next(iter(v.lin)): k for k, v in A.items()}
    G = gs.fibergroup
    p = E.real('x.phi', -math.pi, math.pi)
    eqs = []
    refl = (0, 1) if isinstance(G, (DihedralGroup, O2)) else (None,)
    t = element(E, G, 'g') if refl == (None,) else (E.int('g.t', 0, G.rotation_order - 1) if isinstance(G, DihedralGroup) else E.real('g.t', -ANG, ANG))

    def kernel(ph):
        K = np.empty((ro.size, ri.size), dtype=object)
        for i in range(ro.size):
            for j in range(ri.size):
                K[i, j] = sum((A[i, j, w, 'c'] * np.cos(w * ph) + A[i, j, w, 's'] * np.sin(w * ph) for w in range(1, M + 1)), A[i, j, 0, 'c'] * 1.0)
        return K
    for s in refl:
        g = t if s is None else (s, t)
        with E.run():
            gg = [g]
            if isinstance(gs, gspaces.Flip2dOnR2):
                gg = [0, 1]
            elif isinstance(gs, gspaces.TrivialOnR2):
                gg = [0]
            for h in gg:
                D = kernel(move(gs, h, p)) - clean(io @ np.asarray(ro(h)) @ co_) @ kernel(p) @ clean(ii @ np.asarray(ri(G.inverse(h))) @ ci)
                for v in D.flat:
                    rows = {}
                    for (f, m), c in pe.Trig.of(v).d.items():
                        mm = [a for a, _ in m if a in inv]
                        if len(mm) != 1 or len(m) != 1:
                            raise pe.Unsupported('nonlinear constraint')
                        rows.setdefault(f, []).append((inv[mm[0]], c))
                    eqs += [r for r in rows.values()]
    return A, eqs


def clean(m):
    m = np.asarray(m, dtype=object).copy()
    for i in np.ndindex(m.shape):
        v = m[i]
        if pe.isnum(v):
            m[i] = 0.0 if abs(v) < 1e-10 else v
        elif type(v) is pe.Trig:
            m[i] = pe.Trig.norm({k: c for k, c in v.d.items() if abs(c) > 1e-10})
    return m


def complete(A, eqs, co):
    rows = []
    for r in eqs:
        for part in ('real', 'imag'):
            d = {}
            for k, c in r:
                v = getattr(c, part)
                if abs(v) > 1e-11:
                    d[k] = d.get(k, 0) + v
            rows.append({k: v for k, v in d.items() if abs(v) > 1e-11})
    for d in co:
        # orthogonality on the circle: cos and sin of w > 0 have norm 1/2
        rows.append({(k[0], k[1], k[3], k[4]): v * (1. if k[3] == 0 else .5) for k, v in d.items()})
    return only_zero([r for r in rows if r], list(A))


def np_space(gs, ri, ro, M):
    """numerical solution space of the constraint (replay): rows span it, in the coordinates of numeric()"""
    G = gs.fibergroup
    n = ro.size * ri.size * (M + 1) * 2
    els = list(G.elements) if G.order() > 0 else ([(s, t) for s in (0, 1) for t in (0., .731, 2.113)] if isinstance(G, O2) else [.731, 2.113])
    ph = np.arange(4 * M + 9) * TWO_PI / (4 * M + 9)
    rows = []
    for g in els:
        P, Q = np.asarray(ro(g), dtype=float), np.asarray(ri(G.inverse(g)), dtype=float)
        q_ = np.array([move(gs, g, t) for t in ph])
        f = lambda a: np.stack([np.stack([np.cos(w * a), np.sin(w * a)], -1) for w in range(M + 1)], 1)     # p, w, 2
        L = np.einsum('ai,bj,pwk->abpijwk', np.eye(ro.size), np.eye(ri.size), f(q_)) - np.einsum('ai,jb,pwk->abpijwk', P, Q, f(ph))
        rows.append(L.reshape(-1, n))
    L = np.concatenate(rows)
    z = np.zeros((ro.size, ri.size, M + 1, 2), bool)
    z[:, :, 0, 1] = True      # sin(0) does not exist
    L = np.concatenate([L, np.eye(n)[z.reshape(-1)]])
    u, s, vt = np.linalg.svd(L, full_matrices=True)
    rank = (s > 1e-8).sum()
    return vt[rank:]


def rank(v):
    return int(np.linalg.matrix_rank(v, tol=1e-6)) if len(v) else 0


def build(gs, a, b, rings, sigma, lim):
    ri, ro = rep(gs, a), rep(gs, b)
    try:
        return ri, ro, gs.build_kernel_basis(ri, ro, sigma, rings, **lim)
    except EmptyBasisException:
        return ri, ro, None


def basis(mk, a, b, rings, sigma, **lim):
    def fn(E):
        gs = mk()
        G = gs.fibergroup
        ri, ro, B = build(gs, a, b, rings, sigma, lim)
        obs = []
        M = lim.get('maximum_frequency')
        if G.order() < 0:
            fr = lambda r: max(G.irreps[i].attributes['frequency'] for i in r.irreps)
            M = fr(ri) + fr(ro) + 1
        off = 'maximum_offset' in lim
        if E.symbolic:
            co = coefficients(E, B) if B is not None else []
            ca = adapted(co, ri, ro)
            if B is not None:
                obs.append(Holds('independent', independent(ca)))
                if M is not None:
                    obs.append(Holds('frequencies within the limit', max([k[3] for d in co for k in d], default=0) <= M))
            if M is not None and not off:
                A, eqs = unknown_kernel(E, gs, ri, ro, M)
                atoms = sorted({k[2] for d in co for k in d}, key=str)
                obs.append(Holds('one profile per ring', B is None or len(atoms) == len(rings), str(len(atoms))))
                for at in atoms or [None]:
                    obs.append(Holds('complete', complete(A, eqs, [d for d in ca if at in {k[2] for k in d}])))
        else:
            MM = M if M is not None else 40
            if B is not None:
                v = np.concatenate([numeric(B, r, MM + 3).reshape(B.dim, -1) for r in sorted(set([.3, 1., 2.2, 3.7, 5.1] + rings))], 1)
                obs.append(Holds('independent', rank(v) == B.dim, f'{B.dim} elements, rank {rank(v)}'))
                if M is not None:
                    obs.append(Holds('frequencies within the limit', np.abs(numeric(B, 1.0, M + 6)[..., M + 1:, :]).max() < 1e-6))
            if M is not None and not off:
                S = np_space(gs, ri, ro, M)
                n = B.dim if B is not None else 0
                obs.append(Holds('complete', n == len(S) * len(rings), f'{n} elements, {len(rings)} rings, {len(S)} solutions'))
        if B is not None:
            obs += attributes(E, gs, ri, ro, B, co if E.symbolic else None)
        return obs
    return fn


def attributes(E, gs, ri, ro, B, co):
    obs = []
    G = gs.fibergroup
    it = list(B)
    same = lambda x, y: set(x) == set(y) and all(np.all(np.asarray(x[k] == y[k])) for k in x)
    obs.append(Holds('iteration lists the elements', len(it) == B.dim == len(B) and all(same(B[i], it[i]) for i in range(B.dim))))
    Ai, Bi = np.asarray(ri.change_of_basis, dtype=float), np.asarray(ro.change_of_basis_inv, dtype=float)
    po = np.cumsum([0] + [G.irreps[n].size for n in ro.irreps])
    pi = np.cumsum([0] + [G.irreps[n].size for n in ri.irreps])
    for b in range(B.dim):
        at = B[b]
        ok = at['idx'] == b and at['in_irrep'] == ri.irreps[at['in_irrep_idx']] and at['out_irrep'] == ro.irreps[at['out_irrep_idx']] and tuple(at['shape']) == (G.irreps[at['out_irrep']].size, G.irreps[at['in_irrep']].size)
        obs.append(Holds('indices of the attributes', bool(ok), str(at)))
        f = abs(int(at['frequency']))
        if co is not None:
            obs.append(Holds('frequency attribute', {k[3] for k in co[b]} == {f}, f'element {b}: {at}'))
            rings = {k[2] for k in co[b]}
            ok = len(rings) == 1
            if ok:
                (atom, power), = next(iter(rings))
                t = pe.X.memo.get(('expdef', atom))
                ok = t is not None and power == 1
                if ok:
                    rr = pe.SNum({pe.X.vars['x.r'][0]: pe.Fraction(1)}, pe.Fraction(0), False)
                    want = (rr - float(at['radius'])) * (rr - float(at['radius'])) * (-.5 / float(at['sigma']) ** 2)
                    obs.append(Zero('radius and width attributes', pe.Trig.of(t) - pe.Trig.of(want) if type(want) is not pe.SNum else t - want))
            obs.append(Holds('one ring', ok))
            for key in {k[2:] for k in co[b]}:
                m = np.zeros((ro.size, ri.size))
                for k, v in co[b].items():
                    if k[2:] == key:
                        m[k[0], k[1]] = v
                m = Bi @ m @ Ai
                io, ii = at['out_irrep_idx'], at['in_irrep_idx']
                m[po[io]:po[io + 1], pi[ii]:pi[ii + 1]] = 0
                obs.append(Zero('lies in the block of its irreps', m))
        else:
            r0 = float(at['radius'])
            v = numeric(B, max(r0, .01), f + 6)[b]
            w = np.abs(v).max((0, 1, 3))
            obs.append(Holds('frequency attribute', bool(w[f] > 1e-6) and np.abs(np.delete(w, f)).max() < 1e-6, f'element {b}: {at}'))
            for d in (.3, .9):
                u = numeric(B, r0 + d, f + 6)[b]
                z = numeric(B, max(r0, .01), f + 6)[b]
                want = math.exp(-.5 * d * d / float(at['sigma']) ** 2) / math.exp(-.5 * (max(r0, .01) - r0) ** 2 / float(at['sigma']) ** 2)
                obs.append(Zero('radius and width attributes', u - want * z))
            for w in range(f + 1):
                for k in (0, 1):
                    m = Bi @ v[:, :, w, k] @ Ai
                    io, ii = at['out_irrep_idx'], at['in_irrep_idx']
                    m[po[io]:po[io + 1], pi[ii]:pi[ii + 1]] = 0
                    obs.append(Zero('lies in the block of its irreps', m))
    return obs


def offsets(mk, a, b, o, F=None):
    """with an offset limit the basis holds exactly the solutions of the large basis whose offset is within the limit"""
    def fn(E):
        gs = mk()
        ri, ro, B = build(gs, a, b, [1.0], [.6], dict(maximum_offset=o) if F is None else dict(maximum_offset=o, maximum_frequency=F))
        fi, fo = (max(gs.fibergroup.irreps[i].attributes['frequency'] for i in r.irreps) for r in (ri, ro))
        N = gs.fibergroup.rotation_order if isinstance(gs.fibergroup, DihedralGroup) else gs.fibergroup.order()
        if isinstance(gs, gspaces.Flip2dOnR2):
            N, fi, fo = 1, 0, 0
        _, _, L = build(gs, a, b, [1.0], [.6], dict(maximum_frequency=fi + fo + (o + 1) * N))
        keep = [i for i in range(L.dim if L is not None else 0) if abs(L[i]['offset']) <= o and (F is None or abs(L[i]['frequency']) <= F)]
        obs = []
        for X_ in (B, L):
            for i in range(X_.dim if X_ is not None else 0):
                k = int(X_[i]['frequency']) - N * int(X_[i]['offset'])
                obs.append(Holds('frequency is base frequency plus offset turns', abs(k) in (abs(fi - fo), fi + fo), str(X_[i])))
        if E.symbolic:
            cb = coefficients(E, B) if B is not None else []
            cl = coefficients(E, L) if L is not None else []
            cb, cl = ([{(k[0], k[1], k[3], k[4]): v for k, v in d.items()} for d in cc] for cc in (cb, cl))
            obs.append(Holds('independent', independent(cb) if cb else True))
            for i in keep:
                obs.append(Holds('solutions within the offset limit are covered', spans(cb, cl[i]), str(L[i])))
            for i in range(len(cb)):
                obs.append(Holds('elements are within the offset limit', spans([cl[j] for j in keep], cb[i]), str(B[i])))
        else:
            M = fi + fo + (o + 2) * N
            vb = numeric(B, 1.0, M).reshape(B.dim, -1) if B is not None else np.zeros((0, 1))
            vl = numeric(L, 1.0, M).reshape(L.dim, -1)[keep] if L is not None and keep else np.zeros((0, vb.shape[1] if len(vb) else 1))
            obs.append(Holds('independent', rank(vb) == len(vb), f'{len(vb)} elements, rank {rank(vb)}'))
            al = rank(np.concatenate([vb, vl])) if len(vb) and len(vl) else max(rank(vb), rank(vl))
            obs.append(Holds('solutions within the offset limit are covered', al == rank(vb), f'{al} > {rank(vb)}'))
            obs.append(Holds('elements are within the offset limit', al == rank(vl), f'{al} > {rank(vl)}'))
        return obs
    return fn


def cases(tier):
    big = tier != 'quick'
    cs = []
    add = lambda nm, f: cs.append((nm, pe.case(f, samples=1), 'custom'))
    R1, S1 = [1.0], [0.6]
    R3, S3 = [0.0, 1.0, 2.5], [0.5, 0.6, 0.8]
    sp = [('trivial', T)] + [(f'flip({l})', F(a)) for l, a in AX]
    sp += [(f'C{n}', R(n)) for n in (range(2, 11) if big else (2, 3, 4, 5, 6, 8))] + [('SO2', R(-1))]
    sp += [(f'D{n}', FR(n)) for n in (range(2, 9) if big else (2, 3, 4, 6))]
    sp += [(f'D{n}({l})', FR(n, a)) for l, a in AX if l != 'pi/2' for n in ((2, 3, 4, 6) if big else (4,))]
    sp += [('O2', FR(-1)), ('O2(0.7)', FR(-1, .7)), ('O2(0)', FR(-1, 0.))]
    for lab, mk in sp:
        gs = mk()
        G = gs.fibergroup
        cont = G.order() < 0
        irr = ['irr:' + n for n in G.irreps]
        k = 0
        for a in irr:
            for b in irr:
                k += 1
                for f in ([None] if cont else range(0, 7) if big else [(0, 3, 5)[k % 3], (4, 2, 1)[k % 3]]):
                    l = {} if f is None else dict(maximum_frequency=f)
                    add(f'{lab} {a[4:]}->{b[4:]} {lname(l)}', basis(mk, a, b, *((R3, S3) if k % 4 == 0 else (R1, S1)), **l))
                if not cont:
                    for o in (0, 1, 2) if big else (k % 3, (k + 1) % 3):
                        add(f'{lab} {a[4:]}->{b[4:]} offset {o}', offsets(mk, a, b, o))
                    for o, f in ((0, 3), (1, 2), (1, 5)) if big else ([(0, 3), (1, 2), (1, 5)][k % 3],):
                        add(f'{lab} {a[4:]}->{b[4:]} offset {o} frequency {f}', offsets(mk, a, b, o, f))
        pairs = [('sum', irr[-1]), (irr[0], 'orth'), ('general', 'sum'), ('orth', irr[-1])]
        if '(' in lab and not big:
            pairs = pairs[1:3]
        if not cont and G.order() <= (12 if big else 8):
            pairs += [('regular', 'regular'), ('regular', irr[-1])]
        for a, b in pairs:
            l = {} if cont else dict(maximum_frequency=2)
            add(f'{lab} {a}->{b} {lname(l)}', basis(mk, a, b, R1, S1, **l))
    return cs
