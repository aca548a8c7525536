"""C22: generalised He and delta-orthogonal initialisation."""
import warnings
from common import *
from c10 import R, SO2, O2, FR, FL, TR
from e2cnn.nn import init
from scipy import stats as sstats
from torch.utils._python_dispatch import TorchDispatchMode

warnings.simplefilter('ignore')

INFO = dict(
    level='model_checking',
    functions=['init.generalized_he_init, _generalized_he_init_variances, deltaorthonormal_init', 'BlocksBasisExpansion.get_basis_info, forward', 'SingleBlockBasisExpansion',
               'weights initialised by R2Conv, R2ConvTransposed, R2Diffop (initialize=True)'],
    bounds='every normal draw is a free real variable; the orthogonal matrix drawn by the delta-orthogonal rule is an arbitrary matrix with W W^T = W^T W = 1 of size up to 4; '
           'layers with up to 4 input and output fields, kernels 1..5, groups as listed',
    outside='the generators themselves (torch.randn is standard normal, scipy.stats.ortho_group returns orthogonal matrices); representations with a non orthogonal change of basis for the delta-orthogonal rule',
    assumptions=['torch.randn/randn_like/normal_ are independent standard normal draws', 'scipy.stats.ortho_group.rvs(n) is an orthogonal n x n matrix'],
)


class Draws(TorchDispatchMode):
    """concrete runs with chosen normal draws (replay of a solver model, unit vectors)"""

    def __init__(self, f):
        super().__init__()
        self.f = f

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm = st.opname(func)
        if nm in ('randn', 'randn_like'):
            shape = tuple(args[0].shape) if isinstance(args[0], torch.Tensor) else tuple(args[0])
            return self.f(shape).to(kwargs.get('dtype') or torch.get_default_dtype())
        if nm == 'normal_':
            mean, std = (list(args[1:]) + [0., 1.])[:2] if len(args) > 1 else (0., 1.)
            args[0].copy_(self.f(tuple(args[0].shape)) * std + mean)
            return args[0]
        return func(*args, **kwargs)


def slots(ftype):
    """[(irrep name, start, end)] in the irrep basis"""
    out, p = [], 0
    G = ftype.gspace.fibergroup
    for r in ftype.representations:
        for i in r.irreps:
            out.append((i, p, p + G.irreps[i].size))
            p += G.irreps[i].size
    return out


def cob(ftype):
    n = ftype.size
    Q, Qi = np.zeros((n, n)), np.zeros((n, n))
    p = 0
    for r in ftype.representations:
        Q[p:p + r.size, p:p + r.size] = r.change_of_basis
        Qi[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
        p += r.size
    return Q, Qi


def build(cls, gs_f, ins, outs, k, initialize=False, **kw):
    gs = gs_f()
    it, ot = ft(gs, *ins), ft(gs, *outs)
    return getattr(enn, cls)(it, ot, kernel_size=k, initialize=initialize, **kw), it, ot


def he_std(m):
    """documented standard deviations, from the filters themselves"""
    be = m.basisexpansion
    it, ot = be._in_type, be._out_type
    Qi, _ = cob(it)
    _, Qo_inv = cob(ot)
    n = be.dimension()
    F = []
    with torch.no_grad():
        for k in range(n):
            w = torch.zeros(n)
            w[k] = 1.
            F.append(np.einsum('ab,bcs,cd->ads', Qo_inv, be(w).numpy().astype(float), Qi))
    si, so = slots(it), slots(ot)
    where = []
    for f in F:
        hit = [(a, b) for a, (_, o0, o1) in enumerate(so) for b, (_, i0, i1) in enumerate(si) if np.abs(f[o0:o1, i0:i1]).max() > 1e-4]
        if len(hit) != 1:
            return None
        where.append((hit[0][0], si[hit[0][1]][0]))
    types, cnt = {}, {}
    for o, i in where:
        types.setdefault(o, set()).add(i)
        cnt[o, i] = cnt.get((o, i), 0) + 1
    return np.array([1 / math.sqrt(len(types[o]) * cnt[o, i]) for o, i in where])


def he_case(cls, gs_f, ins, outs, k, cache=(), **kw):
    def fn(E):
        for other in cache:
            o = build(*other)[0]
            init.generalized_he_init(o.weights.data, o.basisexpansion, cache=True)
        m, it, ot = build(cls, gs_f, ins, outs, k, **kw)
        n = m.weights.numel()
        std = he_std(m)
        if std is None:
            raise Skip('basis filters mix irreps')
        flag = dict(cache=True) if cache else {}

        def do(z):
            """weights for the draws z"""
            w = torch.zeros(n)
            with Draws(lambda s: z.reshape(s)):
                init.generalized_he_init(w, m.basisexpansion, **flag)
            return w
        obs = []
        if E.symbolic:
            nd = []

            def hook(name, shape, info):
                if name not in ('randn', 'randn_like', 'normal'):
                    raise st.Unsupported(name)
                if info.get('args'):
                    raise st.Unsupported('normal with parameters')
                nd.append(shape)
                return E.var('z', shape) if len(nd) == 1 else E.var(f'z{len(nd)}', shape)
            st.RAND['hook'] = hook
            w = E.const(torch.zeros(n))
            try:
                with E.run():
                    init.generalized_he_init(w, m.basisexpansion, **flag)
            finally:
                st.RAND['hook'] = None
            if len(nd) != 1 or int(np.prod(nd[0])) != n:
                raise st.Unsupported('unexpected number of draws')
            z = E.var('z', (n,))
            D = st.pm(w)
            A = np.zeros((n, n))
            c = P.ctx()
            pos = {c.mono((c.atom('var', f'z[{j}]'),)): j for j in range(n)}
            for i, (idx, val) in enumerate(P.rows_of(D)):
                for t, v in zip(idx, val):
                    if t in pos:
                        A[i, pos[t]] = v
        else:
            z = E.var('z', (n,))
            w = do(z)
            A = np.stack([do(torch.eye(n)[j]).numpy() for j in range(n)], 1)
        # for all draws the weights are A z with independent entries of the documented variance
        with E.run():
            Az = torch.mv(E.const(torch.tensor(A, dtype=torch.float32)), z)
        obs.append(Eq('weights are linear in the draws', w, Az))
        obs.append(Eq('covariance of the weights', E.const(torch.tensor(A @ A.T)), torch.tensor(np.diag(std ** 2)), 2e-4))
        # the layer initialised by its constructor uses the same rule
        with Draws(lambda s: torch.ones(s)):
            m2, _, _ = build(cls, gs_f, ins, outs, k, initialize=True, **kw)
        obs.append(Fact('initialised by the constructor', m2.weights.shape == (n,) and np.allclose(m2.weights.detach().numpy(), A.sum(1), atol=1e-4)))
        return obs
    return fn


class RVS:
    def __init__(self, E, mats):
        self.E, self.mats = E, mats

    def __enter__(self):
        self.had = 'rvs' in sstats.ortho_group.__dict__
        self.old = sstats.ortho_group.__dict__.get('rvs')
        E, mats = self.E, self.mats

        def rvs(dim=None, size=1, random_state=None, **k):
            assert dim is not None and size == 1
            if not E.symbolic:
                rng = np.random.RandomState(len(mats) + 3)
                W = np.linalg.qr(rng.randn(dim, dim))[0]
                mats.append(W)
                return W
            W = E.var(f'W{len(mats)}', (dim, dim))
            mats.append(W)
            return W
        sstats.ortho_group.rvs = rvs
        return self

    def __exit__(self, *a):
        if self.had:
            sstats.ortho_group.rvs = self.old
        else:
            del sstats.ortho_group.rvs
        return False


def orth_hyp(mats):
    c = P.ctx()
    H = []
    for k, W in enumerate(mats):
        n = W.shape[0]
        v = lambda i, j: c.atom('var', f'W{k}[{i * n + j}]')
        for a in range(n):
            for b in range(a, n):
                for tr in (False, True):
                    h = {}
                    for j in range(n):
                        m = c.mono((v(a, j), v(b, j)) if not tr else (v(j, a), v(j, b)))
                        h[m] = h.get(m, 0.) + 1.
                    if a == b:
                        h[0] = -1.
                    H.append(h)
    return H


def delta_case(cls, gs_f, ins, outs, k, **kw):
    def fn(E):
        m, it, ot = build(cls, gs_f, ins, outs, k, **kw)
        be = m.basisexpansion
        n = m.weights.numel()
        mats = []
        cnt = [0]

        def hook(name, shape, info):
            if name not in ('randn', 'randn_like', 'normal') or info.get('args'):
                raise st.Unsupported(name)
            cnt[0] += 1
            return E.var(f'w{cnt[0]}', shape)
        st.RAND['hook'] = hook if E.symbolic else None
        w = E.const(torch.full((n,), 7.))        # whatever the tensor held before
        try:
            with RVS(E, mats):
                with E.run():
                    init.deltaorthonormal_init(w, be)
                    f = be(w)
        finally:
            st.RAND['hook'] = None
        it = be._in_type
        Qi, _ = cob(it)
        _, Qo = cob(ot)
        S = f.shape[-1]
        with E.run():
            g = torch.einsum('ab,bcs->acs', torch.tensor(Qo, dtype=torch.float32), f)
            g = torch.einsum('acs,cd->ads', g, torch.tensor(Qi, dtype=torch.float32))
        obs = []
        mid = S // 2
        hyp = orth_hyp(mats) if E.symbolic else None
        rest = [s for s in range(S) if s != mid]
        if rest:
            obs.append(Eq('the filter vanishes outside the origin', g[:, :, rest], torch.zeros(g.shape[0], g.shape[1], len(rest))))
        si, so = slots(it), slots(ot)
        for a in sorted({s[0] for s in so}):
            ro = [r for nme, o0, o1 in so if nme == a for r in range(o0, o1)]
            for b in sorted({s[0] for s in si}):
                ci = [c for nme, i0, i1 in si if nme == b for c in range(i0, i1)]
                M = g[:, :, mid][ro][:, ci]
                if a != b:
                    obs.append(Eq(f'{b}->{a}: no map between different irreps', M, torch.zeros(M.shape)))
                    continue
                with E.run():
                    if len(ro) <= len(ci):
                        T, N = M @ M.transpose(0, 1), len(ro)
                    else:
                        T, N = M.transpose(0, 1) @ M, len(ci)
                obs.append(Eq(f'{a}: orthonormal map', T, torch.eye(N), hyp=hyp))
        return obs
    return fn


def cases(tier):
    C = []
    L = [
        ('c4-reg', R(4), [reg], [reg], 3), ('c4-2reg', R(4), [reg, reg], [reg, reg], 3), ('c4-mixed', R(4), [reg, triv, irr(1)], [irr(1), reg, triv, irr(2)], 3),
        ('c4-irr', R(4), [irr(1)], [irr(1)], 3), ('c4-irr-2to1', R(4), [irr(1), irr(1)], [irr(1)], 3), ('c4-irr-1to2', R(4), [irr(1)], [irr(1), irr(1)], 3), ('c4-irr-3to2', R(4), [irr(1)] * 3, [irr(1), triv, irr(1)], 3),
        ('c8', R(8), [irr(1), irr(3), triv], [irr(3), irr(1), irr(4)], 5), ('c2', R(2), [reg, irr(1)], [irr(1), reg, irr(1)], 3), ('c3', R(3), [reg, triv], [irr(1), reg], 3),
        ('d4-reg', FR(4), [reg], [reg], 3), ('d4-mixed', FR(4), [irr(1, 1), triv, reg], [irr(1, 1), irr(1, 0), irr(1, 1)], 3), ('d3', FR(3), [irr(1, 1)] * 2, [irr(1, 1), irr(1, 0)], 3), ('d4-quotient', FR(4), [quo((0, 1))], [quo((None, 2)), triv], 3),
        ('flip', FL(), [reg, triv], [irr(1), reg], 3), ('trivial', TR, [triv] * 3, [triv] * 2, 3), ('trivial-1to4', TR, [triv], [triv] * 4, 3), ('so2', SO2(), [irr(0), irr(1)], [irr(2), irr(1), irr(0), irr(1)], 3), ('o2', O2(), [irr(1, 1), irr(0, 0), irr(1, 0)], [irr(1, 2), irr(1, 1), irr(1, 0)], 5),
        ('c4-k1', R(4), [reg, irr(1)], [reg, irr(1)], 1), ('c4-k5', R(4), [reg], [irr(1), triv], 5),
    ]
    if tier == 'thorough':
        for n in (2, 3, 5, 6, 8):
            L.append((f'c{n}-th', R(n), [reg, triv, reg], [reg, irr(1)], 5))
            L.append((f'd{n}-th', FR(n), [reg, triv], [irr(1, 1) if n > 2 else irr(1, 0), reg], 3))
        for a in range(1, 5):
            for b in range(1, 5):
                L.append((f'triv-{a}to{b}', TR, [triv] * a, [triv] * b, 3))
                L.append((f'c3-{a}to{b}', R(3), [irr(1)] * a, [irr(1)] * b, 3))
    for name, gs, ins, outs, k in L:
        for cls, tag in (('R2Conv', 'conv'), ('R2ConvTransposed', 'transposed'), ('R2Diffop', 'diffop')):
            if cls == 'R2ConvTransposed' and name not in ('c4-mixed', 'd4-reg', 'so2'):
                continue
            C.append((f'he-{tag}-{name}', he_case(cls, gs, ins, outs, k)))
            C.append((f'delta-{tag}-{name}', delta_case(cls, gs, ins, outs, k)))
    C.append(('he-groups', he_case('R2Conv', R(4), [irr(1), triv] * 2, [triv, irr(1)] * 2, 3, groups=2)))
    C.append(('he-cutoff', he_case('R2Conv', R(4), [reg], [irr(1), triv], 5, frequencies_cutoff=1.)))
    C.append(('he-filter', he_case('R2Diffop', R(4), [reg], [irr(1), triv], 5, basis_filter=lambda a: a['order'] != 1)))
    C.append(('he-cached', he_case('R2Conv', R(4), [irr(1), triv], [irr(1)], 3,
                                   cache=[('R2Conv', R(4), [triv, irr(1)], [irr(1)], 3), ('R2Conv', R(4), [irr(1), triv, triv], [irr(1)], 3), ('R2Conv', R(4), [irr(1)], [irr(1), triv], 3), ('R2Conv', R(4), [irr(1), triv], [irr(1)], 5)])))
    C.append(('he-cached-twice', he_case('R2Conv', FR(4), [irr(1, 1), triv], [irr(1, 1)], 3, cache=[('R2Conv', FR(4), [irr(1, 1), triv], [irr(1, 1)], 3), ('R2Conv', FR(4, axis=0.), [irr(1, 1), triv], [irr(1, 1)], 3)])))
    fam = [('ab-ab', [irr(1), triv], [irr(1), triv]), ('ba-ab', [triv, irr(1)], [irr(1), triv]), ('ab-ba', [irr(1), triv], [triv, irr(1)]), ('ac-ab', [irr(1), irr(2)], [irr(1), triv]),
           ('ab-ac', [irr(1), triv], [irr(1), irr(2)]), ('bbb-ab', [triv] * 3, [irr(1), triv]), ('reg-bbc', [reg], [triv, triv, irr(2), triv])]
    for na, ia, oa in fam:
        for nb, ib, ob in fam:
            if (na, nb) != (nb, na) or tier == 'thorough':
                C.append((f'he-cached-{na}-then-{nb}', he_case('R2Conv', R(4), ib, ob, 3, cache=[('R2Conv', R(4), ia, oa, 3)])))
    return C
