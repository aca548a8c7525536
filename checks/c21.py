"""C21: dropout multiplies whole field vectors by 0 or 1/(1-p), without bias, independently, and only in training."""
import warnings
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from symx import decide
import random

warnings.simplefilter('ignore')

INFO = dict(
    level='model_checking',
    functions=['FieldDropout.__init__, forward', 'dropout_field', 'PointwiseDropout.forward', 'torch.nn.functional.dropout (run symbolically)'],
    bounds='input: all real values in [-1,1]; every random draw is a free variable in [0,1]; batch 1..3, spatial size 1..2, <= 7 fields; p in {0, 0.1, 0.3, 0.5, 0.9, 1} ; '
           'representation mixes (contiguous or not, sorted or not) as listed',
    outside='quality of the random number generator itself; the CUDA branch',
    assumptions=['torch.Tensor.uniform_() draws independent uniform numbers, bernoulli independent coin flips', 'equality on a set of draws of measure zero is not distinguished'],
)


def draws(E, log):
    def hook(name, shape, info):
        k = len(log)
        u = E.var(f'u{k}', shape, 0.0, 1.0)
        log.append(name)
        if name in ('rand', 'rand_like', 'uniform'):
            a = info.get('args', ())
            if len(a) >= 2 and (a[0], a[1]) != (0, 1):
                return u * (a[1] - a[0]) + a[0]
            return u
        if name == 'bernoulli':
            a = [v for v in info.get('args', ()) if v is not None and not isinstance(v, torch.Generator)]
            p = a[0] if a else info.get('kw', {}).get('p', 0.5 if info.get('inplace') else info.get('self'))
            if p is None:
                raise st.Unsupported('bernoulli')
            return (u < p).to(torch.get_default_dtype())
        raise st.Unsupported('random ' + name)
    return hook


def support(poly_row):
    """names of the variables an entry depends on"""
    c = P.ctx()
    out = set()
    for a in decide.support_vars(poly_row):
        out.add(c.atoms[a][1])
    return out


def blocks(it, pointwise):
    """channels which must share their factor"""
    if pointwise:
        return [[i] for i in range(it.size)]
    out, p = [], 0
    for r in it.representations:
        out.append(list(range(p, p + r.size)))
        p += r.size
    return out


def run(E, m, x, it, log):
    st.RAND['hook'] = draws(E, log) if E.symbolic else None
    try:
        with E.run():
            return m(enn.GeometricTensor(x, it)).tensor
    finally:
        st.RAND['hook'] = None


def case(cls, gs_f, fields, p, inplace, hw=(1, 2), batch=2):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *fields)
        m = getattr(enn, cls)(it, p=p, inplace=inplace)
        m.train()
        bl = blocks(it, cls == 'PointwiseDropout')
        b = batch if E.symbolic else 4000
        x0 = E.var('x', (b, it.size, *hw))
        x = x0.clone()
        log = []
        y = run(E, m, x, it, log)
        obs = []
        if inplace:
            obs.append(Eq('in place: the input holds the result', x, y))
        else:
            obs.append(Eq('the input is left alone', x, x0))
        q = 1.0 - p
        if not E.symbolic and torch.isnan(y).any():
            return obs + [Fact('a number', False, 'NaN in the output')]
        # (1) every entry is multiplied by 0 or by 1/(1-p)
        if p < 1:
            obs.append(Eq('factor is 0 or 1/(1-p)', y * (y * q - x0), torch.zeros(y.shape)))
        else:
            obs.append(Eq('everything is dropped for p=1', y, torch.zeros(y.shape)))
        # (2) one factor for all the channels of a field at a point
        for blk in bl:
            for c in blk[1:]:
                obs.append(Eq(f'channels {blk[0]} and {c} share the factor', y[:, blk[0]] * x0[:, c], y[:, c] * x0[:, blk[0]]))
        if p == 0:
            obs.append(Eq('p=0 keeps everything', y, x0)) if not E.symbolic else None
        if p == 1:
            return obs
        # (3) unbiased, (4) independent: the factors themselves (input all ones)
        xo = torch.ones(b, it.size, *hw)
        log2 = []
        f = run(E, m, E.const(xo.clone()), it, log2)
        if E.symbolic:
            F_ = st.pm(f)
            n = f.numel()
            shape = tuple(f.shape)
            sup = [support(F_.indices[F_.indptr[i]:F_.indptr[i + 1]]) for i in range(n)]
            sup = np.array(sup, dtype=object).reshape(shape)
            ok_ind = True
            for s1 in range(b):
                for s2 in range(b):
                    for i, b1 in enumerate(bl):
                        for j, b2 in enumerate(bl):
                            if (s1, i) < (s2, j):
                                A = set().union(*[e for c in b1 for e in sup[s1, c].reshape(-1)])
                                B = set().union(*[e for c in b2 for e in sup[s2, c].reshape(-1)])
                                ok_ind = ok_ind and not (A & B)
            obs.append(Fact('independent draws', ok_ind))
            if p > 0:
                one = all(len(e) == 1 for e in sup.reshape(-1))
                unbiased = one
                if one:
                    # kept exactly when u > p (or: when u < 1 - p): both events have probability 1 - p
                    c = P.ctx()
                    U = torch.stack([st.new(P.atoms_arr([c.atom('var', next(iter(e)))]), (), torch.float32) for e in sup.reshape(-1)]).reshape(shape)
                    with E.run():
                        alt = [(U > p).to(torch.float32) / q, (U < q).to(torch.float32) / q]
                    unbiased = any(decide.decide_zero(P.sub(st.pm(f), st.pm(a)), 1e-4, random.Random(1))['verdict'] == 'proved' for a in alt)
                obs.append(Fact('kept with probability 1-p', unbiased))
        else:
            keep = (f != 0).double().reshape(b, it.size, -1)
            mean = keep.mean((0, 2))
            n = b * keep.shape[2]
            obs.append(Fact('independent draws', True))
            sd = max((p * q / b) ** 0.5, 1e-3)
            obs.append(Fact('kept with probability 1-p', bool(((mean - q).abs() < 8 * sd).all()), f'kept {mean.tolist()} expected {q}'))
            if 0 < p < 1:
                k = torch.stack([keep[:, blk[0], 0] for blk in bl])
                k = k - k.mean(1, keepdim=True)
                sdv = k.std(1) + 1e-9
                cor = (k @ k.T) / k.shape[1] / sdv[:, None] / sdv[None]
                cor = cor - torch.diag(torch.diag(cor))
                obs[-2] = Fact('independent draws', bool(cor.abs().max() < 0.2), 'correlated fields')
                if b > 1:
                    ks = keep[:, [blk[0] for blk in bl], 0]
                    lag = ((ks[1:] - q) * (ks[:-1] - q)).mean() / (p * q)
                    if abs(float(lag)) > 0.2:
                        obs[-2] = Fact('independent draws', False, 'correlated samples')
        # evaluation mode
        m.eval()
        xe = x0.clone()
        ye = run(E, m, xe, it, [])
        obs.append(Eq('evaluation is the identity', ye, x0))
        obs.append(Eq('evaluation leaves the input alone', xe, x0))
        # back to training: draws again
        m.train()
        if p > 0 and E.symbolic:
            l3 = []
            run(E, m, x0.clone(), it, l3)
            obs.append(Fact('training draws again after evaluation', len(l3) > 0))
        elif p > 0:
            z = run(E, m, torch.ones(b, it.size, *hw), it, [])
            obs.append(Fact('training draws again after evaluation', bool((z == 0).any())))
        return [o for o in obs if o is not None]
    return fn


def cases(tier):
    C = []
    T = [
        ('c4-reg', R(4), [reg]), ('c4-mixed', R(4), [reg, triv, irr(1), reg]), ('c4-sorted', R(4), [triv, triv, irr(1), irr(1), reg]), ('c4-interleaved', R(4), [triv, irr(1), triv, irr(1), irr(2)]),
        ('d3-mixed', FR(3), [irr(1, 1), triv, irr(1, 1), irr(1, 0), reg]), ('d4-quotient', FR(4), [quo((0, 1)), reg, quo((None, 2))]), ('so2', SO2(), [irr(0), irr(1), irr(2), irr(0)]), ('o2', O2(), [irr(1, 1), irr(1, 0), irr(1, 2)]),
        ('trivial', TR, [triv, triv]), ('flip', FL(), [reg, triv, reg]), ('c4-twisted', R(4), [lambda g: twisted(g.regular_repr, 1), irr(1)]),
    ]
    PW = [('c4-reg', R(4), [reg]), ('c4-mixed', R(4), [reg, triv, reg]), ('d4-quotient', FR(4), [quo((0, 1)), triv, quo((None, 2))]), ('trivial', TR, [triv, triv]), ('flip', FL(), [reg, triv])]
    ps = (0.3, 0.5) if tier == 'quick' else (0.1, 0.3, 0.5, 0.75, 0.9)
    for name, g, f in T:
        for inpl in (False, True):
            for p in ps:
                C.append((f'field-{name}-p{p}-{"inplace" if inpl else "copy"}', case('FieldDropout', g, f, p, inpl)))
    for p in (0, 0.0, 1, 1.0, 0.1, 0.9):
        for inpl in (False, True):
            C.append((f'field-p{p!r}-{"inplace" if inpl else "copy"}', case('FieldDropout', R(4), [reg, triv, irr(1), triv], p, inpl)))
            C.append((f'pointwise-p{p!r}-{"inplace" if inpl else "copy"}', case('PointwiseDropout', R(4), [reg, triv], p, inpl)))
    for name, g, f in PW:
        for inpl in (False, True):
            for p in ps:
                C.append((f'pointwise-{name}-p{p}-{"inplace" if inpl else "copy"}', case('PointwiseDropout', g, f, p, inpl)))
    C.append(('field-batch3', case('FieldDropout', R(4), [irr(1), triv, irr(1)], 0.4, False, hw=(2, 2), batch=3)))
    C.append(('field-batch1', case('FieldDropout', R(4), [irr(1), triv, irr(1)], 0.4, False, hw=(2, 2), batch=1)))
    if tier == 'thorough':
        import random as rnd
        rg = rnd.Random(5)
        for k in range(60):
            fs = [rg.choice([triv, irr(1), irr(2), reg, irr(3)]) for _ in range(rg.randint(1, 7))]
            C.append((f'field-mix{k}', case('FieldDropout', R(8), fs, rg.choice([0.2, 0.6]), bool(k % 2), hw=(1, 2))))
    return C
