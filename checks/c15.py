"""C15: batch normalisation commutes with the group action and keeps the documented running statistics."""
import math
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from c13 import splits, ind, mix

INFO = dict(
    level='model_checking',
    functions=['InnerBatchNorm, NormBatchNorm, GNormBatchNorm, InducedNormBatchNorm: __init__, forward (training and evaluation), reset_running_stats, reset_parameters'],
    bounds='inputs and parameters: all real values in [-1,1] (scales in [0.5,2]), running means in [-1,1], running variances in [0.25,2]; batch 1..3, spatial up to 2x3, <= 6 fields; '
           'one training step from an arbitrary statistics state (hence any history), momentum 0.1, 0.3, 1 and None with counters 0..3',
    outside='larger batches and images; floating point rounding; half precision',
    assumptions=['sqrt and reciprocal exact by definition; batch_norm of PyTorch follows its documentation', 'tolerance 1e-3'],
)


def free_state(E, m):
    """every running statistic becomes a free variable: the state after any history"""
    for mn, mod in m.named_modules():
        for bn in list(mod._buffers):
            b = mod._buffers[bn]
            if b is None or 'running' not in bn or not b.dtype.is_floating_point:
                continue
            lo, hi = (0.25, 2.) if 'var' in bn else (-1., 1.)
            mod._buffers[bn] = E.var(f's.{mn}.{bn}', b.shape, lo, hi)


def stats(m):
    return {n: b.clone() for n, b in m.named_buffers() if 'running' in n}


def set_stats(m, d):
    for mn, mod in m.named_modules():
        for bn in list(mod._buffers):
            k = f'{mn}.{bn}' if mn else bn
            if k in d:
                mod._buffers[bn] = d[k].clone()


def set_count(m, k):
    for mn, mod in m.named_modules():
        if 'num_batches_tracked' in mod._buffers and mod._buffers['num_batches_tracked'] is not None:
            mod._buffers['num_batches_tracked'] = torch.tensor(k, dtype=torch.long)


def bn_case(cls, gs_f, ins, hw=(2, 2), batch=2, momentum=0.1, count=0, oracle=None, affine=True, **kw):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = getattr(enn, cls)(it, momentum=momentum, affine=affine, **kw)
        m.reset_running_stats()
        if cls != 'InnerBatchNorm':
            m.reset_parameters()
        E.params(m)
        free_state(E, m)
        s0 = stats(m)
        x = E.var('x', (batch, it.size, *hw))
        obs = []

        def step(t):
            set_stats(m, s0)
            set_count(m, count)
            m.train()
            with E.run():
                y = m(enn.GeometricTensor(t, it))
            return y, stats(m)

        def ev(t):
            set_stats(m, s0)
            set_count(m, count)
            m.eval()
            with E.run():
                y = m(enn.GeometricTensor(t, it))
            return y, stats(m)

        elems = [e for e in grid_elements(gs)]
        fib = []
        if gs.fibergroup.order() > 0 and hw == (1, 1):
            elems, fib = [], list(gs.fibergroup.elements)
        y0, s1 = step(x)
        cnt = [int(b) for n_, b in m.named_buffers() if 'num_batches_tracked' in n_]
        obs.append(Fact('training step is counted', all(c == count + 1 for c in cnt)))
        z0, s2 = ev(x)
        cnt = [int(b) for n_, b in m.named_buffers() if 'num_batches_tracked' in n_]
        obs.append(Fact('evaluation is not counted', all(c == count for c in cnt)))
        obs.append(Fact('types', y0.type == it and z0.type == it))
        for k in s0:
            obs.append(Eq(f'{k} unchanged in evaluation', s2[k], s0[k]))
        for e in elems + fib:
            sp = e not in fib
            gx = act(x, it, e, sp)
            y, s = step(gx)
            obs.append(Eq(f'training g={e}', y.tensor, act(y0.tensor, it, e, sp)))
            for k in s:
                obs.append(Eq(f'{k} invariant to g={e}', s[k], s1[k]))
            z, _ = ev(gx)
            obs.append(Eq(f'evaluation g={e}', z.tensor, act(z0.tensor, it, e, sp)))
        # one more transformed batch with each sample transformed differently leaves the statistics alone
        if batch > 1 and len(elems) > 1 and hw[0] == hw[1]:
            last = act(x[1:], it, elems[1])
            with E.run():
                gx = torch.cat([x[:1], last], 0)
            _, s = step(gx)
            for k in s:
                obs.append(Eq(f'{k} invariant to transforming one sample', s[k], s1[k]))
        # evaluation: an output field depends on the same input field, at the same position of the same sample only
        zo = E.var('other', x.shape)
        for i, (a, b) in enumerate(splits(it)):
            z2, _ = ev(mix(E, x, zo, range(a, b)))
            obs.append(Eq(f'evaluation: field {i} depends on itself only', z2.tensor[:, a:b], z0.tensor[:, a:b]))
            y2, _ = step(mix(E, x, zo, range(a, b)))
            obs.append(Eq(f'training: field {i} depends on itself only', y2.tensor[:, a:b], y0.tensor[:, a:b]))
        obs += formula(E, m, it, x, z0.tensor, s0, cls, affine)
        # the running statistics of every field
        f = momentum if momentum is not None else 1. / (count + 1)
        want = oracle(E, it, x)
        if cls == 'InnerBatchNorm' and not kw.get('track_running_stats', True):
            obs.append(Fact('no statistics kept', not any('running' in k for k in s1)))
            return obs
        # with momentum 1 the new state *is* the batch statistic; in general new = (1-f) old + f * batch
        got = {}
        for k in s1:
            with E.run():
                got[k] = (s1[k] - (1 - f) * s0[k]) / f
        obs += match_stats(E, m, it, got, want, cls)
        return obs
    return fn


def match_stats(E, m, it, got, want, cls):
    """want: per field {'mean': tensor or None, 'var': tensor}; the rows of each statistic buffer are the fields of one class, in order"""
    obs = []
    for kind in ('var', 'mean'):
        per_class = {}
        for i, (key, w) in enumerate(want):
            if w.get(kind) is not None:
                per_class.setdefault(key, []).append(w[kind])
        for key, rows in per_class.items():
            with E.run():
                exp = torch.cat([r.reshape(-1) for r in rows])
            name = stat_name(cls, key, kind)
            g = got.get(name)
            if g is None:
                # a different naming of the buffers: fall back to matching by size
                c = [k for k in got if kind in k.split('running')[-1] and got[k].numel() == exp.numel()]
                if len(c) != 1:
                    continue
                g = got[c[0]]
            with E.run():
                g = g.reshape(-1)
            obs.append(Eq(f'running {kind} of fields {key}', g, exp))
    return obs


def formula(E, m, it, x, z, s0, cls, affine):
    """evaluation mode: every field is centred, divided by the stored standard deviation, scaled and shifted"""
    prm = dict(m.named_parameters())
    prm.update({f'{mn}.{pn}' if mn else pn: mod._parameters[pn] for mn, mod in m.named_modules() for pn in mod._parameters if mod._parameters[pn] is not None})
    G = it.gspace.fibergroup
    seen = {}
    obs = []
    for (a, b), r in zip(splits(it), it.representations):
        key = {'InnerBatchNorm': r.size, 'NormBatchNorm': r.size, 'GNormBatchNorm': r.name}.get(cls)
        if key is None:
            k = [int(s.split('_')[-1]) for s in r.supported_nonlinearities if s.startswith('induced_norm')][0]
            key = (r.size, k)
        i = seen.get(key, 0)
        seen[key] = i + 1
        base = f'batch_norm_[{key}].' if cls == 'InnerBatchNorm' else f'{key}_'
        var, mean = s0.get(base + 'running_var'), s0.get(base + 'running_mean')
        w, bias = prm.get(base + 'weight'), prm.get(base + 'bias')
        if var is None or (affine and w is None):
            continue
        with E.run():
            f = x[:, a:b]
            if cls == 'GNormBatchNorm':
                t = torch.einsum('ij,bjhw->bihw', torch.tensor(r.change_of_basis_inv, dtype=torch.float32), f)
                p, tr, parts = 0, 0, []
                for j, ir in enumerate(r.irreps):
                    ir = G.irreps[ir]
                    u = t[:, p:p + ir.size]
                    p += ir.size
                    sc = 1. / (var[i, j] + m.eps).sqrt()
                    if affine:
                        sc = sc * w[i, j]
                    if ir.is_trivial():
                        u = (u - mean[i, tr]) * sc
                        if affine:
                            u = u + bias[i, tr]
                        tr += 1
                    else:
                        u = u * sc
                    parts.append(u)
                want = torch.einsum('ij,bjhw->bihw', torch.tensor(r.change_of_basis, dtype=torch.float32), torch.cat(parts, 1))
            else:
                sc = 1. / (var.reshape(-1)[i] + m.eps).sqrt()
                if affine:
                    sc = sc * w.reshape(-1)[i]
                if mean is not None:
                    want = (f - mean.reshape(-1)[i]) * sc
                    if affine:
                        want = want + bias.reshape(-1)[i]
                else:
                    want = f * sc
        obs.append(Eq(f'evaluation: normalised field at channels {a}:{b}', z[:, a:b], want))
    return obs


def stat_name(cls, key, kind):
    if cls == 'InnerBatchNorm':
        return f'batch_norm_[{key}].running_{kind}'
    return f'{key}_running_{kind}'


def inner_oracle(E, it, x):
    out = []
    for (a, b), r in zip(splits(it), it.representations):
        with E.run():
            t = x[:, a:b].reshape(-1)
            n = t.numel()
            mu = t.sum() / n
            v = ((t - mu) ** 2).sum() / max(n - 1, 1)
        out.append((r.size, dict(mean=mu, var=v)))
    return out


def norm_oracle(E, it, x):
    out = []
    for (a, b), r in zip(splits(it), it.representations):
        with E.run():
            t = x[:, a:b]
            n = t.shape[0] * t.shape[2] * t.shape[3]
            v = (t ** 2).sum() / r.size / max(n - 1, 1)
        out.append((r.size, dict(var=v)))
    return out


def induced_oracle(E, it, x):
    out = []
    for (a, b), r in zip(splits(it), it.representations):
        k = [int(s.split('_')[-1]) for s in r.supported_nonlinearities if s.startswith('induced_norm')][0]
        with E.run():
            t = x[:, a:b]
            n = t.shape[0] * t.shape[2] * t.shape[3] * (r.size // k)
            v = (t ** 2).sum() / k / max(n - 1, 1)
        out.append(((r.size, k), dict(var=v)))
    return out


def gnorm_oracle(E, it, x):
    """in the irreps basis: mean of the trivial components, mean square (minus squared mean) of every irrep, per irrep"""
    out = []
    G = it.gspace.fibergroup
    for (a, b), r in zip(splits(it), it.representations):
        with E.run():
            t = torch.einsum('ij,bjhw->bihw', torch.tensor(r.change_of_basis_inv, dtype=torch.float32), x[:, a:b])
            n = t.shape[0] * t.shape[2] * t.shape[3]
            p = 0
            mus, vs = [], []
            for i in r.irreps:
                ir = G.irreps[i]
                u = t[:, p:p + ir.size]
                p += ir.size
                v = (u ** 2).sum() / ir.size / n
                if ir.is_trivial():
                    mu = u.sum() / n
                    v = v - mu ** 2
                    mus.append(mu.reshape(1))
                vs.append((v * (n / (n - 1) if n > 1 else 1.)).reshape(1))
            var = torch.cat(vs)
            mean = torch.cat(mus) if mus else None
        out.append((r.name, dict(var=var, mean=mean)))
    return out


def reset_case(cls, gs_f, ins, affine=True):
    """after reset the module is in the documented initial state whatever the history was"""
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = getattr(enn, cls)(it, affine=affine)
        x = E.var('x', (2, it.size, 2, 2))
        obs = []
        for mod in m.modules():
            for bn in list(mod._buffers):
                b = mod._buffers[bn]
                if b is not None and 'running' in bn:
                    mod._buffers[bn] = E.const(b.clone())
        for how in ('reset_running_stats', 'reset_parameters'):
            m.train()
            with E.run():
                m(enn.GeometricTensor(x, it))
                getattr(m, how)()
            for k, v in stats(m).items():
                obs.append(Eq(f'{how}: {k}', v, torch.ones(v.shape) if 'var' in k else torch.zeros(v.shape)))
            for n_, b in m.named_buffers():
                if 'num_batches_tracked' in n_:
                    obs.append(Fact(f'{how}: counter', int(b) == 0))
        return obs
    return fn


def cases(tier):
    C = []

    def n(name, cls, orc, *a, **k):
        C.append((f'{cls}-{name}', bn_case(cls, *a, oracle=orc, **k)))

    IN, NO, GN, ID = ('InnerBatchNorm', inner_oracle), ('NormBatchNorm', norm_oracle), ('GNormBatchNorm', gnorm_oracle), ('InducedNormBatchNorm', induced_oracle)
    n('c4', *IN, R(4), [reg, triv, quo(2)])
    n('c4-interleaved', *IN, R(4), [reg, triv, reg, triv, quo(2)])
    n('c4-contiguous', *IN, R(4), [triv, triv, reg, reg])
    n('c4-batch3', *IN, R(4), [triv, reg, triv], (1, 1), batch=3)
    n('c8-fiber', *IN, R(8), [reg, triv, quo(4)], (1, 1))
    n('d4', *IN, FR(4), [reg, quo((0, 1)), triv])
    n('d3', *IN, FR(3), [reg, triv, quo((None, 3))])
    n('flip', *IN, FL(), [reg, triv], (2, 3))
    n('momentum-none', *IN, R(4), [reg, triv], momentum=None)
    n('momentum-none-3', *IN, R(4), [reg, triv], momentum=None, count=3)
    n('momentum1', *IN, R(4), [triv, reg], momentum=1.)
    n('noaffine', *IN, R(4), [triv, reg, triv], affine=False, momentum=0.3)
    n('notrack', *IN, R(4), [triv, reg], track_running_stats=False)
    n('trivial', *IN, TR, [triv, triv], (2, 3))
    n('so2', *IN, SO2(), [triv, triv])
    n('o2', *IN, O2(), [ind((None, -1), 0), triv])
    n('c4', *NO, R(4), [irr(1), irr(2), irr(1)])
    n('c4-contiguous', *NO, R(4), [irr(1), irr(1), irr(2), irr(2)])
    n('c4-fiber', *NO, R(8), [irr(1), irr(4), irr(3)], (1, 1))
    n('d4', *NO, FR(4), [irr(1, 1), irr(1, 0), irr(1, 1), irr(1, 2)])
    n('so2', *NO, SO2(), [irr(1), irr(2)])
    n('o2', *NO, O2(), [irr(1, 1), irr(1, 0), irr(1, 2)])
    n('flip', *NO, FL(), [irr(1), irr(1)], (2, 3))
    n('batch1', *NO, R(4), [irr(1), irr(2)], (1, 1), batch=1)
    n('momentum-none', *NO, R(4), [irr(1), irr(2)], momentum=None, count=2)
    n('momentum1', *NO, R(4), [irr(1), irr(2), irr(1)], momentum=1.)
    n('noaffine', *NO, R(4), [irr(2), irr(1)], affine=False, momentum=0.3)
    n('batch3', *NO, R(2), [irr(1), irr(1)], (1, 2), batch=3)
    n('c4', *GN, R(4), [reg, triv, irr(1)])
    n('c4-interleaved', *GN, R(4), [irr(1), triv, irr(1), triv, reg])
    n('c4-contiguous', *GN, R(4), [irr(1), irr(1), triv, triv])
    n('c8-fiber', *GN, R(8), [reg, irr(4), quo(4)], (1, 1))
    n('d4', *GN, FR(4), [irr(1, 1), quo((0, 1)), irr(1, 0), irr(1, 1)])
    n('d4-reg', *GN, FR(4), [reg, triv])
    n('d3', *GN, FR(3), [reg, irr(1, 1)])
    n('so2', *GN, SO2(), [irr(1), irr(0), irr(2), irr(0)])
    n('o2', *GN, O2(), [irr(1, 1), irr(1, 0), irr(0, 0), ind((None, -1), 1)])
    n('flip', *GN, FL(), [reg, irr(1), triv], (2, 3))
    n('momentum-none', *GN, R(4), [irr(1), triv], momentum=None, count=2)
    n('momentum1', *GN, R(4), [triv, irr(1), triv], momentum=1.)
    n('noaffine', *GN, R(4), [triv, reg], affine=False, momentum=0.3)
    n('batch3', *GN, R(4), [irr(1), triv], (1, 1), batch=3)
    n('o2', *ID, O2(), [ind((None, -1), 1), ind((None, -1), 2)])
    n('o2-contiguous', *ID, O2(), [ind((None, -1), 1), ind((None, -1), 1)])
    n('d4', *ID, FR(4), [ind((None, 4), 1), ind((None, 4), 2), ind((None, 4), 1)])
    n('d4-flip', *ID, FR(4), [ind((0, 1), 1), ind((None, 4), 1)])
    n('d3', *ID, FR(3), [ind((None, 3), 1), ind((0, 1), 1), ind((None, 3), 1)])
    n('momentum-none', *ID, FR(4), [ind((None, 4), 1)], momentum=None, count=1)
    n('momentum1', *ID, FR(4), [ind((None, 4), 1), ind((0, 1), 1)], momentum=1., batch=1)
    n('noaffine', *ID, O2(), [ind((None, -1), 1)], affine=False)
    for af in (True, False):
        for nm, gs, ins in [('InnerBatchNorm', R(4), [reg, triv]), ('NormBatchNorm', R(4), [irr(1), irr(2)]), ('GNormBatchNorm', R(4), [irr(1), triv, reg]), ('InducedNormBatchNorm', FR(4), [ind((None, 4), 1)])]:
            C.append((f'reset-{nm}-{af}', reset_case(nm, gs, ins, af)))
    if tier == 'thorough':
        for k in (2, 3, 5, 6, 8):
            n(f'c{k}', *IN, R(k), [reg, triv, reg])
            n(f'c{k}', *GN, R(k), [reg, triv])
        for i, perm in enumerate(itertools.product(range(3), repeat=4)):
            n(f'order{i}', *IN, R(3), [[reg, triv, triv][j] if j < 2 else quo(3) for j in perm], (1, 2))
            n(f'order{i}', *GN, R(3), [[reg, triv, irr(1)][j] for j in perm], (1, 2))
            n(f'order{i}', *NO, R(4), [[irr(1), irr(2), irr(1)][j] for j in perm], (1, 2))
            n(f'order{i}', *ID, FR(4), [[ind((None, 4), 1), ind((0, 1), 1), ind((None, 4), 2)][j] for j in perm], (1, 1))
    return C
