"""C14: pooling, upsampling and masking commute with the grid symmetries for every input."""
import math
from common import *
from c10 import R, SO2, O2, FR, FL, TR
from c13 import splits, ind

INFO = dict(
    level='model_checking',
    functions=['PointwiseMaxPool, PointwiseMaxPoolAntialiased, PointwiseAvgPool, PointwiseAvgPoolAntialiased, PointwiseAdaptiveMaxPool, PointwiseAdaptiveAvgPool, NormMaxPool, '
               'R2Upsampling, MaskModule: __init__ and forward', 'build_mask'],
    bounds='inputs: all real values in [-1,1]; spatial size 2..7, batch 1..2, <= 4 fields; windows, strides, paddings for which the pooling grid itself is symmetric',
    outside='inputs where two positions of a window have exactly the same norm (norm max pooling); geometries in which the pooling grid is not symmetric; larger images',
    assumptions=['max exact; arg-max unique', 'tolerance 1e-3'],
)


def pool_case(cls, gs_f, ins, hw, batch=1, oracle=None, **kw):
    def fn(E):
        gs = gs_f()
        it = ft(gs, *ins)
        m = getattr(enn, cls)(it, **kw)
        x = E.var('x', (batch, it.size, *hw))
        obs = equivariance(E, m, it, it, x)
        if oracle:
            obs += oracle(E, m, it, x, **kw)
        obs += own_channels(E, m, it, x)
        return obs
    return fn


def own_channels(E, m, it, x):
    """output of one field and one sample depends on that field of that sample only"""
    z = E.var('other', x.shape)
    with E.run():
        y = m(enn.GeometricTensor(x, it)).tensor
    obs = []
    for i, (a, b) in enumerate(splits(it)):
        mask = torch.zeros(x.shape[0], x.shape[1], 1, 1)
        mask[0, a:b] = 1.
        with E.run():
            y2 = m(enn.GeometricTensor(x * mask + z * (1 - mask), it)).tensor
        obs.append(Eq(f'field {i} depends on itself only', y[:1, a:b], y2[:1, a:b]))
    return obs


def pair(v):
    return v if isinstance(v, tuple) else (v, v)


def norm_pool_oracle(E, m, it, x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False):
    """for every window: the input vector with the largest norm"""
    k, p, d = pair(kernel_size), pair(padding), pair(dilation)
    s = pair(stride) if stride is not None else k
    b, c, h, w = x.shape
    with E.run():
        y = m(enn.GeometricTensor(x, it)).tensor
    ho, wo = y.shape[2:]
    obs = []
    for f, (a, e) in enumerate(splits(it)):
        for i in range(ho):
            for j in range(wo):
                pos = [(i * s[0] - p[0] + u * d[0], j * s[1] - p[1] + v * d[1]) for u in range(k[0]) for v in range(k[1])]
                pos = [(r, q) for r, q in pos if 0 <= r < h and 0 <= q < w]
                with E.run():
                    vec = torch.stack([x[:, a:e, r, q] for r, q in pos], -1)           # b, size, n
                    nn_ = (vec ** 2).sum(1).sqrt()                                     # b, n
                    idx = nn_.argmax(-1).view(b, 1, 1).expand(b, e - a, 1)
                    best = vec.gather(2, idx)[..., 0]
                obs.append(Eq(f'field {f} window {i},{j} holds its largest vector', y[:, a:e, i, j], best))
    return obs


def avg_oracle(E, m, it, x, kernel_size, stride=None, padding=0, ceil_mode=False):
    return []


def cases(tier):
    C = []

    def n(name, cls, *a, **k):
        C.append((f'{cls}-{name}', pool_case(cls, *a, **k)))

    P4, PD = [reg, triv, quo(2)], [reg, triv]
    # pointwise max
    for nm, gs, ins in [('c4', R(4), P4), ('d4', FR(4), [reg, quo((0, 1))]), ('flip', FL(), [reg, triv]), ('d4a0', FR(4, axis=0.), [reg])]:
        n(nm, 'PointwiseMaxPool', gs, ins, (4, 4), kernel_size=2)
        n('k3s2-' + nm, 'PointwiseMaxPool', gs, ins, (5, 5), kernel_size=3, stride=2)
        n('k3s2p1-' + nm, 'PointwiseMaxPool', gs, ins, (5, 5), kernel_size=3, stride=2, padding=1)
        n(nm, 'PointwiseAvgPool', gs, ins, (4, 4), kernel_size=2)
        n('k3s2p1-' + nm, 'PointwiseAvgPool', gs, ins, (5, 5), kernel_size=3, stride=2, padding=1)
        n(nm, 'PointwiseAdaptiveAvgPool', gs, ins, (4, 4), output_size=2)
        n(nm, 'PointwiseAdaptiveMaxPool', gs, ins, (4, 4), output_size=2)
        n(nm, 'PointwiseAvgPoolAntialiased', gs, ins, (5, 5), sigma=0.66, stride=2)
    n('dil2', 'PointwiseMaxPool', R(4), PD, (5, 5), kernel_size=3, stride=1, dilation=2, padding=1)
    n('ceil', 'PointwiseMaxPool', R(4), PD, (4, 4), kernel_size=2, ceil_mode=True)
    n('rect', 'PointwiseMaxPool', FL(), [reg, triv], (4, 6), kernel_size=(2, 3), stride=(2, 3))
    n('rect-pad', 'PointwiseMaxPool', FL(), [reg, triv], (3, 4), kernel_size=(3, 2), stride=(1, 2), padding=(1, 0))
    n('rect-dil', 'PointwiseMaxPool', FL(), [reg], (3, 5), kernel_size=(2, 3), stride=(1, 1), dilation=(1, 2))
    n('k3s1p1', 'PointwiseMaxPool', FR(4), [reg], (3, 3), kernel_size=3, stride=1, padding=1)
    n('batch', 'PointwiseMaxPool', R(4), PD, (2, 2), batch=2, kernel_size=2)
    n('k2-d2', 'PointwiseMaxPool', R(2), [reg], (4, 2), kernel_size=2)
    n('default-sigma', 'PointwiseMaxPoolAntialiased', R(4), [triv, triv], (4, 4), kernel_size=2, stride=2)
    n('k2s1', 'PointwiseMaxPoolAntialiased', R(4), [reg], (4, 4), kernel_size=2, stride=1, sigma=0.3)
    n('k3s2', 'PointwiseMaxPoolAntialiased', FR(4), [triv, reg], (5, 5), kernel_size=3, stride=2, sigma=0.3)
    n('k3s2p1', 'PointwiseMaxPoolAntialiased', R(4), [triv, reg], (3, 3), kernel_size=3, stride=2, padding=1, sigma=0.3)
    n('flip', 'PointwiseMaxPoolAntialiased', FL(), [reg], (4, 4), kernel_size=2, stride=1, sigma=0.4)
    # linear pooling acts on any field
    AN = [irr(1), triv, irr(2)]
    n('irreps', 'PointwiseAvgPool', R(4), AN, (4, 4), kernel_size=2)
    n('irreps-d4', 'PointwiseAvgPool', FR(4), [irr(1, 1), irr(1, 0)], (5, 5), kernel_size=3, stride=2)
    n('so2', 'PointwiseAvgPool', SO2(), [irr(1), irr(0)], (4, 4), kernel_size=2)
    n('o2', 'PointwiseAvgPool', O2(), [irr(1, 1), irr(1, 0)], (4, 4), kernel_size=2)
    n('ceil', 'PointwiseAvgPool', R(4), AN, (4, 4), kernel_size=2, ceil_mode=True)
    n('rect', 'PointwiseAvgPool', FL(), [irr(1), reg], (4, 6), kernel_size=(2, 3), stride=(2, 3))
    n('rect-pad', 'PointwiseAvgPool', FL(), [irr(1), reg], (3, 4), kernel_size=(3, 2), stride=(1, 2), padding=(1, 0))
    n('irreps', 'PointwiseAvgPoolAntialiased', R(4), AN, (5, 5), sigma=0.4, stride=2)
    n('irreps-pad', 'PointwiseAvgPoolAntialiased', FR(4), [irr(1, 1), triv], (5, 5), sigma=0.6, stride=2, padding=1)
    n('stride1', 'PointwiseAvgPoolAntialiased', FR(4), [irr(1, 1), triv], (4, 4), sigma=0.3, stride=1)
    n('rect', 'PointwiseAvgPoolAntialiased', FL(), [reg, irr(1)], (4, 5), sigma=0.3, stride=(1, 2), padding=(0, 1))
    for o in (1, 2, 3):
        for h in (3, 4, 5):
            n(f'{h}to{o}', 'PointwiseAdaptiveAvgPool', R(4), [reg], (h, h), output_size=o)
            n(f'{h}to{o}', 'PointwiseAdaptiveMaxPool', R(4), [reg], (h, h), output_size=o)
    n('rect', 'PointwiseAdaptiveAvgPool', FL(), [reg, triv], (4, 5), output_size=(2, 3))
    n('rect', 'PointwiseAdaptiveMaxPool', FL(), [reg, triv], (4, 5), output_size=(2, 3))
    # norm max pooling
    no = norm_pool_oracle
    n('c4', 'NormMaxPool', R(4), [irr(1), triv, irr(1)], (4, 4), oracle=no, kernel_size=2)
    n('c4-contig', 'NormMaxPool', R(4), [irr(1), irr(1), triv, triv], (2, 2), oracle=no, kernel_size=2)
    n('reg', 'NormMaxPool', R(4), [reg, irr(1)], (4, 4), oracle=no, kernel_size=2)
    n('k3s2', 'NormMaxPool', R(4), [irr(1), triv], (5, 5), oracle=no, kernel_size=3, stride=2)
    n('k3s2p1', 'NormMaxPool', R(4), [irr(1), triv], (5, 5), oracle=no, kernel_size=3, stride=2, padding=1)
    n('dil2', 'NormMaxPool', R(4), [irr(1)], (5, 5), oracle=no, kernel_size=3, stride=1, padding=1, dilation=2)
    n('rect', 'NormMaxPool', FL(), [irr(1), reg], (2, 6), oracle=no, kernel_size=(2, 3))
    n('rect-pad', 'NormMaxPool', FL(), [irr(1), reg], (3, 4), oracle=no, kernel_size=(3, 2), stride=(1, 2), padding=(1, 0))
    n('d4', 'NormMaxPool', FR(4), [irr(1, 1), irr(1, 0), irr(1, 1)], (4, 4), oracle=no, kernel_size=2)
    n('so2', 'NormMaxPool', SO2(), [irr(1), irr(0), irr(2)], (4, 4), oracle=no, kernel_size=2)
    n('o2', 'NormMaxPool', O2(), [irr(1, 1), irr(1, 0)], (4, 4), oracle=no, kernel_size=2)
    n('batch', 'NormMaxPool', R(4), [irr(1), triv], (2, 2), batch=2, oracle=no, kernel_size=2)
    n('nopad-ceil', 'NormMaxPool', R(4), [irr(1), triv], (4, 4), oracle=no, kernel_size=2, ceil_mode=True)
    n('ceil-partial', 'NormMaxPool', TR, [triv], (5, 5), oracle=no, kernel_size=2, ceil_mode=True)
    # upsampling
    for nm, gs, ins in [('c4', R(4), [reg, irr(1), triv]), ('d4', FR(4), [irr(1, 1), reg]), ('flip', FL(), [reg, irr(1)]), ('so2', SO2(), [irr(1), irr(0)]), ('o2', O2(), [irr(1, 1), irr(1, 0)])]:
        n('nearest2-' + nm, 'R2Upsampling', gs, ins, (2, 2), scale_factor=2, mode='nearest')
        n('bilinear2-' + nm, 'R2Upsampling', gs, ins, (3, 3), scale_factor=2)
        n('bilinear2ac-' + nm, 'R2Upsampling', gs, ins, (3, 3), scale_factor=2, align_corners=True)
        n('size5-' + nm, 'R2Upsampling', gs, ins, (3, 3), size=5)
        n('size5ac-' + nm, 'R2Upsampling', gs, ins, (3, 3), size=5, align_corners=True)
    n('rect', 'R2Upsampling', FL(), [reg], (2, 3), size=(4, 5))
    n('rect-nearest', 'R2Upsampling', FL(), [reg], (2, 3), size=(4, 9), mode='nearest')
    n('scale3', 'R2Upsampling', R(4), [irr(1)], (2, 2), scale_factor=3)
    n('scale3-nearest', 'R2Upsampling', R(4), [irr(1)], (2, 2), scale_factor=3, mode='nearest')
    # masking
    for S in (3, 4, 5, 6, 7):
        n(f'S{S}', 'MaskModule', R(4), [irr(1), triv], (S, S), S=S)
        n(f'S{S}-margin', 'MaskModule', FR(4), [irr(1, 1), reg], (S, S), S=S, margin=20.)
    n('flip', 'MaskModule', FL(math.pi / 4), [reg], (5, 5), S=5, margin=5.)
    n('o2', 'MaskModule', O2(), [irr(1, 1)], (4, 4), S=4)
    if tier == 'thorough':
        for k in (1, 2, 3, 4):
            for s in (1, 2, 3):
                for p in (0, 1):
                    for d in (1, 2):
                        for q in (1, 2):
                            h = q * s + d * (k - 1) + 1 - 2 * p
                            if h < 2 or h > 7 or p > k // 2 or (d > 1 and k == 1):
                                continue
                            nm = f'geom-k{k}s{s}p{p}d{d}h{h}'
                            n(nm, 'PointwiseMaxPool', R(4), [reg], (h, h), kernel_size=k, stride=s, padding=p, dilation=d)
                            n(nm, 'NormMaxPool', FR(4), [irr(1, 1), triv], (h, h), oracle=no, kernel_size=k, stride=s, padding=p, dilation=d)
                            if d == 1:
                                n(nm, 'PointwiseAvgPool', FR(4), [irr(1, 1), triv], (h, h), kernel_size=k, stride=s, padding=p)
                                n(nm, 'PointwiseMaxPoolAntialiased', R(4), [reg], (h, h), kernel_size=k, stride=1, padding=p, sigma=0.3)
    return C
