"""C11: R2ConvTransposed and R2Diffop commute with every grid symmetry, for every input, weight and bias."""
import math
import warnings
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted, mixed, dead_weights

warnings.simplefilter('ignore')

INFO = dict(
    level='model_checking',
    functions=['R2ConvTransposed.__init__, expand_parameters, forward', 'R2Diffop.__init__, expand_parameters, forward', 'compute_basis_params of both',
               'BlocksBasisExpansion, SingleBlockBasisExpansion', 'GeneralOnR2.build_kernel_basis, build_diffop_basis (run to obtain the constant basis)'],
    bounds='input, weights and bias: all real values in [-1,1] (the maps are affine in the input and linear in the weights); spatial size 2..6, batch 1..2, <= 4 fields; '
           'configurations as listed in case_list; group elements: all those mapping the pixel grid to itself',
    outside='rotations that are not multiples of 90 degrees; output_padding > 0 (the output grid is then not centred); RBF-FD and gaussian discretisations (package rbf not installed)',
    assumptions=['real arithmetic with float constants; tolerance 1e-3', 'the matrices rho(g) used by the oracle come from the library (C03)'],
)


def layer_case(cls, gs_f, ins, outs, hw, batch=1, scale=1.0, **kw):
    def fn(E):
        gs = gs_f()
        it, ot = ft(gs, *ins), ft(gs, *outs)
        m = getattr(enn, cls)(it, ot, initialize=False, **kw)
        m.train()
        E.params(m)
        x = E.var('x', (batch, it.size, *hw))
        obs = equivariance(E, m, it, ot, x)
        if E.symbolic and not kw.get('free'):
            with E.run():
                y = m(enn.GeometricTensor(x, it)).tensor
            obs.append(dead_weights(m, y))
        return obs
    return fn


def cases(tier):
    C = []

    def t(name, gs, ins, outs, k, hw, **kw):
        C.append(('transposed-' + name, layer_case('R2ConvTransposed', gs, ins, outs, hw, kernel_size=k, **kw)))

    def d(name, gs, ins, outs, hw, **kw):
        C.append(('diffop-' + name, layer_case('R2Diffop', gs, ins, outs, hw, **kw)))

    t('c4-reg', R(4), [reg], [reg], 3, (2, 2))
    t('c4-mixed', R(4), [reg, triv, irr(1)], [irr(1), reg, triv], 3, (2, 3))
    t('c8-irreps', R(8), [irr(1), irr(3)], [irr(2), irr(4), irr(0)], 5, (2, 2))
    t('d4-reg', FR(4), [reg], [reg], 3, (2, 2))
    t('d4-mixed', FR(4), [irr(1, 1), triv, irr(1, 0)], [irr(1, 0), irr(1, 1), triv], 3, (3, 3), padding=1)
    t('d4-axis0', FR(4, axis=0.), [irr(1, 1), triv], [irr(1, 1), reg], 3, (2, 2))
    t('d3', FR(3), [irr(1, 1)], [irr(1, 1), irr(1, 0)], 3, (2, 2))
    t('flip', FL(), [reg, triv], [irr(1), reg], 3, (2, 3))
    t('trivial', TR, [triv], [triv, triv], 3, (2, 3))
    t('so2', SO2(), [irr(0), irr(1)], [irr(2), irr(1), irr(0)], 3, (3, 3))
    t('o2', O2(), [irr(1, 1), irr(1, 0)], [irr(1, 2), irr(1, 1), triv], 5, (2, 2))
    t('stride2', R(4), [irr(1), triv], [reg], 3, (2, 2), stride=2)
    t('stride2-pad1', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], 3, (3, 3), stride=2, padding=1)
    t('stride2-k4', R(4), [irr(1), triv], [irr(1), triv], 4, (3, 3), stride=2, padding=1)
    t('stride3', R(4), [irr(1), triv], [irr(1), triv], 3, (2, 2), stride=3)
    t('dilation2', R(4), [irr(1), triv], [irr(1), triv], 3, (2, 2), dilation=2)
    t('dilation2-stride2', FR(4), [irr(1, 1)], [irr(1, 1), triv], 3, (2, 2), dilation=2, stride=2)
    t('kernel2', R(4), [irr(1), triv], [irr(1), triv], 2, (2, 2), rings=[0.7], sigma=[0.6], frequencies_cutoff=3.)
    t('kernel1', R(4), [reg, irr(1)], [reg, irr(1)], 1, (2, 2))
    t('groups2', R(4), [reg, reg], [irr(1), irr(1)], 3, (2, 2), groups=2)
    t('groups2-mixed', R(4), [irr(1), triv, irr(1), triv], [triv, irr(2), irr(1), triv, irr(2), irr(1)], 3, (2, 2), groups=2)
    t('groups4', FR(4), [irr(1, 1)] * 4, [irr(1, 1)] * 4, 3, (2, 2), groups=4)
    t('nobias', R(4), [reg], [reg], 3, (2, 2), bias=False)
    t('batch2', R(4), [irr(1), triv], [irr(1), triv], 3, (2, 2), batch=2)
    t('cutoff', R(4), [reg], [reg], 5, (2, 2), frequencies_cutoff=1.)
    t('rings', R(4), [reg], [irr(1)], 5, (2, 2), rings=[0., 1.3], sigma=[0.5, 0.8], frequencies_cutoff=2.)
    t('maxoffset1', FR(4), [reg], [irr(1, 1)], 3, (2, 2), maximum_offset=1)
    t('changed-basis', R(4), [lambda gs: twisted(gs.regular_repr, 1)], [lambda gs: twisted(gs.regular_repr, 2), triv], 3, (2, 2))
    t('quotient', FR(4), [quo((0, 1))], [quo((None, 2)), triv], 3, (2, 2))

    t('trivial-last', R(4), [irr(1)], [mixed('c4'), triv], 3, (2, 2))
    t('trivial-last-d4', FR(4), [triv], [mixed('d4'), irr(1, 1)], 3, (2, 2))
    d('trivial-last', R(4), [irr(1)], [mixed('c4'), triv], (3, 3), kernel_size=3, padding=1)
    d('trivial-last-d4', FR(4), [triv], [mixed('d4'), irr(1, 1)], (3, 3), kernel_size=3, padding=1)

    d('c4-reg', R(4), [reg], [reg], (3, 3), kernel_size=3, padding=1)
    d('c4-mixed', R(4), [reg, triv, irr(1)], [irr(1), reg, irr(2)], (3, 4), kernel_size=3, padding=1)
    d('c4-k5', R(4), [irr(1), triv, irr(2)], [irr(1), triv, irr(2)], (5, 5), kernel_size=5)
    d('c8', R(8), [irr(1), irr(3)], [irr(2), irr(4), irr(0)], (5, 5), kernel_size=5)
    d('d4-reg', FR(4), [reg], [reg], (3, 3), kernel_size=3, padding=1)
    d('d4-mixed', FR(4), [irr(1, 1), triv, irr(1, 0)], [irr(1, 0), irr(1, 1), triv], (3, 3), kernel_size=3, padding=1)
    d('d4-k5', FR(4), [irr(1, 1), triv], [irr(1, 2), irr(0, 2), irr(1, 1), triv], (5, 5), kernel_size=5)
    d('d4-axis0', FR(4, axis=0.), [irr(1, 1), triv], [irr(1, 1), reg], (3, 3), kernel_size=3, padding=1)
    d('d4-axis45', FR(4, axis=math.pi / 4), [irr(1, 1), triv], [irr(1, 1), reg], (3, 3), kernel_size=3, padding=1)
    d('d3', FR(3), [irr(1, 1), triv], [irr(1, 1), irr(1, 0)], (5, 5), kernel_size=5)
    d('flip', FL(), [reg, triv], [irr(1), reg], (3, 4), kernel_size=3, padding=1)
    d('flip-axis0', FL(0.), [reg, triv], [irr(1), reg], (3, 4), kernel_size=3, padding=1)
    d('flip-axis45', FL(math.pi / 4), [reg, triv], [irr(1), reg], (3, 3), kernel_size=3, padding=1)
    d('trivial', TR, [triv], [triv, triv], (3, 4), kernel_size=3, padding=1)
    d('so2', SO2(), [irr(0), irr(1)], [irr(2), irr(1), irr(0)], (5, 5), kernel_size=5)
    d('o2', O2(), [irr(1, 1), irr(1, 0)], [irr(1, 2), irr(1, 1), triv], (5, 5), kernel_size=5)
    d('o2-axis0', O2(4, 0.), [irr(1, 1), irr(1, 0)], [irr(1, 1), triv], (3, 3), kernel_size=3, padding=1)
    d('order1', R(4), [reg], [reg], (3, 3), maximum_order=1, padding=1)
    d('order2-accuracy4', R(4), [irr(1), triv], [irr(1), triv], (5, 5), maximum_order=2, accuracy=4)
    d('k5-accuracy4', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], (5, 5), kernel_size=5, accuracy=4)
    d('k5-order1', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], (5, 5), kernel_size=5, maximum_order=1)
    d('kernel1', R(4), [reg], [reg], (2, 2), kernel_size=1)
    d('kernel4', R(4), [irr(1), triv], [irr(1), triv], (4, 4), kernel_size=4)
    d('kernel2', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], (3, 3), kernel_size=2, accuracy=1)
    d('power0', R(4), [irr(1), triv], [irr(1), triv], (5, 5), kernel_size=5, maximum_power=0)
    d('offset0', R(4), [irr(1), triv], [irr(1), triv], (5, 5), kernel_size=5, maximum_offset=0)
    d('stride2', R(4), [irr(1), triv], [irr(1), triv], (5, 5), kernel_size=3, stride=2, padding=1)
    d('dilation2', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], (5, 5), kernel_size=3, dilation=2)
    d('groups2', R(4), [reg, reg], [irr(1), irr(1)], (3, 3), kernel_size=3, padding=1, groups=2)
    d('groups2-mixed', R(4), [irr(1), triv, irr(1), triv], [triv, irr(2), irr(1), triv, irr(2), irr(1)], (3, 3), kernel_size=3, padding=1, groups=2)
    d('circular', R(4), [irr(1), triv], [reg], (3, 3), kernel_size=3, padding=1, padding_mode='circular')
    d('reflect', FR(4), [irr(1, 1), triv], [reg], (3, 3), kernel_size=3, padding=1, padding_mode='reflect')
    d('replicate', FR(4), [irr(1, 1), triv], [reg], (3, 3), kernel_size=3, padding=1, padding_mode='replicate')
    d('pad-tuple', FL(), [reg, triv], [reg], (3, 4), kernel_size=3, padding=(2, 1))
    d('pad-tuple-circular', FL(), [reg, triv], [reg], (3, 4), kernel_size=3, padding=(2, 1), padding_mode='circular')
    d('nobias', R(4), [reg], [reg], (3, 3), kernel_size=3, bias=False)
    d('filter', R(4), [reg], [reg], (3, 3), kernel_size=3, padding=1, basis_filter=lambda a: a['order'] <= 1)
    d('changed-basis', R(4), [lambda gs: twisted(gs.regular_repr, 1)], [lambda gs: twisted(gs.regular_repr, 2), triv], (3, 3), kernel_size=3, padding=1)
    d('recompute', FR(4), [reg], [triv], (3, 3), kernel_size=3, padding=1, recompute=True)
    if tier == 'thorough':
        for n in (2, 3, 5, 6, 8, 12):
            t(f'c{n}-reg', R(n), [reg], [reg, triv], 3, (3, 3), stride=2)
            d(f'c{n}-reg', R(n), [reg], [reg, triv], (5, 5), kernel_size=5)
            t(f'd{n}-irr', FR(n), [irr(1, 1), triv], [irr(1, 1), irr(1, 0)], 5, (3, 3))
            d(f'd{n}-irr', FR(n), [irr(1, 1), triv], [irr(1, 1), irr(1, 0)], (5, 5), kernel_size=5)
        d('k7', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], (7, 7), kernel_size=7)
        for s in (1, 2, 3):
            for di in (1, 2):
                for p in (0, 1, 2):
                    for k in (1, 2, 3, 4, 5):
                        if 2 * s + di * (k - 1) + 1 - 2 * p < 1:
                            continue
                        kw = dict(rings=[0.5], sigma=[0.6], frequencies_cutoff=3.) if k == 2 else {}
                        t(f'geom-s{s}d{di}p{p}k{k}', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], k, (3, 3), stride=s, dilation=di, padding=p, **kw)
    return C
