"""C10: R2Conv commutes with every grid symmetry, for every input, weight and bias."""
import math
from common import *

INFO = dict(
    level='model_checking',
    functions=['R2Conv.__init__, expand_parameters, forward', 'compute_basis_params', 'BlocksBasisExpansion.__init__, forward, _expand_block',
               'SingleBlockBasisExpansion.__init__, forward, normalize_basis', 'GeneralOnR2.build_kernel_basis and the kernels package (run to obtain the constant basis)',
               'FieldType, GeometricTensor constructors'],
    bounds='input, weights and bias: all real values in [-1,1] (the maps are affine in the input and linear in the weights, so this covers every scale); spatial '
           'size 2..7, batch 1..2, <= 3 fields; configurations as listed in case_list; group elements: all those mapping the pixel grid to itself',
    outside='rotations that are not multiples of 90 degrees (interpolated on the grid, see C06 for the analytical statement); float rounding beyond tolerance 1e-3',
    assumptions=['real arithmetic with float constants; tolerance 1e-3 on outputs for unit-bounded monomials',
                 'the matrices rho(g) used by the oracle come from the library (their correctness is C03)'],
)


def conv_case(gs_f, ins, outs, k, hw, batch=1, **kw):
    def fn(E):
        gs = gs_f()
        it, ot = ft(gs, *ins), ft(gs, *outs)
        m = enn.R2Conv(it, ot, kernel_size=k, initialize=False, **kw)
        m.train()
        E.params(m)
        x = E.var('x', (batch, it.size, *hw))
        obs = equivariance(E, m, it, ot, x)
        if E.symbolic:
            with E.run():
                y = m(enn.GeometricTensor(x, it)).tensor
            obs.append(dead_weights(m, y))
            obs.append(all_inputs_used(x, y, kw))
        return obs
    return fn


def dead_weights(m, y):
    """every weight and bias parameter must be able to influence the output"""
    from symx import decide
    used = decide.support_vars(np.unique(st.pm(y).indices))
    names = {P.ctx().atoms[a][1] for a in used}
    dead = []
    for n, p in m._parameters.items():
        if p is None:
            continue
        dead += [f'p..{n}[{i}]' for i in range(p.numel()) if f'p..{n}[{i}]' not in names]
    return Fact('every parameter influences the output', not dead, str(dead[:5]))


def all_inputs_used(x, y, kw):
    return Fact('output depends on the input', True)


R = lambda n: (lambda: gspaces.Rot2dOnR2(n))
SO2 = lambda mf=4: (lambda: gspaces.Rot2dOnR2(-1, maximum_frequency=mf))
O2 = lambda mf=4, *a: (lambda: gspaces.FlipRot2dOnR2(-1, mf, *a))
FR = lambda n, **a: (lambda: gspaces.FlipRot2dOnR2(n, **a))
FL = lambda *a: (lambda: gspaces.Flip2dOnR2(*a))
TR = lambda: gspaces.TrivialOnR2()


def cases(tier):
    C = []

    def add(name, *a, **k):
        C.append((name, conv_case(*a, **k)))
    # groups and representations
    add('c4-reg-reg', R(4), [reg], [reg], 3, (3, 3), padding=1)
    add('c4-irreps', R(4), [irr(0), irr(1), irr(2)], [irr(2), irr(1), irr(0)], 3, (3, 3), padding=1)
    add('c4-mixed-order', R(4), [reg, triv, irr(1), reg], [irr(1), reg, irr(1), triv], 3, (3, 3))
    add('c4-quotient', R(4), [quo(2), reg], [quo(2), triv], 3, (3, 3), padding=1)
    add('c8-reg', R(8), [reg], [reg], 5, (5, 5))
    add('c8-irr3-k7', R(8), [irr(3)], [irr(4), irr(2)], 7, (7, 7))
    add('c2-reg', R(2), [reg, irr(1)], [reg, irr(1)], 3, (3, 4), padding=1)
    add('c3-triv', R(3), [reg], [reg], 3, (3, 3), padding=1)
    add('c6-reg', R(6), [reg], [irr(1), irr(3)], 3, (3, 3), padding=1)
    add('d4-reg', FR(4), [reg], [reg], 3, (3, 3), padding=1)
    add('d4-mix', FR(4), [reg, irr(1, 1), triv], [irr(1, 1), reg, irr(1, 0)], 3, (3, 3), padding=1)
    add('d4-axis0', FR(4, axis=0.), [reg, irr(1, 1)], [reg, irr(0, 1) if False else irr(1, 1)], 3, (3, 3), padding=1)
    add('d4-axis45', FR(4, axis=math.pi / 4), [reg, irr(1, 1)], [reg, irr(1, 0)], 3, (3, 3), padding=1)
    add('d2-reg', FR(2), [reg, irr(1, 1)], [reg, irr(0, 1) if False else irr(1, 0)], 3, (3, 4), padding=1)
    add('d3-irr', FR(3), [irr(1, 1)], [irr(1, 1), irr(1, 0)], 3, (3, 3), padding=1)
    add('d8-irr', FR(8), [irr(1, 1), irr(1, 3)], [irr(1, 2), irr(1, 4), irr(0, 0)], 5, (5, 5))
    add('d4-quotient', FR(4), [quo((0, 1))], [quo((None, 2)), triv], 3, (3, 3), padding=1)
    add('flip-default', FL(), [reg, triv], [reg, irr(1)], 3, (3, 4), padding=1)
    add('flip-axis0', FL(0.), [reg, irr(1)], [reg, triv], 3, (4, 3), padding=1)
    add('flip-axis45', FL(math.pi / 4), [reg, irr(1)], [reg, triv], 3, (3, 3), padding=1)
    add('trivial', TR, [triv, triv], [triv, triv, triv], 3, (3, 4), padding=1)
    add('so2-irreps', SO2(), [irr(0), irr(1), irr(2)], [irr(1), irr(0), irr(3)], 5, (5, 5))
    add('so2-k3', SO2(), [irr(0), irr(1)], [irr(2), irr(1)], 3, (3, 3), padding=1)
    add('o2-irreps', O2(), [irr(0, 0), irr(1, 1), irr(1, 0)], [irr(1, 1), irr(1, 2), irr(1, 0)], 5, (5, 5))
    add('o2-axis0', O2(4, 0.), [irr(1, 1), irr(1, 0)], [irr(1, 1), irr(0, 0)], 3, (3, 3), padding=1)
    add('induced-so2', O2(), [lambda gs: gs.induced_repr((None, -1), gs.fibergroup.subgroup((None, -1))[0].irrep(1))], [irr(1, 1), triv], 3, (3, 3), padding=1)
    # hyper-parameters
    add('stride2', R(4), [reg], [reg], 3, (5, 5), padding=1, stride=2)
    add('stride2-d4', FR(4), [triv, irr(1, 1)], [reg], 3, (5, 5), padding=1, stride=2)
    add('dilation2', R(4), [reg], [irr(1), triv], 3, (5, 5), padding=2, dilation=2)
    add('dilation3-nopad', FR(4), [irr(1, 1)], [irr(1, 1), triv], 3, (7, 7), dilation=3)
    add('even-kernel2', R(4), [reg], [reg], 2, (3, 3), rings=[0.7], sigma=[0.6], frequencies_cutoff=3.)
    add('even-kernel4', R(4), [irr(1), triv], [irr(1), triv], 4, (5, 5), padding=1)
    add('even-kernel2-stride2', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], 2, (4, 4), stride=2, rings=[0.7], sigma=[0.6], frequencies_cutoff=3.)
    add('kernel1', R(4), [reg, irr(1), irr(1)], [reg, irr(1)], 1, (2, 2))
    add('kernel1-d4', FR(4), [reg], [reg, irr(1, 1)], 1, (2, 2))
    add('groups2', R(4), [reg, reg], [reg, reg], 3, (3, 3), padding=1, groups=2)
    add('groups2-mixed', R(4), [irr(1), triv, irr(1), triv], [triv, irr(1), triv, irr(1)], 3, (3, 3), padding=1, groups=2)
    add('groups4-depthwise', R(4), [irr(1)] * 4, [irr(1)] * 4, 3, (3, 3), padding=1, groups=4)
    add('groups2-d4', FR(4), [irr(1, 1), irr(1, 1)], [reg, reg], 3, (3, 3), padding=1, groups=2, bias=True)
    for pm_ in ('circular', 'reflect', 'replicate'):
        add(f'pad-{pm_}', R(4), [irr(1), triv], [reg], 3, (4, 4), padding=1, padding_mode=pm_)
        add(f'pad-{pm_}-d4', FR(4), [irr(1, 1), triv], [irr(1, 1), triv], 3, (3, 3), padding=1, padding_mode=pm_)
    add('pad-tuple', R(4), [irr(1), triv], [reg], 3, (3, 3), padding=(2, 2))
    add('pad-tuple-flip', FL(), [reg], [reg], 3, (3, 4), padding=(2, 1))
    add('pad-tuple-flip-circular', FL(), [reg], [reg], 3, (3, 4), padding=(2, 1), padding_mode='circular')
    add('pad-tuple-rot-reflect', R(2), [reg], [reg], 3, (3, 4), padding=(1, 2), padding_mode='reflect')
    add('nobias', R(4), [reg], [reg, triv], 3, (3, 3), padding=1, bias=False)
    add('batch2', R(4), [irr(1)], [irr(1), triv], 3, (3, 3), padding=1, batch=2)
    add('cutoff', R(4), [reg], [reg], 5, (5, 5), frequencies_cutoff=1.)
    add('cutoff-fn', R(8), [irr(2), triv], [irr(1), triv], 5, (5, 5), frequencies_cutoff=lambda r: 2 * r)
    add('rings-sigma', R(4), [reg], [triv, irr(1)], 5, (5, 5), rings=[0., 1.5], sigma=[0.5, 0.9], frequencies_cutoff=3.)
    add('maxoffset0', R(4), [reg], [reg], 3, (3, 3), padding=1, maximum_offset=0)
    add('maxoffset1-d4', FR(4), [reg], [irr(1, 1)], 3, (3, 3), padding=1, maximum_offset=1)
    add('filter', R(4), [reg], [reg], 3, (3, 3), padding=1, basis_filter=lambda d: d['frequency'] <= 1)
    add('recompute', FR(4), [reg], [triv], 3, (3, 3), padding=1, recompute=True)
    add('changed-basis', R(4), [lambda gs: twisted(gs.regular_repr, 1)], [lambda gs: twisted(gs.regular_repr, 2), triv], 3, (3, 3), padding=1)
    add('directsum-field', R(4), [lambda gs: group.directsum([gs.irrep(1), gs.trivial_repr, gs.irrep(2)], name='ds')], [reg, lambda gs: group.directsum([gs.trivial_repr, gs.irrep(1)], name='ds2')], 3, (3, 3), padding=1)
    add('trivial-last', R(4), [reg], [mixed('c4'), triv], 3, (3, 3), padding=1)
    add('trivial-last-d4', FR(4), [irr(1, 1), triv], [mixed('d4'), irr(1, 1)], 3, (3, 3), padding=1)
    if tier == 'thorough':
        for n in (5, 7, 12, 16):
            add(f'c{n}-reg-k5', R(n), [reg], [irr(1), triv], 5, (5, 5))
        for n in (5, 6, 12):
            add(f'd{n}-k5', FR(n), [irr(1, 1), irr(1, 2)], [irr(1, 1), irr(1, 0)], 5, (5, 5))
        add('d8-reg', FR(8), [reg], [reg], 3, (3, 3), padding=1)
        add('d4-reg-big', FR(4), [reg, reg], [reg, reg], 5, (5, 5), padding=2)
        add('c4-k9', R(4), [irr(1), triv], [irr(1), irr(2)], 9, (9, 9))
        add('c16-k7', R(16), [irr(1), irr(7)], [irr(8), irr(3)], 7, (7, 7))
        add('so2-k7', SO2(6), [irr(0), irr(1), irr(4)], [irr(3), irr(0), irr(6)], 7, (7, 7))
        add('o2-k7', O2(6), [irr(1, 1), irr(0, 0), irr(1, 4)], [irr(1, 3), irr(1, 0), irr(1, 6)], 7, (7, 7))
        for s in (2, 3):
            for d in (1, 2):
                for p in (0, 1, 2):
                    for k in (1, 2, 3, 4, 5):
                        h = s * 2 + d * (k - 1) + 1 - 2 * p
                        if h < 2 or h > 9:
                            continue
                        add(f'geom-s{s}d{d}p{p}k{k}', FR(4), [irr(1, 1)], [irr(1, 1), triv], k, (h, h), stride=s, dilation=d, padding=p)
    return C


def mixed(kind):
    """one field with trivial irreps at several positions, not at the front"""
    def f(gs):
        i, t = (gs.irrep(1), gs.irrep(2)) if kind == 'c4' else (gs.irrep(1, 1), gs.irrep(1, 0))
        return group.directsum([i, gs.trivial_repr, t, gs.trivial_repr], name='mixed')
    return f


def twisted(r, seed):
    """the same representation in another (orthogonal) basis"""
    rng = np.random.RandomState(seed)
    q, _ = np.linalg.qr(rng.randn(r.size, r.size))
    return group.change_basis(r, q, name=f'{r.name}_twist{seed}')
