"""C12: training mode, evaluation mode and the exported PyTorch module compute the same function."""
import math
import warnings
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from c15 import free_state
from collections import OrderedDict

warnings.simplefilter('ignore')

INFO = dict(
    level='model_checking',
    functions=['train, eval, forward, expand_parameters and export of R2Conv, R2ConvTransposed, R2Diffop',
               'export and forward of InnerBatchNorm, ReLU, ELU, PointwiseDropout, PointwiseMaxPool, PointwiseMaxPoolAntialiased, PointwiseAdaptiveMaxPool, '
               'PointwiseAdaptiveAvgPool, R2Upsampling, GroupPooling, IdentityModule, RestrictionModule, SequentialModule, ModuleList; MaxPoolChannels, FixedConv2D'],
    bounds='input, weights, bias, affine parameters and running statistics: all real values in the ranges of the symbolic variables ([-1,1], variances in [0.01,2]); '
           'every history of up to 4 steps drawn from {train, eval, change weights in place, export} on each convolution class (quick: the listed ones); '
           'spatial size 2..7, <= 4 fields, configurations as listed',
    outside='weights changed while the module is in evaluation mode (documented to take effect at the next switch); state_dict round trips; quantised modules',
    assumptions=['real arithmetic with float constants; tolerance 1e-3'],
)


def junk_hook(E):
    """random initialisation of the torch modules built by export(): arbitrary values"""
    cnt = [0]

    def hook(name, shape, info):
        cnt[0] += 1
        return E.var(f'init{cnt[0]}', shape)
    return hook


def do_export(E, m):
    if E.symbolic:
        st.RAND['hook'] = junk_hook(E)
    try:
        with E.run():
            return m.export()
    finally:
        st.RAND['hook'] = None


def run(E, m, x, it):
    # the input is copied: in-place layers may overwrite it
    with E.run():
        return m(enn.GeometricTensor(x.clone(), it)).tensor


def plain(E, m, x):
    with E.run():
        return m(x.clone())


def change(E, m, tag):
    """overwrite every parameter in place, as an optimiser step does"""
    with E.run():
        for mn, mod in m.named_modules():
            for pn, p in mod._parameters.items():
                if p is None:
                    continue
                p.data.copy_(E.var(f'{tag}.{mn}.{pn}', p.shape))


def swap(E, m, tag):
    """replace the parameters by new tensors"""
    E.params(m, prefix=tag)


HISTORIES = ['T', 'TE', 'ETE', 'TcE', 'TcEE', 'TcETcE', 'cX', 'TX', 'XTcX', 'TcEX', 'XXE', 'XTcE', 'ETcX', 'TcsE', 'XTcTE', 'EXE']


def conv_case(cls, gs_f, ins, outs, hw, histories=('TcE', 'TcETcE', 'cX'), **kw):
    def fn(E):
        gs = gs_f()
        it, ot = ft(gs, *ins), ft(gs, *outs)
        obs = []
        for h in histories:
            m = getattr(enn, cls)(it, ot, initialize=False, **kw)
            E.params(m, prefix=h)
            # the function the layer has to compute, before any mode switch of this history
            x = E.var('x', (1, it.size, *hw))
            cur = run(E, m, x, it)      # freshly built modules are in training mode
            n = 0
            for k, op in enumerate(h):
                if op in 'cs':
                    n += 1
                    (change if op == 'c' else swap)(E, m, f'{h}.w{n}')
                    if m.training:
                        cur = run(E, m, x, it)
                elif op == 'T':
                    with E.run():
                        m.train()
                    y = run(E, m, x, it)
                    obs.append(Eq(f'{h}[{k}] training', y, cur))
                elif op == 'E':
                    with E.run():
                        m.eval()
                    y = run(E, m, x, it)
                    obs.append(Eq(f'{h}[{k}] evaluation == training', y, cur))
                elif op == 'X':
                    e = do_export(E, m)
                    y = plain(E, e, x)
                    obs.append(Fact(f'{h}[{k}] module left in evaluation mode', not m.training))
                    obs.append(Eq(f'{h}[{k}] exported == training', y, cur))
                    obs.append(Eq(f'{h}[{k}] evaluation after export', run(E, m, x, it), cur))
                    with E.run():
                        e.eval()
                    obs.append(Eq(f'{h}[{k}] exported (eval)', plain(E, e, x), cur))
        return obs
    return fn


def export_case(build, hw, variables=None, batch=1, lo=-1.0, hi=1.0):
    """exported module == evaluation mode of the module, for all inputs and parameters"""
    def fn(E):
        m, it = build()
        E.params(m)
        if variables:
            variables(E, m)
        x = E.var('x', (batch, it.size, *hw), lo, hi)
        with E.run():
            m.eval()
        y = run(E, m, x, it)
        with E.run():
            m.train()
        e = do_export(E, m)
        z = plain(E, e, x)
        obs = [Fact('module left in evaluation mode', not any(k.training for k in m.modules())), Eq('exported == evaluation', z, y),
               Fact('shape', tuple(z.shape) == tuple(y.shape), f'{tuple(z.shape)} {tuple(y.shape)}'), Eq('evaluation after export', run(E, m, x, it), y)]
        with E.run():
            e.eval()
        obs.append(Eq('exported.eval()', plain(E, e, x), y))
        # and nothing in it depends on the equivariant module any more
        return obs
    return fn


def bn_state(E, m):
    free_state(E, m)


def cases(tier):
    C = []
    th = tier == 'thorough'

    def c(name, cls, gs, ins, outs, hw, **kw):
        C.append((name, conv_case(cls, gs, ins, outs, hw, **kw)))

    # every listed history, on one small configuration of each class
    for h in HISTORIES:
        c(f'conv-{h}', 'R2Conv', R(4), [reg, irr(1)], [irr(1), triv, reg], (3, 3), kernel_size=3, padding=1, histories=(h,))
        c(f'transposed-{h}', 'R2ConvTransposed', R(4), [irr(1), triv], [irr(1), reg], (2, 2), kernel_size=3, stride=2, padding=1, output_padding=1, histories=(h,))
        c(f'diffop-{h}', 'R2Diffop', R(4), [irr(1), triv], [irr(1), reg], (3, 3), kernel_size=3, padding=1, histories=(h,))
    H = ('TcETcE', 'TcXTcX')
    for gname, gs, ins, outs in [
        ('d4', FR(4), [reg, irr(1, 1)], [irr(1, 1), triv, irr(1, 0)]),
        ('c3', R(3), [reg], [irr(1), reg]),
        ('flip', FL(), [reg, triv], [irr(1), reg]),
        ('so2', SO2(), [irr(0), irr(1)], [irr(2), irr(0), irr(1)]),
        ('o2', O2(), [irr(1, 1), irr(0, 0)], [irr(1, 2), irr(1, 0), irr(0, 0)]),
        ('trivial', TR, [triv], [triv, triv]),
        ('twisted', R(4), [lambda g: twisted(g.regular_repr, 1)], [lambda g: twisted(g.regular_repr, 2), triv]),
    ]:
        c(f'conv-{gname}', 'R2Conv', gs, ins, outs, (3, 3), kernel_size=3, histories=H)
        c(f'transposed-{gname}', 'R2ConvTransposed', gs, ins, outs, (2, 2), kernel_size=3, histories=H)
        c(f'diffop-{gname}', 'R2Diffop', gs, ins, outs, (3, 3), kernel_size=3, histories=H)
    a, b = [irr(1), triv], [irr(1), reg]
    for name, kw in [
        ('nobias', dict(bias=False)), ('no-trivial-bias', dict(o=[irr(1), irr(2)])), ('stride2', dict(stride=2)), ('pad2', dict(padding=2)), ('dilation2', dict(dilation=2, hw=(5, 5))),
        ('circular', dict(padding=1, padding_mode='circular')), ('reflect', dict(padding=1, padding_mode='reflect')), ('replicate', dict(padding=1, padding_mode='replicate')),
        ('padtuple', dict(padding=(2, 1))), ('padtuple-circular', dict(padding=(2, 1), padding_mode='circular')), ('padtuple-reflect', dict(padding=(2, 1), padding_mode='reflect', hw=(4, 3))),
        ('groups2', dict(i=[irr(1), triv] * 2, o=[reg, triv] * 2, groups=2)), ('groups2-circular', dict(i=[irr(1), triv] * 2, o=[reg, triv] * 2, groups=2, padding=1, padding_mode='circular')),
        ('rect', dict(hw=(3, 4))), ('kernel5', dict(kernel_size=5, hw=(5, 5))), ('kernel1', dict(kernel_size=1)), ('everything', dict(stride=2, dilation=2, padding=(1, 2), padding_mode='replicate', hw=(5, 6), i=[irr(1), triv] * 2, o=[reg, triv] * 2, groups=2, bias=False)),
    ]:
        kw = dict(kw)
        i, o, hw, k = kw.pop('i', a), kw.pop('o', b), kw.pop('hw', (3, 3)), kw.pop('kernel_size', 3)
        c(f'conv-{name}', 'R2Conv', R(4), i, o, hw, kernel_size=k, histories=('TcXTcX',), **kw)
        c(f'diffop-{name}', 'R2Diffop', R(4), i, o, hw, kernel_size=k, histories=('TcXTcX',), **kw)
    for name, kw in [
        ('nobias', dict(bias=False)), ('no-trivial-bias', dict(o=[irr(1), irr(2)])), ('stride2', dict(stride=2)), ('pad1', dict(padding=1)), ('dilation2', dict(dilation=2)),
        ('outpad', dict(stride=3, output_padding=2)), ('outpad-dil', dict(stride=2, dilation=3, output_padding=1)), ('groups2', dict(i=[irr(1), triv] * 2, o=[reg, triv] * 2, groups=2)),
        ('everything', dict(stride=2, dilation=2, padding=1, output_padding=1, i=[irr(1), triv] * 2, o=[reg, triv] * 2, groups=2, bias=False)), ('rect', dict(hw=(3, 2))), ('kernel5', dict(kernel_size=5)),
    ]:
        kw = dict(kw)
        i, o, hw, k = kw.pop('i', a), kw.pop('o', b), kw.pop('hw', (2, 2)), kw.pop('kernel_size', 3)
        c(f'transposed-{name}', 'R2ConvTransposed', R(4), i, o, hw, kernel_size=k, histories=('TcXTcX',), **kw)

    def x(name, build, hw, **kw):
        C.append((f'export-{name}', export_case(build, hw, **kw)))

    def L(cls, gs, fields, *args, **kw):
        def build():
            it = ft(gs(), *fields)
            return getattr(enn, cls)(it, *args, **kw), it
        return build

    RR = [reg, reg, triv]
    x('identity', L('IdentityModule', R(4), [reg, irr(1)]), (2, 3))
    x('restriction', L('RestrictionModule', FR(4), [reg, irr(1, 1)], (None, 2)), (2, 3))
    x('restriction-o2', L('RestrictionModule', O2(), [irr(1, 1)], (None, 4)), (2, 2))
    x('relu', L('ReLU', R(4), RR), (2, 3))
    x('relu-inplace', L('ReLU', R(4), RR, inplace=True), (2, 3))
    x('elu', L('ELU', R(4), RR), (2, 2))
    x('elu-alpha', L('ELU', R(4), RR, alpha=0.3), (2, 2))
    x('elu-alpha-inplace', L('ELU', R(4), RR, alpha=1.7, inplace=True), (2, 2))
    x('dropout', L('PointwiseDropout', R(4), RR, p=0.3), (2, 2))
    x('dropout-inplace', L('PointwiseDropout', R(4), RR, p=0.6, inplace=True), (2, 2))
    for k, s, p, d, cm, hw in [(2, None, 0, 1, False, (4, 5)), (3, 2, 1, 1, False, (5, 5)), (2, 2, 0, 1, True, (5, 4)), (3, 1, 1, 1, False, (3, 3)), (2, 2, 1, 1, True, (4, 4)),
                               (2, 1, 0, 2, False, (4, 4)), (2, 3, 1, 2, True, (6, 5)), ((2, 3), (1, 2), (0, 1), 1, False, (4, 5)), ((3, 2), (2, 1), (1, 0), (1, 2), True, (5, 4))]:
        x(f'maxpool-{k}-{s}-{p}-{d}-{cm}'.replace(' ', ''), L('PointwiseMaxPool', R(4), [reg], k, s, p, d, cm), hw)
    for k, s, p, d, sg, hw in [(2, None, 0, 1, 0.6, (5, 5)), (3, 2, 1, 1, 0.6, (5, 5)), (3, 1, 1, 1, 0.9, (4, 4)), (2, 2, 1, 1, 0.4, (6, 6)), (3, 2, 0, 1, 0.66, (5, 6)), (3, (1, 2), (1, 0), 1, 0.6, (5, 5))]:
        x(f'maxpool-aa-{k}-{s}-{p}-{d}-{sg}'.replace(' ', ''), L('PointwiseMaxPoolAntialiased', R(4), [triv, triv], k, s, p, d, sigma=sg), hw)
    x('maxpool-aa-ceil', L('PointwiseMaxPoolAntialiased', R(4), [triv], 3, 2, 1, ceil_mode=True), (5, 6))
    for o, hw in [(1, (3, 3)), (2, (5, 4)), ((2, 3), (4, 5)), ((1, 2), (3, 3)), ((None, 2), (3, 3))]:
        x(f'adaptivemax-{o}'.replace(' ', ''), L('PointwiseAdaptiveMaxPool', R(4), [reg], o), hw)
        x(f'adaptiveavg-{o}'.replace(' ', ''), L('PointwiseAdaptiveAvgPool', R(4), [reg], o), hw)
    for kw, hw in [(dict(scale_factor=2), (3, 3)), (dict(scale_factor=3), (2, 3)), (dict(size=5), (3, 3)), (dict(size=(5, 4)), (3, 3)), (dict(scale_factor=2, mode='nearest'), (2, 3)),
                   (dict(size=(3, 5), mode='nearest'), (2, 2)), (dict(scale_factor=2, align_corners=True), (3, 2)), (dict(scale_factor=2, align_corners=False), (3, 2)), (dict(size=5, align_corners=True), (2, 2)), (dict(scale_factor=1.5), (4, 4)), (dict(scale_factor=2, mode='bilinear', align_corners=False), (2, 2))]:
        x('upsample-' + '-'.join(f'{k}{v}' for k, v in kw.items()).replace(' ', ''), L('R2Upsampling', R(4), [reg, irr(1)], **kw), hw)
    for fields in ([reg], [reg, reg, reg], [triv, triv]):
        x(f'gpool-{len(fields)}', L('GroupPooling', R(4), fields), (2, 2))
    x('gpool-mixed-same-size', L('GroupPooling', FR(2), [reg, reg, lambda g: g.regular_repr]), (2, 2))
    x('gpool-quotient', L('GroupPooling', FR(4), [quo((0, 1)), quo((0, 1)), quo((None, 2))]), (2, 1))
    for nm, gs, fields in [('bn-reg', R(4), [reg, reg]), ('bn-reg-triv', R(4), [reg, reg, triv, triv, triv]), ('bn-triv-first', FR(2), [triv, triv, reg]), ('bn-quotient', FR(4), [quo((0, 1)), triv, triv, reg])]:
        for kw in (dict(), dict(affine=False), dict(eps=0.1, momentum=0.3)):
            x(f'{nm}-{"-".join(kw) or "default"}', L('InnerBatchNorm', gs, fields, **kw), (2, 2), variables=bn_state)

    # chains
    def chain(*fs, gs=R(4), first=None, od=False):
        def build():
            it = ft(gs(), *first)
            ms, t = [], it
            for f in fs:
                m = f(t)
                ms.append(m)
                t = m.out_type
            if od:
                return enn.SequentialModule(OrderedDict((f'layer{9 - i}', m) for i, m in enumerate(ms))), it
            return enn.SequentialModule(*ms), it
        return build

    def conv(*outs, **kw):
        return lambda t: enn.R2Conv(t, ft(t.gspace, *outs), initialize=False, **kw)
    for od in (False, True):
        x(f'chain-conv-bn-relu{"-named" if od else ""}', chain(conv(reg, kernel_size=3, padding=1), lambda t: enn.InnerBatchNorm(t), lambda t: enn.ReLU(t, inplace=True), first=[triv], od=od), (2, 2), variables=bn_state)
    x('chain-conv-relu-conv', chain(conv(reg, kernel_size=3, padding=1), lambda t: enn.ReLU(t), conv(irr(1), kernel_size=3), first=[triv]), (3, 3))
    x('chain-dropout-pool', chain(lambda t: enn.PointwiseDropout(t, 0.4), lambda t: enn.PointwiseMaxPool(t, 2), lambda t: enn.GroupPooling(t), first=[reg, reg]), (4, 4))
    x('chain-conv-gpool-avg', chain(conv(reg, reg, kernel_size=3), lambda t: enn.GroupPooling(t), lambda t: enn.PointwiseAdaptiveAvgPool(t, 1), first=[triv]), (4, 4))
    x('chain-nested', chain(conv(irr(1), triv, kernel_size=3), lambda t: enn.SequentialModule(enn.IdentityModule(t), enn.R2Upsampling(t, 2)), conv(triv, kernel_size=3), first=[irr(1)]), (4, 4))
    x('chain-restrict', chain(conv(reg, kernel_size=3), lambda t: enn.RestrictionModule(t, (None, 4)), lambda t: enn.ReLU(t), first=[triv], gs=FR(4)), (3, 3))

    def mlist(E):
        gs = R(4)()
        it, ot = ft(gs, irr(1), triv), ft(gs, reg)
        mods = [enn.R2Conv(it, ot, 3, initialize=False), enn.IdentityModule(it), enn.R2ConvTransposed(it, ot, 3, initialize=False), enn.PointwiseMaxPool(ot, 2)]
        ml = enn.ModuleList(mods)
        E.params(ml)
        x = {t: E.var(f'x{t.size}', (1, t.size, 3, 3)) for t in (it, ot)}
        y = [run(E, m, x[m.in_type], m.in_type) for m in ml]
        e = do_export(E, ml)
        obs = [Fact('same length', len(e) == len(ml))]
        for i, m in enumerate(ml):
            obs.append(Eq(f'entry {i}', plain(E, e[i], x[m.in_type]), y[i]))
        return obs
    C.append(('export-modulelist', mlist))

    # switching the mode of a container switches every layer below it
    def nested(E):
        build = chain(conv(reg, kernel_size=3, padding=1), lambda t: enn.SequentialModule(enn.ReLU(t), enn.R2Conv(t, ft(t.gspace, irr(1)), 3, initialize=False)), first=[triv])
        m, it = build()
        E.params(m, prefix='a')
        x = E.var('x', (1, it.size, 3, 3))
        obs = []
        y = run(E, m, x, it)
        with E.run():
            m.eval()
        obs.append(Eq('evaluation == training', run(E, m, x, it), y))
        with E.run():
            m.train()
        change(E, m, 'b')
        y = run(E, m, x, it)
        with E.run():
            m.eval()
        obs.append(Eq('evaluation == training after a step', run(E, m, x, it), y))
        with E.run():
            m.eval()
        obs.append(Eq('evaluation twice', run(E, m, x, it), y))
        return obs
    C.append(('nested-modes', nested))

    if th:
        for n in (2, 3, 5, 6, 8):
            c(f'th-conv-c{n}', 'R2Conv', R(n), [reg, triv], [reg, triv], (5, 5), kernel_size=5, histories=('TcETcE', 'TcXTcX'))
            c(f'th-conv-d{n}', 'R2Conv', FR(n), [reg, triv], [irr(1, 1) if n > 2 else irr(1, 0), triv], (3, 3), kernel_size=3, histories=('TcETcE', 'TcXTcX'))
            c(f'th-diffop-c{n}', 'R2Diffop', R(n), [reg, triv], [reg, triv], (3, 3), kernel_size=3, histories=('TcETcE', 'TcXTcX'))
            c(f'th-transposed-d{n}', 'R2ConvTransposed', FR(n), [reg, triv], [irr(1, 0), triv], (2, 2), kernel_size=3, histories=('TcETcE', 'TcXTcX'))
        # every history of length <= 4 over the alphabet
        for ln in (1, 2, 3, 4):
            for h in itertools.product('TEcX', repeat=ln):
                h = ''.join(h)
                # weight changes only in training mode
                tr = True
                ok = True
                for op in h:
                    if op == 'c' and not tr:
                        ok = False
                    tr = True if op == 'T' else False if op in 'EX' else tr
                if not ok or h[-1] == 'c':
                    continue
                c(f'hist-conv-{h}', 'R2Conv', R(2), [irr(1)], [irr(1), triv], (3, 3), kernel_size=3, histories=(h,))
                c(f'hist-transposed-{h}', 'R2ConvTransposed', R(2), [irr(1)], [irr(1), triv], (2, 2), kernel_size=3, histories=(h,))
                c(f'hist-diffop-{h}', 'R2Diffop', R(2), [irr(1)], [irr(1), triv], (3, 3), kernel_size=3, histories=(h,))
    return C
