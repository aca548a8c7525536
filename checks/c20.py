"""C20: the shape a module announces is the shape it computes, for every batch, height and width.

The announced shape comes from executing evaluate_output_shape on symbolic integers.  The computed shape is the
documented shape rule of the PyTorch operators which forward really calls (recorded with their arguments while
forward runs), applied to the same symbolic integers, and the solver compares the two.  Runs of forward on a
list of shapes confirm that the rule describes the module.
"""
import warnings
from kcommon import *
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from e2cnn import nn as enn
from common import ft, reg, triv, irr, quo
from c10 import SO2 as gSO2, O2 as gO2

warnings.filterwarnings('ignore')


def pair(v, default=None):
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    if not v:
        v = list(default)
    return v * 2 if len(v) == 1 else v


class Recorder(TorchDispatchMode):
    """spatial operators on the way from the input to each tensor computed while the module runs, with their arguments"""

    def __init__(self):
        super().__init__()
        self.chains = {}
        self.keep = []

    @staticmethod
    def key(t):
        return t.untyped_storage().data_ptr() if t.numel() else id(t)

    def start(self, x):
        self.put(x, (), tuple(x.shape[2:]))

    def put(self, t, ops, size):
        self.keep.append(t)
        self.chains[self.key(t)] = (ops, size)

    def get(self, t):
        return self.chains.get(self.key(t), (None, None))

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        out = func(*args, **kwargs)
        n = func.__name__.split('.')[0]
        arg = {a.name: v for a, v in zip(func._schema.arguments, args)}
        arg.update(kwargs)
        flat = [t for a in arg.values() for t in (a if isinstance(a, (list, tuple)) else [a]) if torch.is_tensor(t)]
        known = [self.get(t) for t in flat if self.get(t)[0] is not None]
        if not known:
            return out
        ops, size = max(known, key=lambda c: len(c[0]))
        new = self.op(n, arg, args, size)
        if n == 'copy_' or n.endswith('_') and not n.endswith('__'):
            self.put(args[0], ops, size)
            return out
        for o in (out if isinstance(out, (tuple, list)) else [out]):
            if torch.is_tensor(o):
                self.put(o, ops + new, tuple(o.shape[2:]) if new else size)
        return out

    def op(self, n, arg, args, size):
        data = lambda t: torch.is_tensor(t) and t.dim() in (4, 5)
        if n in ('convolution', 'conv2d', '_convolution'):
            w, x = arg['weight'], arg['input']
            pre = ()
            if size is not None and tuple(x.shape[2:]) != size:
                # padding which is not one operator (circular)
                pre = (('pad', x.shape[2] - size[0], x.shape[3] - size[1]),)
            return pre + (('conv', tuple(w.shape[2:]), pair(arg['stride']), pair(arg['padding']), pair(arg['dilation']), bool(arg['transposed']), pair(arg['output_padding'])),)
        if n in ('max_pool2d_with_indices', 'max_pool2d'):
            k = pair(arg['kernel_size'])
            return (('pool', k, pair(arg.get('stride', []), k), pair(arg.get('padding', 0)), pair(arg.get('dilation', 1)), bool(arg.get('ceil_mode', False))),)
        if n == 'avg_pool2d':
            k = pair(arg['kernel_size'])
            return (('pool', k, pair(arg.get('stride', []), k), pair(arg.get('padding', 0)), [1, 1], bool(arg.get('ceil_mode', False))),)
        if n == 'constant_pad_nd' and data(args[0]):
            p = list(arg['pad']) + [0] * 4
            return (('pad', p[2] + p[3], p[0] + p[1]),)
        if n in ('replication_pad2d', 'reflection_pad2d'):
            p = list(arg['padding'])
            return (('pad', p[2] + p[3], p[0] + p[1]),)
        if 'adaptive' in n or n.startswith('upsample') or n == 'mean' and data(args[0]) and {d % 4 for d in arg.get('dim') or []} == {2, 3}:
            return (('resize', n),)
        return ()


def rule(ops, b, c, h, w, resize):
    """documented output shape; second result: the operators accept the input"""
    ok = []
    for o in ops:
        if o[0] == 'conv':
            _, k, s, p, d, tr, op = o
            v = []
            for x, kk, ss, pp, dd, oo in zip((h, w), k, s, p, d, op):
                if tr:
                    v.append((x - 1) * ss - 2 * pp + dd * (kk - 1) + oo + 1)
                else:
                    v.append((x + 2 * pp - dd * (kk - 1) - 1) // ss + 1)
                    ok.append(x + 2 * pp >= dd * (kk - 1) + 1)
            h, w = v
        elif o[0] == 'pool':
            _, k, s, p, d, ceil = o
            v = []
            for x, kk, ss, pp, dd in zip((h, w), k, s, p, d):
                y = x + 2 * pp - dd * (kk - 1) - 1
                ok.append(y >= 0)
                y = (y + ss - 1) // ss + 1 if ceil else y // ss + 1
                if ceil:
                    # the last window starts inside the input or its left padding
                    y = y - 1 if (y - 1) * ss >= x + pp else y
                v.append(y)
            h, w = v
        elif o[0] == 'pad':
            h, w = h + o[1], w + o[2]
        elif o[0] == 'resize':
            h, w = resize(h, w)
        ok += [h >= 1, w >= 1]
    return (b, c, h, w), ok


def announce(m, shp, how):
    return how(m, shp) if how else m.evaluate_output_shape(shp)


def module(build, sizes=((1, 24, 24), (2, 21, 30), (1, 5, 5), (2, 4, 7), (1, 9, 6), (3, 3, 3), (1, 1, 1), (1, 8, 8)), resize=None, maxhw=64, wrap=None, how=None, out=None, circular=0, exported=True):
    """build() -> module; wrap(module, tensor) -> output geometric tensor; how(module, shape) -> announced shape; out(module) -> declared type"""
    def fn(E):
        m = build()
        m.eval()
        it = m.in_type if not isinstance(m.in_type, tuple) else m.in_type
        cin = it.size if not isinstance(it, tuple) else None
        declared = out(m) if out else m.out_type
        run = wrap or (lambda mm, t: mm(enn.GeometricTensor(t, it)))
        obs = []
        # what forward calls
        chains = []
        if E.symbolic or not E.values:
            for b, h, w in sizes:
                x = torch.zeros((b, cin, h, w) if cin else (b, 0, h, w))
                rec = Recorder()
                rec.start(x)
                try:
                    with torch.no_grad(), rec:
                        y = run(m, x)
                except (RuntimeError, AssertionError, ValueError, IndexError):
                    # the input is too small for the operators: the module refuses it
                    exp = rule(chains[-1], b, declared.size, h, w, resize)[1] if chains else [True]
                    big = chains and all(exp) and (h > circular and w > circular)
                    obs.append(Holds(f'accepts {b}x{h}x{w}', not big))
                    continue
                ops = rec.get(y.tensor)[0] or ()
                chains.append(ops)
                act = tuple(y.tensor.shape)
                obs.append(Holds(f'announced shape for {b}x{h}x{w}', tuple(announce(m, (b, cin, h, w), how)) == act, f'announced {announce(m, (b, cin, h, w), how)}, computed {act}'))
                obs.append(Holds(f'type for {b}x{h}x{w}', y.type == declared))
                if exported and not wrap:
                    try:
                        ex = m.export()
                    except NotImplementedError:
                        ex = None
                    if ex is not None:
                        with torch.no_grad():
                            obs.append(Holds(f'exported module for {b}x{h}x{w}', tuple(ex(x).shape) == act))
                if E.symbolic:
                    r = rule(ops, b, declared.size, h, w, resize)[0]
                    if r != act:
                        raise pe.Unsupported(f'rule gives {r} for {act} {ops}')
            if not chains:
                return [Holds('accepts some input', False)]
            if any(c != chains[0] for c in chains):
                raise pe.Unsupported('operators depend on the size of the input')
        b, h, w = E.int('b', 1, 8), E.int('h', 1, maxhw), E.int('w', 1, maxhw)
        if not E.symbolic:
            x = torch.zeros((b, cin, h, w) if cin else (b, 0, h, w))
            try:
                with torch.no_grad():
                    y = run(m, x)
            except (RuntimeError, AssertionError, ValueError, IndexError):
                return obs
            act = tuple(y.tensor.shape)
            try:
                got = tuple(announce(m, (b, cin, h, w), how))
            except Exception as e:
                return obs + [Holds('announced shape', False, f'evaluate_output_shape raises {type(e).__name__} for {(b, cin, h, w)}')]
            return obs + [Holds('announced shape', got == act, f'announced {got}, computed {act}'), Holds('type', y.type == declared)]
        with E.run():
            want, ok = rule(chains[0], b, declared.size, h, w, resize)
            for o in ok:
                E.assume(o)
            if circular:
                E.assume(h > circular)
                E.assume(w > circular)
            got = announce(m, (b, cin, h, w), how)
            obs.append(Holds('length', len(got) == 4))
            for n, u, v in zip(('batch', 'channels', 'height', 'width'), got, want):
                obs.append(Holds(f'announced {n}', v == u if pe.symbolic(v) else u == v))
        return obs
    return fn


INFO = dict(
    level='model_checking',
    technique='symbolic execution of evaluate_output_shape on symbolic integers against the documented shape rules of the operators which forward calls; z3 decides the equality for all sizes; counterexamples replayed',
    functions=['evaluate_output_shape of every module (executed on symbolic integers)', 'forward of every module (operators recorded with their arguments)', 'SequentialModule/MultipleModule/MergeModule/BranchingModule.evaluate_output_shape', 'export'],
    bounds='batch 1..8, height and width 1..64 (symbolic); kernel size 1..7, stride 1..4, padding 0..3, dilation 1..3, output padding 0..2, scale factors and target sizes as listed in the case names',
    outside='shapes the module refuses; numbers of dimensions other than four',
    assumptions=['PyTorch operators follow their documented shape rules (confirmed on the listed shapes by running them)'],
)


def cases(tier):
    big = tier == 'thorough'
    out = []

    def add(n, build, **kw):
        out.append((n.replace(' ', '') if len(n) > 80 else n, pe.case(module(build, **kw), samples=8), 'custom'))
    C4, D4, F2 = R(4), FR(4), F(0.)
    RT = lambda gs: ft(gs(), reg, triv)

    # ---- convolutions
    for k in (1, 2, 3, 4, 5, 7):
        for s in (1, 2, 3, 4):
            for p in (0, 1, 2, 3):
                for d in (1, 2, 3):
                    if not big and (k + 2 * s + 3 * p + 5 * d) % 4:
                        continue
                    rg = dict(rings=[.7 * d], sigma=.6, frequencies_cutoff=2.) if k == 2 else {}
                    add(f'R2Conv k{k} s{s} p{p} d{d}', lambda k=k, s=s, p=p, d=d, rg=rg: enn.R2Conv(ft(C4(), triv, irr(1)), ft(C4(), reg), k, stride=s, padding=p, dilation=d, initialize=False, **rg))
                    if p <= d * (k - 1) // 2:
                        op = (k + p) % 2 if s > 1 or d > 1 else 0
                        add(f'R2ConvTransposed k{k} s{s} p{p} d{d} op{op}', lambda k=k, s=s, p=p, d=d, op=op, rg=rg: enn.R2ConvTransposed(ft(C4(), triv, irr(1)), ft(C4(), reg), k, stride=s, padding=p, dilation=d, output_padding=op, initialize=False, **rg))
    for pm in ('zeros', 'circular', 'reflect', 'replicate'):
        for p in (0, 1, 2):
            for k, s, d in ((3, 1, 1), (5, 2, 1), (3, 2, 2)):
                kw = dict(padding_mode=pm, padding=p, stride=s, dilation=d, initialize=False)
                c = p if pm in ('circular', 'reflect') else 0
                add(f'R2Conv {pm} k{k} s{s} p{p} d{d}', lambda kw=kw, k=k: enn.R2Conv(ft(C4(), triv), ft(C4(), reg), k, **kw), circular=c)
                add(f'R2Diffop {pm} k{k} s{s} p{p} d{d}', lambda kw=kw, k=k: enn.R2Diffop(ft(C4(), triv), ft(C4(), reg), k, **kw), circular=c)
    add('R2Conv groups', lambda: enn.R2Conv(ft(C4(), reg, reg), ft(C4(), reg, triv, reg, triv), 3, groups=2, padding=1, initialize=False))
    add('R2Conv no bias', lambda: enn.R2Conv(ft(D4(), reg), ft(D4(), irr(1, 1)), 3, bias=False, stride=2, initialize=False))
    add('R2Diffop accuracy', lambda: enn.R2Diffop(ft(D4(), reg), ft(D4(), triv), accuracy=2, maximum_order=2, padding=1, initialize=False))
    for op in (0, 1, 2):
        for s in (1, 2, 3):
            if op < s:
                add(f'R2ConvTransposed s{s} op{op}', lambda s=s, op=op: enn.R2ConvTransposed(ft(C4(), reg), ft(C4(), reg, triv), 3, stride=s, output_padding=op, initialize=False))
    # ---- pooling
    for k in (1, 2, 3, 4, 5):
        for s in (None, 1, 2, 3, 4):
            for p in range(0, k // 2 + 1):
                for d in (1, 2):
                    for cm in (False, True):
                        if not big and (k + (s or 0) + 3 * p + d + cm) % 2:
                            continue
                        add(f'PointwiseMaxPool k{k} s{s} p{p} d{d} ceil {cm}', lambda k=k, s=s, p=p, d=d, cm=cm: enn.PointwiseMaxPool(RT(C4), k, s, p, d, cm))
                        add(f'NormMaxPool k{k} s{s} p{p} d{d} ceil {cm}', lambda k=k, s=s, p=p, d=d, cm=cm: enn.NormMaxPool(ft(C4(), irr(1), triv), k, s, p, d, cm), circular=d - 1)
                    if (k + p) % 2 == 0 or big:
                        if d == 1:
                            for cm in (False, True):
                                add(f'PointwiseAvgPool k{k} s{s} p{p} ceil {cm}', lambda k=k, s=s, p=p, cm=cm: enn.PointwiseAvgPool(ft(C4(), irr(1), triv), k, s, p, cm))
                            add(f'PointwiseMaxPoolAntialiased k{k} s{s} p{p}', lambda k=k, s=s, p=p: enn.PointwiseMaxPoolAntialiased(RT(C4), k, s, p))
    for a in (((2, 3), (1, 2), (0, 1), (1, 1)), ((3, 2), (2, 1), (1, 0), (1, 2)), ((1, 4), (3, 2), (0, 2), (2, 1)), ((3, 1), None, (1, 0), (1, 3))):
        for cm in (False, True):
            add(f'PointwiseMaxPool {a} ceil {cm}', lambda a=a, cm=cm: enn.PointwiseMaxPool(RT(C4), *a, cm))
            add(f'NormMaxPool {a} ceil {cm}', lambda a=a, cm=cm: enn.NormMaxPool(ft(C4(), irr(1)), *a, cm))
            add(f'PointwiseAvgPool {a[:3]} ceil {cm}', lambda a=a, cm=cm: enn.PointwiseAvgPool(ft(C4(), irr(1)), *a[:3], cm))
        add(f'PointwiseMaxPoolAntialiased {a[:3]}', lambda a=a: enn.PointwiseMaxPoolAntialiased(RT(C4), *a[:3]))
        add(f'PointwiseMaxPoolAntialiased {a[:3]} ceil', lambda a=a: enn.PointwiseMaxPoolAntialiased(RT(C4), *a[:3], ceil_mode=True, sigma=.4))
    for sg in (.33, .4, .6, .66, 1., 1.2):
        for s in (1, 2, 3, (1, 2)):
            for p in (None, 0, 1, (0, 2)):
                add(f'PointwiseAvgPoolAntialiased {sg} s{s} p{p}', lambda sg=sg, s=s, p=p: enn.PointwiseAvgPoolAntialiased(RT(C4), sg, s, p))
        add(f'PointwiseMaxPoolAntialiased sigma {sg}', lambda sg=sg: enn.PointwiseMaxPoolAntialiased(RT(C4), 2, 2, 1, sigma=sg))
    for o in (1, 2, 3, (2, 3), (1, 4), (5, 2), (7, 7), (1, 1)):
        t = o if isinstance(o, tuple) else (o, o)
        rs = lambda h, w, t=t: (h if t[0] is None else t[0], w if t[1] is None else t[1])
        for c in ('PointwiseAdaptiveMaxPool', 'PointwiseAdaptiveAvgPool'):
            add(f'{c} {o}', lambda c=c, o=o: getattr(enn, c)(RT(C4), o), resize=rs)
    for kw in (dict(scale_factor=2), dict(scale_factor=3), dict(scale_factor=1), dict(scale_factor=4, mode='nearest'), dict(size=5), dict(size=(5, 4)), dict(size=(3, 7), mode='nearest'), dict(size=2), dict(scale_factor=2, align_corners=True),
               dict(scale_factor=1.5), dict(scale_factor=2.5, mode='nearest'), dict(scale_factor=.5), dict(scale_factor=1.25), dict(size=9, align_corners=True)):
        if 'size' in kw:
            z = kw['size']
            rs = lambda h, w, z=z: z if isinstance(z, tuple) else (z, z)
        else:
            from fractions import Fraction as Q
            sf = Q(kw['scale_factor'])
            rs = lambda h, w, sf=sf: ((h * sf.numerator) // sf.denominator, (w * sf.numerator) // sf.denominator)
        add('R2Upsampling ' + ' '.join(f'{k}={v}' for k, v in kw.items()), lambda kw=kw: enn.R2Upsampling(RT(C4), **kw), resize=rs)
    # ---- modules which keep the size of the image
    T1 = lambda *a: (lambda g=C4: ft(g(), *a))

    def keep(n, f, gs=C4, types=((reg, triv),), **kw):
        for i, t in enumerate(types):
            add(f'{n} {i}', lambda t=t: f(ft(gs(), *t)), **kw)
    keep('IdentityModule', lambda t: enn.IdentityModule(t))
    keep('ReLU', lambda t: enn.ReLU(t), types=((reg, triv), (reg,) * 3))
    keep('ELU', lambda t: enn.ELU(t), types=((reg, triv),))
    for f in ('p_relu', 'p_sigmoid', 'p_tanh', 'p_elu'):
        keep(f'PointwiseNonLinearity {f}', lambda t, f=f: enn.PointwiseNonLinearity(t, f))
    keep('NormNonLinearity', lambda t: enn.NormNonLinearity(t, 'n_relu'), types=((irr(1), triv), (irr(1), irr(1), irr(0))))
    keep('ConcatenatedNonLinearity', lambda t: enn.ConcatenatedNonLinearity(t, 'c_relu'), types=((triv, triv), (reg,), (reg, triv, reg)))
    keep('VectorFieldNonLinearity', lambda t: enn.VectorFieldNonLinearity(t), types=((reg,), (reg, reg)))
    keep('GatedNonLinearity1', lambda t: enn.GatedNonLinearity1(t, gates=['gate'] * 2 + ['gated'] * 2), types=((triv, triv, irr(1), reg), (triv, triv, reg, irr(1))))
    keep('GatedNonLinearity1 keeping gates', lambda t: enn.GatedNonLinearity1(t, gates=['gate', 'gated'], drop_gates=False), types=((triv, irr(1)),))
    keep('InducedNormNonLinearity', lambda t: enn.InducedNormNonLinearity(t), gs=FR(4), types=((lambda g: g.induced_repr((None, 4), g.fibergroup.subgroup((None, 4))[0].irrep(1)),),))
    keep('InducedGatedNonLinearity1', lambda t: enn.InducedGatedNonLinearity1(t, gates=['gate', 'gated']), gs=FR(4), types=((lambda g: g.induced_repr((None, 4), g.fibergroup.subgroup((None, 4))[0].trivial_representation), lambda g: g.induced_repr((None, 4), g.fibergroup.subgroup((None, 4))[0].irrep(1))),))
    keep('InnerBatchNorm', lambda t: enn.InnerBatchNorm(t), types=((reg, triv), (reg, reg, triv)))
    keep('NormBatchNorm', lambda t: enn.NormBatchNorm(t), types=((irr(1), irr(2), irr(1)),))
    keep('GNormBatchNorm', lambda t: enn.GNormBatchNorm(t), types=((reg, triv, irr(1)),))
    keep('InducedNormBatchNorm', lambda t: enn.InducedNormBatchNorm(t), gs=FR(4), types=((lambda g: g.induced_repr((None, 4), g.fibergroup.subgroup((None, 4))[0].irrep(1)),),))
    keep('PointwiseDropout', lambda t: enn.PointwiseDropout(t, .3))
    keep('FieldDropout', lambda t: enn.FieldDropout(t, .3), types=((reg, triv), (irr(1), irr(1))))
    keep('GroupPooling', lambda t: enn.GroupPooling(t), types=((reg, reg), (reg,), (quo(2), quo(2), reg)))
    keep('NormPool', lambda t: enn.NormPool(t), types=((irr(1), irr(1)), (irr(1), irr(2), triv)))
    keep('InducedNormPool', lambda t: enn.InducedNormPool(t), gs=FR(4), types=((lambda g: g.induced_repr((None, 4), g.fibergroup.subgroup((None, 4))[0].irrep(1)),) * 2,))
    keep('ReshuffleModule', lambda t: enn.ReshuffleModule(t, [2, 0, 1]), types=((reg, triv, irr(1)),))
    keep('RestrictionModule', lambda t: enn.RestrictionModule(t, 2), types=((reg, irr(1)),))
    keep('RestrictionModule D4', lambda t: enn.RestrictionModule(t, (0, 2)), gs=D4, types=((reg, irr(1, 1)),))
    keep('DisentangleModule', lambda t: enn.DisentangleModule(t), types=((reg, irr(1)), (triv,)))
    for S in (5, 8):
        add(f'MaskModule {S}', lambda S=S: enn.MaskModule(RT(C4), S, margin=0.5), sizes=((1, S, S), (3, S, S)), maxhw=0 or 64, how=None) if False else None
        out.append((f'MaskModule {S}', pe.case(mask(S), samples=4), 'custom'))
    # ---- compositions
    def seq(*fs, first=(reg, triv), gs=C4):
        def build():
            t = ft(gs(), *first)
            ms = []
            for f in fs:
                ms.append(f(t))
                t = ms[-1].out_type
            return enn.SequentialModule(*ms)
        return build
    cv = lambda *o, **kw: (lambda t: enn.R2Conv(t, ft(t.gspace, *o), initialize=False, **kw))
    add('SequentialModule conv pool conv', seq(cv(reg, kernel_size=3, padding=1), lambda t: enn.InnerBatchNorm(t), lambda t: enn.ReLU(t), lambda t: enn.PointwiseMaxPool(t, 2, ceil_mode=True), cv(triv, kernel_size=5, stride=2, padding=1)))
    add('SequentialModule conv aa upsample', seq(cv(reg, reg, kernel_size=3), lambda t: enn.PointwiseAvgPoolAntialiased(t, .66, 2), lambda t: enn.R2Upsampling(t, 3), lambda t: enn.GroupPooling(t), cv(triv, kernel_size=3, dilation=2)), resize=lambda h, w: (h * 3, w * 3))
    add('SequentialModule transposed', seq(lambda t: enn.R2ConvTransposed(t, ft(t.gspace, reg), 3, stride=2, output_padding=1, initialize=False), lambda t: enn.NormMaxPool(t, 3, 2, 1), lambda t: enn.PointwiseDropout(t, .1)) if False else
        seq(lambda t: enn.R2ConvTransposed(t, ft(t.gspace, reg), 3, stride=2, output_padding=1, initialize=False), lambda t: enn.PointwiseMaxPool(t, 3, 2, 1), lambda t: enn.PointwiseDropout(t, .1)))
    add('SequentialModule adaptive', seq(cv(reg, kernel_size=3), lambda t: enn.PointwiseAdaptiveAvgPool(t, (2, 3)), cv(triv, kernel_size=1, stride=2)), resize=lambda h, w: (2, 3))
    add('SequentialModule restriction', seq(lambda t: enn.RestrictionModule(t, 2), cv(reg, kernel_size=3, stride=2)))
    add('SequentialModule nested', lambda: (lambda s: enn.SequentialModule(s, enn.PointwiseMaxPool(s.out_type, 2)))(seq(cv(reg, kernel_size=3), lambda t: enn.PointwiseAvgPool(t, 3, 2, 1))()))

    def multi(gs=C4):
        t = ft(gs(), reg, triv, irr(1), reg)
        lab = ['a', 'b', 'b', 'a']
        sub = t.group_by_labels(lab)
        return enn.MultipleModule(t, lab, [(enn.ReLU(sub['a']), 'a'), (enn.NormNonLinearity(sub['b'], 'n_relu'), 'b')])
    add('MultipleModule', multi)

    def multi2(gs=C4):
        t = ft(gs(), reg, irr(1), triv, triv, triv)
        lab = ['r', 'v', 'g', 'r', 't']
        sub = t.group_by_labels(lab)
        return enn.MultipleModule(t, lab, [(enn.ELU(sub['r']), 'r'), (enn.GatedNonLinearity2((sub['g'], sub['v'])), ['g', 'v']), (enn.IdentityModule(sub['t']), 't')], reshuffle=0)
    add('MultipleModule gated', multi2)
    add('GatedNonLinearity2', lambda: gated2(C4), wrap=lambda m, x: m(enn.GeometricTensor(torch.zeros(x.shape[0], 2, *x.shape[2:]), m.in_type[0]), enn.GeometricTensor(torch.zeros(x.shape[0], m.in_type[1].size, *x.shape[2:]), m.in_type[1])),
        how=lambda m, s: m.evaluate_output_shape((s[0], 2) + tuple(s[2:]), (s[0], m.in_type[1].size) + tuple(s[2:])))
    for nm, f in (('branching', branching), ('merge', merge), ('refuses', refuses)):
        out.append((nm, pe.case(f, samples=4), 'custom'))
    return [o for o in out if o]


def gated2(gs):
    g = gs()
    return enn.GatedNonLinearity2((ft(g, triv, triv), ft(g, irr(1), reg)))


def mask(S):
    def fn(E):
        t = ft(R(4)(), reg, triv)
        m = enn.MaskModule(t, S, margin=.5)
        b = E.int('b', 1, 8)
        with E.run():
            got = m.evaluate_output_shape((b, t.size, S, S))
        obs = [Holds('batch', got[0] == b), Holds('announced shape', tuple(got[1:]) == (t.size, S, S))]
        if not E.symbolic:
            y = m(enn.GeometricTensor(torch.zeros(b, t.size, S, S), t))
            obs.append(Holds('computed shape', tuple(y.tensor.shape) == tuple(got) and y.type == m.out_type))
        return obs
    return fn


def branching(E):
    t = ft(R(4)(), reg, triv, irr(1))
    lab = ['x', 'y', 'x']
    m = enn.modules.branching_module.BranchingModule(t, lab)
    b, h, w = E.int('b', 1, 8), E.int('h', 1, 64), E.int('w', 1, 64)
    with E.run():
        got = m.evaluate_output_shape((b, t.size, h, w))
    obs = [Holds('labels', set(got) == {'x', 'y'})]
    for l, n in (('x', 6), ('y', 1)):
        for u, v, k in zip(got[l], (b, n, h, w), 'bchw'):
            obs.append(Holds(f'announced {l} {k}', u == v))
    if not E.symbolic:
        y = m(enn.GeometricTensor(torch.zeros(b, t.size, h, w), t))
        obs.append(Holds('computed', {l: tuple(v.tensor.shape) for l, v in y.items()} == {l: tuple(v) for l, v in got.items()} and all(v.type == m.out_type[l] for l, v in y.items())))
    return obs


def merge(E):
    g = R(4)()
    t = ft(g, reg, triv, irr(1))
    sub = t.group_by_labels(['x', 'y', 'x'])
    m = enn.modules.merge_module.MergeModule([(enn.IdentityModule(sub['y']), 'y'), (enn.IdentityModule(sub['x']), 'x')])
    b, h, w = E.int('b', 1, 8), E.int('h', 1, 64), E.int('w', 1, 64)
    with E.run():
        got = m.evaluate_output_shape(x=(b, 6, h, w), y=(b, 1, h, w))
        obs = [Holds(f'announced {k}', u == v) for u, v, k in zip(got, (b, 7, h, w), 'bchw')]
    if not E.symbolic:
        y = m({l: enn.GeometricTensor(torch.zeros(b, s.size, h, w), s) for l, s in sub.items()})
        obs.append(Holds('computed', tuple(y.tensor.shape) == tuple(got) and y.type == m.out_type))
    return obs


def refuses(E):
    """shapes with the wrong number of channels are refused, by the announcement as by the module"""
    t = ft(R(4)(), reg, triv)
    ms = [enn.R2Conv(t, t, 3, initialize=False), enn.ReLU(t), enn.PointwiseMaxPool(t, 2), enn.R2ConvTransposed(t, t, 3, initialize=False), enn.InnerBatchNorm(t), enn.R2Upsampling(t, 2), enn.PointwiseAvgPool(t, 2)]
    c = E.int('c', 1, 12)
    obs = []
    for m in ms:
        with E.run():
            try:
                m.evaluate_output_shape((1, c, 6, 6))
                r = False
            except AssertionError:
                r = True
            obs.append(Holds(f'{type(m).__name__} refuses wrong channels', pe.Iff(c != t.size, r)))
    return obs
