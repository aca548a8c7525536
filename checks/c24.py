"""C24: the state of a module determines its function: saved states and copies reproduce it, whatever order sets are iterated in."""
import copy
import hashlib
import sys
from collections import OrderedDict
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from c13 import ind
from c15 import free_state, set_count

INFO = dict(
    level='model_checking',
    functions=['__init__, forward, train, eval and the registered parameters and buffers (torch state_dict / load_state_dict / deepcopy run on them) of every module class with state: '
               'R2Conv, R2ConvTransposed, R2Diffop, the batch normalisations, non-linearities with parameters, pooling with filters, masks, containers',
               'BlocksBasisExpansion.__init__, _retrieve_indices, _compute_attrs_and_ids under different iteration orders of sets'],
    bounds='parameters, running statistics and inputs: all real values in [-1,1] (variances in [0.25,2], scales in [0.5,2]); spatial size up to 4x4; storing and loading in equal modes '
           '(the documented restriction); histories: build, train or eval, store, load, run, switch mode, run; sets iterated in ascending, descending and a mixed order of their elements',
    outside='pickling to files (torch itself); loading into modules built with other arguments; storing in one mode and loading in the other for convolutions (documented as unsupported)',
    assumptions=['torch.nn.Module.state_dict and load_state_dict are run as they are (on symbolic tensors)'],
)


def gtensor(t, ty):
    return enn.GeometricTensor(t, ty)


def call(E, m, x, it):
    with E.run():
        y = m(gtensor(x, it))
    if isinstance(y, dict):
        return [y[k].tensor for k in sorted(y)]
    return [y.tensor]


def same(label, a, b):
    if len(a) != len(b):
        return [Fact(label, False, f'{len(a)} outputs, {len(b)} expected')]
    return [Eq(f'{label}{"" if len(a) == 1 else f" [{i}]"}', u, v) for i, (u, v) in enumerate(zip(a, b))]


def fill(E, m, tag):
    for mn, mod in m.named_modules():
        for pn in list(mod._parameters):
            p = mod._parameters[pn]
            if p is None or not p.requires_grad:
                continue
            v = E.var(f'{tag}.{mn}.{pn}', p.shape)
            if E.symbolic:
                v._is_param = True
                mod._parameters[pn] = v
            else:
                mod._parameters[pn] = torch.nn.Parameter(v, requires_grad=False)
        for bn in list(mod._buffers):
            b = mod._buffers[bn]
            if b is None or 'running' not in bn or not b.dtype.is_floating_point:
                continue
            lo, hi = (0.25, 2.) if 'var' in bn else (-1., 1.)
            mod._buffers[bn] = E.var(f'{tag}.{mn}.{bn}', b.shape, lo, hi)


def lifted(E, m):
    """every float buffer and parameter can receive symbolic values"""
    if E.symbolic:
        for mod in m.modules():
            for d in (mod._parameters, mod._buffers):
                for n in list(d):
                    t = d[n]
                    if t is not None and not isinstance(t, st.SymTensor) and t.dtype.is_floating_point:
                        q = st.lift(t)
                        q._is_param = d is mod._parameters
                        d[n] = q


def modes(m):
    return {n: k.training for n, k in m.named_modules()}


def round_trip(build, hw, batch=1, stat=True):
    """what a state reproduces; batch statistics make training mode depend on the batch only, so both modes are compared on the same batch"""
    def fn(E):
        obs = []
        for history in ('eval', 'train', 'train eval'):
            mode = history.split()[-1]
            m, it = build()
            fill(E, m, 'a')
            set_count(m, 3)
            n, _ = build()
            fill(E, n, 'b')
            set_count(n, 1)
            x = E.var('x', (batch, it.size, *hw))
            with E.run():
                for h in history.split():
                    getattr(m, h)()
                    getattr(n, h)()
                lifted(E, n)
            for a, b in zip(sorted(m.state_dict()), sorted(n.state_dict())):
                if a != b:
                    return [Fact(f'{history}: names of the state', False, f'{a} != {b}')]
            with E.run():
                s = m.state_dict()
                try:
                    miss = n.load_state_dict(s)
                    obs.append(Fact(f'{history}: state is accepted', not miss.missing_keys and not miss.unexpected_keys, str(miss)))
                except RuntimeError as e:
                    obs.append(Fact(f'{history}: state is accepted', False, str(e)[:300]))
                    return obs
            rand = any(isinstance(k, (enn.PointwiseDropout, enn.FieldDropout)) for k in m.modules())
            if mode == 'eval':
                obs += same(f'{history}: loaded module == stored module', call(E, n, x, it), call(E, m, x, it))
            elif not rand:
                # both see the same batch; running statistics advance from the stored ones
                obs += same(f'{history}: loaded module == stored module', call(E, n, x, it), call(E, m, x, it))
            # switching the mode afterwards keeps them equal
            with E.run():
                for k in (m, n):
                    getattr(k, 'train' if mode == 'eval' else 'eval')()
            if not (mode == 'eval' and rand):
                obs += same(f'{history}: after switching the mode', call(E, n, x, it), call(E, m, x, it))
            with E.run():
                for k in (m, n):
                    k.train()
                    k.eval()
            obs += same(f'{history}: after train() and eval()', call(E, n, x, it), call(E, m, x, it))
            with E.run():
                a, b = m.state_dict(), n.state_dict()
            obs.append(Fact(f'{history}: same entries', list(a) == list(b)))
            for k in a:
                if k in b and a[k].dtype.is_floating_point:
                    obs.append(Eq(f'{history}: entry {k}', a[k], b[k]))
                elif k in b:
                    obs.append(Fact(f'{history}: entry {k}', torch.equal(a[k], b[k])))
        return obs
    return fn


def copies(build, hw, batch=1):
    """a deep copy computes the same function, and changing it leaves the original alone"""
    def fn(E):
        obs = []
        m, it = build()
        fill(E, m, 'a')
        x = E.var('x', (batch, it.size, *hw))
        with E.run():
            m.eval()
        n = copy.deepcopy(m)
        y = call(E, m, x, it)
        obs += same('copy == original', call(E, n, x, it), y)
        obs.append(Fact('types of the copy', n.in_type == m.in_type and n.out_type == m.out_type))
        # change everything in the copy
        with E.run():
            n.train()
            lifted(E, n)
            for mn, mod in n.named_modules():
                for pn, p in mod._parameters.items():
                    if p is not None and p.requires_grad:
                        p.data.copy_(E.var(f'c.{mn}.{pn}', p.shape))
                for bn, b in mod._buffers.items():
                    if b is not None and 'running' in bn and b.dtype.is_floating_point:
                        b.copy_(E.var(f'c.{mn}.{bn}', b.shape, 0.25, 1.))
            n.eval()
        obs += same('original after changing the copy', call(E, m, x, it), y)
        with E.run():
            m.train()
            m.eval()
        obs += same('original after changing the copy and switching modes', call(E, m, x, it), y)
        return obs
    return fn


# ------------------------------------------------------------------ iteration order of sets
class Salted(set):
    """a set whose iteration order is chosen by the harness (Python leaves it open and varies it between processes for strings)"""
    salt = 0

    def __iter__(self):
        k = lambda e: (type(e).__name__, str(getattr(e, 'name', e)))
        l = list(set.__iter__(self))
        if Salted.salt == 0:
            return iter(sorted(l, key=k))
        if Salted.salt == 1:
            return iter(sorted(l, key=k, reverse=True))
        return iter(sorted(l, key=lambda e: hashlib.md5((str(Salted.salt) + str(k(e))).encode()).hexdigest()))


class Orders:
    def __init__(self, salt):
        self.salt = salt

    def __enter__(self):
        Salted.salt = self.salt
        self.mods = [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'e2cnn' and m is not None]
        self.old = [(m, m.__dict__.get('set', None)) for m in self.mods]
        for m in self.mods:
            m.__dict__['set'] = Salted

    def __exit__(self, *a):
        for m, o in self.old:
            if o is None:
                m.__dict__.pop('set', None)
            else:
                m.__dict__['set'] = o
        return False


def order_case(build, hw, batch=1):
    """parameters have the same names, order and meaning whatever order sets are iterated in"""
    def fn(E):
        obs = []
        ref = None
        for salt in (0, 1, 2, 3):
            with Orders(salt):
                m, it = build()
                fill(E, m, 'a')
                x = E.var('x', (batch, it.size, *hw))
                with E.run():
                    m.eval()
                y = call(E, m, x, it)
                with E.run():
                    s = m.state_dict()
                names = [list(k.basisexpansion.get_basis_names()) for k in m.modules() if hasattr(k, 'basisexpansion')]
            if ref is None:
                ref = (y, s, names, m.out_type)
                continue
            obs.append(Fact(f'order {salt}: names of the state', sorted(s) == sorted(ref[1]), str(sorted(set(s) ^ set(ref[1]))[:3])))
            obs.append(Fact(f'order {salt}: basis names', names == ref[2]))
            obs.append(Fact(f'order {salt}: output type', m.out_type == ref[3] if not isinstance(m.out_type, dict) else all(m.out_type[k] == v for k, v in ref[3].items())))
            obs += same(f'order {salt}: function', y, ref[0])
            for k in s:
                if k in ref[1] and s[k].dtype.is_floating_point and tuple(s[k].shape) == tuple(ref[1][k].shape):
                    obs.append(Eq(f'order {salt}: entry {k}', s[k], ref[1][k]))
                elif k in ref[1]:
                    obs.append(Fact(f'order {salt}: entry {k}', torch.equal(s[k], ref[1][k])))
        return obs
    return fn


def catalogue():
    """(name, build, image, batch, depends on sets)"""
    L = []

    def one(name, cls, gs, fields, hw, *a, batch=1, order=False, **k):
        def build():
            it = ft(gs(), *fields)
            return getattr(enn, cls)(it, *a, **k), it
        L.append((name, build, hw, batch, order))

    def conv(name, cls, gs, ins, outs, hw, **k):
        def build():
            g = gs()
            it, ot = ft(g, *ins), ft(g, *outs)
            return getattr(enn, cls)(it, ot, initialize=False, **k), it
        L.append((name, build, hw, 1, True))
    for g, gs, i, o in [('c4', R(4), [reg, irr(1), triv], [irr(1), triv, reg]), ('d4', FR(4), [reg, irr(1, 1), triv], [irr(1, 1), irr(1, 0), irr(1, 1)]),
                        ('so2', SO2(), [irr(0), irr(1), irr(0)], [irr(1), irr(2)]), ('o2', O2(), [irr(1, 1), irr(0, 0)], [irr(1, 2), irr(1, 0)]), ('flip', FL(), [reg, irr(1), triv], [irr(1), triv, reg]),
                        ('mixed', R(4), [lambda g: group.directsum([g.irrep(1), g.trivial_repr, g.irrep(2)], name='ds'), reg], [lambda g: twisted(g.regular_repr, 2), irr(2), triv])]:
        conv(f'conv {g}', 'R2Conv', gs, i, o, (3, 3), kernel_size=3)
        conv(f'transposed {g}', 'R2ConvTransposed', gs, i, o, (2, 2), kernel_size=3)
        conv(f'diffop {g}', 'R2Diffop', gs, i, o, (3, 3), kernel_size=3)
    conv('conv groups', 'R2Conv', R(4), [irr(1), triv] * 2, [reg, triv] * 2, (3, 3), kernel_size=3, groups=2)
    conv('conv nobias', 'R2Conv', R(4), [irr(1), triv], [reg, triv], (3, 3), kernel_size=3, bias=False)
    conv('conv one pair', 'R2Conv', R(4), [reg, reg], [reg], (3, 3), kernel_size=3)
    for k in (dict(), dict(affine=False), dict(momentum=None), dict(track_running_stats=False)):
        n = '-'.join(k) or 'default'
        one(f'innerbn {n}', 'InnerBatchNorm', R(4), [reg, triv, reg], (1, 2), batch=2, order=True, **k)
    for k in (dict(), dict(affine=False), dict(momentum=None)):
        n = '-'.join(k) or 'default'
        one(f'normbn {n}', 'NormBatchNorm', R(4), [irr(1), irr(2), irr(1)], (1, 2), batch=2, order=True, **k)
        one(f'gnormbn {n}', 'GNormBatchNorm', R(3), [irr(1), triv, irr(1)], (1, 2), batch=2, order=True, **k)
        one(f'inducedbn {n}', 'InducedNormBatchNorm', FR(4), [ind((None, 4), 1), ind((None, 4), 1)], (1, 2), batch=2, order=True, **k)
    one('normrelu', 'NormNonLinearity', R(4), [irr(1), irr(2), irr(1)], (1, 2), order=True)
    one('norm squash', 'NormNonLinearity', R(4), [irr(1), irr(2)], (1, 2), function='squash', bias=False)
    one('inducednorm', 'InducedNormNonLinearity', FR(4), [ind((None, 4), 1), ind((None, 4), 1)], (1, 2), order=True)
    one('gated1', 'GatedNonLinearity1', R(4), [triv, triv, irr(1), irr(2)], (1, 2), order=True)
    one('inducedgated', 'InducedGatedNonLinearity1', FR(4), [ind((None, 4), 0), ind((None, 4), 1)], (1, 2), order=True)
    one('concatenated', 'ConcatenatedNonLinearity', R(4), [irr(1), irr(1)], (1, 2), order=True) if False else None
    one('relu', 'ReLU', R(4), [reg, triv], (1, 2))
    one('antialiased', 'PointwiseMaxPoolAntialiased', R(4), [triv, triv], (4, 4), 3, 2)
    one('avg antialiased', 'PointwiseAvgPoolAntialiased', R(4), [triv, triv], (4, 4), 0.6, 2)
    one('mask', 'MaskModule', R(4), [reg, triv], (4, 4), 4)
    one('gpool', 'GroupPooling', R(4), [reg, triv, reg], (1, 2), order=True)
    one('normpool', 'NormPool', R(4), [irr(1), irr(2), irr(1)], (1, 2), order=True)
    one('normmax', 'NormMaxPool', R(4), [irr(1), irr(2), irr(1)], (2, 2), 2, order=True)
    one('dropout', 'PointwiseDropout', R(4), [reg, triv], (1, 2), 0.4)
    one('fielddropout', 'FieldDropout', R(4), [irr(1), reg, irr(1)], (1, 2), 0.4, order=True)
    one('disentangle', 'DisentangleModule', R(4), [lambda g: group.directsum([g.irrep(1), g.trivial_repr], name='dsx'), reg, triv], (1, 2), order=True)
    one('restriction', 'RestrictionModule', FR(4), [reg, irr(1, 1)], (1, 2), (None, 2))
    one('reshuffle', 'ReshuffleModule', R(4), [reg, irr(1), triv], (1, 2), [2, 0, 1])

    def chain(name, gs, first, hw, *fs, batch=1, named=False):
        def build():
            it = ft(gs(), *first)
            ms, t = [], it
            for f in fs:
                ms.append(f(t))
                t = ms[-1].out_type
            return enn.SequentialModule(*([OrderedDict((f'z{9 - i}', m) for i, m in enumerate(ms))] if named else ms)), it
        L.append((name, build, hw, batch, True))
    cv = lambda *outs, **k: (lambda t: enn.R2Conv(t, ft(t.gspace, *outs), initialize=False, **k))
    chain('chain', R(4), [triv], (2, 2), cv(reg, triv, kernel_size=3, padding=1), lambda t: enn.InnerBatchNorm(t), lambda t: enn.ReLU(t), batch=2)
    chain('chain named', R(4), [irr(1)], (3, 3), cv(irr(1), irr(2), kernel_size=3, padding=1), lambda t: enn.NormNonLinearity(t), cv(triv, irr(1), kernel_size=3), named=True)

    def multiple():
        it = ft(R(4)(), reg, irr(1), triv, irr(1))
        labels = ['p', 'n', 'p', 'n']
        a = it.group_by_labels(labels)
        return enn.MultipleModule(it, labels, [(enn.InnerBatchNorm(a['p']), 'p'), (enn.NormNonLinearity(a['n']), 'n')]), it
    L.append(('multiple', multiple, (1, 2), 2, True))

    def branching():
        it = ft(R(4)(), reg, irr(1), triv, irr(1))
        from e2cnn.nn.modules.branching_module import BranchingModule
        return BranchingModule(it, ['b', 'a', 'b', 'c'], 2), it
    L.append(('branching', branching, (1, 2), 1, True))
    return L


def cases(tier):
    C = []
    for name, build, hw, batch, order in catalogue():
        C.append((f'state {name}', round_trip(build, hw, batch)))
        if not name.startswith('branching'):
            C.append((f'copy {name}', copies(build, hw, batch)))
        if order:
            C.append((f'order {name}', order_case(build, hw, batch)))
    return C
