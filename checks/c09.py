"""C09: what was built before does not change what is built now.

Two worlds of the library are imported next to each other from /repo: one where nothing was built, one with a
history.  The object under test is built in both, and the solver shows that the two agree for all weights,
all group elements, all points.  Equality of bases, which the caches rely on, is executed with symbolic
parameters (widths, radii, axes): equal bases are the same function.
"""
import sys
import importlib
import contextlib
from kcommon import *
from symx import harness
from symx.harness import Eq, Fact, Skip
from symx import st

NAMES = lambda n: n == 'e2cnn' or n.startswith('e2cnn.')


class World:
    """a private copy of the library: all its modules imported anew, so nothing was built before"""

    def __init__(self):
        with self._swap({}):
            importlib.import_module('e2cnn')
            importlib.import_module('e2cnn.nn')
            self.mods = {n: m for n, m in sys.modules.items() if NAMES(n)}

    @contextlib.contextmanager
    def _swap(self, mods):
        saved = {n: m for n, m in sys.modules.items() if NAMES(n)}
        for n in saved:
            del sys.modules[n]
        sys.modules.update(mods)
        try:
            yield self
        finally:
            for n in [n for n in sys.modules if NAMES(n)]:
                del sys.modules[n]
            sys.modules.update(saved)

    def on(self):
        return self._swap(self.mods)

    def __getattr__(self, n):
        m = self.__dict__['mods'].get('e2cnn.' + n)
        if m is None:
            raise AttributeError(n)
        return m


def world(*steps, rebuild=False):
    """a world with a history"""
    W = World()
    W.rebuild = rebuild
    with W.on():
        for s in steps:
            try:
                s(W)
            except Exception as e:
                if 'EmptyBasis' not in type(e).__name__:
                    raise
    return W


# ------------------------------------------------------------------ spaces and types of a world
def space(W, s):
    """one object for all the layers of a world on the same space, as in a network (or a new one each time)"""
    mem = W.__dict__.setdefault('spaces', {})
    if W.__dict__.get('rebuild') or s not in mem:
        mem[s] = new_space(W, s)
    return mem[s]


def new_space(W, s):
    g = W.gspaces
    k, a = s[0], s[1:]
    return {'T': lambda: g.TrivialOnR2(), 'F': lambda: g.Flip2dOnR2(axis=a[0]) if a else g.Flip2dOnR2(),
            'R': lambda: g.Rot2dOnR2(N=a[0]), 'SO2': lambda: g.Rot2dOnR2(N=-1, maximum_frequency=a[0]),
            'FR': lambda: g.FlipRot2dOnR2(N=a[0], axis=a[1]), 'O2': lambda: g.FlipRot2dOnR2(N=-1, maximum_frequency=a[0], axis=a[1])}[k]()


def last(W, G):
    # the irreps a continuous group lists depend on the highest frequency asked for so far, by design
    return G.irrep(2) if type(G) is W.group.SO2 else G.irrep(1, 2) if type(G) is W.group.O2 else list(G.irreps.values())[-1]


def reps(W, gs, spec):
    G = gs.fibergroup
    out = []
    for s in spec:
        if s == 'reg':
            out.append(G.regular_representation)
        elif s == 'triv':
            out.append(G.trivial_representation)
        elif s == 'last':
            out.append(last(W, G))
        elif s == 'one':   # the first non trivial irrep
            out.append(list(G.irreps.values())[1] if G.order() != 1 else G.trivial_representation)
        elif s == 'gen':
            d = W.group.directsum([last(W, G), G.trivial_representation], name='vx_ds')
            out.append(W.group.change_basis(d, general(d.size), 'vx_gen'))
        else:
            raise ValueError(s)
    return out


def layer(kind, sp, i, o, *a, **kw):
    def build(W):
        gs = space(W, sp)
        ti, to = W.nn.FieldType(gs, reps(W, gs, i)), W.nn.FieldType(gs, reps(W, gs, o))
        k = dict(kw)
        if k.get('basis_filter') == 'low':
            k['basis_filter'] = lambda d: d['frequency'] <= 1
        if k.get('basis_filter') == 'even':
            k['basis_filter'] = lambda d: d['idx'] % 2 == 0
        if k.get('basis_filter') == 'odd':
            k['basis_filter'] = lambda d: d['idx'] % 2 == 1
        if k.get('basis_filter') == 'inner':
            k['basis_filter'] = lambda d: d['frequency'] == 0 and d['radius'] < .5
        if k.get('basis_filter') == 'outer':
            k['basis_filter'] = lambda d: d['frequency'] == 0 and d['radius'] > .5
        return getattr(W.nn, kind)(ti, to, *a, initialize=False, **k)
    return build


def expanded(E, m, share=None):
    """filter and bias of a layer for symbolic weights (those of the layer share, when given)"""
    if share is None:
        E.params(m)
    else:
        for (n0, p0), (n1, p1) in zip(share.named_modules(), m.named_modules()):
            for pn in p0._parameters:
                p1._parameters[pn] = p0._parameters[pn]
    with E.run():
        return m.expand_parameters()


def agree(E, m0, m1, W0, W1):
    obs = [Fact('number of weights', {n: tuple(p.shape) for n, p in m0.named_parameters()} == {n: tuple(p.shape) for n, p in m1.named_parameters()},
                f'{[tuple(p.shape) for p in m0.parameters()]} fresh, {[tuple(p.shape) for p in m1.parameters()]} after the history')]
    if not obs[0].ok:
        return obs
    obs.append(Fact('basis names', list(m0.basisexpansion.get_basis_names()) == list(m1.basisexpansion.get_basis_names())))
    obs.append(Fact('state', [(k, tuple(v.shape), v.dtype) for k, v in m0.state_dict().items()] == [(k, tuple(v.shape), v.dtype) for k, v in m1.state_dict().items()]))
    with W0.on():
        f0, b0 = expanded(E, m0)
    with W1.on():
        f1, b1 = expanded(E, m1, m0)
    obs.append(Eq('filter', f1, f0))
    obs.append(Fact('bias present', (b0 is None) == (b1 is None)))
    if b0 is not None and b1 is not None:
        obs.append(Eq('bias', b1, b0))
    return obs


def history(target, steps, then=None, rebuild=False):
    """target built after the steps against target built first"""
    def fn(E):
        W0 = World()
        with W0.on():
            m0 = target(W0)
        W1 = world(*steps, rebuild=rebuild)
        with W1.on():
            m1 = target(W1)
            if then:
                then(W1, m1)
        return agree(E, m0, m1, W0, W1)
    return fn


def survives(target, steps):
    """a layer built first is not changed by what is built, cast or loaded afterwards"""
    return history(target, [], lambda W, m: [s(W) for s in steps])


def cast(target):
    """build, cast to double and discard"""
    return lambda W: target(W).double()


def trained(target, c):
    """build, change all its buffers and weights, evaluate"""
    def f(W):
        import torch
        m = target(W)
        sd = m.state_dict()
        m.load_state_dict({k: v * c + 1 if v.dtype.is_floating_point else v for k, v in sd.items()})
        m.eval()
    return f


def evaluated(target):
    def f(W):
        m = target(W)
        m.eval()
        m.train()
    return f


GRIDS = [[-1., 0., 1.], [-2., 0., 2.], [-.5, 0., .5], [0., 1., 2.], [-2., -1., 0.], [-1., 0., 2.], [-1., 0., 1., 2.], [-2., -1., 0., 1., 2.], [-1., -.5, 0., .5, 1.]]


def sampled(sp, k, kind):
    """discretisation of a public basis on a grid chosen by the user"""
    def f(W):
        gs = new_space(W, sp)
        G = gs.fibergroup
        a, b = G.trivial_representation, last(W, G)
        ax, ay = np.array(GRIDS[k]), np.array(GRIDS[[0, 1, 2, 0, 1, 2, 7, 8, 7][k]])
        pts = np.stack(np.meshgrid(ax, -ay, indexing='xy')).reshape(2, -1)
        fin = dict(maximum_frequency=2) if G.order() > 0 else {}
        if kind == 'kernel':
            B = gs.build_kernel_basis(a, b, sigma=[.6, .5], rings=[0., 1.], **fin)
        else:
            B = gs.build_diffop_basis(a, b, max_power=0, discretization=W.diffops.DiscretizationArgs(), **(dict(maximum_offset=0) if fin else {}))
            m = np.array([x['order'] < min(len(ax), len(ay)) for x in B])
            return B.sample_masked(pts, m)
        return B.sample(pts)
    return f


def samples(sp, k, order, kind):
    """combination of the sampled elements with symbolic coefficients, after sampling on the other grids"""
    def fn(E):
        W0 = World()
        with W0.on():
            x = sampled(sp, k, kind)(W0)
        W1 = world(*[sampled(sp, j, kind) for j in order if j != k])
        with W1.on():
            y = sampled(sp, k, kind)(W1)
        obs = [Fact('shape', x.shape == y.shape)]
        if x.shape == y.shape and x.size:
            import torch
            w = E.var('w', (x.shape[2],))
            with E.run():
                mix = lambda v: (torch.as_tensor(np.ascontiguousarray(v), dtype=torch.float32) * w.reshape(1, 1, -1, 1)).sum(2)
                obs.append(Eq('samples', mix(y), mix(x)))
        return obs
    return fn


def families(big):
    """label -> list of (label, builder): members differ from each other in one or two parameters"""
    C = 'R2Conv'
    out = {}
    h = math.pi / 2

    def fam(name, kind, base, *changes):
        ms = []
        for c in ({},) + changes:
            d = dict(base, **c)
            sp, i, o, a = d.pop('sp'), d.pop('i'), d.pop('o'), d.pop('a')
            ms.append((' '.join(f'{k}={v}' for k, v in c.items()).replace("'", '') or 'base', layer(kind, sp, i, o, *a, **d)))
        out[name] = ms

    kch = [dict(sigma=[.6, .4], rings=[0., 1.]), dict(sigma=[.6, .6], rings=[0., 1.]), dict(sigma=[.4, .6], rings=[0., 1.]), dict(sigma=.5), dict(rings=[1., 1.4]), dict(rings=[0., 1.3]), dict(rings=[1.3, 0.]),
           dict(frequencies_cutoff=1.), dict(frequencies_cutoff=2.), dict(frequencies_cutoff=0.), dict(maximum_offset=0), dict(maximum_offset=1), dict(a=(5,)), dict(dilation=2), dict(a=(5,), dilation=2),
           dict(basis_filter='low'), dict(basis_filter='even'), dict(basis_filter='odd'), dict(basis_filter='inner'), dict(basis_filter='outer'), dict(rings=[1.4, 1.]), dict(bias=False), dict(recompute=True), dict(groups=2), dict(i=('reg', 'one', 'reg', 'one'), o=('reg', 'one', 'reg', 'one')),
           dict(i=('one',)), dict(o=('one',)), dict(i=('triv', 'reg'), o=('reg', 'triv'))]
    for lab, sp in (('C4', ('R', 4)), ('D4', ('FR', 4, h)), ('C3', ('R', 3))):
        fam(f'conv {lab}', C, dict(sp=sp, i=('reg', 'triv') if lab != 'C4' else ('reg', 'reg'), o=('reg',) if lab != 'C4' else ('reg', 'reg'), a=(3,)),
            *[c for c in kch if not (lab != 'C4' and 'groups' in c)])
    fam('transposed C4', 'R2ConvTransposed', dict(sp=('R', 4), i=('reg', 'triv'), o=('reg',), a=(3,)), *[c for c in kch if 'groups' not in c and 'i' not in c][:14])
    for lab, sps, i in (('axis of Flip', [('F', 0.), ('F', h), ('F', math.pi / 4), ('F', .7), ('F', -h), ('F', h + math.pi), ('F',)], ('reg', 'one')),
                        ('axis of D4', [('FR', 4, 0.), ('FR', 4, h), ('FR', 4, math.pi / 4), ('FR', 4, .3), ('FR', 4, math.pi / 8), ('R', 4), ('FR', 2, h)], ('reg', 'one', 'last')),
                        ('axis of D3', [('FR', 3, 0.), ('FR', 3, h), ('FR', 3, math.pi / 3), ('FR', 3, math.pi / 6)], ('reg', 'last')),
                        ('axis of small groups', [('FR', 2, 0.), ('FR', 2, h), ('FR', 2, .4), ('F', h), ('F', 0.), ('R', 2), ('T',)], ('reg', 'triv')),
                        ('axis of O2', [('O2', 2, 0.), ('O2', 2, h), ('O2', 3, h), ('O2', 2, .4), ('SO2', 2), ('SO2', 3)], ('triv', 'one', 'last')),
                        ('order', [('R', n) for n in (2, 3, 4, 6, 8)] + [('FR', n, h) for n in (2, 3, 4)] + [('T',)], ('reg', 'triv'))):
        fam(lab, C, dict(sp=sps[0], i=i, o=i, a=(3,)), *[dict(sp=s) for s in sps[1:]])
        if big or 'D4' in lab or 'Flip' in lab:
            fam('diffop ' + lab, 'R2Diffop', dict(sp=sps[0], i=i, o=i[:1], a=(3,)), *[dict(sp=s) for s in sps[1:]])
    dch = [dict(a=(5,)), dict(a=(5,), dilation=2), dict(dilation=2), dict(maximum_order=1), dict(maximum_order=0), dict(a=(5,), maximum_order=2), dict(a=(5,), maximum_order=3), dict(a=(5,), maximum_power=0), dict(a=(5,), maximum_power=1),
           dict(angle_offset=.3), dict(angle_offset=.5), dict(angle_offset=0.), dict(maximum_offset=0), dict(maximum_offset=1), dict(a=(5,), maximum_offset=0, maximum_order=3), dict(basis_filter='even'), dict(basis_filter='odd'), dict(bias=False), dict(recompute=True), dict(i=('one',)), dict(o=('one',)),
           dict(a=(None,), accuracy=2, maximum_order=2), dict(a=(None,), accuracy=4, maximum_order=2), dict(a=(4,)), dict(a=(4,), maximum_order=2)]
    for lab, sp in (('C4', ('R', 4)), ('D4', ('FR', 4, h))) if not big else (('C4', ('R', 4)), ('D4', ('FR', 4, h)), ('C3', ('R', 3)), ('D3', ('FR', 3, 0.))):
        fam(f'diffop {lab}', 'R2Diffop', dict(sp=sp, i=('reg', 'triv'), o=('reg',), a=(3,)), *dch)
    fam('diffop SO2', 'R2Diffop', dict(sp=('SO2', 2), i=('triv', 'one'), o=('one', 'last'), a=(5,)), dict(sp=('SO2', 3)), dict(sp=('O2', 2, h)), dict(sp=('O2', 2, 0.)), dict(maximum_order=2), dict(angle_offset=.4), dict(maximum_power=0))
    out['names'] = [(a + ' ' + ' '.join(c), layer(C, sp, c, c, 3)) for a, sp in (('C4', ('R', 4)), ('D4', ('FR', 4, h)), ('C2', ('R', 2))) for c in (('gen',), ('gen', 'triv'), ('reg', 'gen'))]
    return out


# ------------------------------------------------------------------ groups and representations
def rmatrix(E, r, W, tag=''):
    """the representation as a function on the whole group: list of (element label, matrix)"""
    G = r.group
    out = []
    if G.order() > 0:
        return [(str(g), np.asarray(r(g), dtype=object if E.symbolic else float)) for g in G.elements]
    t = E.real('t', -math.pi, math.pi)
    with E.run():
        for s in ((0, 1) if W.group.O2 is type(G) else (None,)):
            out.append((f'{s}', np.asarray(r(t if s is None else (s, t)))))
    return out


def robjects():
    g = {}
    g['so2 irrep 3'] = lambda W: W.group.so2_group(3).irrep(3)
    g['so2 irrep 6'] = lambda W: W.group.so2_group(1).irrep(6) if False else W.group.so2_group(6).irrep(6)
    g['so2 irrep 1 small'] = lambda W: W.group.so2_group(1).irrep(1)
    g['o2 irrep 1,2'] = lambda W: W.group.o2_group(2).irrep(1, 2)
    g['o2 irrep 1,0'] = lambda W: W.group.o2_group(0).irrep(1, 0)
    g['o2 irrep 1,5'] = lambda W: W.group.o2_group(5).irrep(1, 5)
    for n in (1, 2, 3, 4, 6):
        g[f'C{n} regular'] = lambda W, n=n: W.group.cyclic_group(n).regular_representation
        g[f'D{n} regular'] = lambda W, n=n: W.group.dihedral_group(n).regular_representation
        g[f'C{n} last'] = lambda W, n=n: W.group.cyclic_group(n).irrep(n // 2)
        g[f'D{n} last'] = lambda W, n=n: W.group.dihedral_group(n).irrep(1, n // 2)
    for q in (2, 3, 6):
        g[f'C6/{q}'] = lambda W, q=q: W.group.cyclic_group(6).quotient_representation(q)
    for q in ((None, 2), (None, 4), (0, 1), (1, 1), (0, 2), (1, 2), (2, 1)):
        g[f'D4/{q}'.replace(' ', '')] = lambda W, q=q: W.group.dihedral_group(4).quotient_representation(q)
    for q in ((0, 1), (1, 1), (2, 1), (0, 3), (None, 3)):
        g[f'D3/{q}'.replace(' ', '')] = lambda W, q=q: W.group.dihedral_group(3).quotient_representation(q)
    for s in ((None, 2), (None, 4), (0, 1), (1, 1), (0, 2), (1, 2), (0, 4)):
        g[f'D4|{s}'.replace(' ', '')] = lambda W, s=s: W.group.dihedral_group(4).restrict_representation(s, W.group.dihedral_group(4).regular_representation)
        if s[1] <= 2 or s[0] is None:
            g[f'D4^{s}'.replace(' ', '')] = lambda W, s=s: W.group.dihedral_group(4).induced_representation(s, list(W.group.dihedral_group(4).subgroup(s)[0].irreps.values())[-1])
    for s in ((None, 4), (0., 3), (.5, 3), (0., 1), (1.2, 1), (None, -1), (0.3, -1), (0., -1)):
        g[f'O2|{s}'.replace(' ', '')] = lambda W, s=s: W.group.o2_group(4).restrict_representation(s, W.group.o2_group(4).irrep(1, 3))
    for s in (3, 4, 5):
        g[f'SO2|{s}'] = lambda W, s=s: W.group.so2_group(4).restrict_representation(s, W.group.so2_group(4).irrep(4))
        g[f'C12^{s}'] = lambda W, s=s: W.group.cyclic_group(12).induced_representation(s, W.group.cyclic_group(s).irrep(1)) if 12 % s == 0 else W.group.cyclic_group(s).irrep(1)
    for n in (3, 4):
        g[f'C{n} named'] = lambda W, n=n: W.group.directsum([W.group.cyclic_group(n).irrep(1), W.group.cyclic_group(n).irrep(0)], name='vx')
        g[f'C{n} named other'] = lambda W, n=n: W.group.directsum([W.group.cyclic_group(n).irrep(0), W.group.cyclic_group(n).irrep(1)], name='vx')
        g[f'C{n} tensor'] = lambda W, n=n: W.group.cyclic_group(n).irrep(1).tensor(W.group.cyclic_group(n).irrep(1)) if hasattr(W.group.Representation, 'tensor') else W.group.cyclic_group(n).irrep(1)
    for s in ((None, 2), (0, 2), (1, 2), (0, 1)):
        def sp(W, s=s):
            gs, back, _ = W.gspaces.FlipRot2dOnR2(4).restrict(s)
            return gs.fibergroup.regular_representation
        g[f'restricted space {s}'.replace(' ', '')] = sp
    return g


def rep_history(target, steps):
    def fn(E):
        W0 = World()
        with W0.on():
            r0 = target(W0)
            m0 = rmatrix(E, r0, W0)
        W1 = world(*steps)
        with W1.on():
            r1 = target(W1)
            m1 = rmatrix(E, r1, W1)
        obs = [Holds('group', r0.group.name == r1.group.name and r0.group.order() == r1.group.order() and r0.size == r1.size),
               Holds('irreps', sorted(r0.irreps) == sorted(r1.irreps), f'{r0.irreps} fresh, {r1.irreps} after the history'),
               Holds('nonlinearities', set(r0.supported_nonlinearities) == set(r1.supported_nonlinearities)),
               Holds('elements', [a for a, _ in m0] == [a for a, _ in m1])]
        for (a, x), (b, y) in zip(m0, m1):
            obs.append(Same(f'rho({a})', y, x))
        c = r1.change_of_basis
        with W1.on(), E.run():
            for (a, y), (b, z) in zip(m1, rmatrix_irreps(E, r1, W1)):
                obs.append(Same(f'decomposition({a})', c @ z @ r1.change_of_basis_inv, y, 1e-5))
        return obs
    return fn


def rmatrix_irreps(E, r, W):
    G = r.group
    els = list(G.elements) if G.order() > 0 else None
    t = None if els else E.real('t', -math.pi, math.pi)
    if els is None:
        els = [(s, t) for s in (0, 1)] if type(G) is W.group.O2 else [t]
    out = []
    for g in els:
        z = np.zeros((r.size, r.size), dtype=object)
        p = 0
        for n in r.irreps:
            m = np.asarray(G.irreps[n](g))
            z[p:p + len(m), p:p + len(m)] = m
            p += len(m)
        out.append((str(g), z if E.symbolic else z.astype(float)))
    return out


# ------------------------------------------------------------------ equality with symbolic parameters
def profile_eq(n):
    """radial profiles which compare equal are the same function"""
    def fn(E):
        v = {k: [E.real(f'{k}{i}', 0.0 if 'r' in k else 0.3, 3.0) for i in range(n)] for k in ('r', 'R', 's', 'S')}
        with E.run():
            a = kernels.GaussianRadialProfile(v['r'], v['s'])
            b = kernels.GaussianRadialProfile(v['R'], v['S'])
            eq = a == b
            if E.symbolic:
                close = pe.And(*[pe.And(x - y <= 1e-3, y - x <= 1e-3) for x, y in zip(v['r'] + v['s'], v['R'] + v['S'])])
                return [pe.Implies('equal profiles are the same function', eq, close),
                        pe.Implies('same parameters compare equal', pe.And(*[x == y for x, y in zip(v['r'] + v['s'], v['R'] + v['S'])]), eq)]
            p = np.linspace(0, 5, 41).reshape(1, -1)
            same = float(np.abs(a.sample(p) - b.sample(p)).max())
            return [Holds('equal profiles are the same function', not eq or same < 5e-3, f'differ by {same:.3g}'),
                    Holds('same parameters compare equal', bool(eq) or [float(x) for x in v['r'] + v['s']] != [float(x) for x in v['R'] + v['S']])]
    return fn


def axis_eq(kind, mk, lim):
    """two spaces, or two bases, whose flip axes differ do not compare equal unless they are the same"""
    def fn(E):
        x, y = E.real('axis', -math.pi, math.pi), E.real('axis2', -math.pi, math.pi)
        mk(.1)   # the group itself does not depend on the axis
        with E.run():
            ga, gb = mk(x), mk(y)
            eq = ga == gb
            if E.symbolic:
                return [pe.Implies('equal spaces have the same axis', eq, pe.And(x - y <= 1e-3, y - x <= 1e-3)), pe.Implies('same axis, same space', x == y, eq)]
        if bool(eq):
            p = cartesian([1.3] * 9, [.7 * k for k in range(9)])
            r = list(ga.fibergroup.irreps.values())[-1]
            d = [g.build_kernel_basis(r, ga.fibergroup.trivial_representation, sigma=.6, rings=[1.3], **lim).sample(p) for g in (ga, gb)]
            same = d[0].shape == d[1].shape and float(np.abs(d[0] - d[1]).max())
            return [Holds('equal spaces have the same axis', same is not False and same < 5e-3, f'kernels differ by {same}')]
        return [Holds('same axis, same space', x != y)]
    return fn


SPACES = {'F': (lambda x: gspaces.Flip2dOnR2(axis=x), True, True), 'D3': (lambda x: gspaces.FlipRot2dOnR2(N=3, axis=x), True, True), 'D4': (lambda x: gspaces.FlipRot2dOnR2(N=4, axis=x), True, True),
          'O2': (lambda x: gspaces.FlipRot2dOnR2(N=-1, maximum_frequency=2, axis=x), True, False), 'C4': (lambda x: gspaces.Rot2dOnR2(4), False, True),
          'C3': (lambda x: gspaces.Rot2dOnR2(3), False, True), 'SO2': (lambda x: gspaces.Rot2dOnR2(-1, 2), False, False), 'T': (lambda x: gspaces.TrivialOnR2(), False, True)}


def basis_eq(sp, a, b, diffop):
    """two bases that compare equal are the same functions: representations, axis, cut-offs, offsets, powers all chosen by the solver"""
    mk, has_axis, has_lim = SPACES[sp]

    def fn(E):
        def make(tag):
            gs = mk(E.choose('axis' + tag, [0.0, .5, math.pi / 2] if has_axis else [0.0]))
            G = gs.fibergroup
            kw = {}
            if has_lim:
                u = E.choose('limit' + tag, [(1, None), (2, None), (None, 0), (None, 1), (2, 1)][:2 if diffop and has_axis else 3 if diffop else 5])
                n = ('maximum_frequency', 'maximum_offset')
                kw = {k: v for k, v in zip(n, u) if v is not None}
            i = rep(gs, a)
            o = rep(gs, E.choose('out' + tag, [a, b]))
            try:
                if diffop:
                    pw, al = E.choose('power' + tag, [(0, None), (1, None), (0, .4)])
                    return gs.build_diffop_basis(i, o, max_power=pw, discretization=diffops.DiscretizationArgs(angle_offset=al), **kw)
                return gs.build_kernel_basis(i, o, sigma=[.6, .7], rings=[0., 1.5], **kw)
            except EmptyBasisException:
                return None
        x = make('')
        y = make('2')
        if x is None or y is None:
            return [Holds('one of them is empty', True)]
        eq = bool(x == y)
        obs = [Holds('equality is symmetric', bool(y == x) == eq), Holds('a basis equals itself', bool(x == x)), Holds('equal bases hash alike', not eq or hash(x) == hash(y))]
        if eq:
            obs.append(Holds('equal bases have the same shape', x.dim == y.dim and x.shape == y.shape))
            if x.dim == y.dim and x.shape == y.shape:
                if diffop:
                    g = np.array([(i - 3., 3. - j) for j in range(7) for i in range(7)]).T
                    pad = lambda B: np.stack([np.pad(c, [(0, 0), (0, 0), (0, 16 - c.shape[-1])]) for c in B.coefficients])
                    obs.append(Same('equal bases are the same operators', pad(x), pad(y)))
                    if x.maximum_order <= 6:
                        obs.append(Same('equal bases give the same filters', x.sample(g), y.sample(g)))
                else:
                    p = E.real('phi', -math.pi, math.pi)
                    with E.run():
                        q = cartesian([1.3], [p])
                        obs.append(Same('equal bases are the same functions', x.sample(q), y.sample(q)))
        return obs
    return fn


def build_eq(fam, mk, k):
    """the memory of a space is keyed by every parameter: widths and radii symbolic"""
    def fn(E):
        gs = mk()
        G = gs.fibergroup
        a, b = list(G.irreps.values())[0], list(G.irreps.values())[-1]
        v = {n: E.real(n, .3, 3.0) for n in ('s', 'r', 's2', 'r2')}
        lims = [dict(maximum_frequency=1), dict(maximum_frequency=3), dict(maximum_offset=1), dict(maximum_offset=1, maximum_frequency=3)] if G.order() > 0 else [{}]
        l1, l2 = E.choose('l', lims), E.choose('l2', lims)
        p1, p2 = E.choose('p', [(a, b), (b, a), (b, b)]), E.choose('p2', [(a, b), (b, b)])
        with E.run(), (pe.real_hash() if E.symbolic else contextlib.nullcontext()):
            try:
                x = gs.build_kernel_basis(*p1, sigma=[v['s']], rings=[v['r']], **l1)
                y = gs.build_kernel_basis(*p2, sigma=[v['s2']], rings=[v['r2']], **l2)
            except EmptyBasisException:
                return [Holds('empty', True)]
            same = lambda u, w: pe.And(u - w <= 1e-4, w - u <= 1e-4) if E.symbolic else abs(u - w) <= 1e-4
            t = y[0]
            obs = [Holds('radius of the second basis', same(t['radius'], v['r2'])), Holds('width of the second basis', same(t['sigma'], v['s2'])),
                   Holds('representations of the second basis', t['in_irrep'] == p2[0].irreps[0] and t['out_irrep'] == p2[1].irreps[0])]
            ref = mk().build_kernel_basis(p2[0], p2[1], sigma=[v['s2']], rings=[v['r2']], **l2)
            key = lambda B: [(u['frequency'], u.get('s'), u['in_irrep'], u['out_irrep']) for u in B]
            obs.append(Holds('elements of the second basis', len(y) == len(ref) and key(y) == key(ref)))
        return obs
    return fn


INFO = dict(
    functions=['GeneralOnR2.build_kernel_basis/build_diffop_basis (memory)', 'block_basisexpansion (_stored_filters)', 'SingleBlockBasisExpansion, BlocksBasisExpansion', 'R2Conv/R2ConvTransposed/R2Diffop.expand_parameters',
               'basis __eq__/__hash__ (kernels and diffops)', 'discretize_homogeneous_polynomial, discretize_1d_monomial (caches)', 'group factories _generator', 'Group.regular/quotient/restrict/induced representation memory', 'GSpace.__eq__'],
    bounds='layers: every ordered pair (earlier, later) inside each family of configurations listed in the case names, and the history made of all the other members, for all weights in [-1,1]; representations: ordered pairs of constructions, all elements (symbolic angle for SO(2), O(2)); equality: widths and radii symbolic in [0.3,3], axes symbolic in [-pi,pi], other parameters chosen symbolically out of listed values',
    outside='rbf based discretisation (package not installed); disk cache of operators; two different representations of one group given the same name inside one field type',
    assumptions=['float arithmetic is compared with tolerance 1e-3 on filters', 'a re-import of all library modules is a process in which nothing was built'],
)


def cases(tier):
    big = tier == 'thorough'
    out = []
    fams = families(big)
    for name, ms in fams.items():
        for i, (lab, t) in enumerate(ms):
            others = [m for m in ms if m[0] != lab]
            out.append((f'{name}: {lab} after all others', history(t, [m[1] for m in others])))
            out.append((f'{name}: {lab} after all others reversed', history(t, [m[1] for m in others[::-1]], rebuild=True)))
            out.append((f'{name}: {lab} unchanged by the others', survives(t, [m[1] for m in others])))
            for j, (l2, s) in enumerate(others):
                if big or (i == 0) or l2 == 'base' or (i + j) % 5 == 0:
                    out.append((f'{name}: {lab} after {l2}', history(t, [s])))
            if i < (3 if not big else 99):
                out.append((f'{name}: {lab} after casting', history(t, [cast(t)])))
                out.append((f'{name}: {lab} after loading', history(t, [trained(t, 2.)])))
                out.append((f'{name}: {lab} after evaluating', history(t, [evaluated(t)])))
                out.append((f'{name}: {lab} unchanged by casting', survives(t, [cast(t)])))
                out.append((f'{name}: {lab} unchanged by loading', survives(t, [trained(t, -1.)])))
    # across families
    firsts = [(n, ms[0][1]) for n, ms in fams.items()]
    for i, (n, t) in enumerate(firsts):
        out.append((f'across: {n} after the other families', history(t, [s for m, s in firsts if m != n])))
    n = len(GRIDS)
    for lab, sp in (('C4', ('R', 4)), ('D3', ('FR', 3, .4)), ('SO2', ('SO2', 2))):
        for kind in ('kernel', 'operator'):
            for k in range(n):
                out.append((f'samples {kind} {lab} grid {k}', samples(sp, k, range(n), kind)))
                out.append((f'samples {kind} {lab} grid {k} reversed', samples(sp, k, range(n)[::-1], kind)))
    ro = robjects()
    keys = list(ro)

    def add(n, f, s=6):
        out.append((n, pe.case(f, samples=s), 'custom'))
    for i, k in enumerate(keys):
        add(f'{k} after all others', rep_history(ro[k], [ro[o] for o in keys if o != k]), 3)
        add(f'{k} after all others reversed', rep_history(ro[k], [ro[o] for o in keys[::-1] if o != k]), 3)
        for j, o in enumerate(keys):
            if big or (o != k and (o[:2] == k[:2] or 'restricted' in o) and (i + j) % 3 == 0):
                add(f'{k} after {o}', rep_history(ro[k], [ro[o]]), 3)
    for n in (1, 2, 3):
        add(f'equality of profiles {n}', profile_eq(n), 20)
    lim = dict(maximum_frequency=2)
    add('equality Flip2dOnR2', axis_eq('F', lambda x: gspaces.Flip2dOnR2(axis=x), lim), 20)
    for n in (2, 3, 4):
        add(f'equality FlipRot2dOnR2 {n}', axis_eq('FR', lambda x, n=n: gspaces.FlipRot2dOnR2(N=n, axis=x), lim), 20)
    add('equality FlipRot2dOnR2 O2', axis_eq('O2', lambda x: gspaces.FlipRot2dOnR2(N=-1, maximum_frequency=2, axis=x), {}), 20)
    for f, (mk, _, _) in SPACES.items():
        irr = ['irr:' + n for n in mk(.3).fibergroup.irreps]
        for a, b in {(irr[0], irr[-1]), (irr[-1], irr[0]), (irr[-1], irr[len(irr) // 2]), ('sum', 'general')}:
            add(f'equality of kernel bases {f} {a.replace('irr:', '')}-{b.replace('irr:', '')}', basis_eq(f, a, b, False), 20)
            add(f'equality of operator bases {f} {a.replace('irr:', '')}-{b.replace('irr:', '')}', basis_eq(f, a, b, True), 20)
    for f, mk in (('C4', R(4)), ('C3', R(3)), ('D3', FR(3)), ('F', F(.3)), ('SO2', R(-1, 2)), ('O2', FR(-1, .2, 2)), ('T', T)):
        add(f'memory of {f}', build_eq(f, mk, 0), 10)
    return out
