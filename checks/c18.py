"""C18: GeometricTensor indexing, splitting, summing, arithmetic and transformation."""
import warnings
from common import *
from c10 import R, SO2, O2, FR, FL, TR, twisted
from symx.npb import Bridge

warnings.simplefilter('ignore')

INFO = dict(
    level='model_checking',
    functions=['GeometricTensor.__init__, __getitem__, split, transform, transform_fibers, restrict, to, shape, size, __add__, __sub__, __iadd__, __isub__, __mul__, __rmul__, __imul__', 'tensor_directsum',
               'FieldType.transform, restrict, fields_start, fields_end, representation', 'GSpace.featurefield_action and _basespace_action of every space', 'gspaces.r2.utils.rotate_array'],
    bounds='tensor contents: all real values in [-1,1]; up to 5 fields, batch 1..3, spatial size up to 3x4; every integer index and every slice with start, stop in [-n-2, n+2] or None and step in {None, -3..3} '
           'over the fields (n <= 5), combined with batch and spatial indices as listed; every increasing list of break points; transformations by all elements which map the pixel grid to itself and by their products',
    outside='interpolated rotations (angles which are not multiples of 90 degrees); out of range positive indices on the batch and spatial axes; empty selections of fields (rejected); advanced indexing (rejected)',
    assumptions=['real arithmetic with float constants; tolerance 1e-3', 'the matrices rho(g) come from the library (C03)'],
)


def starts(t):
    out, p = [], 0
    for r in t.representations:
        out.append((p, p + r.size))
        p += r.size
    return out


def chans(t, fields):
    s = starts(t)
    return [c for f in fields for c in range(*s[f])]


def take(x, *idx):
    """entries selected by one explicit list of positions per axis"""
    n = tuple(len(i) for i in idx)
    full = [list(range(k)) for k in x.shape]
    for a, i in enumerate(idx):
        full[a] = i
    pos = torch.arange(x.numel()).reshape(tuple(x.shape))
    pos = pos[np.ix_(*full)]
    if isinstance(x, st.SymTensor):
        return st.new(P.gather(st.pm(x), pos.reshape(-1).numpy()), tuple(pos.shape), x.dtype)
    return x.reshape(-1)[pos.reshape(-1)].reshape(pos.shape)


def positions(n, i):
    if isinstance(i, int):
        return [range(n)[i]]
    return list(range(n)[i])


def index_case(gs_f, fields, shape, indices):
    def fn(E):
        gs = gs_f()
        t = ft(gs, *fields)
        x = E.var('x', (shape[0], t.size) + shape[1:])
        g = enn.GeometricTensor(x, t)
        obs = []
        nf = len(t)
        dims = [shape[0], nf] + list(shape[1:])
        for ix in indices:
            tup = ix if isinstance(ix, tuple) else (ix,)
            # documented meaning: the first ellipsis stands for all the axes which are not indexed
            k = sum(1 for i in tup if i is not Ellipsis)
            ex, seen = [], False
            for i in tup:
                if i is Ellipsis:
                    if not seen:
                        ex += [slice(None)] * (len(dims) - k)
                        seen = True
                else:
                    ex.append(i)
            ex += [slice(None)] * (len(dims) - len(ex))
            sel = [positions(n, i) for n, i in zip(dims, ex)]
            if not sel[1]:
                continue
            with E.run():
                y = g[ix]
            lab = str(ix)
            obs.append(Fact(f'type of x[{lab}]', y.type.gspace == gs and list(y.type.representations) == [t.representations[f] for f in sel[1]] and y.type.size == y.tensor.shape[1]))
            obs.append(Eq(f'x[{lab}]', y.tensor, take(x, sel[0], chans(t, sel[1]), *sel[2:])))
        obs.append(Fact('indexed tensor keeps its type', g.type == t and [r.name for r in g.type] == [r.name for r in t.representations]))
        return obs
    return fn


def all_slices(n, steps=(None, 1, 2, 3, -1, -2, -3)):
    r = [None] + list(range(-n - 2, n + 3))
    return [slice(a, b, c) for a in r for b in r for c in steps]


def split_case(gs_f, fields):
    def fn(E):
        gs = gs_f()
        t = ft(gs, *fields)
        n = len(t)
        x = E.var('x', (2, t.size, 2, 1))
        g = enn.GeometricTensor(x, t)
        obs = []
        for k in range(n):
            for br in itertools.combinations(range(1, n), k):
                for form in ((list(br),) if k < n - 1 else (list(br), None)):
                    arg = form
                    with E.run():
                        parts = g.split(arg)
                    bounds = [0] + list(br) + [n]
                    obs.append(Fact(f'split({form}) pieces', len(parts) == len(bounds) - 1))
                    obs.append(Fact(f'split({form}) leaves its argument alone', arg is None or arg == list(br)))
                    for p, a, b in zip(parts, bounds, bounds[1:]):
                        obs.append(Fact(f'split({form})[{a}:{b}] type', list(p.type.representations) == list(t.representations[a:b]) and p.type.gspace == gs))
                        obs.append(Eq(f'split({form})[{a}:{b}]', p.tensor, take(x, [0, 1], chans(t, range(a, b)))))
                    # and back
                    with E.run():
                        s = enn.tensor_directsum(parts)
                    obs.append(Fact(f'directsum(split({form})) type', s.type == t))
                    obs.append(Eq(f'directsum(split({form}))', s.tensor, x))
        return obs
    return fn


def sum_case(gs_f, *types):
    def fn(E):
        gs = gs_f()
        ts = [ft(gs, *f) for f in types]
        xs = [E.var(f'x{i}', (2, t.size, 2, 3)) for i, t in enumerate(ts)]
        before = [x.clone() for x in xs]
        gts = [enn.GeometricTensor(x, t) for x, t in zip(xs, ts)]
        obs = []
        for perm in itertools.permutations(range(len(ts))):
            arg = [gts[i] for i in perm]
            with E.run():
                y = enn.tensor_directsum(arg)
            reps = [r for i in perm for r in ts[i].representations]
            obs.append(Fact(f'{perm} type', list(y.type.representations) == reps and y.type.gspace == gs))
            p = 0
            for i in perm:
                obs.append(Eq(f'{perm} part {i}', y.tensor[:, p:p + ts[i].size], before[i]))
                p += ts[i].size
            obs.append(Fact(f'{perm} nothing else', y.tensor.shape[1] == p))
        for i, x in enumerate(xs):
            obs.append(Eq(f'argument {i} unchanged', x, before[i]))
            obs.append(Fact(f'type {i} unchanged', gts[i].type == ts[i] and len(gts[i].type) == len(types[i])))
        return obs
    return fn


def arith_case(gs_f, fields):
    def fn(E):
        gs = gs_f()
        t = ft(gs, *fields)
        t2 = ft(gs, *fields)
        shape = (2, t.size, 2, 2)
        x, y = E.var('x', shape), E.var('y', shape)
        x0, y0 = x.clone(), y.clone()
        s = E.var('s', (1,), -2.0, 2.0)
        a, b = enn.GeometricTensor(x, t), enn.GeometricTensor(y, t2)
        obs = []
        with E.run():
            obs.append(Eq('a + b', (a + b).tensor, x0 + y0))
            obs.append(Eq('a - b', (a - b).tensor, x0 - y0))
            obs.append(Eq('a * 1.7', (a * 1.7).tensor, x0 * 1.7))
            obs.append(Eq('-0.3 * a', (-0.3 * a).tensor, x0 * -0.3))
            obs.append(Eq('a * s', (a * s).tensor, x0 * s))
        for o in (a + b, a - b, a * 1.7, -0.3 * a):
            obs.append(Fact('type of results', o.type == t))
        obs.append(Eq('a is unchanged', a.tensor, x0))
        obs.append(Eq('b is unchanged', b.tensor, y0))
        for op in ('+=', '-=', '*='):
            x1 = x0.clone()
            c = enn.GeometricTensor(x1, t)
            d = c
            with E.run():
                if op == '+=':
                    c += b
                    want = x0 + y0
                elif op == '-=':
                    c -= b
                    want = x0 - y0
                else:
                    c *= 2.5
                    want = x0 * 2.5
            obs.append(Eq(f'a {op} b', c.tensor, want))
            obs.append(Eq(f'{op} acts in place', x1, want))
            obs.append(Fact(f'{op} keeps the object and the type', c is d and c.type == t))
            obs.append(Eq(f'b is unchanged by {op}', b.tensor, y0))
        with E.run():
            c = enn.GeometricTensor(x0.clone(), t)
            c *= s
        obs.append(Eq('a *= s', c.tensor, x0 * s))
        obs.append(Fact('shape and size', tuple(a.shape) == shape and tuple(a.size()) == shape))
        other = ft(gs, *(fields + [triv]))
        z = E.var('z', (2, other.size, 2, 2))
        for nm, f in (('+', lambda: a + enn.GeometricTensor(z, other)), ('-', lambda: a - enn.GeometricTensor(z, other))):
            try:
                with E.run():
                    f()
                ok = False
            except AssertionError:
                ok = True
            obs.append(Fact(f'different types cannot be combined with {nm}', ok))
        return obs
    return fn


def transform_case(gs_f, fields, hw=(2, 3), batch=2, elements=None, products=True):
    def fn(E):
        gs = gs_f()
        t = ft(gs, *fields)
        els = elements or grid_elements(gs)
        x = E.var('x', (batch, t.size, *hw))
        x0 = x.clone()
        g = enn.GeometricTensor(x, t)
        obs = []
        Y = {}
        for e in els:
            with E.run(), Bridge():
                y = g.transform(e)
                f = g.transform_fibers(e)
            Y[e] = y
            obs.append(Fact(f'type after {e}', y.type == t and f.type == t))
            obs.append(Eq(f'transform by {e}', y.tensor, act(x0, t, e)))
            obs.append(Eq(f'transform_fibers by {e}', f.tensor, act(x0, t, e, spatial=False)))
        obs.append(Eq('the tensor itself is unchanged', g.tensor, x0))
        if products:
            G = gs.fibergroup
            for a in els:
                for b in els:
                    with E.run(), Bridge():
                        z = Y[b].transform(a)
                        w = g.transform(G.combine(a, b))
                    obs.append(Eq(f'{a} after {b}', z.tensor, w.tensor))
        return obs
    return fn


def restrict_case(gs_f, fields, id):
    """the restricted tensor is the same data, and moves in the same way under the subgroup"""
    def fn(E):
        gs = gs_f()
        t = ft(gs, *fields)
        x = E.var('x', (1, t.size, 2, 3))
        g = enn.GeometricTensor(x, t)
        with E.run():
            r = g.restrict(id)
        obs = [Eq('same data', r.tensor, x), Fact('original type kept', g.type == t)]
        sub, parent, child = gs.restrict(id)
        obs.append(Fact('space', r.type.gspace == sub and r.type == t.restrict(id)))
        for e in grid_elements(sub):
            with E.run(), Bridge():
                a = r.transform(e)
                b = g.transform(parent(e))
            obs.append(Eq(f'transform by {e}', a.tensor, b.tensor))
        return obs
    return fn


def cases(tier):
    C = []
    th = tier == 'thorough'
    mixed = [reg, triv, irr(1), triv]
    S4 = all_slices(4)
    chunks = 12
    for k in range(chunks):
        C.append((f'fields-slices-{k}', index_case(R(4), mixed, (1, 1, 1), [(slice(None), s) for s in S4[k::chunks]])))
    C.append(('fields-int', index_case(R(4), [irr(1), triv, reg, irr(1), triv], (1, 1, 2), [(slice(None), i) for i in range(-5, 5)] + [(0, i) for i in range(-5, 5)])))
    C.append(('fields-equal', index_case(FR(3), [irr(1, 1)] * 3, (1, 1, 2), [(slice(None), s) for s in all_slices(3, (None, 2, -1))])))
    C.append(('one-field', index_case(R(4), [reg], (2, 1, 2), [(slice(None), s) for s in all_slices(1, (None, 1, -1))] + [(slice(None), 0), (1, -1), (..., 0), (0, ...)])))
    idx = []
    el = [slice(None), 0, -1, slice(1, None), slice(0, 2), slice(None, None, 2)]
    for b in el:
        idx.append(b)
        idx.append((b, ...))
        for f in (slice(None), 1, -1, slice(1, 3), slice(0, 4, 2), slice(None, None, -1), slice(1, 9), slice(-9, 2)):
            idx.append((b, f))
            idx.append((b, f, ...))
            for h in (0, -1, slice(1, None), slice(None, None, 2)):
                idx.append((b, f, h))
                idx.append((b, f, ..., h))
                idx.append((b, f, h, slice(0, 1)))
    for h in el:
        idx += [(..., h), (..., h, 1), (..., h, slice(None)), (slice(None), ..., h), (..., 1, h, slice(None))]
    idx += [..., (...,), (..., ...), (0, ..., ...), (..., slice(None), 1, 0)]
    for k in range(4):
        C.append((f'all-axes-{k}', index_case(R(4), [irr(1), triv, triv, irr(1)], (3, 2, 3), idx[k::4])))
    C.append(('two-axes', index_case(R(4), [irr(1), triv, irr(1)], (3,), [(slice(None), s) for s in all_slices(3, (None, 2, -1))] + [0, slice(1, 3), (0, 1), (..., 1), (-1, slice(None, None, -2))])))

    C.append(('split-mixed', split_case(R(4), [reg, triv, irr(1), triv])))
    C.append(('split-d3', split_case(FR(3), [irr(1, 1), triv, irr(1, 0), irr(1, 1)])))
    C.append(('split-one', split_case(R(4), [irr(1)])))
    C.append(('sum-3', sum_case(R(4), [reg, triv], [irr(1)], [triv, triv])))
    C.append(('sum-1', sum_case(R(4), [reg, triv])))
    C.append(('sum-same', sum_case(FR(3), [irr(1, 1), triv], [irr(1, 1), triv])))
    C.append(('arith', arith_case(R(4), [reg, irr(1)])))
    C.append(('arith-d3', arith_case(FR(3), [irr(1, 1)])))
    T = [
        ('c4', R(4), [reg, triv, irr(1), irr(2)]), ('c8', R(8), [irr(1), irr(3), triv]), ('c2', R(2), [reg, irr(1)]), ('c3', R(3), [irr(1), reg]), ('c6', R(6), [irr(1), triv]), ('c12', R(12), [irr(1), irr(5)]),
        ('d4', FR(4), [reg, irr(1, 1)]), ('d4-axis0', FR(4, axis=0.), [irr(1, 1), irr(1, 0), triv]), ('d4-axis45', FR(4, axis=math.pi / 4), [irr(1, 1), irr(1, 0)]), ('d8', FR(8), [irr(1, 1), irr(1, 3)]), ('d8-axis', FR(8, axis=math.pi / 8), [irr(1, 1)]),
        ('d3', FR(3), [irr(1, 1), reg]), ('d2', FR(2), [reg, irr(1, 1)]), ('d12', FR(12), [irr(1, 1)]),
        ('flip', FL(), [reg, irr(1)]), ('flip-axis0', FL(0.), [reg, irr(1)]), ('flip-axis45', FL(math.pi / 4), [reg, irr(1)]), ('flip-axis135', FL(3 * math.pi / 4), [irr(1)]), ('trivial', TR, [triv, triv]),
        ('so2', SO2(), [irr(0), irr(1), irr(2)]), ('o2', O2(), [irr(1, 1), irr(1, 0), irr(1, 2)]), ('o2-axis0', O2(3, 0.), [irr(1, 1), irr(0, 0)]), ('quotient', FR(4), [quo((0, 1)), quo((None, 2))]),
        ('twisted', R(4), [lambda g: twisted(g.regular_repr, 1), irr(1)]), ('c44', R(44), [irr(1)]), ('c22', R(22), [irr(3)]), ('c60', R(60), [irr(1)]),
    ]
    for name, g, f in T:
        for hw in ((2, 3), (3, 3)) if not th else ((2, 3), (3, 3), (1, 4), (4, 2), (1, 1)):
            C.append((f'transform-{name}-{hw[0]}x{hw[1]}', transform_case(g, f, hw)))
    # the same rotations written as other multiples of a quarter turn
    q = math.pi / 2
    C.append(('transform-so2-wrapped', transform_case(SO2(), [irr(0), irr(1)], (2, 3), elements=[0., q, 2 * q, 3 * q, 3 * q + 1e-15, q * (1 - 1e-15), 2 * q - 4e-16], products=True)))
    C.append(('transform-o2-wrapped', transform_case(O2(), [irr(1, 1), irr(0, 0)], (2, 3), elements=[(0, 0.), (1, q), (0, 3 * q + 1e-15), (1, q * (1 - 1e-15)), (1, 3 * q)], products=False)))
    for name, g, f, i in [
        ('d4-c4', FR(4), [reg, irr(1, 1)], (None, 4)), ('d4-c2', FR(4), [reg], (None, 2)), ('d4-flip0', FR(4), [irr(1, 1)], (0, 1)), ('d4-flip1', FR(4), [irr(1, 1), reg], (1, 1)), ('d4-d2', FR(4), [irr(1, 1)], (0, 2)), ('d4-d2b', FR(4), [irr(1, 1)], (1, 2)),
        ('c8-c4', R(8), [reg, irr(1)], 4), ('c4-c1', R(4), [reg], 1), ('so2-c4', SO2(), [irr(1), irr(2)], 4), ('o2-d4', O2(), [irr(1, 1), irr(1, 2)], (0., 4)), ('o2-so2', O2(), [irr(1, 1)], (None, -1)), ('o2-c4', O2(), [irr(1, 1)], (None, 4)), ('o2-flip', O2(), [irr(1, 1)], (q, 1)),
        ('flip-triv', FL(), [reg], 1), ('d8-axis-d4', FR(8, axis=math.pi / 8), [irr(1, 1)], (1, 4)),
    ]:
        C.append((f'restrict-{name}', restrict_case(g, f, i)))
    if th:
        S5 = all_slices(5)
        for k in range(32):
            C.append((f'fields5-slices-{k}', index_case(FR(4), [irr(1, 1), triv, irr(1, 0), irr(1, 1), irr(1, 1)], (1, 1, 1), [(slice(None), s) for s in S5[k::32]])))
        C.append(('split-5', split_case(R(4), [irr(1), triv, irr(1), irr(2), triv])))
        C.append(('split-6', split_case(FR(4), [irr(1, 1), triv, irr(1, 0), irr(1, 1), triv, reg])))
        C.append(('sum-4', sum_case(FR(4), [reg, triv], [irr(1, 1)], [triv], [irr(1, 1), triv])))
        for n in range(2, 65):
            C.append((f'transform-all-c{n}', transform_case(R(n), [irr(1)], (2, 3), batch=1)))
            if n <= 32:
                C.append((f'transform-all-d{n}', transform_case(FR(n), [irr(1, 1) if n > 2 else irr(1, 0), triv], (2, 3), batch=1)))
    return C
