"""Symbolic execution of unmodified PyTorch code.

A SymTensor is a torch.Tensor subclass (wrapper) whose elements are polynomials (see poly.py).
Every aten operator reaching the dispatcher is interpreted here; view semantics are exact because
the view operators are executed on a real LongTensor of storage indices.
"""
import math
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten
from . import poly as P

aten = torch.ops.aten


class Unsupported(Exception):
    pass


STATS = {'ops': 0, 'opset': {}}


class Storage:
    __slots__ = ('m', 'fin', 'n')

    def __init__(self, m, fin=None):
        self.m = m
        self.fin = fin        # (vals[n,K] float, sel[n,K] mono ids or -1)
        self.n = m.shape[0] if m is not None else fin[0].shape[0]

    def poly(self):
        if self.m is None:
            vals, sel = self.fin
            n, k = vals.shape
            r, c = np.nonzero(sel >= 0)
            self.m = P.mk(n, r, sel[r, c], vals[r, c])
        return self.m


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, storage, idx, dtype):
        r = torch.Tensor._make_wrapper_subclass(
            cls, idx.size(), strides=idx.stride(), storage_offset=idx.storage_offset(),
            dtype=dtype, layout=torch.strided, device='cpu', requires_grad=False)
        r._st = storage
        r._idx = idx
        return r

    def __init__(self, *a, **k):
        pass

    @property
    def data(self):
        return SymTensor(self._st, self._idx, self.dtype)

    @data.setter
    def data(self, v):
        if not isinstance(v, SymTensor):
            v = lift(v)
        if tuple(v.shape) != tuple(self.shape):
            raise Unsupported('data assignment changes shape')
        self._st = v._st
        self._idx = v._idx

    @property
    def grad(self):
        return None

    def __repr__(self):
        return f'SymTensor(shape={tuple(self.shape)})'

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        return new(P.gather(self._st.poly(), idxnp(self)), self.shape, self.dtype)

    def numpy(self, *a, **k):
        raise Unsupported('numpy() of a symbolic tensor')

    def tolist(self):
        raise Unsupported('tolist() of a symbolic tensor')

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a symbolic tensor')


def idxnp(t):
    return t._idx.reshape(-1).numpy()


def new(m, shape, dtype=torch.float32, fin=None):
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape)) if shape else 1
    st = Storage(m, fin)
    assert st.n == n, (st.n, shape)
    return SymTensor(st, torch.arange(n, dtype=torch.int64).view(shape), dtype)


def lift(t):
    if isinstance(t, SymTensor):
        return t
    if isinstance(t, torch.Tensor):
        a = t.detach().to(torch.float64).reshape(-1).numpy()
        return new(P.const(a), t.shape, t.dtype)
    return new(P.const([float(t)]), (), torch.float32)


def pm(t):
    """polynomial matrix, rows in logical order"""
    t = lift(t)
    return P.gather(t._st.poly(), idxnp(t))


def fin(t):
    if isinstance(t, SymTensor) and t._st.fin is not None:
        i = idxnp(t)
        return t._st.fin[0][i], t._st.fin[1][i]
    return None


def is_sym(t):
    return isinstance(t, SymTensor)


def is_constant(t):
    return (not is_sym(t)) or P.is_const(pm(t))


def concrete(t):
    """real tensor of a constant SymTensor"""
    if not is_sym(t):
        return t
    if fin(t) is not None:
        m = pm(t)
    else:
        m = pm(t)
    if not P.is_const(m):
        raise Unsupported('concretisation of a symbolic value')
    return torch.from_numpy(P.const_vals(m)).reshape(tuple(t.shape)).to(t.dtype)


def var(name, shape, lo=-1.0, hi=1.0, dtype=torch.float32):
    c = P.ctx()
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    ats = [c.var(f'{name}[{i}]', lo, hi) for i in range(n)]
    return new(P.atoms_arr(ats), shape, dtype)


def bcast(*ts):
    ts = [lift(t) for t in ts]
    idxs = torch.broadcast_tensors(*[t._idx for t in ts])
    return [SymTensor(t._st, i, t.dtype) for t, i in zip(ts, idxs)], tuple(idxs[0].shape)


def write(dst, m, finv=None):
    """write logical rows m into dst's storage"""
    i = idxnp(dst)
    st = dst._st
    base = st.poly()
    st.fin = None
    n = st.n
    pos = np.full(n, -1, dtype=np.int64)
    pos[i] = np.arange(len(i))
    import scipy.sparse as sp
    both = sp.vstack([base, m]).tocsr()
    sel = np.where(pos >= 0, n + pos, np.arange(n))
    r = both[sel]
    r.has_canonical_format = True
    st.m = r
    return dst


def unwrap_idx(a):
    return a._idx if isinstance(a, SymTensor) else a


H = {}


def reg(*names):
    def deco(f):
        for nm in names:
            H[nm] = f
        return f
    return deco


def opname(func):
    return func._schema.name.split('::')[1]


def dispatch(func, args, kwargs):
    STATS['ops'] += 1
    nm = opname(func)
    STATS['opset'][nm] = STATS['opset'].get(nm, 0) + 1
    h = H.get(nm)
    if h is not None:
        return h(func, *args, **kwargs)
    # in-place variant of a known operator
    if nm.endswith('_') and not nm.endswith('__'):
        base = nm[:-1]
        pk = getattr(aten, base, None)
        if pk is not None:
            r = dispatch_name(base, pk, args, kwargs)
            dst = args[0]
            if not is_sym(dst):
                raise Unsupported(f'in-place write of a symbolic value into a concrete tensor ({nm})')
            r = lift(r)
            if tuple(r.shape) != tuple(dst.shape):
                (r,), _ = [[SymTensor(r._st, r._idx.expand(dst.shape), r.dtype)], 0]
            write(dst, pm(r))
            return dst
    if nm in VIEWS:
        return view_op(func, args, kwargs)
    if nm in STRUCT:
        return struct_op(func, args, kwargs)
    if nm in LINEAR:
        return linear_op(func, args, kwargs, LINEAR[nm])
    flat, _ = tree_flatten((args, kwargs))
    syms = [a for a in flat if is_sym(a)]
    if not syms:
        return func(*args, **kwargs)
    r = try_decomp(func, args, kwargs)
    if r is not NotImplemented:
        return r
    if all(is_constant(a) for a in syms):
        out = func(*tree_map(lambda a: concrete(a) if is_sym(a) else a, args),
                   **tree_map(lambda a: concrete(a) if is_sym(a) else a, kwargs))
        return tree_map(lambda a: lift(a) if isinstance(a, torch.Tensor) and a.dtype.is_floating_point else a, out)
    raise Unsupported(f'operator {func}')


def dispatch_name(base, pk, args, kwargs):
    # choose an overload of pk matching the arguments
    h = H.get(base)
    ov = None
    for o in pk.overloads():
        f = getattr(pk, o)
        if o == 'out' or any(a.is_out for a in f._schema.arguments):
            continue
        ok = len(args) <= len([a for a in f._schema.arguments if not a.kwarg_only])
        if ok:
            for a, s in zip(args, f._schema.arguments):
                ty = str(s.type)
                if ty == 'Tensor' and not isinstance(a, torch.Tensor):
                    ok = False
                if ty == 'number' and isinstance(a, torch.Tensor):
                    ok = False
        if ok:
            ov = f
            break
    if ov is None:
        raise Unsupported(f'overload of {base}')
    return dispatch(ov, args, kwargs)


_DEC = None


def try_decomp(func, args, kwargs):
    global _DEC
    if _DEC is None:
        from torch._decomp import decomposition_table

        _DEC = decomposition_table
    f = _DEC.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), 'CompositeImplicitAutograd'):
        return func.decompose(*args, **kwargs)
    return NotImplemented


# ---------------------------------------------------------------- views
VIEWS = set('''view _unsafe_view t transpose permute expand slice select unsqueeze squeeze alias detach
as_strided split split_with_sizes chunk unbind diagonal unfold narrow _reshape_alias view_as expand_as
swapaxes movedim lift_fresh numpy_T adjoint _conj real unsafe_split unsafe_chunk lift_fresh_copy'''.split())


def view_op(func, args, kwargs):
    a0 = args[0]
    if not is_sym(a0):
        return func(*args, **kwargs)
    out = func(*tree_map(unwrap_idx, args), **tree_map(unwrap_idx, kwargs))
    return tree_map(lambda o: SymTensor(a0._st, o, a0.dtype) if isinstance(o, torch.Tensor) else o, out)


# ---------------------------------------------------------------- structural copies
STRUCT = set('''flip roll repeat index_select gather index constant_pad_nd reflection_pad2d reflection_pad1d
replication_pad2d replication_pad1d upsample_nearest2d upsample_nearest1d tril triu take repeat_interleave rot90
unfold_copy diagonal_copy masked_select pixel_shuffle pixel_unshuffle channel_shuffle'''.split())


def struct_op(func, args, kwargs):
    nm = opname(func)
    a0 = args[0]
    rest = args[1:]
    if not is_sym(a0):
        # symbolic index into a constant: only through one-hot
        a0 = lift(a0)
    if nm == 'gather' and is_sym(args[2]):
        return sym_gather(a0, args[1], args[2])
    rest = tree_map(lambda x: concrete(x) if is_sym(x) else x, rest)
    kw = tree_map(lambda x: concrete(x) if is_sym(x) else x, kwargs)
    if nm == 'index':
        rest = ([i if i is None else (i.long() if i.dtype not in (torch.bool, torch.uint8) else i) for i in rest[0]],)
    pos = torch.arange(1, a0.numel() + 1, dtype=torch.float64).view(a0.shape)
    fill = None
    if nm == 'constant_pad_nd':
        fill = rest[1] if len(rest) > 1 else kw.pop('value', 0)
        if is_sym(fill):
            fill = float(concrete(fill))
        rest = (rest[0], 0)
    o = func(pos, *rest, **kw)
    oi = o.reshape(-1).round().long().numpy()
    m = pm(a0)
    f = fin(a0)
    if (oi > 0).all():
        g = oi - 1
        if f is not None:
            return new(None, o.shape, a0.dtype, (f[0][g], f[1][g]))
        return new(P.gather(m, g), o.shape, a0.dtype)
    import scipy.sparse as sp
    z = P.const([float(fill or 0.0)])
    both = sp.vstack([z, m]).tocsr()
    r = both[oi]
    r.has_canonical_format = True
    return new(r, o.shape, a0.dtype)


def sym_gather(a, dim, index):
    f = fin(index)
    if f is None:
        index = concrete(index)
        return struct_op(aten.gather.default, (a, dim, index), {})
    vals, sel = f
    shape = tuple(index.shape)
    base = torch.arange(a.numel()).view(a.shape)
    m = pm(a)
    acc = None
    for k in range(vals.shape[1]):
        iv = torch.from_numpy(np.where(sel[:, k] >= 0, vals[:, k], 0).astype(np.int64)).view(shape)
        src = torch.gather(base, dim, iv).reshape(-1).numpy()
        ok = np.nonzero(sel[:, k] >= 0)[0]
        ind = P.mk(len(src), ok, sel[ok, k], np.ones(len(ok)))
        term = P.mul(P.gather(m, src), ind)
        acc = term if acc is None else P.add(acc, term)
    return new(acc, shape, a.dtype)


@reg('index')
def _index(func, a, indices, **k):
    if is_sym(a) and any(is_sym(i) and not is_constant(i) for i in indices if i is not None):
        raise Unsupported('data dependent index')
    return struct_op(func, (a, indices), k)


@reg('cat', 'concat', 'concatenate')
def _cat(func, ts, dim=0):
    ts = [lift(t) for t in ts if not (t.dim() == 1 and t.numel() == 0)]
    pos = []
    off = 0
    ms = []
    for t in ts:
        n = t.numel()
        pos.append(torch.arange(off, off + n).view(t.shape))
        ms.append(pm(t))
        off += n
    o = torch.cat(pos, dim)
    import scipy.sparse as sp
    m = sp.vstack(ms).tocsr() if len(ms) > 1 else ms[0]
    m.has_canonical_format = True
    return new(P.gather(m, o.reshape(-1).numpy()), o.shape, ts[0].dtype)


@reg('stack')
def _stack(func, ts, dim=0):
    ts = [lift(t) for t in ts]
    nd = ts[0].dim() + 1
    d = dim % nd
    return _cat(None, [SymTensor(t._st, t._idx.unsqueeze(d), t.dtype) for t in ts], d)


@reg('clone', 'contiguous', 'clone_', 'lift', 'positive')
def _clone(func, a, **k):
    mf = k.get('memory_format', None)
    if fin(a) is not None:
        return new(None, a.shape, a.dtype, fin(a))
    if not is_sym(a):
        return func(a, **k)
    return new(pm(a), a.shape, a.dtype)


@reg('_to_copy', 'to')
def _to(func, a, *r, **k):
    dt = k.get('dtype')
    for x in r:
        if isinstance(x, torch.dtype):
            dt = x
        elif isinstance(x, torch.Tensor):
            dt = x.dtype
    dt = dt or a.dtype
    if fin(a) is not None:
        f = fin(a)
        if not dt.is_floating_point and a.dtype.is_floating_point:
            f = (np.trunc(f[0]), f[1])
        return new(None, a.shape, dt, f)
    if not dt.is_floating_point and a.dtype.is_floating_point:
        if is_constant(a):
            return concrete(a).to(dt)
        raise Unsupported('float to int cast of symbolic value')
    return new(pm(a), a.shape, dt)


@reg('resolve_conj', 'resolve_neg')
def _ident(func, a):
    return a


# ---------------------------------------------------------------- factories
def fresh_junk(shape, tag='uninit'):
    c = P.ctx()
    c.fresh += 1
    return var(f'{tag}{c.fresh}', shape, -1e3, 1e3)


MAKE_UNINIT = [True]


def _fact(kind, shape, dtype, val=0.0):
    dtype = dtype or torch.get_default_dtype()
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape)) if shape else 1
    if kind == 'empty' and MAKE_UNINIT[0] and n <= 200000:
        t = fresh_junk(shape)
        return SymTensor(t._st, t._idx, dtype)
    return new(P.const(np.full(n, float(val))), shape, dtype)


def _isfloat(dtype):
    return dtype is None or dtype.is_floating_point


@reg('empty', 'empty_strided', 'new_empty')
def _empty(func, *a, **k):
    nm = opname(func)
    if nm == 'new_empty':
        size, dt = a[1], k.get('dtype') or a[0].dtype
    else:
        size, dt = a[0], k.get('dtype')
    if not _isfloat(dt):
        return func(*a, **k) if nm != 'new_empty' else torch.empty(tuple(size), dtype=dt)
    return _fact('empty', size, dt)


@reg('empty_like')
def _empty_like(func, a, **k):
    dt = k.get('dtype') or a.dtype
    if not _isfloat(dt):
        return torch.empty(tuple(a.shape), dtype=dt)
    return _fact('empty', a.shape, dt)


@reg('zeros', 'ones')
def _zeros(func, size, **k):
    if not _isfloat(k.get('dtype')):
        return func(size, **k)
    return _fact('c', size, k.get('dtype'), 0. if opname(func) == 'zeros' else 1.)


@reg('zeros_like', 'ones_like')
def _zeros_like(func, a, **k):
    dt = k.get('dtype') or a.dtype
    v = 0. if opname(func) == 'zeros_like' else 1.
    if not _isfloat(dt):
        return torch.full(tuple(a.shape), v).to(dt)
    return _fact('c', a.shape, dt, v)


@reg('full')
def _full(func, size, v, **k):
    if is_sym(v):
        v = float(concrete(v))
    dt = k.get('dtype')
    if not _isfloat(dt) or (dt is None and not isinstance(v, float)):
        return func(size, v, **k)
    return _fact('c', size, dt, v)


@reg('full_like', 'new_full', 'new_zeros', 'new_ones')
def _full_like(func, a, *r, **k):
    nm = opname(func)
    dt = k.get('dtype') or a.dtype
    if nm == 'full_like':
        size, v = a.shape, r[0]
    elif nm == 'new_full':
        size, v = r
    else:
        size, v = r[0], (0. if nm == 'new_zeros' else 1.)
    if not _isfloat(dt):
        return torch.full(tuple(size), v).to(dt)
    return _fact('c', size, dt, v)


RAND = {'hook': None}


@reg('rand', 'randn', 'rand_like', 'randn_like')
def _rand(func, a, *r, **k):
    if not torch._C._get_tracing_state and False:
        pass
    shape = a.shape if isinstance(a, torch.Tensor) else a
    nm = opname(func)
    dt = k.get('dtype') or torch.get_default_dtype()
    c = P.ctx()
    c.fresh += 1
    if RAND['hook'] is None:
        raise Unsupported('random source ' + nm)
    return RAND['hook'](nm, tuple(shape), {})


@reg('bernoulli', 'bernoulli_', 'uniform_', 'normal_', 'uniform', 'normal')
def _rnd_inplace(func, a, *r, **k):
    nm = opname(func)
    if RAND['hook'] is None:
        raise Unsupported('random source ' + nm)
    t = RAND['hook'](nm.rstrip('_'), tuple(a.shape), {'args': r, 'kw': k, 'self': a, 'inplace': nm.endswith('_')})
    if nm.endswith('_'):
        if not is_sym(a):
            raise Unsupported('random fill of concrete tensor')
        write(a, pm(t))
        return a
    return t


@reg('fill_')
def _fill(func, a, v):
    v = lift(v)
    if not is_sym(a):
        if is_constant(v):
            return func(a, float(concrete(v)))
        raise Unsupported('symbolic fill of concrete')
    write(a, pm(SymTensor(v._st, v._idx.reshape(()).expand(a.shape), a.dtype)))
    return a


@reg('zero_')
def _zero(func, a):
    return _fill(func, a, 0.0)


@reg('fill')
def _fill_(func, a, v):
    v = lift(v)
    return new(pm(SymTensor(v._st, v._idx.reshape(()).expand(a.shape), a.dtype)), a.shape, a.dtype)


@reg('copy_')
def _copy_(func, dst, src, non_blocking=False):
    src = lift(src)
    if not is_sym(dst):
        if is_constant(src):
            return func(dst, concrete(src))
        raise Unsupported('copy of symbolic values into a concrete tensor')
    s = SymTensor(src._st, src._idx.expand(dst.shape), dst.dtype)
    f = fin(s)
    if f is not None and len(f[0]) == dst._st.n:
        inv = np.empty(dst._st.n, dtype=np.int64)
        inv[idxnp(dst)] = np.arange(dst._st.n)
        dst._st.fin = (f[0][inv], f[1][inv])
        dst._st.m = None
        return dst
    write(dst, pm(s))
    return dst


@reg('copy')
def _copy(func, dst, src, non_blocking=False):
    src = lift(src)
    return new(pm(SymTensor(src._st, src._idx.expand(dst.shape), dst.dtype)), dst.shape, dst.dtype)


@reg('index_put_', 'index_put', '_unsafe_index_put', '_index_put_impl_')
def _index_put(func, dst, indices, values, accumulate=False, unsafe=False):
    nm = opname(func)
    inplace = nm.endswith('_')
    d = lift(dst)
    if inplace and not is_sym(dst):
        raise Unsupported('index_put of symbolic value into concrete tensor')
    values = lift(values)
    masks = [i for i in indices if i is not None and is_sym(i)]
    if masks:
        if len(indices) != 1:
            raise Unsupported('mixed symbolic mask index')
        mask = indices[0]
        if values.numel() != 1:
            raise Unsupported('masked assignment with tensor values')
        mk_ = SymTensor(mask._st, mask._idx.reshape(tuple(mask.shape) + (1,) * (d.dim() - mask.dim())).expand(d.shape), torch.bool)
        cur = pm(d)
        val = pm(SymTensor(values._st, values._idx.reshape(()).expand(d.shape), d.dtype))
        if accumulate:
            val = P.add(cur, val)
        r = P.add(cur, P.mul(pm(mk_), P.sub(val, cur)))
        if inplace:
            write(dst, r)
            return dst
        return new(r, d.shape, d.dtype)
    indices = [None if i is None else (concrete(i) if is_sym(i) else i) for i in indices]
    pos = torch.arange(d.numel()).view(d.shape)
    tgt = pos[tuple(slice(None) if i is None else i for i in indices)] if not _noncontig(indices) else aten.index(pos, indices)
    v = SymTensor(values._st, values._idx.expand(tgt.shape), d.dtype)
    base = pm(d)
    t = tgt.reshape(-1).numpy()
    vm = pm(v)
    if accumulate:
        A = np.zeros((d.numel(), len(t)))
        A[t, np.arange(len(t))] = 1
        r = P.add(base, P.linmap(A, vm))
    else:
        tmp = new(base, d.shape, d.dtype)
        flat = SymTensor(tmp._st, torch.from_numpy(t.copy()), d.dtype)
        write(flat, vm)
        r = tmp._st.poly()
    if inplace:
        write(dst, r)
        return dst
    return new(r, d.shape, d.dtype)


def _noncontig(indices):
    return True


@reg('scatter', 'scatter_')
def _scatter(func, dst, dim, index, src, **k):
    d = lift(dst)
    index = concrete(index) if is_sym(index) else index
    pos = torch.arange(d.numel()).view(d.shape)
    t = torch.gather(pos, dim, index).reshape(-1).numpy()
    s = lift(src)
    if s.numel() == 1 and index.numel() != 1:
        s = SymTensor(s._st, s._idx.reshape(()).expand(index.shape), d.dtype)
    else:
        s = SymTensor(s._st, s._idx[tuple(slice(0, n) for n in index.shape)], d.dtype)
    tmp = new(pm(d), d.shape, d.dtype)
    write(SymTensor(tmp._st, torch.from_numpy(t.copy()), d.dtype), pm(s))
    if opname(func).endswith('_'):
        write(dst, tmp._st.poly())
        return dst
    return tmp


# ---------------------------------------------------------------- linear operators
# name -> index of the linear tensor argument
LINEAR = {n: 0 for n in '''sum mean avg_pool2d adaptive_avg_pool2d _adaptive_avg_pool2d upsample_bilinear2d
upsample_bicubic2d avg_pool1d cumsum im2col col2im upsample_linear1d trace flatten_dense_tensors
adaptive_avg_pool1d avg_pool3d _upsample_bilinear2d_aa'''.split()}
FOLD = set('''avg_pool2d adaptive_avg_pool2d _adaptive_avg_pool2d upsample_bilinear2d upsample_bicubic2d
convolution conv2d conv_transpose2d im2col'''.split())


def lin_matrix(f, shape, fold=False):
    """matrix and offset of the affine map f: R^shape -> tensor"""
    n = int(np.prod(shape)) if len(shape) else 1
    z = torch.zeros(shape, dtype=torch.float64)
    f0 = f(z)
    oshape = tuple(f0.shape)
    f0n = f0.reshape(-1).to(torch.float64).numpy()
    no = len(f0n)
    if fold and len(shape) == 4:
        b = shape[0]
        E = torch.eye(n, dtype=torch.float64).view(n, b, *shape[1:])
        outs = []
        step = max(1, 4096 // max(1, b))
        for s in range(0, n, step):
            e = E[s:s + step]
            o = f(e.reshape(-1, *shape[1:]))
            outs.append(o.reshape(e.shape[0], -1).to(torch.float64))
        A = torch.cat(outs, 0).numpy()
    else:
        A = np.zeros((n, no))
        for j in range(n):
            e = torch.zeros(n, dtype=torch.float64)
            e[j] = 1
            A[j] = f(e.view(shape)).reshape(-1).to(torch.float64).numpy()
    A = (A - f0n[None, :]).T
    return A, f0n, oshape


def linear_op(func, args, kwargs, pos):
    a = args[pos]
    kw = dict(kwargs)
    kw.pop('dtype', None)
    others = [x for i, x in enumerate(args) if i != pos]
    if any(is_sym(x) for x in tree_flatten((others, kw))[0]):
        raise Unsupported(f'{func}: symbolic parameters')
    if not is_sym(a):
        return func(*args, **kwargs)

    def f(t):
        aa = list(args)
        aa[pos] = t
        return func(*aa, **kw)
    A, c0, osh = lin_matrix(f, tuple(a.shape), opname(func) in FOLD)
    return new(P.linmap(A, pm(a), c0 if np.any(c0) else None), osh, a.dtype if a.dtype.is_floating_point else torch.get_default_dtype())


def bilinear(f, a, b, fold=False):
    """f(x, y) bilinear; a, b tensors, returns csr, shape"""
    a, b = lift(a), lift(b)
    ma, mb = pm(a), pm(b)
    ua = np.unique(ma.indices)
    ub = np.unique(mb.indices)
    swap = len(ua) < len(ub) and len(ub) > 1
    if swap:
        a, b, ma, mb, ua, ub = b, a, mb, ma, ub, ua
        g = lambda x, y: f(y, x)
    else:
        g = f
    acc = None
    osh = None
    rows = np.repeat(np.arange(mb.shape[0]), np.diff(mb.indptr))
    if len(ub) == 0:
        A, c0, osh = lin_matrix(lambda t: g(t, torch.zeros(tuple(b.shape), dtype=torch.float64)), tuple(a.shape), fold and not swap)
        return P.const(np.zeros(int(np.prod(osh)) if osh else 1)), osh
    for m in ub.tolist():
        bm = np.zeros(mb.shape[0])
        k = mb.indices == m
        bm[rows[k]] = mb.data[k]
        B = torch.from_numpy(bm).view(tuple(b.shape))
        A, c0, osh = lin_matrix(lambda t: g(t, B), tuple(a.shape), fold and not swap)
        t = P.mulmono(P.linmap(A, ma), m)
        acc = t if acc is None else P.add(acc, t)
    return acc, osh


@reg('convolution', '_convolution', 'conv2d', 'conv_transpose2d')
def _conv(func, x, w, bias=None, stride=(1, 1), padding=(0, 0), dilation=(1, 1), transposed=False, output_padding=(0, 0), groups=1, *_, **k):
    f = lambda a, b: aten.convolution(a, b, None, stride, padding, dilation, transposed, output_padding, groups)
    m, osh = bilinear(f, x, w, fold=True)
    out = new(m, osh, x.dtype)
    if bias is not None:
        bt = lift(bias)
        out = _add(None, out, SymTensor(bt._st, bt._idx.view(1, -1, *([1] * (len(osh) - 2))), bt.dtype))
    return out


@reg('mm', 'bmm', 'matmul', 'mv', 'dot', 'outer', 'vdot')
def _mm(func, a, b):
    m, osh = bilinear(lambda x, y: func(x, y), a, b)
    return new(m, osh, a.dtype if is_sym(a) else b.dtype)


@reg('addmm', 'addmv', 'addbmm', 'baddbmm')
def _addmm(func, c, a, b, *, beta=1, alpha=1):
    base = {'addmm': aten.mm, 'addmv': aten.mv, 'baddbmm': aten.bmm}[opname(func)]
    r = _mm(base.default, a, b)
    if alpha != 1:
        r = _mul(None, r, alpha)
    return _add(None, r, _mul(None, c, beta) if beta != 1 else c)


@reg('linear')
def _linear(func, x, w, bias=None):
    m, osh = bilinear(lambda p, q: torch.nn.functional.linear(p, q), x, w)
    out = new(m, osh, x.dtype)
    return out if bias is None else _add(None, out, bias)


# ---------------------------------------------------------------- arithmetic
def _dt(*ts):
    for t in ts:
        if isinstance(t, torch.Tensor) and t.dtype.is_floating_point and t.dim() > 0:
            return t.dtype
    for t in ts:
        if isinstance(t, torch.Tensor) and t.dtype.is_floating_point:
            return t.dtype
    for t in ts:
        if isinstance(t, float):
            return torch.get_default_dtype()
    for t in ts:
        if isinstance(t, torch.Tensor):
            return t.dtype
    return torch.get_default_dtype()


def fin_binary(a, b, op):
    """finite-choice tensor combined with a constant"""
    fa = fin(a)
    fb = fin(b)
    if fa is not None and fb is None and is_constant(lift(b)):
        (x, y), sh = bcast(a, b)
        f = fin(x)
        cv = P.const_vals(pm(y))
        return new(None, sh, _dt(a, b), (op(f[0], cv[:, None]), f[1]))
    if fb is not None and fa is None and is_constant(lift(a)):
        (x, y), sh = bcast(a, b)
        f = fin(y)
        cv = P.const_vals(pm(x))
        return new(None, sh, _dt(a, b), (op(cv[:, None], f[0]), f[1]))
    return None


@reg('add', '__iadd__', '__add__')
def _add(func, a, b, *, alpha=1):
    if alpha == 1:
        r = fin_binary(a, b, lambda u, v: u + v)
        if r is not None:
            return r
    (x, y), sh = bcast(a, b)
    my = pm(y)
    if alpha != 1:
        my = P.scale(my, alpha)
    return new(P.add(pm(x), my), sh, _dt(a, b))


@reg('sub', 'subtract')
def _sub(func, a, b, *, alpha=1):
    if alpha == 1:
        r = fin_binary(a, b, lambda u, v: u - v)
        if r is not None:
            return r
    return _add(None, a, b, alpha=-alpha)


@reg('rsub')
def _rsub(func, a, b, alpha=1):
    return _add(None, b, a, alpha=-alpha)


@reg('neg')
def _neg(func, a):
    return new(P.scale(pm(a), -1.0), a.shape, a.dtype)


@reg('mul', 'multiply')
def _mul(func, a, b):
    r = fin_binary(a, b, lambda u, v: u * v)
    if r is not None:
        return r
    (x, y), sh = bcast(a, b)
    return new(P.mul(pm(x), pm(y)), sh, _dt(a, b))


@reg('div', 'divide', 'true_divide')
def _div(func, a, b, *, rounding_mode=None):
    if rounding_mode is not None:
        if rounding_mode == 'floor':
            op = lambda u, v: np.floor(u / v)
        else:
            op = lambda u, v: np.trunc(u / v)
        r = fin_binary(a, b, op)
        if r is None:
            raise Unsupported('rounded division')
        return r
    r = fin_binary(a, b, lambda u, v: u / v)
    if r is not None:
        return r
    (x, y), sh = bcast(a, b)
    my = pm(y)
    if P.is_const(my):
        cv = P.const_vals(my)
        with np.errstate(all='ignore'):
            return new(P.scale(pm(x), 1.0 / cv), sh, _dt(a, b))
    return new(P.mul(pm(x), P.inv(my)), sh, _dt(a, b))


@reg('floor_divide', 'remainder', 'fmod')
def _fdiv(func, a, b):
    op = {'floor_divide': lambda u, v: np.floor(u / v), 'remainder': np.mod, 'fmod': np.fmod}[opname(func)]
    r = fin_binary(a, b, op)
    if r is None:
        raise Unsupported(str(func))
    return r


@reg('reciprocal')
def _recip(func, a):
    return new(P.inv(pm(a)), a.shape, a.dtype)


@reg('sqrt')
def _sqrt(func, a):
    return new(P.sqrt(pm(a)), a.shape, a.dtype)


@reg('rsqrt')
def _rsqrt(func, a):
    return new(P.inv(P.sqrt(pm(a))), a.shape, a.dtype)


@reg('pow')
def _pow(func, a, e):
    if is_sym(e):
        e = float(concrete(e)) if e.numel() == 1 else None
    if not is_sym(a) or e is None:
        raise Unsupported('pow')
    e = float(e)
    m = pm(a)
    if e == 0.5:
        return new(P.sqrt(m), a.shape, a.dtype)
    if e == -0.5:
        return new(P.inv(P.sqrt(m)), a.shape, a.dtype)
    if e == int(e) and 0 <= abs(e) <= 6:
        r = P.const(np.ones(m.shape[0]))
        for _ in range(int(abs(e))):
            r = P.mul(r, m)
        if e < 0:
            r = P.inv(r)
        return new(r, a.shape, a.dtype)
    raise Unsupported(f'pow {e}')


@reg('square')
def _square(func, a):
    m = pm(a)
    return new(P.mul(m, m), a.shape, a.dtype)


@reg('sum')
def _sum(func, a, dim=None, keepdim=False, *, dtype=None):
    if not is_sym(a):
        return func(a, dim, keepdim, dtype=dtype) if dim is not None else func(a, dtype=dtype)
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        dims = list(range(a.dim()))
    else:
        dims = [dim] if isinstance(dim, int) else list(dim)
    return _reduce(a, dims, keepdim, 1.0)


def _reduce(a, dims, keepdim, s):
    dims = [d % max(1, a.dim()) for d in dims]
    shape = list(a.shape)
    osh = [1 if i in dims else n for i, n in enumerate(shape)]
    no = int(np.prod(osh)) if osh else 1
    pos = torch.arange(no).view(osh).expand(shape).reshape(-1).numpy() if shape else np.zeros(1, dtype=np.int64)
    import scipy.sparse as sp
    A = sp.csr_matrix((np.full(len(pos), s), (pos, np.arange(len(pos)))), shape=(no, len(pos)))
    r = P.linmap(A, pm(a))
    if not keepdim:
        osh = [n for i, n in enumerate(shape) if i not in dims]
    return new(r, osh, a.dtype if a.dtype.is_floating_point else torch.get_default_dtype())


@reg('mean')
def _mean(func, a, dim=None, keepdim=False, *, dtype=None):
    if not is_sym(a):
        return func(a, dim, keepdim, dtype=dtype) if dim is not None else func(a, dtype=dtype)
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        dims = list(range(a.dim()))
    else:
        dims = [dim] if isinstance(dim, int) else list(dim)
    cnt = np.prod([a.shape[d] for d in dims]) if dims else 1
    return _reduce(a, dims, keepdim, 1.0 / float(cnt))


def _var_impl(a, dim, correction, keepdim):
    dims = list(range(a.dim())) if dim is None or len(dim) == 0 else [d % a.dim() for d in dim]
    n = int(np.prod([a.shape[d] for d in dims]))
    mu = _reduce(a, dims, True, 1.0 / n)
    d = _sub(None, a, mu)
    den = n - correction
    return _reduce(_mul(None, d, d), dims, keepdim, 1.0 / den if den > 0 else np.inf), (mu if keepdim else _reduce(a, dims, False, 1.0 / n))


def _var_args(a, r, k):
    dim, corr, keep = None, 1, k.get('keepdim', False)
    if len(r) == 1 and isinstance(r[0], bool):
        corr = int(r[0])
    else:
        if len(r) > 0:
            dim = r[0]
        if len(r) > 1:
            corr = int(r[1])
        if len(r) > 2:
            keep = r[2]
    if 'dim' in k:
        dim = k['dim']
    if 'unbiased' in k:
        corr = int(k['unbiased'])
    if 'correction' in k:
        corr = 1 if k['correction'] is None else k['correction']
    if isinstance(dim, int):
        dim = [dim]
    return dim, corr, keep


@reg('var')
def _var(func, a, *r, **k):
    d, c, kp = _var_args(a, r, k)
    return _var_impl(a, d, c, kp)[0]


@reg('std')
def _std(func, a, *r, **k):
    return _sqrt(None, _var(func, a, *r, **k))


@reg('var_mean')
def _var_mean(func, a, *r, **k):
    d, c, kp = _var_args(a, r, k)
    return _var_impl(a, d, c, kp)


@reg('norm', 'linalg_vector_norm', 'frobenius_norm')
def _norm(func, a, p=2, dim=None, keepdim=False, *, dtype=None):
    if opname(func) == 'linalg_vector_norm':
        pass
    if opname(func) == 'frobenius_norm':
        dim, p = p, 2
    p = 2 if p is None else p
    if dim is None:
        dims = list(range(a.dim()))
    else:
        dims = [dim] if isinstance(dim, int) else list(dim)
    if float(p) == 2.0:
        return _sqrt(None, _reduce(_mul(None, a, a), dims, keepdim, 1.0))
    if float(p) == 1.0:
        return _reduce(_abs(None, a), dims, keepdim, 1.0)
    raise Unsupported(f'norm p={p}')


# ---------------------------------------------------------------- non-linear elementwise
@reg('relu')
def _relu(func, a):
    return new(P.relu(pm(a)), a.shape, a.dtype)


@reg('abs')
def _abs(func, a):
    m = pm(a)
    return new(P.add(P.relu(m), P.relu(P.scale(m, -1.0))), a.shape, a.dtype)


@reg('clamp', 'clamp_min', 'clamp_max', 'clip', 'hardtanh', 'threshold')
def _clamp(func, a, lo=None, hi=None, *r, **k):
    nm = opname(func)
    if nm == 'threshold':
        raise Unsupported('threshold')
    if nm == 'clamp_max':
        lo, hi = None, lo
    if nm == 'hardtanh':
        lo = -1 if lo is None else lo
        hi = 1 if hi is None else hi
    lo = k.get('min', lo)
    hi = k.get('max', hi)
    t = a
    if lo is not None:
        t = _maximum(None, t, lo)
    if hi is not None:
        t = _neg(None, _maximum(None, _neg(None, t), _neg(None, lift(hi))))
    return t


@reg('maximum', 'fmax')
def _maximum(func, a, b):
    (x, y), sh = bcast(a, b)
    px, py = P.pids(pm(x)), P.pids(pm(y))
    return new(P.from_polys([P.max_poly((p, q)) for p, q in zip(px, py)]), sh, _dt(a, b))


@reg('minimum', 'fmin')
def _minimum(func, a, b):
    return _neg(None, _maximum(None, _neg(None, lift(a)), _neg(None, lift(b))))


_UFS = {
    'exp': math.exp, 'sigmoid': lambda v: 1 / (1 + math.exp(-v)), 'tanh': math.tanh, 'log': math.log,
    'log1p': math.log1p, 'expm1': math.expm1, 'erf': math.erf, 'sin': math.sin, 'cos': math.cos,
    'softplus': lambda v: math.log1p(math.exp(v)),
}
P.Evaluator.UF.update(_UFS)


def _mk_uf(nm):
    @reg(nm)
    def f(func, a, *r, **k):
        if any(x not in (None,) for x in r) and nm == 'softplus' and tuple(r) not in ((1, 20), (1.0, 20.0)):
            raise Unsupported('softplus parameters')
        fv = fin(a)
        fn = np.vectorize(_UFS[nm], otypes=[float])
        if fv is not None:
            v = np.where(fv[1] >= 0, fv[0], 0.0)
            return new(None, a.shape, a.dtype, (fn(v) if v.size else v, fv[1]))
        return new(P.uf(nm, pm(a), _UFS[nm]), a.shape, a.dtype)
    return f


for _n in list(_UFS):
    _mk_uf(_n)


def _elu_fn(v, alpha=1.0):
    return v if v > 0 else alpha * (math.exp(v) - 1)


P.Evaluator.UF['elu'] = _elu_fn


@reg('elu')
def _elu(func, a, alpha=1, scale=1, input_scale=1):
    if input_scale != 1:
        raise Unsupported('elu')
    m = pm(a)
    if alpha == 1:
        r = P.uf('elu', m, _elu_fn)
    else:
        # relu(x) + alpha*(elu_1(min(x,0)))
        neg = P.scale(P.relu(P.scale(m, -1.0)), -1.0)
        r = P.add(P.relu(m), P.scale(P.uf('elu', neg, _elu_fn), alpha))
    if scale != 1:
        r = P.scale(r, scale)
    return new(r, a.shape, a.dtype)


@reg('leaky_relu')
def _leaky(func, a, s=0.01):
    m = pm(a)
    return new(P.sub(P.relu(m), P.scale(P.relu(P.scale(m, -1.0)), s)), a.shape, a.dtype)


# ---------------------------------------------------------------- comparisons and selection
def _cmp(nm, a, b):
    (x, y), sh = bcast(a, b)
    d = P.sub(pm(x), pm(y))
    one = P.const(np.ones(d.shape[0]))
    if nm == 'gt':
        r = P.gt0(d)
    elif nm == 'lt':
        r = P.gt0(P.scale(d, -1.0))
    elif nm == 'ge':
        r = P.sub(one, P.gt0(P.scale(d, -1.0)))
    elif nm == 'le':
        r = P.sub(one, P.gt0(d))
    elif nm in ('eq', 'ne'):
        fa, fb = fin(x), fin(y)
        if fa is not None and fb is None and is_constant(y):
            v = P.const_vals(pm(y))
            sel = np.where((fa[0] == v[:, None]), fa[1], -1)
            rr, cc = np.nonzero(sel >= 0)
            r = P.mk(d.shape[0], rr, sel[rr, cc], np.ones(len(rr)))
        else:
            g = P.gt0(d)
            l = P.gt0(P.scale(d, -1.0))
            r = P.sub(P.sub(one, g), l)
        if nm == 'ne':
            r = P.sub(one, r)
    return new(r, sh, torch.bool)


for _n in ('gt', 'lt', 'ge', 'le', 'eq', 'ne'):
    H[_n] = (lambda nm: (lambda func, a, b: _cmp(nm, a, b)))(_n)
for _n, _m in (('greater', 'gt'), ('less', 'lt'), ('greater_equal', 'ge'), ('less_equal', 'le')):
    H[_n] = H[_m]


@reg('logical_and', 'bitwise_and', '__and__')
def _and(func, a, b):
    (x, y), sh = bcast(a, b)
    return new(P.mul(pm(x), pm(y)), sh, torch.bool)


@reg('logical_or', 'bitwise_or', '__or__')
def _or(func, a, b):
    (x, y), sh = bcast(a, b)
    u, v = pm(x), pm(y)
    return new(P.sub(P.add(u, v), P.mul(u, v)), sh, torch.bool)


@reg('logical_not', 'bitwise_not')
def _not(func, a):
    m = pm(a)
    return new(P.sub(P.const(np.ones(m.shape[0])), m), a.shape, torch.bool)


@reg('isnan', 'isinf')
def _isnan(func, a):
    return torch.zeros(tuple(a.shape), dtype=torch.bool)


@reg('isfinite')
def _isfinite(func, a):
    return torch.ones(tuple(a.shape), dtype=torch.bool)


@reg('nan_to_num')
def _n2n(func, a, *r, **k):
    return a


@reg('where')
def _where(func, c, *r):
    if len(r) != 2:
        raise Unsupported('where with data dependent shape')
    (cc, x, y), sh = bcast(c, *r)
    mx, my = pm(x), pm(y)
    return new(P.add(my, P.mul(pm(cc), P.sub(mx, my))), sh, _dt(*r))


@reg('masked_fill')
def _masked_fill(func, a, mask, v):
    return _where(None, mask, v if isinstance(v, torch.Tensor) else lift(v), a)


@reg('heaviside')
def _heav(func, a, b):
    raise Unsupported('heaviside')


@reg('sign')
def _sign(func, a):
    m = pm(a)
    return new(P.sub(P.gt0(m), P.gt0(P.scale(m, -1.0))), a.shape, a.dtype)


# ---------------------------------------------------------------- max reductions
def _argmax_sel(plists):
    """plists: list (one per output) of lists of (value, pid) -> vals, sel arrays"""
    c = P.ctx()
    kmax = max(len(l) for l in plists)
    n = len(plists)
    vals = np.zeros((n, kmax))
    sel = np.full((n, kmax), -1, dtype=np.int64)
    for i, l in enumerate(plists):
        pset = frozenset(p for _, p in l)
        if len(pset) == 1:
            # all equal: torch returns the first one
            vals[i, 0] = l[0][0]
            sel[i, 0] = 0
            continue
        done = set()
        for k, (v, p) in enumerate(l):
            if p in done:
                continue      # ties between identical polynomials: first occurrence
            done.add(p)
            vals[i, k] = v
            sel[i, k] = c.mono((c.atom('amax', pset, p),))
    return vals, sel


def _group_dim(a, dim, keepdim):
    d = dim % a.dim()
    shape = list(a.shape)
    pos = torch.arange(a.numel()).view(shape).movedim(d, -1)
    osh = shape[:d] + ([1] if keepdim else []) + shape[d + 1:]
    return pos.reshape(-1, shape[d]).numpy(), osh


@reg('max', 'min')
def _max(func, a, *r, **k):
    nm = opname(func)
    if nm == 'min':
        if len(r) and isinstance(r[0], torch.Tensor):
            return _minimum(None, a, r[0])
        if len(r) == 0 and 'dim' not in k:
            return _neg(None, _max(aten.max.default, _neg(None, a)))
        v, i = _max(aten.max.dim, _neg(None, a), *r, **k)
        return _neg(None, v), i
    if len(r) and isinstance(r[0], torch.Tensor):
        return _maximum(None, a, r[0])
    ps = P.pids(pm(a))
    if len(r) == 0 and 'dim' not in k:
        return new(P.from_polys([P.max_poly(ps)]), (), a.dtype)
    dim = r[0] if len(r) else k['dim']
    keep = r[1] if len(r) > 1 else k.get('keepdim', False)
    g, osh = _group_dim(a, dim, keep)
    out = P.from_polys([P.max_poly([ps[j] for j in row]) for row in g])
    vs, sel = _argmax_sel([[(kk, ps[j]) for kk, j in enumerate(row)] for row in g])
    return new(out, osh, a.dtype), new(None, osh, torch.int64, (vs, sel))


@reg('amax', 'amin')
def _amax(func, a, dim=(), keepdim=False):
    if opname(func) == 'amin':
        return _neg(None, _amax(aten.amax.default, _neg(None, a), dim, keepdim))
    dims = [dim] if isinstance(dim, int) else list(dim)
    if not dims:
        dims = list(range(a.dim()))
    dims = sorted(d % a.dim() for d in dims)
    t = a
    for d in reversed(dims):
        t = _max(aten.max.dim, t, d, True)[0]
    if not keepdim:
        t = SymTensor(t._st, t._idx.reshape([n for i, n in enumerate(t.shape) if i not in dims]), a.dtype)
    return t


@reg('argmax')
def _argmax(func, a, dim=None, keepdim=False):
    if dim is None:
        a = SymTensor(a._st, a._idx.reshape(-1), a.dtype)
        dim = 0
    return _max(aten.max.dim, a, dim, keepdim)[1]


@reg('max_pool2d_with_indices', 'max_pool2d', 'adaptive_max_pool2d')
def _maxpool(func, a, *r, **k):
    nm = opname(func)
    b, c, h, w = a.shape
    # the windows are found by running the real operator: output value = max over the window.
    # membership of position j in window o  <=>  a one-hot spike at j is visible at o.
    E = torch.zeros(h * w, 1, h, w, dtype=torch.float64)
    E.view(h * w, -1).fill_diagonal_(1.0)
    if nm == 'adaptive_max_pool2d':
        o = aten.adaptive_max_pool2d(E, *r, **k)[0]
    else:
        o = aten.max_pool2d_with_indices(E, *r, **k)[0]
    oh, ow = o.shape[-2:]
    memb = (o.reshape(h * w, -1) > 0.5).numpy()
    ps = P.pids(pm(a))
    pos = np.arange(b * c * h * w).reshape(b * c, h * w)
    outs, pl = [], []
    for bc in range(b * c):
        for q in range(oh * ow):
            js = np.nonzero(memb[:, q])[0]
            if len(js) == 0:
                raise Unsupported('empty pooling window')
            outs.append(P.max_poly([ps[pos[bc, j]] for j in js]))
            pl.append([(int(j), ps[pos[bc, j]]) for j in js])
    val = new(P.from_polys(outs), (b, c, oh, ow), a.dtype)
    if nm == 'max_pool2d':
        return val
    vs, sel = _argmax_sel(pl)
    return val, new(None, (b, c, oh, ow), torch.int64, (vs, sel))


# ---------------------------------------------------------------- normalisation
@reg('native_batch_norm', '_native_batch_norm_legit', 'cudnn_batch_norm', 'batch_norm')
def _bn(func, x, w, b, rm, rv, training, momentum, eps, *_):
    nm = opname(func)
    dims = [0] + list(range(2, x.dim()))
    n = int(np.prod([x.shape[d] for d in dims]))
    shape = [1, x.shape[1]] + [1] * (x.dim() - 2)
    V = lambda t: SymTensor(lift(t)._st, lift(t)._idx.view(shape), torch.float32)
    if training:
        var, mu = _var_impl(x, dims, 0, False)
        if rm is not None:
            if not is_sym(rm) or not is_sym(rv):
                raise Unsupported('running statistics are concrete')
            un = _mul(None, var, n / max(1, n - 1) if n > 1 else float('inf'))
            write(rm, pm(_add(None, _mul(None, rm, 1 - momentum), _mul(None, mu, momentum))))
            write(rv, pm(_add(None, _mul(None, rv, 1 - momentum), _mul(None, un, momentum))))
    else:
        var, mu = lift(rv), lift(rm)
    inv = new(P.inv(P.sqrt(pm(_add(None, var, eps)))), var.shape, x.dtype)
    y = _mul(None, _sub(None, x, V(mu)), V(inv))
    if w is not None:
        y = _mul(None, y, V(w))
    if b is not None:
        y = _add(None, y, V(b))
    if nm == 'batch_norm':
        return y
    return y, mu, inv


@reg('_native_batch_norm_legit_no_training')
def _bn_nt(func, x, w, b, rm, rv, momentum, eps):
    return _bn(aten.native_batch_norm.default, x, w, b, rm, rv, False, momentum, eps)


@reg('native_dropout')
def _nd(func, a, p, train):
    if not train:
        return a, torch.ones(tuple(a.shape), dtype=torch.bool)
    if RAND['hook'] is None:
        raise Unsupported('dropout randomness')
    m = RAND['hook']('bernoulli', tuple(a.shape), {'args': (1 - p,)})
    return _mul(None, _mul(None, a, m), 1.0 / (1.0 - p)), SymTensor(m._st, m._idx, torch.bool)


# ---------------------------------------------------------------- predicates leading to python control flow
@reg('_local_scalar_dense', 'item')
def _item(func, a):
    if not is_sym(a):
        return func(a)
    v = concrete(a)
    return v.item()


@reg('any', 'all')
def _any(func, a, *r, **k):
    if is_constant(a):
        return func(concrete(a).bool() if is_sym(a) else a, *r, **k)
    raise Unsupported('data dependent control flow')


@reg('equal')
def _equal(func, a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    d = P.sub(pm(a), pm(b))
    if d.nnz == 0:
        return True
    raise Unsupported('data dependent equality')


@reg('_has_same_storage_numel', 'is_same_size')
def _same(func, a, b):
    return tuple(a.shape) == tuple(b.shape)


class SymMode(TorchDispatchMode):
    """routes every operator (factories included) to the symbolic interpreter"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm = opname(func)
        flat, _ = tree_flatten((args, kwargs))
        if any(is_sym(a) for a in flat) or nm in FACT:
            return dispatch(func, args, kwargs)
        if nm in RANDOM and RAND['hook'] is not None:
            # draws on concrete tensors: symbolic as well, unless the draw would be hidden in a concrete tensor
            return dispatch(func, args, kwargs)
        return func(*args, **kwargs)


RANDOM = {'rand', 'randn', 'rand_like', 'randn_like', 'bernoulli', 'bernoulli_', 'uniform_', 'normal_', 'uniform', 'normal', 'native_dropout'}
FACT = {'empty', 'empty_strided', 'empty_like', 'zeros', 'ones', 'zeros_like', 'ones_like', 'full', 'full_like',
        'new_empty', 'new_full', 'new_zeros', 'new_ones'}


@reg('allclose', 'equal')
def _allclose(func, a, b, *r, **k):
    """comparison of whole tensors: decided only when the difference is constant"""
    if tuple(a.shape) != tuple(b.shape) and opname(func) == 'equal':
        return False
    D = P.canon(P.sub(pm(a), pm(b)))
    if D.nnz == 0:
        return True
    if P.is_const(D):
        A, B = concrete(a) if is_constant(a) else None, concrete(b) if is_constant(b) else None
        if A is not None and B is not None:
            return func(A, B, *r, **k)
    raise Unsupported('comparison of symbolic tensors')
