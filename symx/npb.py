"""Bridge for code which moves a tensor to numpy and back: symbolic entries live in object arrays."""
import numpy as np
import torch
from . import st, poly as P


class PS:
    """one symbolic number (a row of a polynomial array)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def lift(x):
        if isinstance(x, PS):
            return x
        x = float(x)
        return PS({0: x} if x else {})

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = PS.lift(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0.0) + v
        return PS(d)
    __radd__ = __add__

    def __neg__(self):
        return PS({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self + (-PS.lift(o))

    def __rsub__(self, o):
        return PS.lift(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, PS):
            c = P.ctx()
            d = {}
            for k, v in self.d.items():
                for l, w in o.d.items():
                    m = c.mmul(k, l)
                    if m >= 0:
                        d[m] = d.get(m, 0.0) + v * w
            return PS(d)
        o = float(o)
        return PS({k: v * o for k, v in self.d.items()}) if o else PS({})
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / float(o))

    def __float__(self):
        if all(k == 0 for k in self.d):
            return float(self.d.get(0, 0.0))
        raise st.Unsupported('symbolic value used as a float')

    def __bool__(self):
        raise st.Unsupported('branch on a symbolic value')


class SymArr(np.ndarray):
    def astype(self, dtype, *a, **k):
        if self.dtype == object and np.dtype(dtype).kind == 'f':
            return self.copy()
        return super().astype(dtype, *a, **k)

    def __array_function__(self, func, types, args, kwargs):
        r = super().__array_function__(func, types, args, kwargs)
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArr):
            r = r.view(SymArr)
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        ins = [i.view(np.ndarray) if isinstance(i, SymArr) else i for i in inputs]
        if out is not None:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, SymArr) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0]
        return r.view(SymArr) if isinstance(r, np.ndarray) and r.dtype == object else r


def to_numpy(t):
    """SymTensor -> array of symbolic numbers"""
    m = st.pm(t)
    a = np.empty(int(np.prod(t.shape)) if t.dim() else 1, dtype=object)
    for i, (idx, val) in enumerate(P.rows_of(m)):
        a[i] = PS({int(k): float(v) for k, v in zip(idx, val)})
    return a.reshape(tuple(t.shape)).view(SymArr)


def from_numpy(a):
    flat = np.asarray(a).reshape(-1)
    rows, cols, vals = [], [], []
    for i, x in enumerate(flat):
        x = PS.lift(x)
        for k, v in x.d.items():
            rows.append(i)
            cols.append(k)
            vals.append(v)
    return st.new(P.mk(len(flat), rows, cols, vals), tuple(np.shape(a)), torch.float32)


class Bridge:
    """while active, tensor.numpy(), torch.from_numpy, np.ascontiguousarray work on symbolic tensors"""

    def __enter__(self):
        self.fn, self.asc, self.asa = torch.from_numpy, np.ascontiguousarray, np.asarray
        fn, asc = self.fn, self.asc

        def from_np(a):
            return from_numpy(a) if isinstance(a, np.ndarray) and a.dtype == object else fn(a)

        def ascont(a, dtype=None, **k):
            return asc(a).view(SymArr) if isinstance(a, np.ndarray) and a.dtype == object else asc(a, dtype, **k)
        torch.from_numpy = from_np
        np.ascontiguousarray = ascont
        self.tn = st.SymTensor.__dict__.get('numpy')
        st.SymTensor.numpy = lambda t, **k: to_numpy(t)
        return self

    def __exit__(self, *a):
        torch.from_numpy = self.fn
        np.ascontiguousarray = self.asc
        if self.tn is None:
            del st.SymTensor.numpy
        else:
            st.SymTensor.numpy = self.tn
        return False
