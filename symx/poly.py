"""Polynomial arrays: every element of a symbolic tensor is a polynomial over atoms.

Atoms are free variables (inputs, weights, random draws, uninitialised memory) or
hash-consed applications of non-polynomial functions (max, sqrt, reciprocal,
indicators, uninterpreted functions) to polynomials.  An array of n polynomials is a
scipy CSR matrix of shape (n, K) where the column is a monomial id.
"""
import numpy as np
import scipy.sparse as sp

K = 2**31 - 5
DROP = 3e-6      # coefficients below this are ignored when atoms are hash-consed
MATCH = 2e-5     # two polynomials whose coefficients agree up to this share one atom


class Ctx:
    def __init__(self):
        self.atoms = []          # (kind, args)
        self.atom_ids = {}
        self.monos = [()]
        self.mono_ids = {(): 0}
        self.mulc = {}
        self.polys = []          # pid -> (support tuple, coef array)
        self.buckets = {}
        self.vars = []           # atom ids of variables
        self.bounds = {}         # atom id -> (lo, hi)
        self.merge_err = 0.0
        self.fresh = 0

    # atoms -------------------------------------------------------------
    def atom(self, kind, *args):
        k = (kind,) + args
        a = self.atom_ids.get(k)
        if a is None:
            a = len(self.atoms)
            self.atoms.append(k)
            self.atom_ids[k] = a
        return a

    def var(self, name, lo=-1.0, hi=1.0):
        n = len(self.atoms)
        a = self.atom('var', name)
        if a == n:
            self.vars.append(a)
            self.bounds[a] = (lo, hi)
        return a

    # monomials -----------------------------------------------------------
    def mono(self, atoms):
        t = tuple(sorted(atoms))
        m = self.mono_ids.get(t)
        if m is None:
            m = len(self.monos)
            self.monos.append(t)
            self.mono_ids[t] = m
        return m

    def mmul(self, m1, m2):
        if m1 == 0:
            return m2
        if m2 == 0:
            return m1
        k = (m1, m2) if m1 < m2 else (m2, m1)
        r = self.mulc.get(k)
        if r is None:
            r = self._mmul(*k)
            self.mulc[k] = r
        return r

    def _mmul(self, m1, m2):
        """returns mono id, or -1 when the product is identically zero"""
        l = list(self.monos[m1] + self.monos[m2])
        # indicator idempotence, exclusivity of argmax indicators, inv(a)*a = 1
        out = []
        seen = set()
        am = {}
        for a in l:
            kd = self.atoms[a]
            if kd[0] in ('gt', 'amax', 'ind'):
                if a in seen:
                    continue
                seen.add(a)
                if kd[0] == 'amax':
                    if kd[1] in am and am[kd[1]] != a:
                        return -1
                    am[kd[1]] = a
            out.append(a)
        changed = True
        while changed:
            changed = False
            for a in out:
                kd = self.atoms[a]
                if kd[0] == 'invatom' and kd[1] in out:
                    out.remove(a)
                    out.remove(kd[1])
                    changed = True
                    break
        return self.mono(out)

    # polynomials ---------------------------------------------------------
    def pid(self, idx, val):
        """canonical id for a polynomial given as (mono ids, coefs) (sorted by mono id)"""
        keep = np.abs(val) > DROP
        const0 = idx == 0
        keep |= const0 & (val != 0)
        idx = idx[keep]
        val = val[keep]
        if len(idx) and idx[0] == 0 and len(idx) > 1 and abs(val[0]) <= 1e-11:
            idx = idx[1:]
            val = val[1:]
        key = tuple(idx.tolist())
        b = self.buckets.get(key)
        if b is None:
            b = self.buckets[key] = [np.zeros((4, len(key))), []]
        n = len(b[1])
        if n:
            d = np.abs(b[0][:n] - val[None, :])
            # constants must agree more tightly (epsilon constants matter)
            tol = np.full(len(key), MATCH)
            if len(key) and key[0] == 0:
                if len(key) == 1:
                    tol[0] = 1e-9 + 1e-6 * abs(val[0])
                elif abs(val[0]) < 1:
                    tol[0] = max(2e-7, 2e-6 * abs(val[0]))
            ok = (d <= tol[None, :]).all(1)
            w = np.nonzero(ok)[0]
            if len(w):
                j = int(w[0])
                e = float(d[j].sum()) if d.size else 0.0
                if e > self.merge_err:
                    self.merge_err = e
                return b[1][j]
        p = len(self.polys)
        self.polys.append((key, val.copy()))
        if n == len(b[0]):
            b[0] = np.concatenate([b[0], np.zeros((n, len(key)))], 0)
        b[0][n] = val
        b[1].append(p)
        return p

    def is_const(self, p):
        k, v = self.polys[p]
        return k == () or k == (0,)

    def const_val(self, p):
        k, v = self.polys[p]
        return float(v[0]) if k else 0.0


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def ctx():
    return CTX


# -- CSR helpers ------------------------------------------------------------

def mk(n, rows, cols, vals):
    m = sp.coo_matrix((np.asarray(vals, dtype=np.float64),
                       (np.asarray(rows, dtype=np.int64), np.asarray(cols, dtype=np.int64))), shape=(n, K)).tocsr()
    return canon(m)


def canon(m):
    m.sum_duplicates()
    if m.nnz:
        small = np.abs(m.data) < 1e-14
        if small.any():
            m.data[small] = 0.0
            m.eliminate_zeros()
    m.sort_indices()
    m.has_canonical_format = True
    return m


def const(arr):
    a = np.asarray(arr, dtype=np.float64).reshape(-1)
    nz = np.nonzero(a)[0]
    indptr = np.zeros(len(a) + 1, dtype=np.int64)
    indptr[1:] = np.cumsum(a != 0)
    m = sp.csr_matrix((a[nz], np.zeros(len(nz), dtype=np.int64), indptr), shape=(len(a), K))
    m.has_canonical_format = True
    return m


def atoms_arr(atom_list):
    c = CTX
    n = len(atom_list)
    ids = np.array([c.mono((a,)) for a in atom_list], dtype=np.int64)
    m = sp.csr_matrix((np.ones(n), ids, np.arange(n + 1)), shape=(n, K))
    m.has_canonical_format = True
    return m


def is_const(m):
    return m.nnz == 0 or int(m.indices.max()) == 0


def const_vals(m):
    out = np.zeros(m.shape[0])
    rows = np.repeat(np.arange(m.shape[0]), np.diff(m.indptr))
    out[rows] = m.data
    return out


def gather(m, idx):
    idx = np.asarray(idx, dtype=np.int64).reshape(-1)
    r = m[idx]
    r.has_canonical_format = True
    return r


def add(a, b):
    return canon(a + b)


def sub(a, b):
    return canon(a - b)


def scale(a, s):
    """rows scaled by vector s (or scalar)"""
    r = a.copy()
    if np.ndim(s) == 0:
        r.data = r.data * float(s)
    else:
        r.data = r.data * np.repeat(np.asarray(s, dtype=np.float64).reshape(-1), np.diff(a.indptr))
    return canon(r)


def addconst(a, s):
    n = a.shape[0]
    return add(a, const(np.full(n, float(s)) if np.ndim(s) == 0 else s))


def mul(a, b):
    if is_const(b):
        return scale(a, const_vals(b))
    if is_const(a):
        return scale(b, const_vals(a))
    n = a.shape[0]
    na = np.diff(a.indptr).astype(np.int64)
    nb = np.diff(b.indptr).astype(np.int64)
    tot = na * nb
    T = int(tot.sum())
    if T > 60_000_000:
        raise MemoryError('polynomial product too large')
    if T == 0:
        return const(np.zeros(n))
    rows = np.repeat(np.arange(n), tot)
    off = np.arange(T) - np.repeat(np.cumsum(tot) - tot, tot)
    nbr = nb[rows]
    ia = a.indptr[rows] + off // nbr
    ib = b.indptr[rows] + off % nbr
    ma = a.indices[ia].astype(np.int64)
    mb = b.indices[ib].astype(np.int64)
    v = a.data[ia] * b.data[ib]
    lo = np.minimum(ma, mb)
    hi = np.maximum(ma, mb)
    code = lo * K + hi
    u, inv = np.unique(code, return_inverse=True)
    c = CTX
    ids = np.array([c.mmul(int(x // K), int(x % K)) for x in u.tolist()], dtype=np.int64)
    cols = ids[inv]
    keep = cols >= 0
    if not keep.all():
        rows, cols, v = rows[keep], cols[keep], v[keep]
    return mk(n, rows, cols, v)


def mulmono(a, mono):
    """multiply all rows by one monomial"""
    if mono == 0:
        return a
    u, inv = np.unique(a.indices, return_inverse=True)
    c = CTX
    ids = np.array([c.mmul(int(x), mono) for x in u.tolist()], dtype=np.int64)
    n = a.shape[0]
    rows = np.repeat(np.arange(n), np.diff(a.indptr))
    cols = ids[inv] if len(u) else np.zeros(0, dtype=np.int64)
    keep = cols >= 0
    return mk(n, rows[keep], cols[keep], a.data[keep])


def linmap(A, x, c0=None):
    """A: dense or sparse (n_out,n_in) real matrix; returns A@x (+ constant vector)"""
    u, inv = np.unique(x.indices, return_inverse=True)
    xs = sp.csr_matrix((x.data, inv.astype(np.int64), x.indptr), shape=(x.shape[0], max(1, len(u))))
    r = sp.csr_matrix(A) @ xs
    r = r.tocsr()
    r.sum_duplicates()
    r.sort_indices()
    cols = u[r.indices] if len(u) else np.zeros(0, dtype=np.int64)
    m = sp.csr_matrix((r.data, cols.astype(np.int64), r.indptr), shape=(r.shape[0], K))
    m = canon(m)
    if c0 is not None:
        m = add(m, const(c0))
    return m


def rows_of(m):
    for i in range(m.shape[0]):
        s, e = m.indptr[i], m.indptr[i + 1]
        yield m.indices[s:e], m.data[s:e]


def pids(m):
    c = CTX
    # cache identical consecutive rows cheaply
    return [c.pid(i, v) for i, v in rows_of(m)]


def from_polys(plist):
    """list of dict mono->coef, or list of (support, vals) -> csr"""
    n = len(plist)
    rows, cols, vals = [], [], []
    for i, (k, v) in enumerate(plist):
        rows += [i] * len(k)
        cols += list(k)
        vals += list(v)
    return mk(n, rows, cols, vals)


# -- non polynomial atoms ------------------------------------------------------

def _single(p):
    """if polynomial p is exactly 1*atom return the atom"""
    c = CTX
    k, v = c.polys[p]
    if len(k) == 1 and k[0] != 0 and abs(v[0] - 1) < 1e-9:
        t = c.monos[k[0]]
        if len(t) == 1:
            return t[0]
    return None


def max_poly(ps):
    """max over a collection of pids -> (support, vals)"""
    c = CTX
    s = set()
    cm = None
    for p in ps:
        if c.is_const(p):
            v = c.const_val(p)
            cm = v if cm is None else max(cm, v)
            continue
        a = _single(p)
        if a is not None and c.atoms[a][0] == 'max':
            for q in c.atoms[a][1]:
                if c.is_const(q):
                    v = c.const_val(q)
                    cm = v if cm is None else max(cm, v)
                else:
                    s.add(q)
        else:
            s.add(p)
    if cm is not None and cm != -np.inf:
        s.add(c.pid(np.array([0]), np.array([cm])) if cm != 0 else c.pid(np.zeros(0, dtype=np.int64), np.zeros(0)))
    if not s:
        return ((0,), (-np.inf,)) if cm == -np.inf else ((), ())
    if len(s) == 1:
        return c.polys[next(iter(s))]
    a = c.atom('max', frozenset(s))
    return ((c.mono((a,)),), (1.0,))


def relu(m):
    z = CTX.pid(np.zeros(0, dtype=np.int64), np.zeros(0))
    return from_polys([max_poly((p, z)) for p in pids(m)])


def clampmin(m, lo):
    z = CTX.pid(np.array([0]), np.array([float(lo)]))
    return from_polys([max_poly((p, z)) for p in pids(m)])


def sqrt(m):
    c = CTX
    out = []
    for p in pids(m):
        if c.is_const(p):
            out.append(((0,), (float(np.sqrt(c.const_val(p))),)))
        else:
            out.append(((c.mono((c.atom('sqrt', p),)),), (1.0,)))
    return from_polys(out)


def inv(m):
    c = CTX
    out = []
    for p in pids(m):
        if c.is_const(p):
            v = c.const_val(p)
            out.append(((0,), (1.0 / v if v != 0 else np.inf,)))
            continue
        k, v = c.polys[p]
        if len(k) == 1:
            # monomial: invert atom by atom
            ats = []
            for a in c.monos[k[0]]:
                kd = c.atoms[a]
                if kd[0] == 'invatom':
                    ats.append(kd[1])
                else:
                    ats.append(c.atom('invatom', a))
            out.append(((c.mono(ats),), (1.0 / float(v[0]),)))
        else:
            out.append(((c.mono((c.atom('inv', p),)),), (1.0,)))
    return from_polys(out)


def uf(name, m, fold=None):
    c = CTX
    out = []
    for p in pids(m):
        if c.is_const(p) and fold is not None:
            out.append(((0,), (float(fold(c.const_val(p))),)))
        else:
            out.append(((c.mono((c.atom('uf', name, p),)),), (1.0,)))
    return from_polys(out)


def gt0(m):
    """indicator of m > 0"""
    c = CTX
    out = []
    for p in pids(m):
        if c.is_const(p):
            out.append(((0,), (1.0,)) if c.const_val(p) > 0 else ((), ()))
        else:
            out.append(((c.mono((c.atom('gt', p),)),), (1.0,)))
    return from_polys(out)


def eval_rows(m, env):
    """evaluate the polynomial array under env: atom id -> float (numpy, memoised)"""
    ev = Evaluator(env)
    return np.array([ev.lin(i, v) for i, v in rows_of(m)])


class Evaluator:
    UF = {}

    def __init__(self, env):
        self.env = dict(env)
        self.c = CTX
        self.mv = {}
        self.pv = {}

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        kd = self.c.atoms[a]
        k = kd[0]
        if k == 'max':
            r = max(self.poly(p) for p in kd[1])
        elif k == 'sqrt':
            r = np.sqrt(max(self.poly(kd[1]), 0.0))
        elif k == 'inv':
            r = 1.0 / self.poly(kd[1])
        elif k == 'invatom':
            r = 1.0 / self.atom(kd[1])
        elif k == 'gt':
            r = 1.0 if self.poly(kd[1]) > 0 else 0.0
        elif k == 'amax':
            vs = {p: self.poly(p) for p in kd[1]}
            r = 1.0 if vs[kd[2]] >= max(vs.values()) else 0.0
        elif k == 'uf':
            r = self.UF[kd[1]](self.poly(kd[2]))
        else:
            raise KeyError(kd)
        self.env[a] = r
        return r

    def mono(self, m):
        r = self.mv.get(m)
        if r is None:
            r = 1.0
            for a in self.c.monos[m]:
                r *= self.atom(a)
            self.mv[m] = r
        return r

    def poly(self, p):
        r = self.pv.get(p)
        if r is None:
            k, v = self.c.polys[p]
            r = self.lin(k, v)
            self.pv[p] = r
        return r

    def lin(self, idx, val):
        s = 0.0
        for i, v in zip(idx, val):
            s += self.mono(int(i)) * float(v)
        return s
