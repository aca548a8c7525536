"""SMT decision procedures over polynomial arrays."""
import time
import random
from fractions import Fraction
import numpy as np
import z3
from . import poly as P

NOISE = 1e-5


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.terms = 0

    def d(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_s=round(self.solver_s, 3), terms=self.terms)


ST = Stats()


def rat(x):
    f = Fraction(float(x)).limit_denominator(10**12)
    if f == 0 and x != 0:
        f = Fraction(float(x))
    return z3.RealVal(str(f))


def check(s, timeout=60000):
    s.set('timeout', timeout)
    t = time.time()
    r = s.check()
    ST.solver_s += time.time() - t
    ST.queries += 1
    if r == z3.unsat:
        ST.unsat += 1
    elif r == z3.sat:
        ST.sat += 1
    else:
        ST.unknown += 1
    return r


def split_noise(D):
    """per row: list of (mono, coef) with |coef| > NOISE and the absolute sum of the others"""
    out = []
    for idx, val in P.rows_of(D):
        a = np.abs(val)
        if not np.isfinite(a).all():
            out.append(([(int(i), float(v)) for i, v in zip(idx, val)], np.inf))
            continue
        big = a > NOISE
        out.append(([(int(i), float(v)) for i, v in zip(idx[big], val[big])], float(a[~big].sum())))
    return out


def tier_a(D, tol):
    """Is there an assignment of the (normalised, independent) monomials in [-1,1] such that some
    element of D exceeds tol in absolute value?  Returns list of failing rows (empty: proved)."""
    rows = split_noise(D)
    uniq = {}
    for i, (big, s) in enumerate(rows):
        key = (tuple(sorted((m, round(c, 9)) for m, c in big)) if np.isfinite(s) else ('inf', i), round(s, 9))
        uniq.setdefault(key, []).append(i)
    bad = []
    keys = list(uniq)
    # trivial rows are decided in one batched query, the others one by one
    chunk = []
    nterm = 0

    def flush():
        nonlocal chunk, nterm
        if not chunk:
            return
        s = z3.Solver()
        vs = {}
        disj = []
        for k in chunk:
            i = uniq[k][0]
            big, slack = rows[i]
            e = z3.Real(f'noise_{i}')
            sl = rat(slack * (1 + 1e-9))
            s.add(e <= sl, e >= -sl)
            terms = [e]
            for m, c in big:
                v = vs.get(m)
                if v is None:
                    if m == 0:
                        v = z3.RealVal(1)
                    else:
                        v = z3.Real(f'm{m}')
                        s.add(v >= -1, v <= 1)
                    vs[m] = v
                terms.append(rat(c) * v)
            t = z3.Sum(terms)
            disj.append((i, z3.Or(t > rat(tol), t < -rat(tol))))
        ST.terms += nterm
        s.add(z3.Or([d for _, d in disj]))
        r = check(s)
        if r != z3.unsat:
            if len(chunk) == 1:
                bad.extend(uniq[chunk[0]])
            else:
                model_bad = []
                for (i, d), k in zip(disj, chunk):
                    big, slack = rows[i]
                    if not big and slack <= tol:
                        continue
                    s2 = z3.Solver()
                    for a in s.assertions()[:-1]:
                        s2.add(a)
                    s2.add(d)
                    if len(model_bad) >= 6:
                        model_bad.append(k)      # not needed individually
                        continue
                    if check(s2) != z3.unsat:
                        model_bad.append(k)
                for k in model_bad:
                    bad.extend(uniq[k])
        chunk = []
        nterm = 0

    for k in keys:
        i = uniq[k][0]
        if not np.isfinite(rows[i][1]):
            bad.extend(uniq[k])
            continue
        chunk.append(k)
        nterm += len(rows[i][0]) + 1
        if nterm > 4000:
            flush()
    flush()
    return sorted(set(bad))


class Enc:
    """full definitions of the atoms, over the input variables"""

    def __init__(self, solver):
        self.s = solver
        self.c = P.ctx()
        self.av = {}
        self.mv = {}
        self.pv = {}
        self.ufs = {}
        self.exact = True

    def atom(self, a):
        r = self.av.get(a)
        if r is not None:
            return r
        kd = self.c.atoms[a]
        k = kd[0]
        if k == 'var':
            r = z3.Real(f'x{a}')
            lo, hi = self.c.bounds[a]
            self.s.add(r >= rat(lo), r <= rat(hi))
            self.av[a] = r
            return r
        r = z3.Real(f'a{a}')
        self.av[a] = r
        if k == 'max':
            ps = [self.poly(p) for p in kd[1]]
            for p in ps:
                self.s.add(r >= p)
            self.s.add(z3.Or([r == p for p in ps]))
        elif k == 'sqrt':
            p = self.poly(kd[1])
            self.s.add(r >= 0, r * r == p)
        elif k == 'inv':
            self.s.add(r * self.poly(kd[1]) == 1)
        elif k == 'invatom':
            self.s.add(r * self.atom(kd[1]) == 1)
        elif k == 'gt':
            p = self.poly(kd[1])
            self.s.add(r == z3.If(p > 0, z3.RealVal(1), z3.RealVal(0)))
        elif k == 'amax':
            p = self.poly(kd[2])
            others = [self.poly(q) for q in kd[1] if q != kd[2]]
            # ties excluded
            self.s.add(z3.Or(z3.And([r == 1] + [p > q for q in others]), z3.And(r == 0, z3.Or([p < q for q in others]))))
        elif k == 'uf':
            self.exact = False
            f = self.ufs.setdefault(kd[1], z3.Function('uf_' + kd[1], z3.RealSort(), z3.RealSort()))
            p = self.poly(kd[2])
            self.s.add(r == f(p))
            nm = kd[1]
            if nm == 'exp':
                self.s.add(r > 0, r >= 1 + p)
            elif nm == 'sigmoid':
                self.s.add(r > 0, r < 1)
            elif nm == 'tanh':
                self.s.add(r > -1, r < 1)
            elif nm == 'elu':
                self.s.add(r > -1, r >= p, z3.Implies(p > 0, r == p))
        else:
            raise KeyError(kd)
        return r

    def mono(self, m):
        r = self.mv.get(m)
        if r is None:
            ats = self.c.monos[m]
            if not ats:
                r = z3.RealVal(1)
            else:
                r = self.atom(ats[0])
                for a in ats[1:]:
                    r = r * self.atom(a)
            self.mv[m] = r
        return r

    def lin(self, idx, val):
        ts = [rat(v) * self.mono(int(i)) for i, v in zip(idx, val)]
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def poly(self, p):
        r = self.pv.get(p)
        if r is None:
            k, v = self.c.polys[p]
            r = self.lin(k, v)
            self.pv[p] = r
        return r


def support_vars(idx):
    """atom ids of the variables an expression depends on"""
    c = P.ctx()
    seen = set()
    out = set()

    def go_m(m):
        for a in c.monos[m]:
            go_a(a)

    def go_p(p):
        for m in c.polys[p][0]:
            go_m(m)

    def go_a(a):
        if a in seen:
            return
        seen.add(a)
        kd = c.atoms[a]
        if kd[0] == 'var':
            out.add(a)
        elif kd[0] in ('max',):
            for p in kd[1]:
                go_p(p)
        elif kd[0] in ('sqrt', 'inv', 'gt'):
            go_p(kd[1])
        elif kd[0] == 'invatom':
            go_a(kd[1])
        elif kd[0] == 'amax':
            for p in kd[1]:
                go_p(p)
        elif kd[0] == 'uf':
            go_p(kd[2])
    for m in idx:
        go_m(int(m))
    return out


def has_atoms(idx):
    c = P.ctx()
    for m in idx:
        for a in c.monos[int(m)]:
            if c.atoms[a][0] != 'var':
                return True
    return False


def tier_b(row_idx, row_val, tol, timeout=20000):
    """full query on one element: returns ('unsat', None) | ('sat', env) | ('unknown', None)"""
    s = z3.Solver()
    e = Enc(s)
    keep = np.abs(row_val) > 1e-9
    t = e.lin(row_idx[keep], row_val[keep])
    slack = float(np.abs(row_val[~keep]).sum())
    s.add(z3.Or(t > rat(tol - slack), t < -rat(tol - slack)))
    r = check(s, timeout)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        env = {}
        for a, v in e.av.items():
            if P.ctx().atoms[a][0] != 'var':
                continue
            x = m.eval(v, model_completion=True)
            env[a] = z3num(x)
        return 'sat', env
    return 'unknown', None


def z3num(x):
    if z3.is_rational_value(x):
        return float(x.numerator_as_long()) / float(x.denominator_as_long()) if x.denominator_as_long() < 10**300 else float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        return z3num(x.approx(20))
    raise ValueError(x)


def random_env(rng, spread=True):
    c = P.ctx()
    env = {}
    for a in c.vars:
        lo, hi = c.bounds[a]
        lo, hi = max(lo, -10.0), min(hi, 10.0)
        if (lo, hi) == (0.0, 1.0) and c.atoms[a][1].startswith('bern'):
            env[a] = float(rng.random() < 0.5)
        else:
            env[a] = lo + (hi - lo) * rng.random()
    return env


def complete(env, rng):
    """fill in variables missing from a model"""
    full = random_env(rng)
    full.update(env)
    return full


def concretise(D, rows, tol, rng, tries=8):
    """candidate concrete assignments for failing rows, best first"""
    cands = []
    rows = rows[:4]
    for i in rows[:2]:
        s, e = D.indptr[i], D.indptr[i + 1]
        idx, val = D.indices[s:e], D.data[s:e]
        if e - s <= 400 and np.isfinite(val).all():
            try:
                r, env = tier_b(idx, val, tol, 10000)
            except Exception:
                r, env = 'unknown', None
            if r == 'sat':
                cands.append(complete(env, rng))
                break
    sub = D[rows]
    best = []
    for _ in range(tries):
        env = random_env(rng)
        try:
            v = float(np.nanmax(np.abs(P.eval_rows(sub, env))))
        except Exception:
            v = 0.0
        best.append((v, env))
    best.sort(key=lambda t: -t[0])
    cands += [e for _, e in best[:3]]
    return cands


def decide_zero(D, tol, rng, full=True):
    """Decide |D| <= tol.  Returns dict(verdict='proved'|'cex'|'unknown', rows, cands)"""
    bad = tier_a(D, tol)
    if not bad:
        return dict(verdict='proved', tier='A')
    # tier B on the rows where atoms with definitions are involved (they may still be equal)
    remaining = []
    if full:
        tried = 0
        for i in bad:
            s, e = D.indptr[i], D.indptr[i + 1]
            idx, val = D.indices[s:e], D.data[s:e]
            if has_atoms(idx) and e - s <= 60 and tried < 40 and np.isfinite(val).all():
                tried += 1
                r, env = tier_b(idx, val, tol, 8000)
                if r == 'unsat':
                    continue
                remaining.append(i)
                if r == 'sat':
                    return dict(verdict='cex', rows=[i], cands=[complete(env, rng)] + concretise(D, [i], tol, rng))
            else:
                remaining.append(i)
        if not remaining:
            return dict(verdict='proved', tier='B')
    else:
        remaining = bad
    return dict(verdict='cex', rows=remaining, cands=concretise(D, remaining, tol, rng))


def atom_relations(D):
    """polynomial identities satisfied by the square root and inverse atoms occurring in D (where defined): s*s = q, and v*v*q = 1 for v = 1/s"""
    c = P.ctx()
    H = []
    seen = set()
    for m in set(D.indices.tolist()):
        for a in c.monos[m]:
            if a in seen:
                continue
            seen.add(a)
            kd = c.atoms[a]
            if kd[0] == 'sqrt' or (kd[0] == 'invatom' and c.atoms[kd[1]][0] == 'sqrt'):
                q = kd[1] if kd[0] == 'sqrt' else c.atoms[kd[1]][1]
                k, v = c.polys[q]
                if kd[0] == 'sqrt':
                    h = {c.mono((a, a)): 1.0}
                    for i, x in zip(k, v):
                        h[i] = h.get(i, 0.0) - float(x)
                else:
                    h = {0: -1.0}
                    for i, x in zip(k, v):
                        mm = c.mono(c.monos[i] + (a, a))
                        h[mm] = h.get(mm, 0.0) + float(x)
                H.append(h)
    return H


def tier_h(D, H, tol, rounds=2):
    """Is |D| <= tol whenever the polynomials H vanish?  Linear arithmetic over the monomials (each in [-1,1]), with every multiple
    of a hypothesis by a monomial quotient added as a constraint.  Returns failing rows."""
    c = P.ctx()
    bad = []
    from collections import Counter
    for i, (big, slack) in enumerate(split_noise(D)):
        if not np.isfinite(slack):
            bad.append(i)
            continue
        monos = {m for m, _ in big}
        cons = {}
        for _ in range(rounds):
            new = set()
            for h in H:
                for mu in list(monos):
                    cm = Counter(c.monos[mu])
                    for la in h:
                        if la == 0:
                            continue
                        cl = Counter(c.monos[la])
                        if any(cm[a] < n for a, n in cl.items()):
                            continue
                        quo = tuple(sorted((cm - cl).elements()))
                        row = {}
                        for t, x in h.items():
                            r = c.mono(c.monos[t] + quo)
                            row[r] = row.get(r, 0.0) + x
                        key = tuple(sorted(row.items()))
                        if key not in cons:
                            cons[key] = row
                            new |= set(row)
            if not new - monos:
                break
            monos |= new
        s = z3.Solver()
        vs = {0: z3.RealVal(1)}
        for row in cons.values():
            monos |= set(row)
        for m in monos:
            if m:
                vs[m] = z3.Real(f'm{m}')
                s.add(vs[m] >= -1, vs[m] <= 1)
        for row in cons.values():
            s.add(z3.Sum([rat(x) * vs[m] for m, x in row.items()]) == 0)
        e = z3.Real('noise')
        s.add(e <= rat(slack * (1 + 1e-9)), e >= -rat(slack * (1 + 1e-9)))
        t = z3.Sum([rat(x) * vs[m] for m, x in big] + [e])
        s.add(z3.Or(t > rat(tol), t < -rat(tol)))
        ST.terms += len(big) + sum(len(r) for r in cons.values())
        if check(s) != z3.unsat:
            bad.append(i)
    return bad
