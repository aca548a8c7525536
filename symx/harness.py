"""Running one verification case: symbolic run, solver verdict, concrete replay."""
import os
import sys
import time
import json
import random
import traceback
import numpy as np
import torch
from . import poly as P, st, decide

TOL = 1e-3


class Skip(Exception):
    """configuration rejected by the library itself (not a case)"""


class Env:
    """source of inputs: symbolic or concrete"""

    def __init__(self, symbolic, values=None, seed=0):
        self.symbolic = symbolic
        self.values = values or {}
        self.rng = random.Random(seed)
        self.bounds = {}

    def var(self, name, shape, lo=-1.0, hi=1.0):
        shape = tuple(int(s) for s in shape)
        if self.symbolic:
            return st.var(name, shape, lo, hi)
        n = int(np.prod(shape)) if shape else 1
        v = [self.values.get(f'{name}[{i}]', None) for i in range(n)]
        v = [lo + (hi - lo) * self.rng.random() if x is None else x for x in v]
        return torch.tensor(v, dtype=torch.float32).reshape(shape)

    def params(self, module, prefix='p', lo=-1.0, hi=1.0):
        """replace every parameter of the module by free variables"""
        for mn, mod in module.named_modules():
            for pn in list(mod._parameters):
                p = mod._parameters[pn]
                if p is None or not p.requires_grad:
                    continue
                v = self.var(f'{prefix}.{mn}.{pn}', p.shape, lo, hi)
                if self.symbolic:
                    v._is_param = True
                    mod._parameters[pn] = v
                else:
                    mod._parameters[pn] = torch.nn.Parameter(v, requires_grad=False)
        return module

    def buffer(self, module, name, lo=-1.0, hi=1.0, prefix='b'):
        """replace one buffer (every submodule having it) by free variables"""
        for mn, mod in module.named_modules():
            for bn in list(mod._buffers):
                if bn == name or bn.startswith(name + '_') or bn.startswith(name + '['):
                    b = mod._buffers[bn]
                    if b is None or not b.dtype.is_floating_point:
                        continue
                    mod._buffers[bn] = self.var(f'{prefix}.{mn}.{bn}', b.shape, lo, hi)
        return module

    def const(self, t):
        """lift a concrete tensor so that code may write symbolic values into it"""
        return st.lift(t) if self.symbolic else t

    def rand_hook(self, name, shape, info):
        raise st.Unsupported('random ' + name)

    def run(self):
        return st.SymMode() if self.symbolic else _Null()


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Eq:
    """obligation: lhs == rhs elementwise, for every value of the variables"""

    def __init__(self, label, lhs, rhs, tol=TOL, hyp=None):
        # hyp: polynomials (dict mono -> coefficient) assumed to vanish, used when the plain decision fails
        self.label, self.lhs, self.rhs, self.tol, self.hyp = label, lhs, rhs, tol, hyp


class Fact:
    """obligation decided concretely on this configuration (shape, type, identity): ok flag"""

    def __init__(self, label, ok, detail=''):
        self.label, self.ok, self.detail = label, bool(ok), detail


def named_values(env):
    c = P.ctx()
    return {c.atoms[a][1]: float(v) for a, v in env.items() if c.atoms[a][0] == 'var'}


def concrete_run(fn, values, seed=0):
    """returns list of violated labels with details; raises if fn raises"""
    E = Env(False, values, seed)
    st.RAND['hook'] = None
    with torch.no_grad():
        obs = fn(E)
    bad = []
    for o in obs:
        if isinstance(o, Fact):
            if not o.ok:
                bad.append((o.label, o.detail or 'fact violated'))
            continue
        l = torch.as_tensor(o.lhs).double()
        r = torch.as_tensor(o.rhs).double()
        if tuple(l.shape) != tuple(r.shape):
            bad.append((o.label, f'shape {tuple(l.shape)} != {tuple(r.shape)}'))
            continue
        if l.numel() == 0:
            continue
        if torch.isnan(l).any() or torch.isnan(r).any():
            if not bool((torch.isnan(l) == torch.isnan(r)).all()):
                bad.append((o.label, 'NaN'))
            continue
        d = (l - r).abs().max().item()
        sc = max(1.0, r.abs().max().item())
        if d > 0.5 * o.tol * sc:
            bad.append((o.label, f'max difference {d:.4g}'))
    return bad


def run_case(name, fn, seed=1, replay_dir=None, prop='X'):
    """returns a result dict"""
    P.reset()
    decide.ST = decide.Stats()
    st.STATS['ops'] = 0
    st.STATS['opset'] = {}
    st.RAND['hook'] = None
    rng = random.Random(seed)
    t0 = time.time()
    res = dict(case=name, verdict='proved', obligations=0, detail='', tiers={})
    violation = None

    def fallback(reason):
        """symbolic execution was not possible: concrete witnesses only"""
        nonlocal violation
        for s in range(3):
            try:
                bad = concrete_run(fn, {}, seed + s)
            except Skip:
                raise
            except Exception as e:
                violation = ('exception', f'{type(e).__name__}: {e}', {})
                res['trace'] = traceback.format_exc()[-2000:]
                return
            if bad:
                violation = (bad[0][0], bad[0][1], {})
                res['replay_seed'] = seed + s
                return
        res['verdict'] = 'inconclusive'
        res['detail'] = reason

    try:
        E = Env(True, seed=seed)
        with torch.no_grad():
            obs = fn(E)
        res['ops'] = st.STATS['ops']
        for o in obs:
            res['obligations'] += 1
            if isinstance(o, Fact):
                if not o.ok:
                    # a fact does not depend on symbolic values: confirm with a concrete run
                    fallback(o.detail)
                    break
                continue
            if tuple(o.lhs.shape) != tuple(o.rhs.shape):
                fallback('shape mismatch')
                break
            if o.lhs.numel() == 0:
                continue
            D = P.sub(st.pm(o.lhs), st.pm(o.rhs))
            if not res.get('witness'):
                # reachability twin: the same assertion shifted by one must be falsifiable
                one = P.addconst(D[:1], -1.0)
                if decide.tier_a(one, o.tol):
                    res['witness'] = True
            if o.hyp is not None and not decide.tier_h(D, o.hyp + decide.atom_relations(D), o.tol):
                v = dict(verdict='proved', tier='H')
            else:
                v = decide.decide_zero(D, o.tol, rng)
            if v['verdict'] == 'proved':
                res['tiers'][v['tier']] = res['tiers'].get(v['tier'], 0) + 1
                continue
            confirmed = False
            for env in v['cands']:
                vals = named_values(env)
                saved = P.CTX
                try:
                    bad = concrete_run(fn, vals, seed)
                except Exception as e:
                    bad = [('exception', f'{type(e).__name__}: {e}')]
                P.CTX = saved
                if bad:
                    violation = (bad[0][0], bad[0][1], vals)
                    confirmed = True
                    break
            if confirmed:
                break
            res['verdict'] = 'inconclusive'
            res['detail'] = f'counterexample of {o.label} did not reproduce (rows {v["rows"][:3]})'
    except Skip as e:
        res['verdict'] = 'skipped'
        res['detail'] = str(e)
    except (st.Unsupported, NotImplementedError, MemoryError) as e:
        try:
            fallback(f'unsupported: {e}')
        except Skip:
            res['verdict'] = 'skipped'
    except Exception as e:
        res['trace'] = traceback.format_exc()[-3000:]
        try:
            fallback(f'symbolic run failed: {type(e).__name__}: {e}')
        except Skip:
            res['verdict'] = 'skipped'
    if violation:
        res['verdict'] = 'violated'
        res['label'], res['detail'], res['values'] = violation[0], violation[1], violation[2]
    res['stats'] = decide.ST.d()
    res['atoms'] = len(P.ctx().atoms)
    res['vars'] = len(P.ctx().vars)
    res['merge_err'] = P.ctx().merge_err
    res['wall_s'] = round(time.time() - t0, 3)
    return res
