"""Oracles shared by the checks: written from the documentation, not from the implementation."""
import math
import itertools
import numpy as np
import torch
import e2cnn
from e2cnn import gspaces, group, nn as enn
from symx import st, poly as P
from symx.harness import Env, Eq, Fact, Skip, TOL


# ------------------------------------------------------------------ geometry
def spatial_matrix(gs, e):
    """2x2 matrix by which the element e of the fiber group of gs moves points of the plane"""
    def R(t):
        return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    F = np.array([[1., 0.], [0., -1.]])
    if isinstance(gs, gspaces.TrivialOnR2):
        return np.eye(2)
    if isinstance(gs, gspaces.Flip2dOnR2):
        return R(2 * gs.axis) @ F if e else np.eye(2)
    if isinstance(gs, gspaces.FlipRot2dOnR2):
        n = gs.fibergroup.rotation_order
        t = e[1] * 2 * math.pi / n if n > 0 else e[1]
        M = R(t)
        if e[0]:
            M = M @ R(2 * gs.axis) @ F
        return M
    if isinstance(gs, gspaces.Rot2dOnR2):
        n = gs.fibergroup.order()
        t = e * 2 * math.pi / n if n > 0 else e
        return R(t)
    raise ValueError(gs)


def grid_elements(gs):
    """elements of the fiber group which map the pixel grid to itself"""
    if gs.fibergroup.order() > 0:
        els = list(gs.fibergroup.elements)
    elif isinstance(gs, gspaces.FlipRot2dOnR2):
        els = [(f, k * math.pi / 2) for f in (0, 1) for k in range(4)]
    else:
        els = [k * math.pi / 2 for k in range(4)]
    out = []
    for e in els:
        M = spatial_matrix(gs, e)
        if np.allclose(M, np.round(M), atol=1e-9):
            out.append(e)
    return out


def grid_perm(M, h, w):
    """flat source index for every pixel: out[p] = in[M^-1 p]; returns (oh, ow, src)"""
    Mi = np.round(M).astype(int)
    oh, ow = (h, w) if Mi[0, 0] != 0 else (w, h)
    Minv = np.round(np.linalg.inv(M)).astype(int)
    src = np.zeros((oh, ow), dtype=np.int64)
    for i in range(oh):
        for j in range(ow):
            x, y = j - (ow - 1) / 2, (oh - 1) / 2 - i
            u = Minv @ np.array([x, y])
            jj = u[0] + (w - 1) / 2
            ii = (h - 1) / 2 - u[1]
            src[i, j] = int(round(ii)) * w + int(round(jj))
    return oh, ow, src.reshape(-1)


def rho(ftype, e):
    """fiber action of a field type: block diagonal of the representations"""
    n = sum(r.size for r in ftype.representations)
    out = np.zeros((n, n))
    p = 0
    for r in ftype.representations:
        out[p:p + r.size, p:p + r.size] = r(e)
        p += r.size
    return out


def act(t, ftype, e, spatial=True):
    """action of the element e on the (symbolic or concrete) tensor t of type ftype"""
    gs = ftype.gspace
    R = torch.tensor(rho(ftype, e), dtype=torch.float64)
    if isinstance(t, st.SymTensor):
        b, c = t.shape[:2]
        rest = tuple(t.shape[2:])
        if spatial and len(rest) == 2:
            oh, ow, src = grid_perm(spatial_matrix(gs, e), *rest)
            pos = torch.arange(t.numel()).view(b, c, -1)[:, :, torch.from_numpy(src)].reshape(b, c, oh, ow)
            m = P.gather(st.pm(t), pos.reshape(-1).numpy())
            rest = (oh, ow)
        else:
            m = st.pm(t)
        nsp = int(np.prod(rest)) if rest else 1
        A = np.kron(np.kron(np.eye(b), R.numpy()), np.eye(nsp))
        import scipy.sparse as sp
        A = sp.kron(sp.kron(sp.eye(b), sp.csr_matrix(R.numpy())), sp.eye(nsp))
        return st.new(P.linmap(A, m), (b, R.shape[0]) + rest, t.dtype)
    x = t.double()
    if spatial and x.dim() == 4:
        oh, ow, src = grid_perm(spatial_matrix(gs, e), x.shape[2], x.shape[3])
        x = x.reshape(x.shape[0], x.shape[1], -1)[:, :, torch.from_numpy(src)].reshape(x.shape[0], x.shape[1], oh, ow)
    y = torch.einsum('oi,bi...->bo...', R, x)
    return y.float()


def equivariance(E, f, in_type, out_type, x, elements=None, label='', tol=TOL, skip_identity=True):
    """obligations f(g.x) == g.f(x)"""
    gs = in_type.gspace
    obs = []
    with E.run():
        y = f(enn.GeometricTensor(x, in_type))
    obs.append(Fact(f'{label}output type', y.type == out_type and y.tensor.shape[1] == out_type.size))
    for e in (elements or grid_elements(gs)):
        if skip_identity and e == gs.fibergroup.identity:
            continue
        gx = act(x, in_type, e)
        with E.run():
            l = f(enn.GeometricTensor(gx, in_type))
        obs.append(Eq(f'{label}g={e}', l.tensor, act(y.tensor, y.type, e), tol))
    return obs


# ------------------------------------------------------------------ field type helpers
def ft(gs, *specs):
    return enn.FieldType(gs, [s(gs) if callable(s) and not isinstance(s, group.Representation) else s for s in specs])


reg = lambda gs: gs.regular_repr
triv = lambda gs: gs.trivial_repr
def irr(*a):
    return lambda gs: gs.irrep(*a)
def quo(i):
    return lambda gs: gs.quotient_repr(i)
