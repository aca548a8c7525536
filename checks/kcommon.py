"""shared by the checks of kernels and differential operators: spaces, representations, symbolic points"""
from gcommon import *
from c03 import orth, general
from e2cnn import gspaces, kernels, diffops
from e2cnn.kernels import EmptyBasisException

AX = [('0', 0.0), ('pi/2', math.pi / 2), ('pi/4', math.pi / 4), ('pi/3', math.pi / 3), ('0.7', 0.7), ('-1.1', -1.1)]


def T():
    return gspaces.TrivialOnR2()


def F(ax):
    return lambda: gspaces.Flip2dOnR2(axis=ax)


def R(n, f=4):
    return (lambda: gspaces.Rot2dOnR2(N=n)) if n > 0 else (lambda: gspaces.Rot2dOnR2(N=-1, maximum_frequency=f))


def FR(n, ax=math.pi / 2, f=4):
    return (lambda: gspaces.FlipRot2dOnR2(N=n, axis=ax)) if n > 0 else (lambda: gspaces.FlipRot2dOnR2(N=-1, maximum_frequency=f, axis=ax))


def move(gs, g, p):
    """polar angle of the point to which the element g moves the point of polar angle p"""
    G = gs.fibergroup
    if isinstance(gs, gspaces.TrivialOnR2):
        return p
    if isinstance(gs, gspaces.Flip2dOnR2):
        return 2 * gs.axis - p if g == 1 else p
    s, _ = parts(G, g)
    if s == 1:
        p = 2 * gs.axis - p
    return p + angle(G, g)


def cob(rep, A, name=None):
    return change_basis(rep, A, name or rep.name + '_cob')


def rich(G, n_rep=1):
    """representations of a group beyond the irreps: label -> representation"""
    out = {}
    names = list(G.irreps)
    irr = [G.irreps[n] for n in names]
    if G.order() > 0:
        out['regular'] = G.regular_representation
    mix = [irr[0], irr[-1], irr[0]] if len(irr) > 1 else [irr[0]] * 3
    out['sum'] = directsum(mix, name='vx_sum')
    mix2 = [irr[-1], irr[len(irr) // 2], irr[0]]
    s = directsum(mix2, name='vx_mix')
    out['orth'] = change_basis(s, orth(s.size), 'vx_orth')
    out['general'] = change_basis(s, general(s.size), 'vx_general')
    return out


def quotients(G):
    ids = []
    if isinstance(G, DihedralGroup):
        n = G.rotation_order
        ids = [(None, m) for m in range(2, n + 1) if n % m == 0] + [(ax, m) for m in range(1, n + 1) if n % m == 0 for ax in {0, n // m - 1}]
    elif isinstance(G, CyclicGroup):
        n = G.order()
        ids = [m for m in range(2, n + 1) if n % m == 0]
    return {f'quotient{i}'.replace(' ', ''): (lambda i=i: G.quotient_representation(i)) for i in ids}


def rep(gs, label):
    """'irr:NAME' | key of rich | quotient(...)"""
    G = gs.fibergroup
    if label.startswith('irr:'):
        return G.irreps[label[4:]]
    if label.startswith('quotient'):
        return quotients(G)[label]()
    return rich(G)[label]


def point(E, name='x', rmax=6.0):
    """polar coordinates of a symbolic point, origin included"""
    if E.choose(name + '.origin', [0, 1]):
        return 0.0, E.real(name + '.phi', -math.pi, math.pi)
    return E.real(name + '.r', 1e-6, rmax), E.real(name + '.phi', -math.pi, math.pi)


def cartesian(r, p):
    v = np.empty((2, len(r)), dtype=object)
    for i, (a, b) in enumerate(zip(r, p)):
        v[0, i] = a * np.cos(b)
        v[1, i] = a * np.sin(b)
    return v if any(pe.symbolic(t) for t in v.flat) else v.astype(float)
