"""shared by the checks of the group theory: symbolic elements"""
import math
import numpy as np
from symx import pe
from symx.pe import Holds, Zero, Same, Implies, Not, And, Or, Iff, TWO_PI
from e2cnn.group import CyclicGroup, DihedralGroup, SO2, O2, Representation, IrreducibleRepresentation, directsum, disentangle, change_basis
from e2cnn import group as egroup

ANG = 4 * math.pi


def mkC(n):
    return lambda: CyclicGroup(n)


def mkD(n):
    return lambda: DihedralGroup(n)


def mkSO2(f=3):
    return SO2(f)


def mkO2(f=3):
    return O2(f)


def element(E, G, name):
    """a symbolic element of the group"""
    if isinstance(G, O2):
        return (E.choose(name + '.s', [0, 1]), E.real(name + '.t', -ANG, ANG))
    if isinstance(G, DihedralGroup):
        return (E.choose(name + '.s', [0, 1]), E.int(name + '.t', 0, G.rotation_order - 1))
    if isinstance(G, SO2):
        return E.real(name, -ANG, ANG)
    return E.int(name, 0, len(G.elements) - 1)


def parts(G, e):
    """(reflection, rotation)"""
    if isinstance(G, (DihedralGroup, O2)):
        return e[0], e[1]
    return 0, e


def like(G, e, t):
    return (e[0], t) if isinstance(e, tuple) else t


def order_of(G):
    return 2 * G.rotation_order if isinstance(G, DihedralGroup) else int(G.name[1:])


def rot_order(G):
    if isinstance(G, DihedralGroup):
        return G.rotation_order
    if isinstance(G, (SO2, O2)):
        return -1
    return len(G.elements)


def congruent(G, x, y):
    n = rot_order(G)
    if n > 0:
        return (x - y) % n == 0
    d = (x - y) % TWO_PI
    return Or(d <= 1e-7, d >= TWO_PI - 1e-7)


def valid(G, e):
    n = rot_order(G)
    s, t = parts(G, e)
    r = Or(s == 0, s == 1)
    return And(r, t >= 0, t < n) if n > 0 else r


def angle(G, e):
    """rotation angle of an element"""
    n = rot_order(G)
    t = parts(G, e)[1]
    return t * (TWO_PI / n) if n > 0 else t
