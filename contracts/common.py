"""spec-side mathematics shared by the contracts"""
import z3
from pyvc.values import *
from pyvc.values import num
from pyvc.smt import uf, PI


def F(name):
    n = 2 if name in ("arctan2", "powr") else 1
    return uf(name, n)


sin, cos, exp, log10, sqrt, pow10, arcsin = (F(x) for x in ("sin", "cos", "exp", "log10", "sqrt", "pow10", "arcsin"))


def rad(x):
    return x * PI / 180


def degs(x):
    return x * 180 / PI


def q(x):
    """exact decimal"""
    return num(x)
