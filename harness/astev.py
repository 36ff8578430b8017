"""Evaluator of the symbolic expressions emitted by spec/Expr.tla."""
import numpy as np
from math import pi

_F = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
    "neg": np.negative, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos,
    "sinh": np.sinh, "cosh": np.cosh, "exp": np.exp, "log2": np.log2,
}


def _erf(x):
    from scipy.special import erf
    return erf(x)


_F["erf"] = _erf


def ev(e, env):
    f = e["f"]
    if f == "var":
        return env[e["n"]]
    if f == "rat":
        return e["n"] / e["d"]
    if f == "pi":
        return pi
    if f in _F:
        return _F[f](*[ev(x, env) for x in e["a"]])
    if f in env and callable(env[f]):
        return env[f](*[ev(x, env) for x in e["a"]])
    raise KeyError(f)
