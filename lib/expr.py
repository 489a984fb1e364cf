"""Evaluation of the formulas the specifications emit (Expr.tla): no rule of the code under test
lives here, only the meaning of the function symbols."""
import math


class Domain(Exception):
    """the point is outside the formula's domain (or numerically too close to its edge)"""


def _chk(x):
    if isinstance(x, complex) or x != x or x in (math.inf, -math.inf):
        raise Domain
    return x


PHI_C = math.sqrt(2.0)


def _pow(a, b):
    if a == 0:
        raise Domain
    if a < 0 and b != int(b):
        raise Domain
    return math.pow(a, b)


def _sign(a):
    if abs(a) < 1e-9:
        raise Domain
    return math.copysign(1.0, a)


F1 = {"neg": lambda a: -a, "exp": math.exp, "ln": math.log, "sqrt": math.sqrt, "cbrt": math.cbrt, "abs": abs, "sign": _sign,
      "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
      "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh,
      "erf": math.erf, "erfc": math.erfc, "expm1": math.expm1, "log1p": math.log1p, "Phi": lambda a: 0.5 * math.erfc(-a / PHI_C),
      "phi": lambda a: math.exp(-0.5 * a * a) / math.sqrt(2 * math.pi), "lgamma": math.lgamma, "gamma": math.gamma,
      "floor": math.floor}


def ev(e, env):
    """env: names -> number for X leaves; env['r'] list (1-based) for refs; env['d'] nested derivs."""
    o = e[0]
    if o == "n":
        return float(e[1])
    if o == "q":
        return e[1] / e[2]
    if o == "x":
        return env[e[1]]
    if o == "r":
        return env["r"][e[1]]
    if o == "d":
        return env["d"][e[1]][e[2]]
    if o == "pi":
        return math.pi
    try:
        if o == "add":
            return ev(e[1], env) + ev(e[2], env)
        if o == "sub":
            return ev(e[1], env) - ev(e[2], env)
        if o == "mul":
            return ev(e[1], env) * ev(e[2], env)
        if o == "div":
            return ev(e[1], env) / ev(e[2], env)
        if o == "pow":
            return _pow(ev(e[1], env), ev(e[2], env))
        if o == "min":
            return min(ev(e[1], env), ev(e[2], env))
        if o == "max":
            return max(ev(e[1], env), ev(e[2], env))
        if o == "less":
            a, b = ev(e[1], env), ev(e[2], env)
            if abs(a - b) < 1e-9 * max(1.0, abs(a)):
                raise Domain
            return ev(e[3] if a < b else e[4], env)
        if o == "if":                       # condition a < b, ties allowed
            return ev(e[3] if ev(e[1], env) < ev(e[2], env) else e[4], env)
        return F1[o](ev(e[1], env))
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Domain


class Dag:
    """Formulas with their common parts shared, evaluated in double precision or -- with an mpmath
    context -- to any number of digits (derivatives of option prices cancel badly in doubles)."""

    def __init__(self):
        self.nodes, self.idx = [], {}

    def add(self, e):
        o = e[0]
        if o in ("n", "q", "x", "pi"):
            key = tuple(e)
        elif o in ("r", "d"):
            raise ValueError(o)
        else:
            key = (o,) + tuple(self.add(a) for a in e[1:])
        if key not in self.idx:
            self.idx[key] = len(self.nodes)
            self.nodes.append(key)
        return self.idx[key]

    def need(self, roots):
        todo, seen = list(roots), set()
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                n = self.nodes[i]
                if n[0] not in ("n", "q", "x", "pi"):
                    todo += n[1:]
        return sorted(seen)

    def run(self, env, roots, mp=None, cplx=False):
        """values of the roots (None outside the domain); cplx: complex values are values (needs mp)"""
        m = mp or math
        num = mp.mpf if mp else float
        phi0 = (lambda a: mp.exp(-a * a / 2) / mp.sqrt(2 * mp.pi)) if mp else F1["phi"]
        Phi0 = (lambda a: mp.erfc(-a / mp.sqrt(2)) / 2) if mp else F1["Phi"]
        f1 = {"neg": lambda a: -a, "exp": m.exp, "ln": m.log, "sqrt": m.sqrt, "abs": abs, "phi": phi0, "Phi": Phi0, "sin": m.sin, "cos": m.cos,
              "cbrt": m.cbrt, "atan": m.atan, "atanh": m.atanh, "tanh": m.tanh, "sinh": m.sinh, "cosh": m.cosh, "erf": m.erf, "erfc": m.erfc,
              "expm1": m.expm1, "log1p": m.log1p, "sign": _sign, "floor": m.floor,
              "lgamma": mp.loggamma if mp else math.lgamma, "gamma": m.gamma}
        val = {}
        for fn in ("asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "tan", "erf", "erfc", "expm1", "log1p", "gamma"):
            f1.setdefault(fn, getattr(m, fn, None))
        f1.setdefault("lgamma", mp.loggamma if mp else math.lgamma)
        f1.setdefault("floor", m.floor)
        for i in self.need(roots):
            n = self.nodes[i]
            o = n[0]
            try:
                if o == "n":
                    v = num(n[1])
                elif o == "q":
                    v = num(n[1]) / n[2]
                elif o == "x":
                    v = env[n[1]] if cplx else num(env[n[1]])
                elif o == "pi":
                    v = +m.pi
                else:
                    a = [val[j] for j in n[1:]]
                    if o in ("less", "if"):
                        if a[0] is None or a[1] is None or (o == "less" and abs(a[0] - a[1]) < 1e-9 * max(1, abs(a[0]))):
                            v = None
                        else:
                            v = a[2] if a[0] < a[1] else a[3]
                    elif None in a:
                        v = None
                    elif o == "add":
                        v = a[0] + a[1]
                    elif o == "sub":
                        v = a[0] - a[1]
                    elif o == "mul":
                        v = a[0] * a[1]
                    elif o == "div":
                        v = a[0] / a[1]
                    elif o == "pow":
                        v = (mp.power if mp else _pow)(*a)
                    elif o == "min":
                        v = min(a)
                    elif o == "max":
                        v = max(a)
                    elif o == "gammaP":                          # regularised lower incomplete gamma function (needs mp)
                        v = mp.gammainc(a[0], 0, a[1], regularized=True)
                    else:
                        v = f1[o](a[0])
                if not cplx and mp is not None and isinstance(v, mp.mpc) or isinstance(v, complex) or v != v:
                    v = None
            except (ValueError, ZeroDivisionError, OverflowError, Domain):
                v = None
            val[i] = v
        return [val[r] for r in roots]


def mpmath(digits=40):
    import sys
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if p not in sys.path:
        sys.path.append(p)
    import mpmath
    mpmath.mp.dps = digits
    return mpmath.mp


def numpy():
    import sys
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if p not in sys.path:
        sys.path.append(p)
    import numpy
    return numpy


def panels(edges, order=24):
    """nodes and weights of Gauss-Legendre quadrature over the panels between the edges"""
    np = numpy()
    x, w = np.polynomial.legendre.leggauss(order)
    e = np.array(edges)
    c, d = (e[1:] - e[:-1]) / 2, (e[1:] + e[:-1]) / 2
    return (d[:, None] + c[:, None] * x).ravel(), (c[:, None] * w).ravel()


def vec(dag, env, roots, w=None):
    """values of the roots over complex numpy arrays; w: the weights of the integration nodes in env['p']"""
    np = numpy()
    f1 = {"neg": np.negative, "exp": np.exp, "ln": np.log, "sqrt": np.sqrt, "re": np.real, "int": lambda a: np.dot(w, a)}
    f2 = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
          "max": lambda a, b: np.maximum(np.real(a), np.real(b)), "min": lambda a, b: np.minimum(np.real(a), np.real(b))}
    val = {}
    with np.errstate(all="ignore"):
        for i in dag.need(roots):
            n = dag.nodes[i]
            o = n[0]
            if o == "n":
                v = np.complex128(n[1])
            elif o == "q":
                v = np.complex128(n[1] / n[2])
            elif o == "x":
                v = np.asarray(env[n[1]], dtype=np.complex128)
            elif o == "pi":
                v = np.complex128(np.pi)
            elif o in f2:
                v = f2[o](val[n[1]], val[n[2]])
            else:
                v = f1[o](val[n[1]])
            val[i] = v
    return [val[r] for r in roots]
