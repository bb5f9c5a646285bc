"""Turning sympy equations between class functions into data."""
import re

import sympy
from sympy.core.function import AppliedUndef


class Unreadable(Exception):
    pass


def monomial(e, names):
    """[coefficient, power of x, powers of names]"""
    c, x, k = 1, 0, [0] * len(names)
    for f in sympy.Mul.make_args(sympy.sympify(e)):
        b, p = f.as_base_exp()
        if f.is_Integer:
            c *= int(f)
        elif b.is_Symbol and p.is_Integer and p > 0:
            if b.name == "x":
                x += int(p)
            elif b.name in names:
                k[names.index(b.name)] += int(p)
            else:
                raise Unreadable(f"unknown symbol {b}")
        else:
            raise Unreadable(f"not a monomial: {e}")
    return {"c": c, "x": x, "k": k}


def polynomial(eq, label):
    """The identity lhs - rhs = 0 cleared of denominators, as terms.  label maps
    the number in a function's name to the number of its class."""
    if eq is True or eq == sympy.true:
        return [], []
    if not isinstance(eq, sympy.Eq):
        raise Unreadable(f"not an equation: {eq}")
    names = sorted({s.name for s in eq.free_symbols} - {"x"})
    num, _ = sympy.fraction(sympy.together(eq.lhs - eq.rhs))
    num = sympy.expand(num)
    # rational coefficients are cleared as well
    num = sympy.expand(num * sympy.ilcm(1, 1, *[r.q for r in num.atoms(sympy.Rational)]))
    terms = []
    for t in sympy.Add.make_args(num):
        rest, fs = [], []
        for f in sympy.Mul.make_args(t):
            b, p = f.as_base_exp()
            if isinstance(b, AppliedUndef):
                if not (p.is_Integer and p > 0):
                    raise Unreadable(f"power {p} of a function")
                m = re.fullmatch(r"F_(\d+)", b.func.__name__)
                if not m:
                    raise Unreadable(f"unknown function {b}")
                fs.append({"g": label(int(m.group(1))), "e": int(p),
                           "a": [monomial(a, names) for a in b.args]})
            else:
                rest.append(f)
        terms.append(dict(monomial(sympy.Mul(*rest), names), f=fs))
    if num == 0:
        terms = []
    return terms, names
