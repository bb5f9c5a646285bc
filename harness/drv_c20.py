"""C20: equations of rules and specifications, and closed-form series."""
import random

import sympy

import equations
import grammar
import ruleforms
import specview
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View
from comb_spec_searcher.exception import (IncorrectGeneratingFunctionError,
                                          InvalidOperationError, TaylorExpansionError)


def forms(chk, rng, a, b, secs):
    cases = []
    for u, steps, p in ruleforms.random_forms(rng, a, b):
        if chk.left(secs) < 0:
            break
        rec = ruleforms.Recorder(u, steps, p, 4)
        rec.equation()
        cases.append(rec.case)
    return cases


def spec_equations(v, spec, top):
    """The events for all equations of a specification."""
    cls = sorted(spec.comb_classes(), key=lambda c: (len(str(c)), str(c)))
    num = {c: i + 1 for i, c in enumerate(cls)}
    ev = [{"op": "tables", "c": [v.idx(c) for c in cls], "top": top}]
    try:
        with limit(4):
            eqs = list(spec.get_equations())
    except CaseTimeout:  # slow algebra
        return ev + [failed("refused")]
    except IncorrectGeneratingFunctionError:  # of a class verified by a specification
        return ev + [failed("refused")]
    except Exception as x:  # pylint: disable=broad-except
        return ev + [failed(errs(x))]
    for eq in eqs:
        if any(f.func.__name__ == "NOTIMPLEMENTED" for f in eq.atoms(sympy.core.function.AppliedUndef)):
            ev.append(failed("refused"))
            continue
        e = {"op": "equation", "eq": [], "nk": 0, "top": top, "exc": ""}
        try:
            with limit(20):
                e["eq"], names = equations.polynomial(
                    eq, lambda i: num[spec.get_comb_class(i)])
                e["nk"] = len(names)
                for t in e["eq"]:  # decided modulo this prime anyway
                    t["c"] %= 46337
        except equations.Unreadable:
            if sympy.sympify(eq.rhs).has(sympy.Pow) and any(
                    not p.exp.is_Integer for p in eq.rhs.atoms(sympy.Pow)):
                e["exc"] = "refused"  # an algebraic closed form, judged as a series elsewhere
            else:
                e["exc"] = f"unreadable {eq}"
        except CaseTimeout:
            e["exc"] = "refused"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        ev.append(e)
    return ev


def failed(exc):
    return {"op": "equation", "eq": [], "nk": 0, "top": 0, "exc": exc}


def closed_form(v, spec, top, secs, **kw):
    """The coefficients of the series get_genf returns."""
    e = {"op": "genf", "c": v.idx(spec.root), "top": top, "got": [], "exc": "", "genf": ""}
    x = sympy.var("x")
    try:
        with limit(secs):
            g = spec.get_genf(**kw)
    except CaseTimeout:
        return None
    except Exception as exc:  # pylint: disable=broad-except
        # nothing is returned, so nothing is claimed
        e["exc"], e["genf"] = "refused", errs(exc)
        return e
    e["genf"] = str(g)
    try:
        with limit(secs):
            ser = sympy.Poly(sympy.sympify(g).series(x, 0, top + 1).removeO(), x)
            got = {m[0]: c for m, c in ser.terms()}
    except CaseTimeout:
        return None
    except Exception as exc:  # pylint: disable=broad-except
        e["exc"] = "no series: " + errs(exc)
        return e
    for n in range(top + 1):
        c = got.pop(n, 0)
        if c != int(c) or abs(c) > 2 * 10**9:
            e["exc"] = f"coefficient {c} at {n}"
            return e
        if c:
            e["got"].append([n, [], int(c)])
    if got:
        e["exc"] = f"unexpected terms {got}"
    return e


def specs(chk, rng, num, secs):
    cases = []
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        gram = rng.random() < 0.35
        cf = wsearch.rand_gconfig(rng) if gram else wsearch.rand_config(rng)
        _, spec, _ = wsearch.run(cf)
        if spec is None or len(spec.rules_dict) > (25 if chk.quick else 40):
            continue
        v = View([cf.pack])
        v.idx(cf.start)
        s = len(cf.start.st)
        top = 6 if s == 0 else 5 if s == 1 else 4
        cases.append(v.case(cf.start, spec_equations(v, spec, top), cf=wsearch.describe(cf)))
    return cases


# grammars whose series has several branches that agree for a long time: a power of
# x in front of a small random grammar
def late_grammar(rng, k):
    if rng.random() < 0.3:
        g = grammar.rand_grammar(rng, nn=rng.choice([1, 2]), size=60)
        g = tuple(tuple(tuple(s + 1 if s > 0 else s for s in p) for p in ps) for ps in g)
    else:  # one quadratic symbol, possibly behind another one
        t = 3 if rng.random() < 0.5 else 2
        ps = {tuple(rng.choice((-1, -2)) for _ in range(rng.randrange(3)))}
        two = [t, t] + [rng.choice((-1, -2)) for _ in range(rng.choice([1, 1, 2]))]
        rng.shuffle(two)
        ps.add(tuple(two))
        for _ in range(rng.randrange(3)):
            one = [rng.choice((-1, -2)) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.6:
                one.insert(rng.randrange(len(one) + 1), t)
            ps.add(tuple(one))
        g = (tuple(sorted(ps)),)
        if t == 3:
            g = (rng.choice([((3, 3),), ((3, -1, 3), (-2,)), ((-1, 3), (-2,)), ((3, 3), (-1,))]),) + g
    return (((-1,) * k + (2,),),) + g + ((),)


# of these, sympy finds the wrong branch first
LATE = [
    (((-1,) * 9 + (2,),), ((3, 3),), ((), (-2, 3, -2), (3, -2, 3)), ()),
    (((-1,) * 9 + (2,),), ((3, 3), (-1,)), ((-1,), (-1, 3, -1), (3, -1, 3)), ()),
    (((-1,) * 9 + (2,),), ((3, 3), (-1,)), ((-1, -2), (-1, 3), (3, -2, 3)), ()),
    (((-1,) * 8 + (2,),), ((3, -1, 3), (-2,)), ((-2, 3), (-1,), (3, -2, 3)), ()),
]


def series(chk, rng, num, secs):
    cases = []
    for i in range(num):
        if chk.left(secs) < 0:
            break
        if rng.random() < 0.6 or not i:
            cf = wsearch.rand_gconfig(rng, stats=0, vers=False)
            if rng.random() < 0.75 or not i:
                g = rng.choice(LATE) if not i else late_grammar(rng, rng.choice([0, 3, 6, 8, 9, 9, 9]))
                cf.start = grammar.G(g, (1,))
                cf.pack = grammar.plain_pack(rot=rng.choice([0, 1]))
            top = 12 if cf.start.gr.low((1,)) < 7 else 18
            most = cf.start.gr.number(cf.start.form, top)[1]
            while max(most[:top + 1]) > 10**7:
                top -= 1
        else:
            cf = wsearch.rand_config(rng, stats=0)
            top = 12 - 2 * len(cf.start.A)
        _, spec, _ = wsearch.run(cf)
        if spec is None or len(spec.rules_dict) > 14:
            continue
        v = View([cf.pack])
        v.idx(cf.start)
        kw = {"check": rng.choice([0, 1, 3, 6, 8])} if i and rng.random() < 0.3 else {}
        e = closed_form(v, spec, top, 20 if not i else 3 if chk.quick else 20, **kw)
        if e:
            cases.append(v.case(cf.start, [e], cf=wsearch.describe(cf)))
    return cases


def run(chk):
    rng = random.Random(chk.seed)
    f = forms(chk, rng, *((200, 100) if chk.quick else (3000, 1500)), 6 if chk.quick else 200)
    s = fan(chk, specs, 40 if chk.quick else 1200, 9 if chk.quick else 400)
    g = fan(chk, series, 300 if chk.quick else 5000, 17 if chk.quick else 700)
    chk.extra["rule_forms"] = len(f)
    chk.extra["equations"] = sum(e["op"] == "equation" for c in s for e in c["ev"])
    chk.extra["refused_equations"] = sum(e.get("exc") == "refused" for c in s for e in c["ev"])
    chk.extra["closed_forms"] = sum(not e["exc"] for c in g for e in c["ev"])
    kinds = {}
    for c in g:
        for e in c["ev"]:
            if e["exc"]:
                k = e["genf"].split(":")[0]
                kinds[k] = kinds.get(k, 0) + 1
    chk.extra["closed_forms_refused"] = kinds
    chk.extra["algebraic"] = sum("sqrt" in e["genf"] for c in g for e in c["ev"])
    chk.judge("RuleTrace", f, cfg="Trace.cfg", batch=2000)
    chk.judge("SpecTrace", s, cfg="Trace.cfg", batch=1000)
    chk.judge("SpecTrace", g, cfg="Trace.cfg", batch=1000)
