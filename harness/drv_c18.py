"""C18: JSON round trips, and equality of strategies."""
import copy
import json
import pickle
import random

import sympy

import drv_c12
import grammar
import ruleforms
import synth
import tables
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View, grid, letters, skey
from comb_spec_searcher import CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import (ExceededMaxtimeError, SpecificationNotFound,
                                           StrategyDoesNotApply)
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.specification import AlreadyVerified
from comb_spec_searcher.strategies import StrategyFactory
from comb_spec_searcher.strategies.rule import (AbstractRule, EquivalencePathRule,
                                                EquivalenceRule, ReverseRule, VerificationRule)
from comb_spec_searcher.strategies.strategy import (AbstractStrategy, AtomStrategy,
                                                    EmptyStrategy)
from genstrats import GENERIC, MAKERS

ROLES = ("initial_strats", "inferral_strats", "ver_strats", "symmetries")


class Num:
    """Numbers classes and strategies by what they are."""

    def __init__(self):
        self.n = {}

    def cls(self, c):
        return self.n.setdefault(("c", c), len(self.n))

    def strat(self, s):
        return self.n.setdefault(("s", key(s)), len(self.n))


def key(s):
    """Kind and settings."""
    if isinstance(s, AlreadyVerified):
        return "already " + repr(sorted(map(repr, s.verified_classes)))
    k = skey(s)
    return k if k == "empty" else type(s).__module__ + "." + k


def tree(num, r):
    """What a rule consists of."""
    t = {"form": type(r).__name__, "p": num.cls(r.comb_class), "c": [num.cls(c) for c in r.children],
         "k": num.strat(r.strategy), "i": 0, "sub": []}
    if isinstance(r, EquivalencePathRule):
        t["sub"] = [tree(num, x) for x in r.rules]
    elif isinstance(r, EquivalenceRule):
        t["i"], t["sub"] = r.child_idx, [tree(num, r.original_rule)]
    elif isinstance(r, ReverseRule):
        t["i"], t["sub"] = r.idx, [tree(num, r.original_rule)]
    return t


def content(num, x):
    res = {"rules": [], "root": 0, "parts": [], "comp": {}}
    if isinstance(x, CombinatorialSpecification):
        res["root"] = num.cls(x.root)
        res["rules"] = [[num.cls(c), tree(num, r)] for c, r in list(x.rules_dict.items())]
    elif isinstance(x, AbstractRule):
        res["rules"] = [tree(num, x)]
    elif isinstance(x, StrategyPack):
        parts = [[num.strat(s) for s in getattr(x, f)] for f in ROLES]
        parts += [[num.strat(s) for s in ss] for ss in x.expansion_strats]
        res["parts"] = [x.name, int(x.iterative), type(x).__name__, parts]
    elif isinstance(x, (AbstractStrategy, StrategyFactory)):
        res["parts"] = [num.strat(x)]
    else:
        res["root"] = num.cls(x)
    return res


def loader(x):
    if isinstance(x, CombinatorialSpecification):
        return CombinatorialSpecification
    if isinstance(x, AbstractRule):
        return AbstractRule
    if isinstance(x, AbstractStrategy):
        return AbstractStrategy
    return type(x) if not isinstance(x, StrategyFactory) else StrategyFactory


def back(x):
    return loader(x).from_dict(json.loads(json.dumps(x.to_jsonable())))


def rt(num, x, op="rt", extra=None):
    """The event, and what was loaded."""
    e = {"op": op, "a": content(num, x), "b": 0, "eq": True, "qe": True, "ne": False, "en": False,
         "exc": "", "type": type(x).__name__}
    y = None
    try:
        with limit(20):
            y = back(x)
            e["b"] = content(num, y)
            e.update(eq=bool(x == y), qe=bool(y == x), ne=bool(x != y), en=bool(y != x))
            z = back(y)  # and once more
            if content(num, z) != e["b"] or not (z == x and x == z):
                e["eq"] = False
        if extra:
            try:
                with limit(3):
                    e["a"]["comp"] = extra(x)
            except CaseTimeout:
                return e  # too slow to compare
            with limit(30):
                e["b"]["comp"] = extra(y)
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as ex:  # pylint: disable=broad-except
        e["exc"] = errs(ex)
        if y is None:
            e["b"] = e["a"]
    return e


def safe(f):
    """The value, or the way it is refused."""
    try:
        return f()
    except (CaseTimeout, RecursionError):
        raise
    except Exception as ex:  # pylint: disable=broad-except
        return [["refused", type(ex).__name__]]


def computed(num, top, eqs):
    """A function giving what can be computed from a specification."""
    def f(s):
        root = s.root
        par = lambda p: dict(zip(root.extra_parameters, p))
        res = {
            "terms": safe(lambda: [[n, list(p), str(k)] for n in range(top + 1)
                                   for p, k in sorted(s.get_terms(n).items())]),
            "totals": safe(lambda: [[n, list(p), str(s.count_objects_of_size(n, **par(p)))]
                                    for n in range(min(top, 3) + 1) for p in grid(root, n)]),
            "objects": safe(lambda: [[n, list(p), [str(o) for o in os]]
                                     for n in range(min(top, 4) + 1)
                                     for p, os in sorted(s.get_objects(n).items())]),
            "equations": [], "labels": []}
        if eqs:
            res["equations"] = safe(lambda: equations(num, s))
        return res
    return f


def equations(num, s):
    """The equations, with functions named by the class."""
    def g(c):
        return c.get_function(lambda d: 1000 + num.cls(d))
    res = []
    for c, r in list(s.rules_dict.items()):
        try:
            eq = r.get_equation(g)
        except NotImplementedError:
            res.append([num.cls(c), "refused"])
            continue
        res.append([num.cls(c), str(eq)])
    own = sorted(map(str, rename(num, s)))
    return sorted(map(str, res)) + own


def rename(num, s):
    for eq in s.get_equations():
        fs = eq.atoms(sympy.core.function.AppliedUndef) if hasattr(eq, "atoms") else ()
        sub = {}
        for f in fs:
            lab = int(str(f.func).split("_")[1])
            sub[f] = sympy.Function(f"G_{num.cls(s.get_comb_class(lab))}")(*f.args)
        yield eq.xreplace(sub) if fs else eq


# --- specifications ---------------------------------------------------------------
def table_spec(rng, tag):
    kind = rng.choice(["base", "forget", "forest", "forestf"])
    forest = kind.startswith("forest")
    u = tables.random_universe(rng, tag, forest=forest, iterative=False if forest else None)
    dbs = {"base": RuleDB, "forget": RuleDBForgetStrategy, "forest": RuleDBForest,
           "forestf": lambda: RuleDBForest(reverse=False)}
    try:
        with limit(10), wsearch.Clock(rng, wsearch.CLOCKS["fast"]):
            css = tables.searcher(u, dbs[kind]())
            return u, css.auto_search(max_expansion_time=1e6)
    except (SpecificationNotFound, ExceededMaxtimeError, CaseTimeout):
        return u, None


def specs(chk, rng, num, secs):
    res = []
    ex = {}
    for i in range(num):
        if chk.left(secs) < 0:
            break
        kind = rng.choice(["words", "words", "grammar", "grammar", "tables"])
        cf, u, eqs, top = None, None, False, 0
        if kind == "tables":
            u, spec = table_spec(rng, f"c18-{chk.seed}-{rng.random()}")
        else:
            cf = wsearch.rand_config(rng, rev=0.6) if kind == "words" else wsearch.rand_gconfig(rng)
            _, spec, _ = wsearch.run(cf, 10)
            top = 5 if len(cf.start.st) < 2 else 4
            eqs = rng.random() < 0.3
        if spec is None or len(spec.rules_dict) > 60:
            continue
        n = Num()
        ev = []
        when = rng.choice(["fresh", "fresh", "used", "asked"])
        if when == "used" and kind != "tables":
            try:
                with limit(10):
                    safe(lambda: spec.get_terms(4))
                    safe(lambda: spec.get_objects(3))
                    safe(lambda: spec.random_sample_object_of_size(3))
            except CaseTimeout:
                continue
        elif when == "asked":  # rules of empty classes are added when asked for
            for r in list(spec.rules_dict.values()):
                for c in getattr(r, "actual_children", r.children):
                    if c.is_empty():
                        spec.get_rule(c)
        ev.append(rt(n, spec, "spec", None if kind == "tables" else computed(n, top, eqs)))
        for r in list(spec.rules_dict.values()):
            ev.append(rt(n, r))
            forms = r.rules if isinstance(r, EquivalencePathRule) else ()
            for x in forms:
                ev.append(rt(n, x))
                if isinstance(x, EquivalenceRule):
                    ev.append(rt(n, x.original_rule))
            for f in {type(q).__name__ for q in (r, *forms)}:
                ex["rules_" + f] = ex.get("rules_" + f, 0) + 1
        if any(isinstance(r.strategy, EmptyStrategy) for r in spec.rules_dict.values()):
            ex["with_empty_rules"] = ex.get("with_empty_rules", 0) + 1
        ex["specifications"] = ex.get("specifications", 0) + 1
        res.append({"ev": ev, "when": when,
                    "cf": wsearch.describe(cf) if cf else {"u": u}})
        if u:
            tables.UNI.pop(u, None)
    for k, c in ex.items():
        chk.extra[k] = chk.extra.get(k, 0) + c
    return res


def derived(rules):
    """Every form the library derives from a rule."""
    for r in rules:
        yield r
        if isinstance(r, VerificationRule):
            continue
        eq = None
        if r.is_equivalence():
            eq = r.to_equivalence_rule()
            yield eq
            yield EquivalencePathRule([eq])
            if r.is_reversible():
                b = eq.to_reverse_rule(0)
                yield b
                if b.is_equivalence():
                    yield EquivalencePathRule([b])
                    yield EquivalencePathRule([eq, b])
                    yield EquivalencePathRule([b, eq])
        if r.is_reversible():
            for i, c in enumerate(r.children):
                if not c.is_empty():
                    rev = r.to_reverse_rule(i)
                    yield rev
                    if rev.is_equivalence() and len(r.children) > 1:
                        yield rev.to_equivalence_rule()


def applies(rule):
    try:
        return rule.children is not None
    except StrategyDoesNotApply:
        return False


def rules_of(pack, classes):
    for c in classes:
        for s in pack:
            try:
                xs = list(s(c)) if isinstance(s, StrategyFactory) else [s(c)]
            except Exception:  # pylint: disable=broad-except
                continue
            for x in xs:
                if isinstance(x, AbstractStrategy):
                    try:
                        x = x(c)
                    except Exception:  # pylint: disable=broad-except
                        continue
                if isinstance(x, VerificationRule) or applies(x):
                    yield x


def forms(chk, rng, num, secs):
    """Rule forms built outside specifications."""
    res = []
    for i in range(num):
        if chk.left(secs) < 0:
            break
        n, ev = Num(), []
        if rng.random() < 0.4:
            for u, steps, path in ruleforms.random_forms(rng, 1, 1):
                ev.append(rt(n, ruleforms.build(u, steps, path)))
            res.append({"ev": ev, "src": "synthetic"})
            continue
        gram = rng.random() < 0.4
        cf = wsearch.rand_gconfig(rng) if gram else wsearch.rand_config(rng)
        todo = [cf.start]
        for r in rules_of(cf.pack, todo):
            for c in (r.comb_class, *r.children):
                if c not in todo and len(todo) < 6:
                    todo.append(c)
        rs = []
        for r in rules_of(cf.pack, todo):
            if not any(q.comb_class == r.comb_class and q.strategy == r.strategy for q in rs):
                rs.append(r)
        fs = list(derived(rs))
        rng.shuffle(fs)
        ev += [rt(n, c) for c in todo[:2]] + [rt(n, r) for r in fs[:25]]
        for r in fs[:25]:
            k = "form_" + type(r).__name__
            chk.extra[k] = chk.extra.get(k, 0) + 1
        res.append({"ev": ev, "cf": wsearch.describe(cf)})
    return res


# --- packs and strategies -------------------------------------------------------------
def mod(rng, pack):
    """A pack made from a pack."""
    r = rng.random()
    allst = list(pack)
    if r < 0.25 and allst:
        return pack.remove_strategy(rng.choice(allst))
    m = [s for s in strategies(rng, 6) if s not in pack]
    if r < 0.6 and m:
        s = m[0]
        how = rng.choice(["add_initial", "add_inferral", "add_symmetry", "add_verification"])
        return getattr(pack, how)(s, rng.choice(["", "more"]))
    if r < 0.75 and m:
        return pack.add_expansion([m[0]], rng.choice([None, 0]) if pack.expansion_strats else None)
    return pack


def strategies(rng, k):
    """Strategies of every kind with random settings."""
    return [rng.choice(MAKERS)(rng) for _ in range(k)]


def packs(chk, rng, num, secs):
    res = []
    for i in range(num):
        if chk.left(secs) < 0:
            break
        p = wsearch.rand_pack(rng) if rng.random() < 0.6 else grammar.rand_pack(rng)
        if rng.random() < 0.2:
            p = wsearch.needs_reverse_pack(rng)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            try:
                p = mod(rng, p)
            except Exception:  # pylint: disable=broad-except
                chk.extra["packs_not_built"] = chk.extra.get("packs_not_built", 0) + 1
        n = Num()
        ss = list(p) + strategies(rng, 4)
        res.append({"ev": [rt(n, p)] + [rt(n, s) for s in ss], "pack": repr(p)})
        chk.extra["packs"] = chk.extra.get("packs", 0) + 1
    return res


def variants(rng, s):
    """The same strategy, created and treated in other ways."""
    yield s
    yield back(s)
    yield copy.copy(s)
    yield copy.deepcopy(s)
    yield pickle.loads(pickle.dumps(s))
    for G in GENERIC.get(type(s), ()):
        x = G.from_dict(json.loads(json.dumps({k: v for k, v in s.to_jsonable().items() if k not in (
            "class_module", "strategy_class")})))
        yield x
    if type(s) in GENERIC:
        for args in GENERIC[type(s)]:
            y = args(**getattr(s, "settings", lambda: {})())
            yield y
            yield copy.deepcopy(y)
            yield back(y)
            yield pickle.loads(pickle.dumps(y))


def use(s, cs):
    """Apply a strategy to some classes, and its rule in some ways."""
    for c in cs:
        try:
            xs = list(s(c)) if isinstance(s, StrategyFactory) else [s(c)]
            for r in xs:
                if isinstance(r, AbstractRule):
                    str(r), r.is_equivalence(), r.is_reversible()
                    r.get_terms(2) if isinstance(r, VerificationRule) else r.shifts()
        except Exception:  # pylint: disable=broad-except
            continue


def same(chk, rng, num, secs):
    res = []
    for i in range(num):
        if chk.left(secs) < 0:
            break
        pool = strategies(rng, 3) + [rng.choice(list(wsearch.rand_pack(rng)))
                                     if rng.random() < 0.6 else rng.choice(list(grammar.rand_pack(rng)))
                                     for _ in range(3)]
        pool += [EmptyStrategy(), EmptyStrategy[object, object](), AtomStrategy()]
        A, B = wsearch.rand_start(rng), wsearch.rand_start(rng)
        pool += [AlreadyVerified([A, B]), AlreadyVerified([B, A]), AlreadyVerified([A])]
        rng.shuffle(pool)
        cs = [A, B, grammar.rand_class(rng)]
        e = {"op": "same", "key": [], "eq": [], "ne": [], "exc": "", "what": []}
        n = Num()
        try:
            with limit(20):
                xs = []
                for s in pool[:6]:
                    try:
                        vs = list(variants(rng, s))
                    except (TypeError, AttributeError, pickle.PicklingError) as x:
                        raise RuntimeError(f"variants of {s!r}: {x!r}") from x
                    if rng.random() < 0.5:
                        use(rng.choice(vs), cs)
                    xs += vs
                rng.shuffle(xs)
                xs = xs[:30]
                e["key"] = [n.strat(x) for x in xs]
                e["what"] = [repr(x)[:60] for x in xs]
                e["eq"] = [[bool(x == y) for y in xs] for x in xs]
                e["ne"] = [[bool(x != y) for y in xs] for x in xs]
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        chk.extra["equality_matrices"] = chk.extra.get("equality_matrices", 0) + 1
        res.append({"ev": [e]})
    return res


# --- bijections ----------------------------------------------------------------------
def bijections(chk, rng, num, secs):
    res = []
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        c1, c2 = drv_c12.pair(rng)
        if rng.random() < 0.2:
            got = drv_c12.found(rng, c1, c2)
            if got is None:
                continue
            s1, s2 = got
        else:
            s1 = wsearch.run(c1, 10)[1]
            s2 = wsearch.run(c2, 10)[1] if s1 is not None and rng.random() < 0.9 else s1
        if s1 is None or s2 is None:
            continue
        try:
            with limit(10):
                b = Bijection.construct(s1, s2)
        except (Exception, CaseTimeout):  # pylint: disable=broad-except
            continue  # C12 looks at this
        if b is None:
            continue
        top = min(drv_c12.size(s1.root, 40), drv_c12.size(s2.root, 40))
        n = Num()
        e = {"op": "maps", "a": 0, "b": 0, "same": False, "exc": ""}
        try:
            with limit(20):
                e["a"] = maps(b, top)
                y = Bijection.from_dict(json.loads(json.dumps(b.to_jsonable())))
                e["b"] = maps(y, top)
                z = Bijection.from_dict(json.loads(json.dumps(y.to_jsonable())))
                e["same"] = bool(
                    b.domain == y.domain and b.codomain == y.codomain
                    and content(n, b.domain) == content(n, y.domain)
                    and content(n, b.codomain) == content(n, y.codomain)) and maps(z, top) == e["b"]
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        chk.extra["bijections"] = chk.extra.get("bijections", 0) + 1
        res.append({"ev": [e], "cf": [wsearch.describe(c1), wsearch.describe(c2)]})
    return res


def maps(b, top):
    res = {"there": [], "back": []}
    for f, c, k in ((b.map, b.domain.root, "there"), (b.inverse_map, b.codomain.root, "back")):
        for n in range(top + 1):
            res[k] += [[letters(o), safe(lambda o=o: letters(f(o)))] for o in c.objects_of_size(n)]
    return res


def run(chk):
    secs = 20 if chk.quick else 500
    n = 10**6
    cs = fan(chk, packs, 40 if chk.quick else 1000, secs * 0.15)
    cs += fan(chk, same, 40 if chk.quick else 1000, secs * 0.3)
    cs += fan(chk, forms, 60 if chk.quick else 3000, secs * 0.45)
    cs += fan(chk, bijections, n, secs * 0.7)
    cs += fan(chk, specs, n, secs)
    chk.judge("JsonTrace", cs, cfg="Trace.cfg", batch=2500)
