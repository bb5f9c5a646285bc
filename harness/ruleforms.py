"""Rule forms of synthetic universes, and recording what they do."""
import random

import enumrng
import equations
import synth
from common import CaseTimeout, errs, limit
from comb_spec_searcher.strategies.rule import EquivalencePathRule
from synth import SYN, SClass, SObj


def oj(o):
    return [] if o is None else [o.i + 1, o.n, list(o.p), o.r]


def build(u, steps, as_path):
    rs = []
    for s in steps:
        r = synth.rule(u, s[1])
        if s[0] == "rev":
            r = r.to_reverse_rule(s[2])
        elif s[0] == "eq":
            r = r.to_equivalence_rule()
        elif s[0] == "eqrev":
            r = r.to_equivalence_rule().to_reverse_rule(0)
        rs.append(r)
    return EquivalencePathRule(rs) if as_path else rs[0]


def reversible(u, r):
    t = SYN[u]["rules"][r]
    return not t.get("fixed")


def basic_forms(u, r):
    """(steps, as_path) for every form the library derives from one rule."""
    U = SYN[u]
    t = U["rules"][r]
    alive = [i for i, c in enumerate(t["children"]) if U["cls"][c]["terms"]]
    inj = all(len(set(m.values())) == len(m) for m in t["maps"])
    yield [["plain", r]], False
    if t["kind"] == "blow":
        return
    if reversible(u, r):
        seen = set()
        for i in alive:
            if t["children"][i] not in seen:
                seen.add(t["children"][i])
                yield [["rev", r, i]], False
    if len(alive) == 1:
        i = alive[0]
        yield [["eq", r, i]], False
        yield [["eq", r, i]], True
        if len(t["children"]) == 1:
            yield [["plain", r]], True
        if reversible(u, r) and inj:
            yield [["eqrev", r, i]], False
            yield [["eqrev", r, i]], True
            if len(t["children"]) == 1:
                yield [["rev", r, i]], True


def random_path(rng, u, fixed=False):
    """A chain of equivalences over fresh classes of universe u."""
    U = SYN[u]
    nv = rng.choice([0, 1, 2, 2, 3])
    base = synth.rand_table(rng, nv, rng.random() < 0.2)
    names = rng.sample(synth.NAMES, min(len(synth.NAMES), nv + rng.choice([0, 0, 1])))
    src = [rng.randrange(nv) if nv and (j >= nv or rng.random() < 0.3) else (j if j < nv else None)
           for j in range(len(names))]
    src = [None if rng.random() < 0.15 else x for x in src]
    tab = {}
    for n, ps in base.items():
        row = {}
        for p, c in ps.items():
            q = tuple(0 if x is None else p[x] for x in src)
            row[q] = row.get(q, 0) + c
        tab[n] = row
    atom = sum(sum(r.values()) for r in tab.values()) == 1 and rng.random() < 0.5
    c = synth.new(U, tab, names, atom)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kind = "product" if rng.random() < 0.15 else "union"
        if rng.random() < 0.5:
            r = synth.forward_step(rng, U, c, kind, fixed and kind == "union" and rng.random() < 0.3)
            t = U["rules"][r]
            i = next(j for j, x in enumerate(t["children"]) if U["cls"][x]["terms"])
            steps.append(["eq" if len(t["children"]) > 1 or rng.random() < 0.5 else "plain", r, i])
            c = t["children"][i]
        else:
            r = synth.reverse_step(rng, U, c, kind)
            t = U["rules"][r]
            i = next(j for j, x in enumerate(t["children"]) if U["cls"][x]["terms"])
            steps.append(["eqrev" if len(t["children"]) > 1 or rng.random() < 0.5 else "rev", r, i])
            c = t["parent"]
    return steps, True


def compact(u, steps, rule_children):
    """Only the classes and rules a case needs, renumbered."""
    U = SYN[u]
    rids = sorted({s[1] for s in steps})
    cids = sorted({c for r in rids for c in [U["rules"][r]["parent"], *U["rules"][r]["children"]]})
    V = {"cls": [U["cls"][c] for c in cids],
         "rules": [dict(U["rules"][r], parent=cids.index(U["rules"][r]["parent"]),
                        children=[cids.index(c) for c in U["rules"][r]["children"]])
                   for r in rids]}
    d = synth.describe(V)
    d["form"] = [[s[0], rids.index(s[1]) + 1, (s[2] + 1) if len(s) > 2 else 1] for s in steps]
    return d, {c: k + 1 for k, c in enumerate(cids)}


class Recorder:
    def __init__(self, u, steps, as_path, top):
        self.u, self.steps, self.as_path, self.top = u, steps, as_path, top
        self.case, self.num = compact(u, steps, None)
        self.case.update(top=top, path=as_path, ev=[])
        self.rule = None
        e = {"op": "form", "lhs": 0, "rhs": [], "shifts": [], "fk": [], "exc": ""}
        try:
            with limit(20):
                self.rule = build(u, steps, as_path)
                e["lhs"] = self.num[self.rule.comb_class.i]
                e["rhs"] = [self.num[c.i] for c in self.rule.children]
                e["shifts"] = list(self.rule.shifts())
                fk = self.rule.forest_key(lambda c: self.num[c.i], lambda c: c.is_empty())
                e["fk"] = [fk.parent, list(fk.children), list(fk.shifts)]
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:
            e["exc"] = errs(x)
        self.kinds = [c.true_terms for c in self.rule.children] if self.rule and not e["exc"] else []
        self.ok = not e["exc"]
        self.case["ev"].append(e)

    def obj(self, o):
        return [] if o is None else [self.num.get(o.i, 0), o.n, list(o.p), o.r]

    def terms(self, reads=False):
        if not self.ok:
            return
        r = build(self.u, self.steps, self.as_path)
        log, own = [], []

        def provider(i, c):
            def get(m):
                log.append([i + 1, m])
                return c.true_terms(m)
            return get
        r.subterms = tuple(provider(i, c) for i, c in enumerate(r.children))
        real = type(r).get_terms

        def get_own(m):
            own.append(m)
            return real(r, m)
        r.get_terms = get_own
        for n in range(self.top + 1):
            log.clear(), own.clear()
            e = {"op": "terms", "n": n, "got": [], "exc": ""}
            try:
                with limit(20):
                    e["got"] = [[n, list(p), int(c)] for p, c in sorted(real(r, n).items())]
            except CaseTimeout:
                e["exc"] = "hang"
            except Exception as x:
                e["exc"] = errs(x)
            if reads:
                # also what was read before a failure (the failure itself concerns C09)
                self.case["ev"].append({
                    "op": "reads", "n": n, "reads": sorted(map(list, {tuple(x) for x in log})),
                    "own": sorted(set(own))})
            else:
                self.case["ev"].append(e)
            if e["exc"]:
                break

    def objects(self):
        if not self.ok:
            return
        r = build(self.u, self.steps, self.as_path)
        r.subobjects = tuple(c.get_objects for c in r.children)
        for n in range(self.top + 1):
            e = {"op": "objects", "n": n, "got": [], "exc": ""}
            try:
                with limit(20):
                    for p, os in sorted(r.get_objects(n).items()):
                        e["got"] += [self.obj(o) + [list(p)] for o in os]
            except NotImplementedError:
                return
            except CaseTimeout:
                e["exc"] = "hang"
            except Exception as x:
                e["exc"] = errs(x)
            self.case["ev"].append(e)
            if e["exc"]:
                return

    def maps(self):
        if not self.ok:
            return
        r = build(self.u, self.steps, self.as_path)
        for n in range(self.top + 1):
            for o in SClass(self.u, r.comb_class.i).objects_of_size(n):
                e = {"op": "map", "obj": self.obj(o), "parts": [], "back": [], "exc": ""}
                try:
                    with limit(20):
                        parts = r.forward_map(o)
                        e["parts"] = [self.obj(x) for x in parts]
                        e["back"] = [self.obj(x) for x in r.backward_map(parts)]
                except NotImplementedError:
                    return
                except CaseTimeout:
                    e["exc"] = "hang"
                except Exception as x:
                    e["exc"] = errs(x)
                self.case["ev"].append(e)
                if e["exc"]:
                    return

    def equation(self):
        if not self.ok:
            return
        e = {"op": "equation", "eq": [], "nk": 0, "top": 7, "exc": ""}
        try:
            with limit(60):
                r = build(self.u, self.steps, self.as_path)
                eq = r.get_equation(lambda c: c.get_function(lambda d: d.i))
                e["eq"], names = equations.polynomial(eq, lambda i: self.num[i])
                e["nk"] = len(names)
        except NotImplementedError:
            e["exc"] = "refused"
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:
            e["exc"] = errs(x)
        self.case["ev"].append(e)

    def samples(self, cap=1500):
        if not self.ok:
            return
        r = build(self.u, self.steps, self.as_path)
        r.subterms = tuple(c.true_terms for c in r.children)

        def sampler(c):
            def f(n, **params):
                os = list(c.objects_of_size(n, **params)) if set(params) == set(c.extra_parameters) else None
                return os[random.randrange(len(os))]
            return f

        def rec(c):
            return lambda n, **params: c.true_terms(n)[tuple(params[k] for k in c.extra_parameters)]
        r.subsamplers = tuple(map(sampler, r.children))
        r.subrecs = tuple(map(rec, r.children))
        lhs = SClass(self.u, r.comb_class.i)
        for n in range(self.top + 1):
            for p in sorted(lhs.true_terms(n)):
                par = dict(zip(lhs.extra_parameters, p))
                e = {"op": "sample", "n": n, "p": list(p), "dist": [], "exc": ""}
                try:
                    with limit(30):
                        d, _ = enumrng.distribution(
                            lambda: r.random_sample_object_of_size(n, **par), cap)
                        e["dist"] = [[self.obj(o), w.numerator, w.denominator]
                                     for o, w in sorted(d.items())]
                except NotImplementedError:
                    return
                except enumrng.TooManyLeaves:
                    continue
                except CaseTimeout:
                    e["exc"] = "hang"
                except Exception as x:
                    e["exc"] = errs(x)
                self.case["ev"].append(e)
                if e["exc"]:
                    return


def universe(rng, u, fixed=None):
    SYN[u] = {"cls": [], "rules": []}
    return SYN[u]


def random_forms(rng, num_rules, num_paths, fixed_too=True):
    """Yields (u, steps, as_path)."""
    todo = ([f"r{k}" for k in range(num_rules)] + [f"b{k}" for k in range(num_rules // 12)]
            + [f"j{k}" for k in range(num_rules // 10)] + [f"p{k}" for k in range(num_paths)])
    rng.shuffle(todo)
    for u in todo:
        U = universe(rng, u)
        if u[0] == "r":
            fixed = fixed_too and rng.random() < 0.2
            r = synth.rand_rule(rng, U, kind="union" if fixed else None, fixed=fixed,
                                inj=rng.random() < 0.4, nonempty_one=rng.random() < 0.25)
            for steps, p in basic_forms(u, r):
                yield u, steps, p
        elif u[0] == "p":
            steps, p = random_path(rng, u, fixed_too)
            yield u, steps, p
        else:
            yield u, [["plain", (synth.rand_blow if u[0] == "b" else synth.rand_join)(rng, U)]], False
