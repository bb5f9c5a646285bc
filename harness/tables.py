"""Table universes: combinatorial classes are integers, strategies are tables.

They let the search engine be driven through every structural situation
(factories, foreign parents, symmetries, inferral chains, empty children,
one-way rules, verification of expandable classes) with everything about the
strategies known as data, so that the specification can judge what is recorded.
"""
import random

from comb_spec_searcher import (CombinatorialClass, CombinatorialSpecificationSearcher,
                                StrategyPack)
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies import Strategy, StrategyFactory, VerificationStrategy
from comb_spec_searcher.strategies.constructor import (CartesianProduct, Complement,
                                                       DisjointUnion, Quotient)
from comb_spec_searcher.strategies.rule import Rule

UNI = {}


class TClass(CombinatorialClass):
    """Class number i of a universe; tag is a presentation detail."""

    def __init__(self, u, i, tag=0):
        self.u, self.i, self.tag = u, i, tag

    @property
    def uni(self):
        return UNI[self.u]

    def is_empty(self):
        return self.i in self.uni["empty"]

    def is_atom(self):
        return self.i in self.uni.get("atoms", ())

    def minimum_size_of_object(self):
        return self.uni.get("min", {}).get(self.i, 0)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(u=self.u, i=self.i)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["i"])

    def __eq__(self, other):
        return isinstance(other, TClass) and (self.u, self.i) == (other.u, other.i)

    def __hash__(self):
        return hash((self.u, self.i % 3))  # collisions on purpose

    def __repr__(self):
        return f"TClass({self.u!r}, {self.i})"

    def __str__(self):
        return f"class {self.i}"


class TClassB(TClass):
    """The same, with byte compression."""

    def to_bytes(self):
        return f"{self.u}|{self.i}".encode()

    @classmethod
    def from_bytes(cls, b):
        u, i = b.decode().split("|")
        return cls(u, int(i))


def mk(u, i):
    return (TClassB if UNI[u].get("bytes") else TClass)(u, i, random.Random(i).random())


FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")


class TStrat(Strategy):
    def __init__(self, u, k):
        self.u, self.k = u, k
        super().__init__(**{f: self.t["flags"][f] for f in FLAGS})

    @property
    def t(self):
        return UNI[self.u]["strats"][self.k]

    def decomposition_function(self, c):
        ch = self.t["map"].get(c.i)
        if ch is None:
            return None
        return tuple(mk(self.u, x) for x in ch)

    def can_be_equivalent(self):
        return self.t.get("can_eq", True)

    def is_two_way(self, comb_class):
        return self.t["two_way"]

    def is_reversible(self, comb_class):
        return self.t.get("reversible", self.t["two_way"])

    def shifts(self, comb_class, children):
        sh = self.t.get("shifts", {}).get(comb_class.i)
        if sh is None:
            return tuple(0 for _ in children)
        return tuple(sh)

    def constructor(self, comb_class, children=None):
        return DisjointUnion(comb_class, children)

    def reverse_constructor(self, idx, comb_class, children=None):
        return Complement(comb_class, children, idx)

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def formal_step(self):
        return f"strategy {self.k}"

    def to_jsonable(self):
        d = super().to_jsonable()
        for f in FLAGS:
            d.pop(f)
        d.update(u=self.u, k=self.k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["k"])


class TVer(VerificationStrategy):
    def __init__(self, u, k):
        self.u, self.k = u, k
        super().__init__(ignore_parent=self.t["flags"]["ignore_parent"])

    @property
    def t(self):
        return UNI[self.u]["strats"][self.k]

    def verified(self, comb_class):
        return comb_class.i in self.t["map"]

    def decomposition_function(self, c):
        ch = self.t["map"].get(c.i)
        if ch is None:
            return None
        return tuple(mk(self.u, x) for x in ch)

    def shifts(self, comb_class, children=None):
        return tuple(1 for _ in self.t["map"][comb_class.i])

    def formal_step(self):
        return f"verified by {self.k}"

    def to_jsonable(self):
        d = super().to_jsonable()
        d.pop("ignore_parent")
        d.update(u=self.u, k=self.k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["k"])


class TFactory(StrategyFactory):
    """yields: class -> list of ["s", k] (strategy) or ["r", k, parent] (rule)
    or ["l", k, parent]: a rule object whose children are computed lazily and
    may turn out not to exist."""

    def __init__(self, u, k):
        self.u, self.k = u, k

    @property
    def t(self):
        return UNI[self.u]["strats"][self.k]

    def __call__(self, comb_class):
        for y in self.t["yields"].get(comb_class.i, ()):
            s = strat(self.u, y[1])
            if y[0] == "s":
                yield s
            elif y[0] == "r":
                try:
                    yield s(mk(self.u, y[2]))
                except StrategyDoesNotApply:
                    continue
            else:
                yield Rule(s, mk(self.u, y[2]))

    def __str__(self):
        return f"factory {self.k}"

    def __repr__(self):
        return f"TFactory({self.u!r}, {self.k})"

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(u=self.u, k=self.k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["k"])


def strat(u, k):
    kind = UNI[u]["strats"][k]["kind"]
    return {"strat": TStrat, "sym": TStrat, "ver": TVer, "fac": TFactory}[kind](u, k)


def pack(u):
    p = UNI[u]["pack"]
    s = lambda ks: [strat(u, k) for k in ks]
    return StrategyPack(
        initial_strats=s(p["initial"]), inferral_strats=s(p["inferral"]),
        expansion_strats=[s(x) for x in p["expansion"]], ver_strats=s(p["ver"]),
        symmetries=s(p["sym"]), name="table", iterative=p.get("iterative", False))


def searcher(u, ruledb=None, expand_verified=False):
    return CombinatorialSpecificationSearcher(
        mk(u, UNI[u]["start"]), pack(u), ruledb=ruledb, expand_verified=expand_verified)


def random_universe(rng, u, ncls=None, forest=False, iterative=None, sym=None,
                    inferral=True, ver_expandable=True, start_empty=False, chains=False):
    """A random universe honouring the documented strategy contracts."""
    n = ncls or rng.choice([3, 4, 5, 6, 7, 8, 9, 10])
    empty = {i for i in range(n) if rng.random() < 0.2}
    start = rng.randrange(n)
    if not start_empty:
        empty.discard(start)
    alive = [i for i in range(n) if i not in empty]
    strats, p = [], {"initial": [], "inferral": [], "expansion": [], "ver": [], "sym": []}

    def add(d):
        strats.append(d)
        return len(strats) - 1

    # symmetries: permutations of the classes (emptiness invariant)
    if sym is None:
        sym = rng.random() < 0.35
    if sym:
        gens = []
        for _ in range(rng.randint(1, 2)):
            perm = list(range(n))
            a, e = list(alive), list(empty)
            a2, e2 = a[:], e[:]
            if rng.random() < 0.8 and len(a) >= 2:
                x, y = rng.sample(range(len(a)), 2)
                a2[x], a2[y] = a2[y], a2[x]
            if len(e) >= 2 and rng.random() < 0.5:
                e2 = e2[::-1]
            for s_, t_ in zip(a + e, a2 + e2):
                perm[s_] = t_
            gens.append(perm)
        # the symmetry strategies are closed under composition: a group
        grp = {tuple(range(n))}
        todo = list(grp)
        while todo:
            g = todo.pop()
            for h in gens:
                gh = tuple(h[g[i]] for i in range(n))
                if gh not in grp and len(grp) < 12:
                    grp.add(gh)
                    todo.append(gh)
        for g in sorted(grp):
            if g == tuple(range(n)):
                continue
            p["sym"].append(add({
                "kind": "sym", "two_way": True,
                "flags": dict(ignore_parent=False, inferrable=False,
                              possibly_empty=False, workable=False),
                "map": {i: [g[i]] for i in range(n)}}))
        if not p["sym"]:
            pass

    def rand_children(pe, k=None):
        pool = list(range(n)) if pe else alive
        if k is None:  # chains: mostly one-way rules with one child, that make cycles
            k = rng.choice([1, 1, 1, 1, 2] if chains else [1, 1, 2, 2, 2, 3, 3, 0])
        return [rng.choice(pool) for _ in range(k)] if pool else []

    def plain(dens, unary=False):
        pe = rng.random() < 0.6
        d = {"kind": "strat", "two_way": rng.random() < (0.2 if chains else 0.6),
             "flags": dict(ignore_parent=rng.random() < 0.12, inferrable=rng.random() < 0.6,
                           possibly_empty=pe, workable=rng.random() < 0.85),
             "map": {}}
        for i in range(n):
            if rng.random() < dens:
                if i in empty and not pe:
                    continue
                ch = rand_children(pe, 1 if unary else None)
                if unary and i not in empty:
                    ch = [rng.choice(alive)]
                if i in empty:  # an empty class decomposes into empty classes
                    ch = [rng.choice(sorted(empty))] if pe else []
                if not ch:
                    continue
                if i not in empty and all(x in empty for x in ch):
                    continue
                d["map"][i] = ch
                if forest:
                    d.setdefault("shifts", {})[i] = [
                        rng.choice([0, 0, 1, 1, 2, -1]) for _ in ch]
        if forest:
            d["reversible"] = d["two_way"]
            # an equivalence changes no size
            d["can_eq"] = not any(x for sh in d.get("shifts", {}).values() for x in sh)
        return d

    if inferral:
        for _ in range(rng.choice([0, 1, 2])):
            several = rng.random() < 0.3
            d = plain(0.35, unary=not several)
            d["flags"]["ignore_parent"] = rng.random() < 0.7
            d["two_way"] = d["two_way"] if several else True
            if forest and not several:
                d["shifts"] = {i: [0] for i in d["map"]}
                d["reversible"] = True
            p["inferral"].append(add(d))
    for _ in range(rng.choice([0, 1, 2])):
        p["initial"].append(add(plain(rng.choice([0.4, 0.7]))))
    for _ in range(rng.choice([1, 1, 2])):
        es = []
        for _ in range(rng.choice([1, 1, 2])):
            es.append(add(plain(rng.choice([0.45, 0.8]))))
        p["expansion"].append(es)
    if forest and rng.random() < 0.5:  # the same rules, but with other shifts
        for k in rng.sample(range(len(strats)), min(2, len(strats))):
            d = strats[k]
            if d["kind"] == "strat" and d.get("shifts"):
                p["expansion"][0].append(add({**d, "shifts": {
                    i: [x + rng.choice([-1, 0, 1, 1]) for x in sh]
                    for i, sh in d["shifts"].items()}, "can_eq": False}))
    # factories
    hidden = [add(plain(0.5)) for _ in range(rng.choice([0, 1, 2]))]
    if hidden or rng.random() < 0.5:
        usable = [k for k, s in enumerate(strats) if s["kind"] == "strat"]
        ys = {}
        for i in range(n):
            if i in empty:
                continue
            for _ in range(rng.choice([0, 1, 2])):
                k = rng.choice(usable)
                r = rng.random()
                if r < 0.5:
                    y = ["s", k]
                else:
                    m = strats[k]["map"]
                    # the class is the parent or one of the children (rules whose parent differs)
                    par = [a for a in m if a == i or i in m[a]]
                    if r < 0.9 and not par:
                        continue
                    if r < 0.9:
                        y = ["r", k, rng.choice(par)]
                    else:
                        y = ["l", k, rng.randrange(n)]
                        if y[2] in m and y[2] not in par:
                            continue
                ys.setdefault(i, []).append(y)
        # two strategies with the same rule of which only one can be undone
        for k in rng.sample(usable, min(2, len(usable))) if rng.random() < 0.5 else ():
            one = {i: ch for i, ch in strats[k]["map"].items() if len(ch) == 1 and i not in empty}
            if one:
                d = {**strats[k], "map": one, "two_way": not strats[k]["two_way"]}
                if forest:
                    d["reversible"] = d["two_way"]
                t = add(d)
                for i in one:
                    ys.setdefault(i, []).extend(rng.sample([["s", k], ["s", t]], 2))
        k = add({"kind": "fac", "yields": ys})
        rng.choice([p["initial"], p["expansion"][0]]).append(k)
    # verification
    nv, vd = rng.choice([1, 1, 2]), rng.choice([0.1, 0.2, 0.3])
    for _ in range(nv):
        vs = {i: [] for i in alive if rng.random() < (0.04 if i == start else vd)}
        if rng.random() < 0.15 and vs:
            vs[rng.choice(sorted(vs))] = [rng.choice(alive)]
        p["ver"].append(add({"kind": "ver", "two_way": False, "map": vs,
                             "flags": dict(ignore_parent=rng.random() < 0.5)}))
    p["iterative"] = rng.random() < 0.3 if iterative is None else iterative
    UNI[u] = {"n": n, "empty": empty, "start": start, "strats": strats, "pack": p,
              "bytes": rng.random() < 0.4}
    return u


def describe(u):
    """The universe as data for the specification."""
    t = UNI[u]
    out = []
    for s in t["strats"]:
        if s["kind"] == "fac":
            out.append({"kind": "fac", "pe": False, "two": False, "ver": False, "map": [],
                        "yields": [[c, [[y[0], y[1], (y[2] if len(y) > 2 else c)] for y in ys]]
                                   for c, ys in sorted(s["yields"].items())]})
        else:
            out.append({"kind": s["kind"], "pe": s["flags"].get("possibly_empty", False),
                        "two": s["two_way"], "ver": s["kind"] == "ver",
                        "map": [[c, ch] for c, ch in sorted(s["map"].items())], "yields": []})
    p = t["pack"]
    return {"n": t["n"], "empty": sorted(t["empty"]), "start": t["start"], "strats": out,
            "pack": sorted(set(p["initial"]) | set(p["inferral"]) | set(p["ver"])
                           | set(p["sym"]) | {k for e in p["expansion"] for k in e}),
            "iterative": p["iterative"]}
