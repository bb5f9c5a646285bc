"""Synthetic rules: classes are tables of terms, rules are true numeric relations.

A class is a table size -> parameters -> count; its objects are the ranks below
each count.  A union or product strategy is any true relation between tables
with arbitrary parameter maps, and its bijection is any matching of the parent's
objects with the parts.  Everything a rule form does (counting, generating,
mapping, sampling, equations) can then be compared with the tables.
"""
import random
import zlib
from collections import Counter, defaultdict
from itertools import product

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.combinatorial_class import CombinatorialObject
from comb_spec_searcher.strategies import CartesianProductStrategy, DisjointUnionStrategy
from comb_spec_searcher.strategies.constructor import Constructor, DisjointUnion
from comb_spec_searcher.strategies.strategy import Strategy

SYN = {}


class SObj(CombinatorialObject):
    __slots__ = ("i", "n", "p", "r")

    def __init__(self, i, n, p, r):
        self.i, self.n, self.p, self.r = i, n, tuple(p), r

    def key(self):
        return (self.i, self.n, self.p, self.r)

    def __len__(self):
        return self.n

    def __bool__(self):
        return True

    def __eq__(self, o):
        return isinstance(o, SObj) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __lt__(self, o):
        return self.key() < o.key()

    def __repr__(self):
        return f"obj{self.key()}"


class SClass(CombinatorialClass):
    def __init__(self, u, i):
        self.u, self.i = u, i

    @property
    def t(self):
        return SYN[self.u]["cls"][self.i]

    def is_empty(self):
        return not self.t["terms"]

    def is_atom(self):
        return self.t["atom"]

    def minimum_size_of_object(self):
        return min(self.t["terms"])

    @property
    def extra_parameters(self):
        return self.t["vars"]

    def get_minimum_value(self, parameter):
        j = self.t["vars"].index(parameter)
        return min(p[j] for ps in self.t["terms"].values() for p in ps)

    def possible_parameters(self, n):
        for p in sorted(self.t["terms"].get(n, {})):
            yield dict(zip(self.t["vars"], p))

    def get_parameters(self, obj):
        return obj.p

    def objects_of_size(self, n, **parameters):
        want = tuple(parameters[k] for k in self.t["vars"]) if parameters else None
        for p, c in sorted(self.t["terms"].get(n, {}).items()):
            if want is None or p == want:
                for r in range(c):
                    yield SObj(self.i, n, p, r)

    def true_terms(self, n):
        return Counter(self.t["terms"].get(n, {}))

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(u=self.u, i=self.i)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["i"])

    def __eq__(self, o):
        return isinstance(o, SClass) and (self.u, self.i) == (o.u, o.i)

    def __hash__(self):
        return hash((self.u, self.i % 3))

    def __repr__(self):
        return f"SClass({self.u!r}, {self.i})"

    def __str__(self):
        return f"class {self.i}"


class _S:
    def __init__(self, u, r):
        self.u, self.r = u, r
        super().__init__()

    @property
    def t(self):
        return SYN[self.u]["rules"][self.r]

    def decomposition_function(self, c):
        if c.i != self.t["parent"]:
            return None
        return tuple(SClass(self.u, x) for x in self.t["children"])

    def extra_parameters(self, comb_class, children=None):
        return tuple(dict(m) for m in self.t["maps"])

    def is_two_way(self, c):
        return not self.t.get("fixed")

    def is_reversible(self, c):
        return not self.t.get("fixed")

    def formal_step(self):
        return f"rule {self.r}"

    def matching(self, n):
        """The bijection at size n: list of (parent object, parts)."""
        t = self.t
        if n in t.setdefault("match", {}):
            return t["match"][n]
        cl = SYN[self.u]["cls"]
        parts = defaultdict(list)
        for p, sub in structures(SYN[self.u], t, n):
            parts[p].extend(product(*[
                [None] if s is None else [SObj(c, s[0], s[1], r) for r in range(s[2])]
                for c, s in zip(t["children"], sub)]))
        if t["kind"] == "blow":
            for p in parts:
                parts[p] = [x for x in parts[p] for _ in range(times(t, n))]
        res = []
        for p, l in sorted(parts.items()):
            assert len(l) == cl[t["parent"]]["terms"].get(n, {}).get(p, 0), (t, n, p)
            # an arbitrary fixed order (not drawn: sampling enumerates all draws)
            l.sort(key=lambda x: zlib.crc32(repr((self.r, x)).encode()))
            res += [(SObj(t["parent"], n, p, r), x) for r, x in enumerate(l)]
        back = {x: o for o, x in res}
        if t["kind"] == "blow":
            back = {x: [o for o, y in res if y == x] for x in back}
        t["match"][n] = (dict(res), back)
        return t["match"][n]

    def forward_map(self, comb_class, obj, children=None):
        return self.matching(obj.n)[0][obj]

    def backward_map(self, comb_class, objs, children=None):
        n = sum(o.n for o in objs if o is not None)
        if self.t["kind"] == "blow":
            yield from self.matching(n + self.t["d"])[1][tuple(objs)]
        else:
            yield self.matching(n)[1][tuple(objs)]

    def to_jsonable(self):
        d = super().to_jsonable()
        for k in ("ignore_parent", "inferrable", "possibly_empty", "workable"):
            d.pop(k)
        d.update(u=self.u, r=self.r)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["r"])


class SUnion(_S, DisjointUnionStrategy):
    def constructor(self, comb_class, children=None):
        if self.t.get("fixed"):
            return DisjointUnion(comb_class, children, self.extra_parameters(comb_class),
                                 tuple(dict(f) for f in self.t["fixed"]))
        return super().constructor(comb_class, children)


class SProd(_S, CartesianProductStrategy):
    pass


class Blow(Constructor):
    """Every object of the child stands for several objects of the parent, d larger."""

    def __init__(self, comb_class, child, t):
        self.t, self.pv, self.cv = t, comb_class.extra_parameters, child.extra_parameters

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        raise NotImplementedError

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        res = Counter()
        if n >= self.t["d"]:
            for p, c in subterms[0](n - self.t["d"]).items():
                res[lift(self.t, 0, self.pv, self.cv, p)] += c * times(self.t, n)
        return res

    def get_sub_objects(self, subobjs, n):
        if n >= self.t["d"]:
            for p, os in subobjs[0](n - self.t["d"]).items():
                yield lift(self.t, 0, self.pv, self.cv, p), (os,)

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        par = {w: parameters[v] for v, w in self.t["maps"][0].items()}
        return (subsamplers[0](n - self.t["d"], **par),)

    def equiv(self, other, data=None):
        return isinstance(other, Blow) and all(self.t[x] == other.t[x] for x in ("d", "m")), None


class SBlow(_S, Strategy):
    def constructor(self, comb_class, children=None):
        return Blow(comb_class, children[0], self.t)

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def can_be_equivalent(self):
        return False

    def is_two_way(self, c):
        return False

    def is_reversible(self, c):
        return False

    def shifts(self, comb_class, children=None):
        return (self.t["d"],)


def times(t, n):
    """How many objects of size n have the same parts."""
    return t["m"][0] + t["m"][1] * n


def lift(t, i, pv, cv, p):
    """Contribution of parameters p of child i to the parent's parameters."""
    m = t["maps"][i]
    return tuple(p[cv.index(m[v])] if v in m else 0 for v in pv)


def structures(U, t, n):
    """(parent parameters, one (size, params, count) or None per child)."""
    cl = U["cls"]
    pv = cl[t["parent"]]["vars"]
    k = len(t["children"])
    if t["kind"] == "union":
        for i, c in enumerate(t["children"]):
            for p, cnt in sorted(cl[c]["terms"].get(n, {}).items()):
                yield (lift(t, i, pv, cl[c]["vars"], p),
                       tuple((n, p, cnt) if j == i else None for j in range(k)))
        return
    if t["kind"] == "blow":
        c, m = t["children"][0], n - t["d"]
        for p, cnt in sorted(cl[c]["terms"].get(m, {}).items()):
            yield lift(t, 0, pv, cl[c]["vars"], p), ((m, p, cnt),)
        return
    acc = [(0, (0,) * len(pv), ())]
    for i, c in enumerate(t["children"]):
        acc = [(m + s, tuple(map(sum, zip(q, lift(t, i, pv, cl[c]["vars"], p)))),
                sub + ((s, p, cnt),))
               for m, q, sub in acc for s, ps in sorted(cl[c]["terms"].items()) if m + s <= n
               for p, cnt in sorted(ps.items())]
    for m, q, sub in acc:
        if m == n:
            yield q, sub


def parent_table(U, t, top):
    res = {}
    for n in range(top + 1):
        row = Counter()
        for p, sub in structures(U, t, n):
            c = times(t, n) if t["kind"] == "blow" else 1
            for s in sub:
                if s is not None:
                    c *= s[2]
            row[p] += c
        if row:
            res[n] = dict(row)
    return res


NAMES = ["k_0", "k_1", "k_2", "k_3", "k_4"]


def new(U, terms, vars_, atom=False):
    U["cls"].append({"vars": tuple(vars_), "terms": terms, "atom": atom})
    return len(U["cls"]) - 1


def rand_table(rng, nv, atom=False, minsize=None, big=False):
    m = rng.choice([0, 0, 1, 1, 2]) if minsize is None else minsize
    par = lambda: tuple(rng.choice([0, 0, 1, 1, 2]) for _ in range(nv))
    if atom:
        return {m: {par(): 1}}
    t = {}
    for s in range(m, m + rng.choice([1, 2, 3])):
        if s == m or rng.random() < 0.75:
            t[s] = {par(): rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))}
    return t


def rand_maps(rng, pv, total=True, inj=False):
    """A map parent variable -> child variable with new child variable names."""
    use = [v for v in pv if rng.random() < 0.75]
    groups = []
    for v in use:
        if groups and not inj and rng.random() < 0.35:
            rng.choice(groups).append(v)
        else:
            groups.append([v])
    names = rng.sample(NAMES, len(groups))
    m = {}
    for g, nm in zip(groups, names):
        for v in g:
            m[v] = nm
    items = list(m.items())
    rng.shuffle(items)
    rng.shuffle(names)
    return dict(items), tuple(names)


def rand_rule(rng, U, kind=None, fixed=False, inj=False, nonempty_one=False):
    kind = kind or rng.choice(["union", "product"])
    pv = tuple(rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3])))
    k = rng.choice([1, 2, 2, 3, 3] if kind == "union" else [1, 2, 2, 2, 3])
    keep = rng.randrange(k)
    maps, kids, fx = [], [], []
    for i in range(k):
        if i and rng.random() < 0.12 and not fixed:      # a repeated child
            j = rng.randrange(i)
            maps.append(dict(maps[j]))
            kids.append(kids[j])
            fx.append({})
            continue
        m, cv = rand_maps(rng, pv, inj=inj)
        f = {}
        if fixed and rng.random() < 0.6:
            free = [v for v in NAMES if v not in cv]
            if free and (not cv or rng.random() < 0.7):
                w = rng.choice(free)
                cv = list(cv) + [w]
                rng.shuffle(cv)
                cv = tuple(cv)
                f = {w: rng.choice([0, 1, 2])}
            elif cv:
                f = {rng.choice(cv): rng.choice([0, 1, 2])}
        empty = kind == "union" and ((nonempty_one and i != keep) or
                                     (not nonempty_one and i != keep and rng.random() < 0.15))
        atom = rng.random() < 0.3
        tab = {} if empty else rand_table(rng, len(cv), atom)
        for w, val in f.items():
            j = cv.index(w)
            new_tab = {}
            for s, ps in tab.items():
                row = Counter()
                for p, c in ps.items():
                    row[p[:j] + (val,) + p[j + 1:]] += c
                if atom:
                    row = {next(iter(row)): 1}
                new_tab[s] = dict(row)
            tab = new_tab
        maps.append(m)
        fx.append(f)
        kids.append(new(U, tab, cv, atom and not empty))
    t = {"kind": kind, "children": kids, "maps": maps}
    if fixed:
        t["fixed"] = fx
    p = new(U, {}, pv)
    t["parent"] = p
    U["cls"][p]["terms"] = parent_table(U, t, 10)
    U["rules"].append(t)
    return len(U["rules"]) - 1


def rand_blow(rng, U):
    """A rule whose objects share their parts."""
    pv = tuple(rng.sample(NAMES, rng.choice([0, 1, 1, 2])))
    m, cv = rand_maps(rng, pv)
    kid = new(U, rand_table(rng, len(cv), rng.random() < 0.2), cv, False)
    t = {"kind": "blow", "children": [kid], "maps": [m], "d": rng.choice([0, 0, 1, 2]),
         "m": rng.choice([(1, 0), (2, 0), (3, 0), (1, 1), (0, 1), (2, 1)])}
    p = new(U, {}, pv)
    t["parent"] = p
    tab = parent_table(U, t, 10)
    U["cls"][p]["terms"] = {n: {q: c for q, c in row.items() if c} for n, row in tab.items()}
    U["cls"][p]["terms"] = {n: row for n, row in U["cls"][p]["terms"].items() if row}
    if not U["cls"][p]["terms"]:
        return rand_blow(rng, U)
    U["rules"].append(t)
    return len(U["rules"]) - 1


def rand_join(rng, U):
    """A product of factors that track several of the parent's statistics together."""
    pv = tuple(rng.sample(NAMES, rng.choice([2, 2, 3])))
    kids, maps = [], []
    for _ in range(rng.choice([2, 2, 3])):
        g = list(pv) if rng.random() < 0.75 else rng.sample(pv, rng.choice([1, 2]))
        w = rng.choice(NAMES)
        m, cv = {v: w for v in g}, (w,)
        if len(g) > 2 and rng.random() < 0.4:
            y = rng.choice([x for x in NAMES if x != w])
            m[rng.choice(g)], cv = y, (w, y)
        lo = rng.choice([0, 0, 1])
        tab = {lo + s: {p: rng.choice([1, 1, 2]) for p in
                        {tuple(rng.choice([0, 1, 1, 2]) for _ in cv) for _ in range(rng.choice([1, 2, 3]))}}
               for s in range(rng.choice([1, 2, 2]))}
        items = list(m.items())
        rng.shuffle(items)
        maps.append(dict(items))
        kids.append(new(U, tab, cv))
    t = {"kind": "product", "children": kids, "maps": maps}
    t["parent"] = new(U, {}, pv)
    U["cls"][t["parent"]]["terms"] = parent_table(U, t, 10)
    U["rules"].append(t)
    return len(U["rules"]) - 1


def strat(u, r):
    return {"union": SUnion, "product": SProd, "blow": SBlow}[SYN[u]["rules"][r]["kind"]](u, r)


def rule(u, r):
    s = strat(u, r)
    return s(SClass(u, s.t["parent"]))


def _zeros_equal(U, c):
    """Variables of c that are always 0, and classes of always equal variables."""
    t = U["cls"][c]
    rows = [p for ps in t["terms"].values() for p in ps]
    col = {v: tuple(p[j] for p in rows) for j, v in enumerate(t["vars"])}
    zero = [v for v in t["vars"] if not any(col[v])]
    eq = defaultdict(list)
    for v in t["vars"]:
        eq[col[v]].append(v)
    return zero, list(eq.values())


def forward_step(rng, U, c, kind="union", fixed=False):
    """A rule c = child (+ empty children): drops zero variables, merges equal ones."""
    t = U["cls"][c]
    zero, eqs = _zeros_equal(U, c)
    m, reps = {}, {}
    names = rng.sample(NAMES, len(NAMES))
    for g in eqs:
        parts = []
        for v in g:
            if v in zero and rng.random() < 0.5:
                continue
            if parts and rng.random() < 0.6:
                rng.choice(parts).append(v)
            else:
                parts.append([v])
        for p in parts:
            nm = names.pop()
            reps[nm] = p[0]
            for v in p:
                m[v] = nm
    fx = {}
    if fixed and names:
        fx = {names.pop(): rng.choice([0, 1, 2])}
    cv = list(reps) + list(fx)
    rng.shuffle(cv)
    tab = {n: {tuple(fx[w] if w in fx else p[t["vars"].index(reps[w])] for w in cv): cnt
               for p, cnt in ps.items()} for n, ps in t["terms"].items()}
    ch = new(U, tab, cv, t["atom"])
    items = list(m.items())
    rng.shuffle(items)
    return _unary(rng, U, c, ch, dict(items), kind, fx if fixed else None)


def reverse_step(rng, U, c, kind="union"):
    """A rule parent = c (+ empty children) with an injective map: extra zero variables."""
    t = U["cls"][c]
    pv = rng.sample(NAMES, len(t["vars"]))
    m = dict(zip(pv, t["vars"]))
    free = [v for v in NAMES if v not in pv]
    allv = pv + rng.sample(free, rng.choice([0, 0, 1]) if free else 0)
    rng.shuffle(allv)
    tab = {n: {tuple(p[t["vars"].index(m[w])] if w in m else 0 for w in allv): cnt
               for p, cnt in ps.items()} for n, ps in t["terms"].items()}
    par = new(U, tab, allv, t["atom"])
    return _unary(rng, U, par, c, m, kind, None, inj=True)


def _unary(rng, U, par, ch, m, kind, fx, inj=False):
    kids, maps, fixed = [ch], [m], [fx or {}]
    if kind == "union":
        for _ in range(rng.choice([0, 0, 1, 2])):
            mm, cv = rand_maps(rng, U["cls"][par]["vars"], inj=inj)
            at = rng.randrange(len(kids) + 1)
            kids.insert(at, new(U, {}, cv))
            maps.insert(at, mm)
            fixed.insert(at, {})
    t = {"kind": kind, "parent": par, "children": kids, "maps": maps}
    if fx is not None:
        t["fixed"] = fixed
    U["rules"].append(t)
    return len(U["rules"]) - 1


def describe(U, used=None):
    """Classes and rules as data for the specification."""
    cl = [{"nv": len(t["vars"]), "atom": t["atom"],
           "tab": [[n, list(p), c] for n, ps in sorted(t["terms"].items())
                   for p, c in sorted(ps.items())]} for t in U["cls"]]
    rs = []
    for t in U["rules"]:
        pv = U["cls"][t["parent"]]["vars"]
        rs.append({"kind": t["kind"], "p": t["parent"] + 1, "c": [x + 1 for x in t["children"]],
                   "d": t.get("d", 0), "m": list(t.get("m", (1, 0))),
                   "maps": [[(U["cls"][c]["vars"].index(m[v]) + 1 if v in m else 0) for v in pv]
                            for c, m in zip(t["children"], t["maps"])]})
    return {"cl": cl, "rs": rs}
