"""Pairs of table universes for the parallel finder: classes are integers, every
strategy is a table with a named constructor; two constructors are equivalent when
they have the same name.  Nothing can be counted, but every hypergraph of rules, on
either side, can be written down."""
from collections import Counter

from comb_spec_searcher import (AtomStrategy, CombinatorialClass, CombinatorialObject,
                                CombinatorialSpecificationSearcher, StrategyPack)
from comb_spec_searcher.strategies import Strategy
from comb_spec_searcher.strategies.constructor import Constructor

UNI = {}


class Obj(CombinatorialObject):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def size(self):
        return self.n

    def __eq__(self, other):
        return isinstance(other, Obj) and self.n == other.n

    def __hash__(self):
        return self.n

    def __repr__(self):
        return f"Obj({self.n})"


class P(CombinatorialClass):
    def __init__(self, u, i):
        self.u, self.i = u, i

    def is_empty(self):
        return self.i in UNI[self.u]["empty"]

    def is_atom(self):
        return self.i in UNI[self.u]["atoms"]

    def minimum_size_of_object(self):
        return UNI[self.u]["atoms"].get(self.i, 1)

    def objects_of_size(self, n, **parameters):
        if n == self.minimum_size_of_object():
            yield Obj(n)

    @classmethod
    def from_dict(cls, d):
        return cls(d["u"], d["i"])

    def __eq__(self, other):
        return isinstance(other, P) and (self.u, self.i) == (other.u, other.i)

    def __hash__(self):
        return hash((self.u, self.i))

    def __repr__(self):
        return f"P({self.u!r}, {self.i})"

    def __str__(self):
        return f"class {self.i} of {self.u}"


class Cons(Constructor):
    def __init__(self, name):
        self.name = name

    def get_equation(self, lhs_func, rhs_funcs):
        raise NotImplementedError

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        return Counter()

    def get_sub_objects(self, subobjs, n):
        raise NotImplementedError

    def random_sample_sub_objects(self, *args, **kwargs):
        raise NotImplementedError

    def equiv(self, other, data=None):
        return isinstance(other, Cons) and self.name == other.name, None


class PStrat(Strategy):
    def __init__(self, u, k):
        self.u, self.k = u, k
        super().__init__()

    @property
    def t(self):
        return UNI[self.u]["strats"][self.k]

    @property
    def con(self):
        return self.t["con"]

    def decomposition_function(self, c):
        ch = self.t["map"].get(c.i) if c.u == self.u else None
        return None if ch is None else tuple(P(self.u, x) for x in ch)

    def can_be_equivalent(self):
        return self.t["eq"]

    def is_two_way(self, comb_class):
        return self.t["two"]

    def is_reversible(self, comb_class):
        return self.t["two"]

    def shifts(self, comb_class, children=None):
        ch = self.decomposition_function(comb_class) if children is None else children
        alive = sum(not x.is_empty() for x in ch)
        return tuple(int(alive > 1) for _ in ch)

    def constructor(self, comb_class, children=None):
        return Cons(self.con)

    def reverse_constructor(self, idx, comb_class, children=None):
        return Cons("reverse " + self.con)

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def formal_step(self):
        return f"strategy {self.k}"

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


def pack(u):
    n = len(UNI[u]["strats"])
    cut = UNI[u]["cut"]
    s = [PStrat(u, k) for k in range(n)]
    return StrategyPack(initial_strats=s[:cut], inferral_strats=[], expansion_strats=[s[cut:]],
                        ver_strats=[AtomStrategy()], name="table " + u)


def searcher(u):
    return CombinatorialSpecificationSearcher(P(u, UNI[u]["start"]), pack(u))


def data(c):
    return {"w": False, "e": c.is_empty(), "m": c.minimum_size_of_object()}


def rule(rng, alive, empty, honest, dense=False):
    k = rng.choice([2, 2, 3] if dense else [1, 1, 2, 2, 2, 3])
    ch = [rng.choice(alive) for _ in range(k)]
    if empty and rng.random() < 0.3:
        ch.insert(rng.randrange(k + 1), rng.choice(empty))
    two = k == 1 and rng.random() < 0.6
    return {"ch": ch, "con": rng.choice("UUP"), "two": two,
            "eq": honest or rng.random() < 0.5}


def store(u, n, start, empty, atoms, rules, rng):
    """rules: (parent, rule); grouped into strategies."""
    strats = []
    for p, r in rules:
        if p in empty or p in atoms and rng.random() < 0.5:
            continue
        for s in strats:
            if p not in s["map"] and all(s[x] == r[x] for x in ("con", "two", "eq")):
                break
        else:
            s = {"con": r["con"], "two": r["two"], "eq": r["eq"], "map": {}}
            strats.append(s)
        s["map"][p] = r["ch"]
    rng.shuffle(strats)
    UNI[u] = {"n": n, "start": start, "empty": set(empty), "atoms": dict(atoms),
              "strats": strats, "cut": rng.randint(0, len(strats))}


def pair(rng, tag, honest):
    """Two universes, the second one a perturbed unfolding of the first."""
    n = rng.choice([2, 3, 3, 4, 5, 6])
    natoms = rng.choice([1, 1, 2])
    atoms = {i: rng.choice([1, 1, 2]) for i in range(n, n + natoms)}
    empty = [n + natoms] if rng.random() < 0.4 else []
    tot = n + natoms + len(empty)
    alive = list(range(n + natoms))
    rules = []
    dense = rng.random() < 0.25  # several rules with as many children for each class
    for p in range(n):
        for _ in range(rng.choice([2, 3, 4] if dense else [1, 1, 2, 2, 3])):
            rules.append((p, rule(rng, alive, empty, honest, dense and rng.random() < 0.8)))
    start = rng.randrange(n)
    store("a" + tag, tot, start, empty, atoms, rules, rng)
    # copies of the classes of the first universe
    copies, m = {}, 0
    for c in range(tot):
        k = rng.choice([1, 1, 1, 2])
        copies[c] = list(range(m, m + k))
        m += k
    fresh = m
    rules2 = []
    keep = rng.choice([1, 0.9, 0.7])
    for p, r in rules:
        for q in copies[p]:
            if rng.random() > keep:
                continue
            ch = [rng.choice(copies[x]) for x in r["ch"]]
            if rng.random() < 0.5:
                rng.shuffle(ch)
            rules2.append((q, dict(r, ch=ch)))
    alive2 = [q for c in alive for q in copies[c]]
    empty2 = [q for c in empty for q in copies[c]]
    # detours
    for _ in range(rng.choice([0, 0, 1, 2])):
        if not rules2:
            break
        j = rng.randrange(len(rules2))
        q, r = rules2[j]
        rules2[j] = (fresh, r)
        rules2.append((q, {"ch": [fresh], "con": rng.choice("UUP"), "two": rng.random() < 0.7,
                           "eq": honest or rng.random() < 0.6}))
        alive2.append(fresh)
        fresh += 1
    if rng.random() < 0.3:
        rules2.append((rng.choice([q for c in range(n) for q in copies[c]]),
                       rule(rng, alive2, empty2, honest)))
    rng.shuffle(rules2)
    store("b" + tag, fresh, rng.choice(copies[start]), empty2,
          {q: s for c, s in atoms.items() for q in copies[c]}, rules2, rng)
    return "a" + tag, "b" + tag
