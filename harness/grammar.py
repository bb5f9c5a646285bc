"""Universes of context-free grammars.

A class is a sentential form over a grammar, and its objects are its leftmost
derivations, identified by the productions they use in order (1, 2, ...); the
size is the number of letters derived.  The grammar is plain data, so
Grammar.tla enumerates the objects on its own.  Symbols: i > 0 is the i-th
nonterminal, -1, -2, ... the letters a, b, ...  The last nonterminal of every
grammar has no productions.
"""
from collections import Counter, defaultdict
from functools import lru_cache

import sympy

import words
from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.combinatorial_class import CombinatorialObject
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import Rule, VerificationStrategy
from words import NAMES, AtomV, _Fac, _Product, _Sym, _Union, child, rot, stat_map


def letter(s):
    return "abc"[-s - 1]


class D(CombinatorialObject):
    """A derivation: the productions used, and the word derived."""
    __slots__ = ("d", "w")

    def __init__(self, d, w):
        self.d, self.w = tuple(d), w

    def size(self):
        return len(self.w)

    def __len__(self):
        return len(self.w)

    def code(self):
        return list(self.d)

    def __eq__(self, o):
        return isinstance(o, D) and (self.d, self.w) == (o.d, o.w)

    def __lt__(self, o):
        return (len(self.w), self.d) < (len(o.w), o.d)

    def __hash__(self):
        return hash((self.d, self.w))

    def __repr__(self):
        return f"{self.w}{self.d}"


class Gram:
    """What can be said about the symbols of a grammar."""

    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.letters = {}
        alive = set()
        while True:
            new = {i + 1 for i, ps in enumerate(g) if any(
                all(s < 0 or s in alive for s in p) for p in ps)}
            if new == alive:
                break
            alive = new
        self.alive = alive
        # letters occurring in objects
        occ = {i: set() for i in alive}
        ok = lambda p: all(s < 0 or s in alive for s in p)
        for _ in range(len(g) + 1):
            for i in alive:
                for p in filter(ok, g[i - 1]):
                    for s in p:
                        occ[i] |= {letter(s)} if s < 0 else occ[s]
        self.occ = occ

    @property
    def idle(self):
        """Whether some symbol only stands for the empty word.  A product with such a
        factor is equal to the other factor: a loop through a rule with two children that
        is not productive, and all databases but the forest take it there are none."""
        return any(not self.occ[i] for i in self.alive)

    def least(self, weight):
        inf = float("inf")
        v = {i + 1: inf for i in range(len(self.g))}
        for _ in range(len(self.g) + 1):
            for i, ps in enumerate(self.g):
                for p in ps:
                    v[i + 1] = min(v[i + 1], sum(weight(letter(s)) if s < 0 else v[s] for s in p))
        return v

    def ders(self, form, n):
        """All (choices, word) of a form with n letters, in a fixed order."""
        if not form:
            return [((), "")] if n == 0 else []
        k = (form, n)
        if k in self.memo:
            return self.memo[k]
        s, rest = form[0], form[1:]
        res = []
        if s < 0:
            if n:
                res = [(d, letter(s) + w) for d, w in self.ders(rest, n - 1)]
        elif all(t < 0 or t in self.alive for t in form):
            if not rest:
                for i, p in enumerate(self.g[s - 1]):
                    res += [((i + 1,) + d, w) for d, w in self.ders(p, n)]
            else:
                lo = self.low(rest)
                for k1 in range(self.low((s,)), n - lo + 1):
                    right = self.ders(rest, n - k1)
                    if right:
                        res += [(d + e, w + x) for d, w in self.ders((s,), k1)
                                for e, x in right]
        self.memo[k] = res
        return res

    def number(self, form, top):
        """How many derivations there are of the sizes up to top, for the form and
        for the symbol with most."""
        def times(u, v):
            return [sum(u[i] * v[n - i] for i in range(n + 1)) for n in range(top + 1)]

        def series(p, t):
            r = [1] + [0] * top
            for s in p:
                r = times(r, [0, 1] + [0] * top if s < 0 else t[s - 1])
            return r
        t = [[0] * (top + 1) for _ in self.g]
        while True:
            u = [[sum(c) for c in zip([0] * (top + 1), *(series(p, t) for p in ps))] for ps in self.g]
            if u == t:
                return series(form, t), [max(c) for c in zip(*t)]
            t = u

    @lru_cache(None)
    def low(self, form):
        v = self.least(lambda a: 1)
        return sum(1 if s < 0 else v[s] for s in form)

    def parse(self, sym, d, i):
        """(word, next position) of the subtree of sym that starts at choice i."""
        if sym < 0:
            return letter(sym), i
        w = ""
        p = self.g[sym - 1][d[i] - 1]
        i += 1
        for s in p:
            x, i = self.parse(s, d, i)
            w += x
        return w, i


@lru_cache(None)
def gram(g):
    return Gram(g)


class G(CombinatorialClass):
    def __init__(self, g, form, st=()):
        self.g = tuple(tuple(tuple(p) for p in ps) for ps in g)
        self.form = tuple(form)
        st = sorted("".join(sorted(S)) for S in st)
        self.st = tuple(st[::-1] if len(self.form) % 2 else st)

    @property
    def gr(self):
        return gram(self.g)

    # the interface words.child and words.stat_map ask for
    @property
    def just(self):
        return all(s < 0 for s in self.form)

    @property
    def pre(self):
        return "".join(map(letter, self.form)) if self.just else ""

    @property
    def A(self):
        if self.just or self.is_empty():
            return ""
        return "".join(sorted(set().union(*[
            {letter(s)} if s < 0 else self.gr.occ[s] for s in self.form])))

    def make(self, **kw):
        d = dict(g=self.g, form=self.form, st=self.st)
        d.update(kw)
        return G(**d)

    def key(self):
        return (self.g, self.form, self.st)

    def is_empty(self):
        return any(s > 0 and s not in self.gr.alive for s in self.form)

    def is_atom(self):
        return self.just

    def minimum_size_of_object(self):
        return self.gr.low(self.form)

    @property
    def extra_parameters(self):
        return tuple(NAMES[(i + len(self.form)) % 4] for i in range(len(self.st)))

    def get_minimum_value(self, parameter):
        S = self.st[self.extra_parameters.index(parameter)]
        v = self.gr.least(lambda a: int(a in S))
        return sum(int(letter(s) in S) if s < 0 else v[s] for s in self.form)

    def get_parameters(self, obj):
        return tuple(sum(x in S for x in obj.w) for S in self.st)

    def true_terms(self, n):
        return Counter(tuple(sum(x in S for x in w) for S in self.st)
                       for _, w in self.gr.ders(self.form, n))

    def possible_parameters(self, n):
        for p in sorted(self.true_terms(n)):
            yield dict(zip(self.extra_parameters, p))

    def objects_of_size(self, n, **parameters):
        want = tuple(parameters[k] for k in self.extra_parameters) if parameters else None
        for d, w in self.gr.ders(self.form, n):
            o = D(d, w)
            if want is None or self.get_parameters(o) == want:
                yield o

    def split(self, obj):
        """The derivations of the single symbols."""
        i, res = 0, []
        for s in self.form:
            w, j = self.gr.parse(s, obj.d, i)
            res.append(D(obj.d[i:j], w))
            i = j
        return res

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(g=[[list(p) for p in ps] for ps in self.g], form=list(self.form),
                 st=list(self.st))
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["g"], d["form"], d["st"])

    def __eq__(self, o):
        return isinstance(o, G) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"G{self.key()!r}"

    def __str__(self):
        return "form " + "".join(letter(s) if s < 0 else f"<{s}>" for s in self.form) + (
            f" tracking {self.st}" if self.st else "")


def data(c):
    return {"g": c.g, "form": c.form, "st": [[ord(a) - 96 for a in S] for S in c.st],
            "w": True}


def cat(objs):
    return D(sum((o.d for o in objs), ()), "".join(o.w for o in objs))


# --- strategies -----------------------------------------------------------------
class Unfold(_Union):
    """Replace the first nonterminal by its productions.
    only: forms of one symbol; pad: empty children around (1 after, 2 before)."""
    DEFAULT = {"only": True, "rot": 0, "pad": 0, "tidy": False, "two": True, "eq": True}

    def prods(self, c):
        """Indices of the productions in the order of the children, None for padding."""
        k = len(c.g[next(s for s in c.form if s > 0) - 1])
        ps = rot(list(range(k)), self.o["rot"])
        return [None] * (self.o["pad"] // 2) + ps + [None] * (self.o["pad"] % 2)

    def decomposition_function(self, c):
        if c.is_empty() or c.just or (self.o["only"] and len(c.form) > 1):
            return None
        j = next(i for i, s in enumerate(c.form) if s > 0)
        ps = c.g[c.form[j] - 1]
        dead = c.make(form=(len(c.g),))
        return tuple(dead if i is None else
                     child(c, self.o["tidy"], form=c.form[:j] + ps[i] + c.form[j + 1:])
                     for i in self.prods(c))

    def forward_map(self, comb_class, obj, children=None):
        return tuple(D(obj.d[1:], obj.w) if i == obj.d[0] - 1 else None
                     for i in self.prods(comb_class))

    def backward_map(self, comb_class, objs, children=None):
        for i, o in zip(self.prods(comb_class), objs):
            if o is not None:
                yield D((i + 1,) + o.d, o.w)
                return


class Split(_Product):
    """Cut a form into pieces: all symbols, the first or the last one."""
    DEFAULT = {"how": "all", "swap": False, "tidy": False, "two": True}

    def cuts(self, c):
        n = len(c.form)
        if self.o["how"] == "first":
            return [(0, 1), (1, n)]
        if self.o["how"] == "last":
            return [(0, n - 1), (n - 1, n)]
        return [(i, i + 1) for i in range(n)]

    def decomposition_function(self, c):
        if len(c.form) < 2 or c.is_empty() or (c.just and self.o["how"] != "all"):
            return None
        ch = [child(c, self.o["tidy"], form=c.form[i:j]) for i, j in self.cuts(c)]
        return tuple(ch[::-1] if self.o["swap"] else ch)

    def forward_map(self, comb_class, obj, children=None):
        xs = comb_class.split(obj)
        res = [cat(xs[i:j]) for i, j in self.cuts(comb_class)]
        return tuple(res[::-1] if self.o["swap"] else res)

    def backward_map(self, comb_class, objs, children=None):
        yield cat(objs[::-1] if self.o["swap"] else objs)


class Sort(_Union):
    """The symbols in another order: an equivalence."""
    DEFAULT = {"up": True, "two": True, "eq": True, "pad": 0}

    def order(self, c):
        return sorted(range(len(c.form)), key=lambda i: c.form[i], reverse=not self.o["up"])

    def decomposition_function(self, c):
        f = tuple(c.form[i] for i in self.order(c))
        if f == c.form or c.is_empty():
            return None
        dead = c.make(form=(len(c.g),))
        return ((dead,) * (self.o["pad"] // 2) + (c.make(form=f),) + (dead,) * (self.o["pad"] % 2))

    def forward_map(self, comb_class, obj, children=None):
        xs = comb_class.split(obj)
        pad = self.o["pad"]
        return ((None,) * (pad // 2) + (cat([xs[i] for i in self.order(comb_class)]),)
                + (None,) * (pad % 2))

    def backward_map(self, comb_class, objs, children=None):
        o = next(x for x in objs if x is not None)
        order = self.order(comb_class)
        xs = comb_class.make(form=tuple(comb_class.form[i] for i in order)).split(o)
        res = [None] * len(xs)
        for i, x in zip(order, xs):
            res[i] = x
        yield cat(res)


class Flip(_Sym):
    """The form backwards: a symmetry."""
    DEFAULT = {"n": 0}

    def image(self, c):
        return c.make(form=c.form[::-1])

    def forward_map(self, comb_class, obj, children=None):
        return (cat(comb_class.split(obj)[::-1]),)

    def backward_map(self, comb_class, objs, children=None):
        yield cat(self.image(comb_class).split(objs[0])[::-1])


class Both(_Fac):
    """Several strategies at once."""
    DEFAULT = {"lazy": False}

    def __call__(self, c):
        yield Split(how="all")
        s = Unfold(only=True, rot=1)
        if s.decomposition_function(c):
            yield s(c) if self.o["lazy"] else s
        yield Split(how="first", swap=True)


class Up(_Fac):
    """Rules whose parent is another class: nonterminals unfolding to the form."""
    DEFAULT = {"rot": 0}

    def __call__(self, c):
        for i, ps in enumerate(c.g):
            if c.form in ps:
                u, p = Unfold(rot=self.o["rot"]), c.make(form=(i + 1,))
                if u.decomposition_function(p) is not None:
                    yield u(p)


class GVer(VerificationStrategy):
    """Verifies some nonterminals."""

    def __init__(self, sym=1, packname="", own=True, ignore_parent=True):
        self.sym, self.packname, self.own = sym, packname, own
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return comb_class.form == (self.sym,) and not comb_class.is_empty()

    def pack(self, comb_class):
        if not self.packname:
            raise InvalidOperationError("no pack")
        return PACKS[self.packname]()

    def get_specification(self, comb_class):
        key = (self.packname, comb_class)
        if key not in words.SPECS:
            words.SPECS[key] = super().get_specification(comb_class)
        return words.SPECS[key]

    def get_terms(self, comb_class, n):
        if not self.own:
            return super().get_terms(comb_class, n)
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        if not self.own:
            return super().get_objects(comb_class, n)
        res = defaultdict(list)
        for w in comb_class.objects_of_size(n):
            res[comb_class.get_parameters(w)].append(w)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        if not self.own:
            return super().random_sample_object_of_size(comb_class, n, **parameters)
        ws = list(comb_class.objects_of_size(n, **parameters))
        return ws[words.random.randrange(len(ws))]

    def get_genf(self, comb_class, funcs=None):
        if not self.own:
            return super().get_genf(comb_class, funcs)
        raise NotImplementedError("no series")

    def formal_step(self):
        return f"verified symbol {self.sym}"

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(sym=self.sym, packname=self.packname, own=self.own)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


def plain_pack(**kw):
    from comb_spec_searcher import StrategyPack
    return StrategyPack([Split()], [], [[Unfold(**kw)]], [AtomV()], name="plain grammar")


PACKS = {"plain": plain_pack, "rot": lambda: plain_pack(rot=1)}


# --- random grammars --------------------------------------------------------------
def rand_grammar(rng, nn=None, k=None, empty=0.12, eps=0.3, alias=0.35, size=40):
    """A proper grammar whose first nonterminal has an object, not too many small ones."""
    while True:
        n = nn or rng.choice([1, 1, 2, 2, 3])
        A = [-i - 1 for i in range(k or rng.choice([1, 1, 2]))]
        g = []
        for i in range(1, n + 1):
            ps = []
            if rng.random() > empty or i == 1:
                for _ in range(rng.choice([1, 2, 2, 2, 3])):
                    r = rng.random()
                    if r < eps * 0.5:
                        p = ()
                    elif r < 0.8 or i == n:
                        p = (rng.choice(A),) + tuple(
                            rng.choice(A + 2 * list(range(1, n + 1)))
                            for _ in range(rng.choice([0, 0, 1, 1, 2, 2])))
                    else:
                        p = tuple(rng.randrange(i + 1, n + 1)
                                  for _ in range(1 if rng.random() < alias else 2))
                    ps.append(p)
                if rng.random() < 0.85:
                    ps = list(dict.fromkeys(ps))
            g.append(tuple(ps))
        g = tuple(g) + ((),)
        gr = gram(g)
        if 1 not in gr.alive or gr.low((1,)) > 2:
            continue
        nums = []
        for m in range(6):
            nums.append(max(len(gr.ders((i,), m)) for i in gr.alive))
            if nums[-1] > size:
                break
        if nums[-1] <= size and sum(len(gr.ders((1,), m)) for m in range(6)) > 2:
            return g


def rand_pack(rng, vers=False, fac=True, sym=True, iterative=False, verpacks=("plain", "rot")):
    from comb_spec_searcher import StrategyPack
    b = rng.random
    tidy = b() < 0.4
    two = b() < 0.85
    main = [Unfold(rot=rng.choice([0, 0, 1]), pad=rng.choice([0, 0, 0, 1, 2, 3]), tidy=tidy,
                   only=b() < 0.75, two=two, eq=b() < 0.9)]
    if not main[0].o["only"] or b() < 0.85:
        main.append(Split(how=rng.choice(["all", "all", "first", "last"]), swap=b() < 0.3,
                          tidy=tidy, two=b() < 0.9))
    else:
        main = [Both(lazy=b() < 0.5)]
    if b() < 0.35:
        main.append(Sort(up=b() < 0.5, pad=rng.choice([0, 0, 1, 2, 3]), two=b() < 0.7,
                         eq=b() < 0.85))
    if fac and b() < 0.15:
        main.append(Up(rot=rng.choice([0, 1])))
    if fac and b() < 0.15:
        main.append(Both(lazy=b() < 0.5))
    rng.shuffle(main)
    init = []
    for s in list(main):
        if b() < 0.4 and len(main) > 1:
            main.remove(s)
            init.append(s)
    inferral = [Sort(up=b() < 0.5, possibly_empty=False, ignore_parent=b() < 0.5)] if b() < 0.15 else []
    ver = [AtomV()]
    if vers and b() < 0.5:
        pk = rng.choice(["", *verpacks])
        ver.append(GVer(rng.choice([1, 2, 2]), pk, own=not pk or b() < 0.7))
    syms = [Flip()] if sym and b() < 0.2 else []
    return StrategyPack(init, inferral, [main] if b() < 0.6 or len(main) < 2 else
                        [main[:1], main[1:]], ver, name="grammar", symmetries=syms,
                        iterative=iterative)


def rand_class(rng, stats=None, **kw):
    g = rand_grammar(rng, **kw)
    nst = rng.choice([0, 0, 1, 1, 2]) if stats is None else stats
    return G(g, (1,), [rng.choice(["a", "b", "ab", "c"]) for _ in range(nst)])
