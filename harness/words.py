"""Word universes: languages given by an alphabet, a prefix, avoided factors and
tracked letter counts, with strategies of every documented shape.

A class is plain data, so the specification (Words.tla) can enumerate it by
brute force from the definition, independently of the library and of the finite
automata used here.
"""
import heapq
import random
from collections import Counter, defaultdict
from functools import lru_cache

import sympy

from comb_spec_searcher import CombinatorialClass, StrategyPack
from comb_spec_searcher.combinatorial_class import CombinatorialObject
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import (CartesianProductStrategy, DisjointUnionStrategy,
                                           StrategyFactory, SymmetryStrategy,
                                           VerificationStrategy)
from comb_spec_searcher.strategies.rule import Rule

NAMES = ("k", "l", "m", "p")


class Word(str, CombinatorialObject):
    def __len__(self):
        return str.__len__(self)

    def size(self):
        return str.__len__(self)


class Lang:
    """Deterministic automaton of a language, dead states removed."""

    def __init__(self, A, pre, pats, must):
        self.A, self.pats, self.must = A, pats, must
        self.m = max([len(p) for p in pats] + [1]) - 1
        self.pre = pre
        self.start = None
        self.trans, self.acc = {}, set()
        if any(p in pre for p in pats):
            return
        s = (self.tail(pre), bool(must) and must not in pre)
        todo, raw = [s], {}
        while todo:
            q = todo.pop()
            if q in raw:
                continue
            raw[q] = []
            for a in A:
                w = q[0] + a
                if any(w.endswith(p) for p in pats):
                    continue
                r = (self.tail(w), q[1] and a != must)
                raw[q].append((a, r))
                todo.append(r)
        live = {q for q in raw if not q[1]}
        change = True
        while change:
            change = False
            for q in raw:
                if q not in live and any(r in live for _, r in raw[q]):
                    live.add(q)
                    change = True
        if s in live:
            self.start = s
            self.trans = {q: [(a, r) for a, r in raw[q] if r in live] for q in live}
            self.acc = {q for q in live if not q[1]}
        self.cache = {}

    def tail(self, w):
        return w[len(w) - self.m:] if self.m and len(w) > self.m else (w if self.m else "")

    def empty(self):
        return self.start is None

    def words(self, n):
        if self.start is None or n < len(self.pre):
            return
        stack = [(self.pre, self.start)]
        while stack:
            w, q = stack.pop()
            if len(w) == n:
                if q in self.acc:
                    yield w
                continue
            for a, r in reversed(self.trans[q]):
                stack.append((w + a, r))

    def terms(self, n, st):
        """parameters -> number of words of size n."""
        if self.start is None or n < len(self.pre):
            return Counter()
        key = (st, n)
        if key in self.cache:
            return self.cache[key]
        base = tuple(sum(x in S for x in self.pre) for S in st)
        cur = {self.start: Counter({base: 1})}
        for _ in range(n - len(self.pre)):
            nxt = defaultdict(Counter)
            for q, c in cur.items():
                for a, r in self.trans[q]:
                    inc = tuple(a in S for S in st)
                    for p, k in c.items():
                        nxt[r][tuple(x + y for x, y in zip(p, inc))] += k
            cur = nxt
        res = Counter()
        for q, c in cur.items():
            if q in self.acc:
                res.update(c)
        self.cache[key] = res
        return res

    def least(self, weight):
        """Minimum over all words of the summed weights of the letters."""
        best = {self.start: 0}
        heap = [(0, 0, self.start)]
        cnt = 0
        while heap:
            d, _, q = heapq.heappop(heap)
            if d > best[q]:
                continue
            if q in self.acc:
                return d + sum(weight(a) for a in self.pre)
            for a, r in self.trans[q]:
                e = d + weight(a)
                if r not in best or e < best[r]:
                    best[r] = e
                    cnt += 1
                    heapq.heappush(heap, (e, cnt, r))
        raise ValueError("empty language")

    def single(self):
        """Does the language consist of one word?"""
        if self.start is None:
            return False
        q, seen = self.start, set()
        found = 0
        while True:
            if q in seen:
                return False
            seen.add(q)
            found += q in self.acc
            out = self.trans[q]
            if not out:
                return found == 1
            if len(out) > 1:
                return False
            if q in self.acc:
                return False
            q = out[0][1]


@lru_cache(None)
def lang(A, pre, pats, must):
    return Lang(A, pre, pats, must)


class W(CombinatorialClass):
    """Words over A starting with pre, avoiding the factors pats, containing the
    letter must (if any); only the word pre itself if just.  st are the sets of
    letters whose numbers of occurrences are tracked."""

    def __init__(self, A, pre="", pats=(), just=False, must="", st=()):
        self.A = "".join(sorted(A))
        self.pre = str(pre)
        self.pats = tuple(sorted(pats))
        self.just = bool(just)
        self.must = "" if must and must in self.pre else must
        st = sorted("".join(sorted(S)) for S in st)
        # the order of the statistics depends on the class
        self.st = tuple(st[::-1] if (len(self.pre) + self.just) % 2 else st)

    def make(self, **kw):
        d = dict(A=self.A, pre=self.pre, pats=self.pats, just=self.just, must=self.must,
                 st=self.st)
        d.update(kw)
        return type(self)(**d)

    def key(self):
        return (self.A, self.pre, self.pats, self.just, self.must, self.st)

    @property
    def lang(self):
        if self.just:
            return lang("", self.pre, self.pats, self.must)
        return lang(self.A, self.pre, self.pats, self.must)

    def is_empty(self):
        return self.lang.empty()

    def is_atom(self):
        return self.lang.single()

    def minimum_size_of_object(self):
        return self.lang.least(lambda a: 1)

    @property
    def extra_parameters(self):
        rot = len(self.pre) + len(self.pats) + 2 * bool(self.must) + len(self.A)
        return tuple(NAMES[(i + rot) % 4] for i in range(len(self.st)))

    def get_minimum_value(self, parameter):
        S = self.st[self.extra_parameters.index(parameter)]
        return self.lang.least(lambda a: int(a in S))

    def possible_parameters(self, n):
        for p in sorted(self.lang.terms(n, self.st)):
            yield dict(zip(self.extra_parameters, p))

    def get_parameters(self, obj):
        return tuple(sum(x in S for x in obj) for S in self.st)

    def objects_of_size(self, n, **parameters):
        want = tuple(parameters[k] for k in self.extra_parameters) if parameters else None
        for w in self.lang.words(n):
            if want is None or self.get_parameters(w) == want:
                yield Word(w)

    def true_terms(self, n):
        return Counter(self.lang.terms(n, self.st))

    def contains(self, w):
        if self.just:
            ok = w == self.pre
        else:
            ok = w.startswith(self.pre) and all(a in self.A for a in w[len(self.pre):])
        return ok and (not self.must or self.must in w) and not any(p in w for p in self.pats)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(A=self.A, pre=self.pre, pats=list(self.pats), just=self.just,
                 must=self.must, st=list(self.st))
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["A"], d["pre"], d["pats"], d["just"], d["must"], d["st"])

    def __eq__(self, o):
        return isinstance(o, W) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{type(self).__name__}{self.key()!r}"

    def __str__(self):
        s = f"the word {self.pre!r}" if self.just else f"words over {self.A} from {self.pre!r}"
        return s + f" avoiding {self.pats}" + (f" with a {self.must}" if self.must else "") + (
            f" tracking {self.st}" if self.st else "")


class WB(W):
    """The same with byte compression."""

    def to_bytes(self):
        return "|".join([self.A, self.pre, ",".join(self.pats), str(int(self.just)),
                         self.must, ",".join("." + S for S in self.st)]).encode()

    @classmethod
    def from_bytes(cls, b):
        A, pre, pats, just, must, st = b.decode().split("|")
        return cls(A, pre, [p for p in pats.split(",") if p], just == "1", must,
                   [S[1:] for S in st.split(",") if S])


def data(c):
    """A class as data for the specification."""
    L = lambda w: [ord(a) - 96 for a in w]
    return {"a": L(c.A) if not c.just else [], "pre": L(c.pre), "pats": [L(p) for p in c.pats],
            "must": ord(c.must) - 96 if c.must else 0, "st": [L(S) for S in c.st],
            "nv": len(c.st)}


# --- statistics of children ---------------------------------------------------
def child(parent, tidy=False, **kw):
    """The child of a class; tidy drops statistics that vanish on it and merges
    those that agree on it because it is a single word."""
    c = parent.make(**kw)
    if not tidy or not c.st:
        return c
    st = []
    for S in c.st:
        if c.just:
            v = sum(x in S for x in c.pre)
            if v and all(sum(x in R for x in c.pre) != v for R in st):
                st.append(S)
        elif any(x in S for x in c.A + c.pre):
            st.append(S)
    return c.make(st=st)


def stat_map(parent, c, f=lambda S: S):
    """parent statistic -> child statistic; unmapped ones vanish on the child."""
    res, used = {}, Counter()
    for name, S in zip(parent.extra_parameters, parent.st):
        T = "".join(sorted(f(S)))
        opts = [i for i, R in enumerate(c.st) if R == T]
        if not opts and c.just:
            v = sum(x in T for x in c.pre)
            opts = [i for i, R in enumerate(c.st) if sum(x in R for x in c.pre) == v] if v else []
        if not opts:  # equal on the letters that occur
            pool = set(c.A + c.pre)
            T2 = set(T) & pool
            opts = [i for i, R in enumerate(c.st) if set(R) & pool == T2] if T2 else []
        if opts:
            i = opts[used[T] % len(opts)]
            used[T] += 1
            res[name] = c.extra_parameters[i]
    return res


# --- strategies ---------------------------------------------------------------
class _Opt:
    """Strategies with settings; every setting takes part in equality."""
    DEFAULT = {}
    FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")

    def __init__(self, **kw):
        flags = {f: kw.pop(f) for f in self.FLAGS if f in kw}
        self.o = dict(self.DEFAULT, **kw)
        assert set(self.o) == set(self.DEFAULT), kw
        super().__init__(**flags)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(self.o)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def formal_step(self):
        return f"{type(self).__name__.lower()} {sorted(self.o.items())}"

    def __repr__(self):
        return f"{type(self).__name__}({self.o!r})"

    def __str__(self):
        return self.formal_step()

    def can_be_equivalent(self):
        return self.o.get("eq", True)

    def is_two_way(self, comb_class):
        return self.o.get("two", True)

    def is_reversible(self, comb_class):
        return self.o.get("two", True)


def rot(xs, k):
    k %= max(1, len(xs))
    return xs[k:] + xs[:k]


class _Union(_Opt, DisjointUnionStrategy):
    def locate(self, children, w):
        for i, c in enumerate(children):
            if c.contains(w):
                return i
        raise AssertionError("object in no child")

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        i = self.locate(children, obj)
        return tuple(obj if j == i else None for j in range(len(children)))

    def stat(self, comb_class, S):
        return S

    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply
        return tuple(stat_map(comb_class, c, lambda S: self.stat(comb_class, S))
                     for c in children)


class Expand(_Union):
    """Just the prefix, or the prefix and one more letter."""
    DEFAULT = {"drop": False, "rot": 0, "tidy": False, "two": True, "eq": True}

    def decomposition_function(self, c):
        if c.just or c.is_empty():
            return None
        ch = [child(c, self.o["tidy"], just=True)]
        ch += [child(c, pre=c.pre + a) for a in c.A]
        ch = rot(ch, self.o["rot"])
        if self.o["drop"]:
            ch = [x for x in ch if not x.is_empty()]
        return tuple(ch)


class SplitFree(_Union):
    """A letter in no pattern occurs, or does not."""
    DEFAULT = {"rot": 0, "tidy": False, "two": True}

    @staticmethod
    def letter(c):
        free = [z for z in c.A if z not in c.pre and not any(z in p for p in c.pats)]
        return max(free) if free and len(c.A) >= 2 else None

    def decomposition_function(self, c):
        z = self.letter(c)
        if c.just or c.must or not z or c.is_empty():
            return None
        t = self.o["tidy"]
        return tuple(rot([child(c, t, A=c.A.replace(z, "")), child(c, must=z)], self.o["rot"]))


class Identity(_Union):
    """Base of strategies with one child, the same language presented otherwise.
    pad: empty children around it (1 after, 2 before, 3 both)."""
    DEFAULT = {"two": True, "eq": True, "pad": 0}

    def nothing(self, c, which):
        """An empty class."""
        z = c.A[:1] or c.pre[:1] or "a"
        return c.make(pats=[*c.pats, c.pre] if c.pre else [*c.pats, z * (2 + which)],
                      pre=c.pre or z * (3 + which), just=False)

    def decomposition_function(self, c):
        if c.is_empty():
            return None
        r = self.image(c)
        if r == c:
            return None
        pad = self.o["pad"]
        return (*[self.nothing(c, 0)] * (pad // 2), r, *[self.nothing(c, 1)] * (pad % 2))

    def forward_map(self, comb_class, obj, children=None):
        pad = self.o["pad"]
        return (*[None] * (pad // 2), obj, *[None] * (pad % 2))


class TidyPats(Identity):
    """Remove patterns that cannot matter, letters that cannot occur."""

    def image(self, c):
        pats = [p for p in c.pats
                if not any(q != p and q in p for q in c.pats)
                and all(a in c.A + c.pre for a in p)]
        A = c.A
        for p in pats:
            if len(p) == 1 and p in A:
                A = A.replace(p, "")
        pats = [p for p in pats if all(a in A + c.pre for a in p)]
        if c.just:
            A, pats = c.A, []
        return c.make(A=A, pats=pats)


class TidyStats(Identity):
    """Drop statistics that vanish, merge those that agree."""

    def image(self, c):
        pool = set(c.pre if c.just else c.A + c.pre)
        st = []
        for S in c.st:
            T = set(S) & pool
            if T and all(set(R) & pool != T for R in st):
                st.append(S)
        return c if len(st) == len(c.st) else c.make(st=st)


class Forced(Identity):
    """Extend the prefix by the letter that must follow."""

    def image(self, c):
        if c.just or c.lang.start is None or c.lang.start in c.lang.acc:
            return c
        out = c.lang.trans[c.lang.start]
        return c.make(pre=c.pre + out[0][0]) if len(out) == 1 else c


class _Sym(_Opt, SymmetryStrategy):
    def decomposition_function(self, c):
        r = self.image(c)
        return None if r is None or r == c else (r,)

    def stat(self, S):
        return S

    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply
        return (stat_map(comb_class, children[0], self.stat),)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(self.go(obj)),)

    def backward_map(self, comb_class, objs, children=None):
        yield Word(self.back(objs[0]))


class Perm(_Sym):
    """Rename the letters, and possibly read the words backwards."""
    DEFAULT = {"to": "ba", "rev": False}

    def turn(self, w):
        return w[::-1] if self.o["rev"] else w

    def ren(self, w):
        return w.translate(str.maketrans("abc"[:len(self.o["to"])], self.o["to"]))

    def go(self, w):
        return self.turn(self.ren(w))

    def back(self, w):
        return self.turn(w.translate(str.maketrans(self.o["to"], "abc"[:len(self.o["to"])])))

    def stat(self, S):
        return self.ren(S)

    def image(self, c):
        if self.o["rev"] and c.pre and not c.just:
            return None
        g = self.ren
        return c.make(A=g(c.A), pre=self.go(c.pre), pats=[self.go(p) for p in c.pats],
                      must=g(c.must), st=[g(S) for S in c.st])


class _Product(_Opt, CartesianProductStrategy):
    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply
        return tuple(stat_map(comb_class, c) for c in children)


class Front(_Product):
    """Factor out letters of the prefix no occurrence of a pattern can use.
    how: all | one | split (two atoms), swap: the atom(s) come last."""
    DEFAULT = {"how": "all", "swap": False, "tidy": False, "bare": False, "two": True,
               "eq": True}

    @staticmethod
    def safe(c):
        k = 0
        for i in range(len(c.pre)):
            s = c.pre[i:]
            if any(len(p) > len(s) and p.startswith(s) for p in c.pats):
                break
            k = i + 1
        return k

    def pieces(self, c):
        k = self.safe(c)
        if c.just or k == 0 or c.is_empty():
            return None
        if self.o["how"] == "one":
            return [c.pre[:1]]
        if self.o["how"] == "split" and k >= 2:
            return [c.pre[:1], c.pre[1:k]]
        return [c.pre[:k]]

    def decomposition_function(self, c):
        ps = self.pieces(c)
        if ps is None:
            return None
        bare = {"A": "", "pats": ()} if self.o["bare"] else {}
        ch = [child(c, self.o["tidy"], pre=p, just=True, must="", **bare) for p in ps]
        ch.append(child(c, pre=c.pre[sum(map(len, ps)):]))
        return tuple(ch[::-1] if self.o["swap"] else ch)

    def forward_map(self, comb_class, obj, children=None):
        ps = self.pieces(comb_class)
        k = sum(map(len, ps))
        res = [Word(p) for p in ps] + [Word(obj[k:])]
        return tuple(res[::-1] if self.o["swap"] else res)

    def backward_map(self, comb_class, objs, children=None):
        yield Word("".join(objs[::-1] if self.o["swap"] else objs))


class MustSplit(_Product):
    """Words with a free letter: cut at its first occurrence."""
    DEFAULT = {"order": "012", "tidy": False, "two": True}

    def decomposition_function(self, c):
        z = c.must
        if c.just or not z or any(z in p for p in c.pats) or c.is_empty():
            return None
        t = self.o["tidy"]
        parts = [child(c, t, A=c.A.replace(z, ""), must=""),
                 child(c, t, pre=z, just=True, must=""),
                 child(c, pre="", must="")]
        return tuple(parts[int(i)] for i in self.o["order"])

    def forward_map(self, comb_class, obj, children=None):
        i = obj.index(comb_class.must)
        parts = [Word(obj[:i]), Word(obj[i]), Word(obj[i + 1:])]
        return tuple(parts[int(j)] for j in self.o["order"])

    def backward_map(self, comb_class, objs, children=None):
        parts = {int(j): o for j, o in zip(self.o["order"], objs)}
        yield Word(parts[0] + parts[1] + parts[2])


class _Fac(StrategyFactory):
    DEFAULT = {}

    def __init__(self, **kw):
        self.o = dict(self.DEFAULT, **kw)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(self.o)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __str__(self):
        return f"{type(self).__name__.lower()} {sorted(self.o.items())}"

    def __repr__(self):
        return f"{type(self).__name__}({self.o!r})"


class Family(_Fac):
    """Several strategies at once, some as strategies, some as rules."""
    DEFAULT = {"lazy": False}

    def __call__(self, c):
        yield Front(how="one")
        if self.o["lazy"]:
            yield Rule(Front(how="split", swap=True), c)
        s = Expand(drop=True, rot=1)
        if s.decomposition_function(c):
            yield s(c)
        yield MustSplit(order="210")


class Above(_Fac):
    """Rules whose parent is another class: the class is one of the children."""
    DEFAULT = {"what": "free"}

    def __call__(self, c):
        if c.just or c.is_empty():
            return
        up = []
        if self.o["what"] == "free":
            if c.must:
                p = c.make(must="")
                if SplitFree.letter(p) == c.must:
                    up.append(SplitFree()(p))
        elif self.o["what"] == "front":
            if not c.pre:
                for a in c.A[:1]:
                    p = c.make(pre=a)
                    s = Front(how="one")
                    ch = s.decomposition_function(p)
                    if ch and c in ch:
                        up.append(s(p, ch))
        elif c.pre and not c.must:
            p = c.make(pre=c.pre[:-1])
            if not p.is_empty():
                up.append(Expand(rot=1)(p))
        yield from up


# --- verification ---------------------------------------------------------------
class AtomV(VerificationStrategy):
    """Verifies the classes of one word, with statistics."""

    def __init__(self):
        super().__init__(ignore_parent=True)

    def verified(self, comb_class):
        return comb_class.is_atom()

    def get_terms(self, comb_class, n):
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        res = defaultdict(list)
        for w in comb_class.objects_of_size(n):
            res[comb_class.get_parameters(w)].append(w)
        return res

    def get_genf(self, comb_class, funcs=None):
        if not self.verified(comb_class):
            raise StrategyDoesNotApply
        n = comb_class.minimum_size_of_object()
        w = next(comb_class.objects_of_size(n))
        g = sympy.var("x") ** n
        for k, v in zip(comb_class.extra_parameters, comb_class.get_parameters(w)):
            g *= sympy.var(k) ** v
        return g

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        return next(comb_class.objects_of_size(n, **parameters))

    def formal_step(self):
        return "is a word"

    def to_jsonable(self):
        d = super().to_jsonable()
        d.pop("ignore_parent")
        return d

    @classmethod
    def from_dict(cls, d):
        return cls()


PRED = {
    "one": lambda c: len(c.A) <= 1 and not c.just,
    "nopats": lambda c: not c.pats and not c.just,
    "prefix2": lambda c: len(c.pre) >= 2 and not c.just,
    "prefix1": lambda c: len(c.pre) >= 1 and not c.just,
    "nopre": lambda c: not c.pre and not c.must,
    "nopre2": lambda c: not c.pre and len(c.A) <= 2 and not c.just,
    "must": lambda c: bool(c.must) and not c.just,
    "b": lambda c: c.pre.startswith("b") and not c.just,
    "full": lambda c: not c.must and not c.just and len(c.A) == 3 and not c.pre,
    "a": lambda c: c.pre.startswith("a") and not c.just,
    "nopre3": lambda c: len(c.A) == 3 and not c.pre and not c.must,
    "any": lambda c: True,
}


SPECS: dict = {}


class Ver(VerificationStrategy):
    """Verifies the classes satisfying a predicate.  With a pack it says how to
    expand them; with own it counts, generates, samples and has equations itself."""

    def __init__(self, pred="one", pack="", own=True, ignore_parent=True):
        self.pred, self.packname, self.own = pred, pack, own
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return bool(PRED[self.pred](comb_class)) and not comb_class.is_empty()

    def pack(self, comb_class):
        if not self.packname:
            raise InvalidOperationError("no pack")
        return PACKS[self.packname]()

    def get_specification(self, comb_class):
        """One specification per class: a search may choose another one every time."""
        key = (self.pred, self.packname, comb_class)
        if key not in SPECS:
            SPECS[key] = super().get_specification(comb_class)
        return SPECS[key]

    def get_terms(self, comb_class, n):
        if not self.own:
            return super().get_terms(comb_class, n)
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        if not self.own:
            return super().get_objects(comb_class, n)
        res = defaultdict(list)
        for w in comb_class.objects_of_size(n):
            res[comb_class.get_parameters(w)].append(w)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        if not self.own:
            return super().random_sample_object_of_size(comb_class, n, **parameters)
        ws = list(comb_class.objects_of_size(n, **parameters))
        return ws[random.randrange(len(ws))]

    def get_genf(self, comb_class, funcs=None):
        if not self.own:
            return super().get_genf(comb_class, funcs)
        return genf(comb_class)

    def formal_step(self):
        return f"verified because {self.pred}"

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(pred=self.pred, pack=self.packname, own=self.own)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


@lru_cache(None)
def _genf(A, pre, pats, must, st, names):
    L = lang(A, pre, pats, must)
    x = sympy.var("x")
    ks = [sympy.var(k) for k in names]

    def mark(a):
        m = x
        for k, S in zip(ks, st):
            if a in S:
                m *= k
        return m
    if L.empty():
        return sympy.Integer(0)
    qs = sorted(L.trans)
    ix = {q: i for i, q in enumerate(qs)}
    M = sympy.eye(len(qs))
    b = sympy.zeros(len(qs), 1)
    for q in qs:
        b[ix[q]] = int(q in L.acc)
        for a, r in L.trans[q]:
            M[ix[q], ix[r]] -= mark(a)
    F = M.LUsolve(b)[ix[L.start]]
    g = sympy.Integer(1)
    for a in pre:
        g *= mark(a)
    return sympy.cancel(sympy.together(g * F))


def genf(c):
    return _genf("" if c.just else c.A, c.pre, c.pats, c.must, c.st, c.extra_parameters)


def base_pack(name="base", ver=(), expand=None, front=None, extra=(), **kw):
    return StrategyPack(initial_strats=[front or Front()], inferral_strats=kw.pop("inferral", []),
                        expansion_strats=[[*extra, expand or Expand()]],
                        ver_strats=[AtomV(), *ver], name=name, **kw)


PACKS = {
    "base": base_pack,
    "nested": lambda: base_pack("nested", ver=[Ver("one", "base")]),
    "nested2": lambda: base_pack("nested2", ver=[Ver("prefix2", "base", own=False)],
                                 front=Front(how="one", swap=True)),
    "must": lambda: StrategyPack([MustSplit(), SplitFree()], [], [[Front(), Expand(drop=True)]],
                                 [AtomV(), Ver("one")], name="must"),
    # the class is only reached from above: needs a reverse rule
    "above": lambda: StrategyPack([], [], [[Above(what="free"), MustSplit()]],
                                  [AtomV(), Ver("full")], name="above"),
}
