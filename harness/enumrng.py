"""Exact distribution of a randomised computation: the decisions of the random
number generator are enumerated instead of drawn."""
import random
from fractions import Fraction


class TooManyLeaves(Exception):
    pass


class Outside(TooManyLeaves):
    """Randomness that cannot be enumerated."""


class Unit:
    """A number drawn from [0, 1) that is only used to choose one of k equal parts."""

    def __init__(self, en):
        self.en = en

    def __mul__(self, k):
        if k != int(k) or k <= 0:
            raise Outside()
        return self.en.randbelow(int(k)) + 0.5

    __rmul__ = __mul__

    def _no(self, *_):
        raise Outside()

    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __float__ = __truediv__ = __floordiv__ = __round__ = _no


class Enumerating:
    """Replaces random.Random._randbelow by a walk over the decision tree."""

    def __init__(self):
        self.path, self.pos, self.weight, self.draws = [], 0, Fraction(1), 0

    def randbelow(self, k):
        if k <= 0:
            raise ValueError("empty range")
        self.draws += 1
        if self.pos == len(self.path):
            self.path.append([0, k])
        c, kk = self.path[self.pos]
        if kk != k:
            raise RuntimeError("the computation is not a function of its random draws")
        self.pos += 1
        self.weight /= k
        return c

    def advance(self):
        while self.path:
            if self.path[-1][0] + 1 < self.path[-1][1]:
                self.path[-1][0] += 1
                return True
            self.path.pop()
        return False


def distribution(fn, cap=4000):
    """{outcome: probability} of fn(); outcomes must be hashable."""
    en = Enumerating()
    saved = {c: c.__dict__.get("_randbelow") for c in (random.Random, random.SystemRandom)}
    state, unit = random.getstate(), random.random
    res, leaves = {}, 0
    try:
        for c in saved:
            c._randbelow = lambda self, k: en.randbelow(k)
        random.random = random._inst.random = lambda: Unit(en)
        while True:
            en.pos, en.weight = 0, Fraction(1)
            out = fn()
            leaves += 1
            if leaves > cap:
                raise TooManyLeaves()
            res[out] = res.get(out, Fraction(0)) + en.weight
            del en.path[en.pos:]
            if not en.advance():
                break
        if random.getstate() != state:
            raise Outside("randomness drawn outside the enumerated source")
    finally:
        random.random = unit
        random._inst.__dict__.pop("random", None)
        for c, f in saved.items():
            if f is None:
                delattr(c, "_randbelow")
            else:
                c._randbelow = f
    return res, leaves
