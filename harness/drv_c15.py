"""C15: histories of ClassDB replayed / recorded and judged by ClassDBTrace."""
import json
import random
from typing import Iterator

from common import CaseTimeout, err, limit
from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.class_db import ClassDB


class Base(CombinatorialClass):
    """Class number i; odd numbers are empty."""

    def __init__(self, i):
        self.i = i
        self.asked = 0

    def is_empty(self) -> bool:
        self.asked += 1
        return self.i % 2 == 1

    def to_jsonable(self):
        return {"i": self.i}

    @classmethod
    def from_dict(cls, d):
        return cls(d["i"])

    def __eq__(self, other):
        if not isinstance(other, Base):
            return NotImplemented
        return self.i == other.i

    def __hash__(self):
        return hash(self.i % 3)  # collisions on purpose

    def __repr__(self):
        return f"{type(self).__name__}({self.i})"

    def __str__(self):
        return repr(self)


class Plain(Base):
    pass


class Bytes(Base):
    def to_bytes(self):
        return self.i.to_bytes(4, "big") * 5

    @classmethod
    def from_bytes(cls, b):
        return cls(int.from_bytes(b[:4], "big"))


class Text(Base):
    """Bytes of varying length, some a prefix of others."""

    def to_bytes(self):
        return b"x" * self.i

    @classmethod
    def from_bytes(cls, b):
        return cls(len(b))


class SubPlain(Plain):
    """A subclass stored in a database declared for its parent class."""


OTHERS = [None, "0", (0,), 2.5, b"x", frozenset(), object(), Plain, [0], {}]


def run_case(kind, ops):
    cls = {"plain": Plain, "bytes": Bytes, "text": Text, "sub": Plain}[kind]
    mk = SubPlain if kind == "sub" else cls
    db = ClassDB(cls)
    ev = []
    labels = {}
    for op, a in ops:
        try:
            with limit(30):
                if op == "label":
                    r = ["label", db.get_label(mk(a))]
                    labels[a] = r[1]
                elif op == "class":
                    c = db.get_class(a)
                    r = ["class", [i for i in range(40) if cls(i) == c]
                         if isinstance(c, cls) else [-1]]
                elif op == "labell":
                    r = ["label", db.get_label(a)]
                elif op == "inc":
                    r = ["bool", mk(a) in db]
                elif op == "inl":
                    r = ["bool", a in db]
                elif op == "ino":
                    r = ["bool", OTHERS[a % len(OTHERS)] in db]
                elif op == "iter":
                    r = ["labels", list(db)]
                elif op == "empty":
                    r = ["bool", db.is_empty(mk(a))]
                elif op == "emptyl":
                    # as the searcher does: with a known label when there is one
                    if a in labels:
                        r = ["bool", db.is_empty(mk(a), labels[a])]
                    else:
                        r = ["bool", db.is_empty(mk(a))]
        except CaseTimeout:
            r = ["exc", "hang"]
        except Exception as e:  # an observation
            r = ["exc", err(e)]
        try:
            n = len(list(db))
        except Exception as e:
            n = -1
        ev.append({"op": op, "a": a, "r": r, "n": n})
        if r[0] == "bool" and not isinstance(r[1], bool):
            ev[-1]["r"] = ["notbool", str(r[1])]
    return {"kind": kind, "empties": [i for i in range(1, 40, 2)], "ev": ev}


def rand_ops(rng, n, nc):
    ops = []
    for _ in range(n):
        op = rng.choice(["label"] * 4 + ["class", "labell", "inc", "inl", "ino",
                                         "empty", "emptyl", "iter"])
        if op in ("class", "labell", "inl"):
            a = rng.choice([-nc, -2, -1, 0, 1, 2, nc, nc * 2, 10**6]
                           + list(range(nc)))
        elif op == "ino":
            a = rng.randrange(len(OTHERS))
        else:
            a = rng.randrange(nc)
        ops.append((op, a))
    return ops


def run(chk):
    chk.design("ClassDB.tla", "ClassDBMC.cfg")
    gen = chk.generate("ClassDBGen.tla", "ClassDBGen.cfg")
    rng = random.Random(chk.seed)
    kinds = ["plain", "bytes", "text", "sub"]
    cases = []
    rng.shuffle(gen)
    for i, h in enumerate(gen[: 6000 if chk.quick else len(gen)]):
        cases.append(run_case(kinds[i % 4], [tuple(x) for x in h]))
    for i in range(300 if chk.quick else 5000):
        nc = rng.choice([2, 5, 12, 30])
        cases.append(run_case(kinds[i % 4], rand_ops(rng, rng.choice([10, 30, 80]), nc)))
    chk.extra["generated_behaviours"] = len(gen)
    chk.judge("ClassDBTrace", cases, cfg="Trace.cfg", batch=3000)
