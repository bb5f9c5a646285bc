"""Strategies of every kind the library offers, with the settings the library knows,
some generic: they can be created as K(...) and as K[C, O](...)."""
from typing import Generic, TypeVar

from comb_spec_searcher.strategies import (AtomStrategy, CartesianProductStrategy,
                                           DisjointUnionStrategy, EmptyStrategy, Strategy,
                                           StrategyFactory, SymmetryStrategy,
                                           VerificationStrategy)
from words import W, WB, Word

C = TypeVar("C")
O = TypeVar("O")
FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")


class _Basic:
    """The settings are those of the library alone."""

    def settings(self):
        return {f: getattr(self, "_" + f) for f in FLAGS}

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def formal_step(self):
        return type(self).__name__

    def decomposition_function(self, comb_class):
        return None

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def can_be_equivalent(self):
        return True

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children):
        return tuple(0 for _ in children)

    def constructor(self, comb_class, children=None):
        raise NotImplementedError

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError


class PlainUnion(_Basic, DisjointUnionStrategy[W, Word]):
    pass


class PlainProduct(_Basic, CartesianProductStrategy[W, Word]):
    pass


class PlainSym(_Basic, SymmetryStrategy[W, Word]):
    pass


class PlainStrategy(_Basic, Strategy[W, Word]):
    pass


class OtherUnion(_Basic, DisjointUnionStrategy[W, Word]):
    pass


class SubUnion(PlainUnion):
    pass


class GenUnion(_Basic, DisjointUnionStrategy[C, O]):
    pass


class GenProduct(_Basic, CartesianProductStrategy[C, O]):
    pass


class GenStrategy(_Basic, Strategy[C, O]):
    pass


class GenSet(_Basic, DisjointUnionStrategy[C, O], Generic[C, O]):
    """With settings of its own."""

    def __init__(self, letters="", opts=(), comb=None, **kw):
        self.o = {"letters": letters, "opts": list(opts), "comb": comb}
        super().__init__(**kw)

    def settings(self):
        return dict(super().settings(), **self.o)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(letters=self.o["letters"], opts=self.o["opts"],
                 comb=self.o["comb"] and self.o["comb"].to_jsonable())
        return d

    @classmethod
    def from_dict(cls, d):
        c = d.pop("comb")
        return cls(comb=W.from_dict(c) if c else None, **d)


class PlainVer(VerificationStrategy[W, Word]):
    def verified(self, comb_class):
        return comb_class.just if isinstance(comb_class, W) else False

    def formal_step(self):
        return "plain verification"

    def settings(self):
        return {"ignore_parent": self._ignore_parent}

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class GenVer(VerificationStrategy[C, O]):
    def verified(self, comb_class):
        return False

    def formal_step(self):
        return "generic verification"

    def settings(self):
        return {"ignore_parent": self._ignore_parent}

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class MyAtom(AtomStrategy):
    pass


class PlainFactory(StrategyFactory[W]):
    def __call__(self, comb_class):
        return iter(())

    def __str__(self):
        return "plain factory"

    def __repr__(self):
        return "PlainFactory()"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class GenFactory(StrategyFactory[C]):
    def __init__(self, k=0):
        self.k = k

    def settings(self):
        return {"k": self.k}

    def __call__(self, comb_class):
        yield PlainUnion(workable=bool(self.k))

    def __str__(self):
        return f"factory {self.k}"

    def __repr__(self):
        return f"GenFactory({self.k})"

    def to_jsonable(self):
        return dict(super().to_jsonable(), k=self.k)

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


GENERIC = {GenUnion: [GenUnion[W, Word], GenUnion[WB, Word]], GenProduct: [GenProduct[W, Word]],
           GenStrategy: [GenStrategy[W, Word]], GenSet: [GenSet[W, Word], GenSet[WB, str]],
           GenVer: [GenVer[W, Word]], GenFactory: [GenFactory[W], GenFactory[WB]],
           EmptyStrategy: [EmptyStrategy[W, Word]]}


def _flags(rng):
    return {f: rng.random() < 0.5 for f in FLAGS if rng.random() < 0.5}


def _maker(T):
    return lambda rng: T(**_flags(rng))


def _set(rng):
    return GenSet(rng.choice(["", "a", "ab"]), rng.choice([(), (1,), (1, 2)]),
                  rng.choice([None, W("ab"), W("ab", "a")]), **_flags(rng))


def _ver(T):
    return lambda rng: T(ignore_parent=rng.random() < 0.5) if rng.random() < 0.7 else T()


MAKERS = [*map(_maker, (PlainUnion, PlainProduct, PlainSym, PlainStrategy, OtherUnion, SubUnion,
                        GenUnion, GenProduct, GenStrategy)), _set, _set, _ver(PlainVer),
          _ver(GenVer), lambda rng: MyAtom(), lambda rng: AtomStrategy(),
          lambda rng: EmptyStrategy(), lambda rng: PlainFactory(),
          lambda rng: GenFactory(rng.randrange(3)), lambda rng: GenFactory[W](rng.randrange(3))]
