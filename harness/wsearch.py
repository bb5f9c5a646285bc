"""Random searches over word universes, with a controlled clock."""
import random
import time as _time
from types import SimpleNamespace

import logzero

import comb_spec_searcher.comb_spec_searcher as css_mod
import comb_spec_searcher.tree_searcher as tree_mod
import comb_spec_searcher.rule_db.base as base_mod
import grammar
import drv_c04  # noqa: F401  (silences the slow status output)
from common import CaseTimeout, errs, limit
from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import ExceededMaxtimeError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from words import (PACKS, Above, AtomV, Expand, Family, Forced, Front, MustSplit, Perm, SplitFree,
                   TidyPats, TidyStats, Ver, W, WB)

logzero.loglevel(100, True)


class Clock:
    """time.time() replaced: every reading advances by a chosen amount."""

    def __init__(self, rng, steps=(0.0,), most=1500):
        self.most = most
        self.rng, self.steps, self.now, self.reads = rng, steps, 1000.0, 0

    def time(self):
        self.reads += 1
        self.now += self.rng.choice(self.steps) if self.reads < self.most else 1e7
        return self.now

    def __getattr__(self, name):
        return getattr(_time, name)

    def __enter__(self):
        self.saved = [(m, getattr(m, "time")) for m in (css_mod, tree_mod, base_mod)
                      if hasattr(m, "time")]
        for m, t in self.saved:
            setattr(m, "time", self if not callable(t) else self.time)
        return self

    def __exit__(self, *exc):
        for m, t in self.saved:
            setattr(m, "time", t)
        return False


CLOCKS = {"slow": (0.0001,), "fast": (0.004, 0.0, 0.05), "wild": (0.0, 0.0005, 0.02, 0.2),
          "step": (0.001, 0.003)}

PATS = ["a", "b", "aa", "ab", "ba", "bb", "aba", "abb", "bab", "aab", "bba", "aaa", "baab", "abab"]
PATS3 = ["a", "ab", "ba", "ac", "cb", "aa", "bc", "abc", "aca", "cc"]
SETS = ["a", "b", "ab", "c", ""]


def rand_start(rng, stats=None, cls=None):
    k = rng.choice([1, 2, 2, 2, 2, 3])
    A = "abc"[:k]
    pool = [p for p in (PATS if k < 3 else PATS3) if all(x in A for x in p)]
    pats = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2, 2, 3])))
    pre = "".join(rng.choice(A) for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 3])))
    nst = rng.choice([0, 0, 1, 1, 2, 3]) if stats is None else stats
    st = [rng.choice(SETS[:3 if k < 3 else 4] + (["" if rng.random() < 0.3 else "a"]))
          for _ in range(nst)]
    if rng.random() < 0.5:
        st = list(dict.fromkeys(st))
    must = ""
    if rng.random() < 0.12 and k > 1:
        must = A[-1]
    cls = cls or rng.choice([W, W, WB])
    return cls(A, pre, pats, False, must, st)


def rand_pack(rng, vers=True, sym=True, iterative=None, verpacks=("base", "nested", "nested2", "must")):
    b = rng.random
    tidy = b() < 0.5
    front = Front(how=rng.choice(["all", "all", "one", "split"]), swap=b() < 0.4, tidy=tidy,
                  bare=b() < 0.3, two=b() < 0.85)
    expand = Expand(drop=b() < 0.4, rot=rng.choice([0, 0, 1, 2]), tidy=tidy,
                    two=b() < 0.8, eq=b() < 0.85)
    initial, exps = [], [expand]
    (initial if b() < 0.8 else exps).insert(0, front)
    if b() < 0.35:
        exps.append(SplitFree(rot=rng.choice([0, 1]), tidy=b() < 0.5))
        (initial if b() < 0.5 else exps).append(
            MustSplit(order=rng.choice(["012", "210", "102"]), tidy=b() < 0.5))
    if b() < 0.25:
        exps.append(Family(lazy=b() < 0.5))
    if b() < 0.3:
        exps.append(Above(what=rng.choice(["free", "front", "expand"])))
    for S in (TidyPats, TidyStats, Forced):
        if b() < 0.2:
            (initial if b() < 0.5 else exps).append(
                S(pad=rng.choice([0, 1, 2, 3]), two=b() < 0.6, eq=b() < 0.8,
                  ignore_parent=b() < 0.3))
    rng.shuffle(exps)
    inferral = []
    if b() < 0.35:
        inferral.append(TidyPats(possibly_empty=False, ignore_parent=b() < 0.5))
    if b() < 0.35:
        inferral.append(TidyStats(possibly_empty=False, ignore_parent=b() < 0.5))
    rng.shuffle(inferral)
    ver = [AtomV()]
    if vers and b() < 0.45:
        for p in rng.sample(["one", "nopats", "prefix2", "prefix1", "must", "b", "nopre2"],
                            rng.choice([1, 1, 2])):
            pk = rng.choice(["", *verpacks])
            ver.append(Ver(p, pk, own=not pk or b() < 0.7, ignore_parent=b() < 0.7))
    rng.shuffle(ver)
    syms = []
    if sym and b() < 0.35:
        syms = rng.choice([[Perm(to="ba")], [Perm(to="", rev=True)], [Perm(to="bca"), Perm(to="cab")],
                           [Perm(to="ba"), Perm(to="", rev=True), Perm(to="ba", rev=True)]])
    exp_sets = [exps] if b() < 0.6 or len(exps) < 2 else [exps[:1], exps[1:]]
    return StrategyPack(initial, inferral, exp_sets, ver, name="rand", symmetries=syms,
                        iterative=(b() < 0.15) if iterative is None else iterative)


def needs_reverse_pack(rng):
    """Universes where some class can only be counted by a reverse rule."""
    r = rng.random()
    front = Front(how="one", swap=rng.random() < 0.5, tidy=rng.random() < 0.5)
    if r < 0.35:
        return StrategyPack([MustSplit(order=rng.choice(["012", "201"]), ignore_parent=False)], [],
                            [[Above(what="free")]],
                            [AtomV(), Ver(rng.choice(["full", "nopre3"]))], name="rev1")
    if r < 0.7:
        return StrategyPack([Above(what="front")], [],
                            [[Expand(workable=False, tidy=rng.random() < 0.5)]],
                            [AtomV(), Ver("a")], name="rev2")
    return StrategyPack([Above(what="expand")],
                        [TidyStats(possibly_empty=False)] if rng.random() < 0.5 else [],
                        [[front]], [AtomV(), Ver("nopre")], name="rev3")


DBS = {"base": RuleDB, "forget": RuleDBForgetStrategy,
       "forest": lambda: RuleDBForest(reverse=True),
       "forestf": lambda: RuleDBForest(reverse=False)}


def rand_config(rng, **kw):
    db = rng.choice(["base", "base", "forget", "forest", "forest", "forestf"])
    if kw.pop("plain", False):
        db = rng.choice(["base", "forget", "forest"])
    if db.startswith("forest"):
        kw.setdefault("iterative", False)
    stats = kw.pop("stats", None)
    rev = kw.pop("rev", 0.35)
    rev = db == "forest" and rng.random() < rev
    pack = needs_reverse_pack(rng) if rev else rand_pack(rng, **kw)
    if rev:
        k = rng.choice([2, 3])
        start = rand_start(rng, stats)
        if pack.name == "rev1":
            k = 3
        first = {"rev1": "ab", "rev2": "bc", "rev3": "b"}[pack.name]
        pool = [x for x in PATS + PATS3 if len(x) > 1 and x[0] in first
                and all(z in "abc"[:k] and (z != "c" or pack.name != "rev1") for z in x)]
        pats = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
        if pack.name == "rev2" and rng.random() < 0.2:
            pats.append("a" if k == 3 else "bb")
        start = start.make(A="abc"[:k], must="c" if pack.name == "rev1" else "",
                           pre={"rev1": "", "rev2": "", "rev3": "b"}[pack.name], pats=pats)
    else:
        start = rand_start(rng, stats)
    smallest = not pack.iterative and rng.random() < 0.3
    return SimpleNamespace(start=start, pack=pack, db=db, smallest=smallest,
                           expand_verified=rng.random() < 0.2, seed=rng.randrange(10**6),
                           clock=rng.choice(sorted(CLOCKS)), perc=rng.choice([1, 20, 100]))


def webbed(rng, start):
    """The same with aliases, aliases of aliases and copies of nonterminals."""
    import pairs
    if rng.random() < 0.5:
        return start
    g = start.g
    for f in rng.choice([[pairs.chained], [pairs.aliased, pairs.aliased], [pairs.copied, pairs.chained],
                         [pairs.chained, pairs.aliased], [pairs.copied]]):
        g = f(rng, g)
    return type(start)(g, start.form, start.st) if pairs.good(g) else start


def rand_gconfig(rng, stats=None, vers=True, db=None, **kw):
    """A search over a grammar universe."""
    db = db or rng.choice(["base", "base", "forget", "forest", "forestf"])
    it = not db.startswith("forest") and rng.random() < 0.12
    pack = grammar.rand_pack(rng, vers=vers, iterative=it, **kw)
    start = grammar.rand_class(rng, stats)
    while not db.startswith("forest") and grammar.gram(start.g).idle:
        start = grammar.rand_class(rng, stats)
    start = webbed(rng, start)
    return SimpleNamespace(start=start, pack=pack, db=db, most=250,
                           smallest=not it and rng.random() < 0.3,
                           expand_verified=rng.random() < 0.2, seed=rng.randrange(10**6),
                           clock=rng.choice(sorted(CLOCKS)), perc=rng.choice([1, 20, 100]))


def describe(cf):
    return {"start": repr(cf.start), "pack": repr(cf.pack).replace("\n", " "), "db": cf.db,
            "smallest": cf.smallest, "expand_verified": cf.expand_verified, "seed": cf.seed,
            "clock": cf.clock, "perc": cf.perc}


def make(cf):
    return CombinatorialSpecificationSearcher(cf.start, cf.pack, ruledb=DBS[cf.db](),
                                              expand_verified=cf.expand_verified)


def run(cf, secs=20, max_classes=400):
    """(searcher, specification or None, description of a failure)"""
    random.seed(cf.seed)
    css = spec = None
    exc = ""
    try:
        with limit(secs), Clock(random.Random(cf.seed + 1), CLOCKS[cf.clock],
                                      getattr(cf, "most", 1500)):
            css = make(cf)
            spec = css.auto_search(smallest=cf.smallest, perc=cf.perc, max_expansion_time=1e6)
    except (SpecificationNotFound, ExceededMaxtimeError):
        pass
    except CaseTimeout:
        exc = "hang"
    except Exception as x:  # pylint: disable=broad-except
        exc = errs(x)
    return css, spec, exc
