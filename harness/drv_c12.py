"""C12: bijections constructed between pairs of specifications, and the isomorphism test."""
import copy
import json
import random

import grammar
import pairs
import tpairs
import words
import wsearch
from common import CaseTimeout, errs, fan, limit, real_time
from specview import View, letters
from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.exception import NoMoreClassesToExpandError, SpecificationNotFound
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies.rule import (EquivalencePathRule, EquivalenceRule, ReverseRule,
                                                VerificationRule)
from comb_spec_searcher.strategies.strategy import EmptyStrategy


def all_atoms(spec):
    """All verified classes are atoms."""
    return all(r.comb_class.is_atom() for r in spec.rules_dict.values()
               if isinstance(r, VerificationRule) and not r.comb_class.is_empty())


def iso(s1, s2):
    e = {"op": "iso", "ab": False, "ba": False, "aa": False, "bb": False,
         "r1": all_atoms(s1), "r2": all_atoms(s2), "exc": ""}
    try:
        with limit(10):
            e.update(ab=Isomorphism.check(s1, s2), ba=Isomorphism.check(s2, s1),
                     aa=Isomorphism.check(s1, s1), bb=Isomorphism.check(s2, s2))
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    return e


def table(f, g, c, top):
    res = []
    for n in range(top + 1):
        for o in c.objects_of_size(n):
            m = f(o)
            res.append([letters(o), letters(m), letters(g(m)), n])
    return res


def bij(v, s1, s2, top, reload=False):
    """The bijection between two specifications, None if there is none."""
    a, b = s1.root, s2.root
    e = {"op": "bij", "a": v.idx(a), "b": v.idx(b), "top": top, "there": [], "back": [], "exc": "",
         "reload": reload}
    try:
        with limit(20):
            x = Bijection.construct(s1, s2)
            if x is None:
                return None
            if reload:
                x = Bijection.from_dict(json.loads(json.dumps(x.to_jsonable())))
            e["there"] = table(x.map, x.inverse_map, a, top)
            e["back"] = table(x.inverse_map, x.map, b, top)
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    return e


def size(c, most=60, top=6):
    """Up to which size objects are mapped."""
    n, tot = 0, 0
    while n < top:
        tot += sum(1 for _ in c.objects_of_size(n + 1))
        if tot > most:
            break
        n += 1
    return n


def pair(rng):
    """Two search configurations."""
    if rng.random() < 0.8:
        a, b = pairs.starts(rng)
        c1 = wsearch.rand_gconfig(rng, vers=rng.random() < 0.1, fac=rng.random() < 0.2,
                                  sym=rng.random() < 0.3)
        c2 = wsearch.rand_gconfig(rng, vers=rng.random() < 0.1, fac=rng.random() < 0.2,
                                  sym=rng.random() < 0.3)
        if rng.random() < 0.3:
            pk = grammar.rand_pack(rng, fac=False, sym=False)
            if rng.random() < 0.5:
                pk = grammar.plain_pack(pad=rng.choice([0, 0, 1, 2]), tidy=rng.random() < 0.3)
            c1.pack = c2.pack = pk
            if rng.random() < 0.5:
                c2.pack = grammar.plain_pack(pad=rng.choice([0, 1, 2]), rot=rng.choice([0, 1]))
            c1.smallest = c2.smallest = False
        if rng.random() < 0.25:
            i = rng.randrange(2)
            (c1, c2)[i].pack = grammar.plain_pack(eq=rng.random() < 0.7)
            (c2, c1)[i].pack = grammar.plain_pack(eq=rng.random() < 0.5)
            c1.smallest = c2.smallest = False
        c1.start, c2.start = a, b
    else:
        a, b = pairs.words(rng)
        c1, c2 = wsearch.rand_config(rng, rev=0, vers=rng.random() < 0.15), wsearch.rand_config(
            rng, rev=0, vers=False)
        if rng.random() < 0.7:
            c2.pack, c2.db, c2.smallest = c1.pack, c1.db, c1.smallest
        c1.start, c2.start = a, b
        if rng.random() < 0.15:  # the same, with reverse rules
            c1 = wsearch.rand_config(rng, rev=1)
            c2 = c1
    for c in (c1, c2):
        c.expand_verified = c.expand_verified and rng.random() < 0.3
    return c1, c2


def found(rng, c1, c2):
    """A pair found by a parallel finder."""
    F = rng.choice([ParallelSpecFinder, EqPathParallelSpecFinder])
    try:
        with limit(3), wsearch.Clock(rng, (0.0001,), 400):
            for c in (c1, c2):
                c.db = "base"
                if wsearch.run(c, 2)[1] is None:
                    return None
            return F(wsearch.make(c1), wsearch.make(c2)).find()
    except (Exception, CaseTimeout):  # pylint: disable=broad-except
        return None  # C13 looks at this


def complement(rng):
    """A specification of the words in which a letter occurs, by a reverse rule:
    all words without those in which it does not."""
    k = rng.choice([2, 3])
    A, z = "abc"[:k], "abc"[k - 1]
    pool = [p for p in wsearch.PATS + wsearch.PATS3 if all(x in A and x != z for x in p)]
    pats = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2])))
    top = words.W(A, "", pats, False, "", [])
    split = words.SplitFree(rot=rng.choice([0, 1]))
    pk = words.StrategyPack([words.Front(how=rng.choice(["all", "one"]))], [],
                            [[words.Expand(rot=rng.choice([0, 1]))]], [words.AtomV()], name="c")
    down = split(top)
    rules = {}
    for c in (top, top.make(A=A.replace(z, ""))):
        cf = wsearch.rand_config(rng, stats=0)
        cf.start, cf.pack, cf.smallest, cf.expand_verified = c, pk, False, False
        _, spec, _ = wsearch.run(cf, 10)
        if spec is None:
            return None, cf
        for r in spec.rules_dict.values():
            rules.setdefault(r.comb_class, r)
    x = top.make(must=z)
    rules[x] = down.to_reverse_rule(down.children.index(x))
    cf.start = x
    return CombinatorialSpecification(x, list(rules.values())), cf


def cases(chk, rng, num, secs):
    res = []
    ex = dict.fromkeys(("pairs", "isomorphic", "bijections", "reloaded", "paths", "from_finder"), 0)
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        c1, c2 = pair(rng)
        src = "search"
        if rng.random() < 0.04:
            s1, c1 = complement(rng)
            s2, c2 = complement(rng) if rng.random() < 0.4 else (s1, c1)
            if s1 is None or s2 is None:
                continue
            ex["complements"] = ex.get("complements", 0) + 1
        elif rng.random() < 0.15:
            src = "finder"
            got = found(rng, c1, c2)
            if got is None:
                continue
            s1, s2 = got
            ex["from_finder"] += 1
        else:
            _, s1, _ = wsearch.run(c1, 10)
            if s1 is None:
                continue
            _, s2, _ = wsearch.run(c2, 10) if c2 is not c1 else (0, s1, 0)
            if s2 is None:
                continue
        if rng.random() < 0.08:
            s2, c2 = s1, c1
        ex["pairs"] += 1
        v = View([])
        ev = [iso(s1, s2)]
        top = min(size(s1.root), size(s2.root)) if src == "search" else min(
            size(s1.root, 30), size(s2.root, 30))
        for x, y in ((s1, s2), (s2, s1)):
            b = bij(v, x, y, top, rng.random() < 0.15)
            if b:
                ev.append(b)
                ex["bijections"] += 1
                ex["reloaded"] += b["reload"]
            if rng.random() < 0.6:
                break
        ex["isomorphic"] += ev[0]["ab"]
        if ev[0]["ab"] and any(isinstance(r, (EquivalencePathRule, EquivalenceRule))
                               for r in [*s1.rules_dict.values(), *s2.rules_dict.values()]):
            ex["paths"] += 1
        res.append(v.case(s1.root, ev, cf=[wsearch.describe(c1), wsearch.describe(c2)], src=src))
    for k, n in ex.items():
        chk.extra[k] = chk.extra.get(k, 0) + n
    return res


def bulk(chk, rng, num, secs):
    """Many small pairs, with the simplest packs."""
    res = []
    for i in range(num):
        if chk.left(secs) < 0:
            break
        g, h = pairs.loops(rng)
        packs = rng.choices(PLAIN, [6, 1, 1, 1, 1], k=2)
        if chk.first:
            g, h = pairs.HARD[i // 4]
            packs = [PLAIN[i % 2], PLAIN[i // 2 % 2]]
        specs = []
        for x, pk in zip((g, h), packs):
            c = wsearch.rand_gconfig(rng, db=rng.choice(["base", "base", "forget", "forest"]))
            c.start, c.pack, c.smallest, c.expand_verified = grammar.G(x, (1,)), pk, False, False
            specs.append(wsearch.run(c, 10)[1])
        if None in specs:
            continue
        s1, s2 = specs
        v = View([])
        ev = [iso(s1, s2)]
        chk.extra["small_pairs"] = chk.extra.get("small_pairs", 0) + 1
        if ev[0]["ab"] and (rng.random() < 0.15 or chk.first):
            chk.extra["small_bijections"] = chk.extra.get("small_bijections", 0) + 1
            ev.append(bij(v, s1, s2, min(size(s1.root, 30), size(s2.root, 30))))
        res.append(v.case(s1.root, [e for e in ev if e], g=g, h=h,
                          packs=[repr(p) for p in packs]))
    return res


DESIGN = [[], []]  # pairs of small specifications printed by the design: different, isomorphic


def designed(rng, gen):
    """A pair of specifications of the design as table universes, with some empty children."""
    us = []
    for side, nodes in zip("ab", gen):
        n = len(nodes)
        u = f"{side}{rng.random()}"
        empty = [n] if rng.random() < 0.3 else []
        rules, perm = [], list(range(n + len(empty)))
        rng.shuffle(perm)
        for p, x in enumerate(nodes):
            ch = [perm[c - 1] for c in x["c"]]
            if not ch:
                continue
            if empty and rng.random() < 0.4:
                ch.insert(rng.randrange(len(ch) + 1), perm[n])
            rules.append((perm[p], {"ch": ch, "con": "U" if x["k"] == "eq" else x["k"],
                                    "two": rng.random() < 0.5, "eq": x["k"] == "eq"}))
        tpairs.store(u, n + len(empty), perm[0], [perm[n]] if empty else [],
                     {perm[p]: x["s"] for p, x in enumerate(nodes) if x["k"] == "leaf"}, rules, rng)
        us.append(u)
    return us


def tables(chk, rng, num, secs):
    """Pairs of specifications over table universes: the isomorphism test alone."""
    res = []
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        us = None
        if DESIGN[0] and rng.random() < 0.5:
            us = designed(rng, rng.choice(DESIGN[rng.random() < 0.6]))
            chk.extra["designed_pairs"] = chk.extra.get("designed_pairs", 0) + 1
        us = us or tpairs.pair(rng, f"{rng.random()}", rng.random() < 0.6)
        specs, packs = [], []
        for u in us:
            try:
                with limit(3):
                    css = tpairs.searcher(u)
                    while True:
                        try:
                            css.do_level()
                        except NoMoreClassesToExpandError:
                            break
                    specs.append(css.get_specification(smallest=rng.random() < 0.5,
                                                       minimization_time_limit=0.01))
                    packs.append(tpairs.pack(u))
            except (SpecificationNotFound, CaseTimeout):
                break
        if len(specs) == 2:
            v = View(packs, describe=tpairs.data)
            e = iso(*specs)
            sides = [{"want": v.idx(s.root), "rules": v.spec(s)} for s in specs]
            e.update(op="tiso", one=sides[0], two=sides[1])
            chk.extra["table_pairs"] = chk.extra.get("table_pairs", 0) + 1
            chk.extra["table_isomorphic"] = chk.extra.get("table_isomorphic", 0) + e["ab"]
            res.append(v.case(specs[0].root, [e], uni=[repr(tpairs.UNI[u]) for u in us]))
        for u in us:
            del tpairs.UNI[u]
    return res


PLAIN = [grammar.plain_pack(**kw) for kw in ({}, {"eq": False}, {"pad": 2}, {"pad": 1, "rot": 1},
                                             {"tidy": True, "pad": 3})]


def run(chk):
    if not chk.quick:
        chk.design("Iso.tla", "IsoMCThorough.cfg")
    for a, b, ok in chk.generate("Iso.tla", "IsoMC.cfg"):
        DESIGN[ok].append((a, b))
    begun = real_time() - chk.t0
    secs = 12 if chk.quick else 400
    chk.first = True
    bs = bulk(chk, random.Random(chk.seed), 4 * len(pairs.HARD), 100)
    chk.first = False
    n = 10**6
    bs += fan(chk, bulk, n, begun + secs / 2)
    bs += fan(chk, tables, 600 if chk.quick else 20000, begun + secs * 0.75)
    cs = fan(chk, cases, n, begun + secs)
    chk.judge("BijTrace", bs, cfg="Trace.cfg", batch=4000)
    chk.judge("BijTrace", cs, cfg="Trace.cfg", batch=1500)
