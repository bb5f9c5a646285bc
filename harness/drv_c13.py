"""C13: the parallel specification finders on pairs of searchers."""
import random

import grammar
import pairs
import tpairs
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.exception import NoMoreClassesToExpandError, SpecificationNotFound
from comb_spec_searcher.isomorphism import Isomorphism

FINDERS = {"plain": ParallelSpecFinder, "path": EqPathParallelSpecFinder}


def honest(pack):
    """All one-child rules a search takes for two-way are equivalences."""
    return all(s.o.get("eq", True) for s in pack if hasattr(s, "o"))


def config(rng, start, gram):
    if gram:
        cf = wsearch.rand_gconfig(rng, vers=rng.random() < 0.05, db="base", fac=rng.random() < 0.2,
                                  sym=rng.random() < 0.6)
        if rng.random() < 0.3:
            cf.pack = grammar.plain_pack(pad=rng.choice([0, 0, 1, 2]), tidy=rng.random() < 0.3,
                                         eq=rng.random() < 0.8)
    else:
        cf = wsearch.rand_config(rng, rev=0, vers=rng.random() < 0.05)
        cf.db = "base"
    cf.start, cf.smallest, cf.expand_verified = start, False, False
    return cf


def pair(rng):
    gram = rng.random() < 0.75
    if gram:
        if rng.random() < 0.3:
            a, b = (grammar.G(g, (1,)) for g in pairs.loops(rng))
        else:
            a, b = pairs.starts(rng)
    else:
        a, b = pairs.words(rng)
    c1, c2 = config(rng, a, gram), config(rng, b, gram)
    if rng.random() < 0.5:
        c2.pack = c1.pack
    return c1, c2


def before(rng, *searchers):
    """The searchers may have done some work already."""
    for s in searchers:
        how = rng.choice(["", "", "", "levels", "auto"])
        try:
            if how == "levels":
                for _ in range(rng.randint(1, 3)):
                    s.do_level()
            elif how == "auto":
                s.auto_search()
        except (NoMoreClassesToExpandError, SpecificationNotFound):
            pass


def finds(rng, f):
    """What the finder finds; it may be asked twice."""
    got = f.find()
    return f.find() if rng.random() < 0.2 else got


def tables(chk, rng, num, secs):
    """Pairs of table universes."""
    res = []
    n = {"table_pairs": 0, "table_found": 0}
    for j in range(num):
        if chk.left(secs) < 0:
            break
        kind = rng.choice(sorted(FINDERS))
        a, b = tpairs.pair(rng, f"{rng.random()}", kind == "plain" or rng.random() < 0.3)
        e = {"op": "found", "kind": kind, "found": False, "iso": False, "exc": "", "one": {}, "two": {}}
        v = View([tpairs.pack(a), tpairs.pack(b)], describe=tpairs.data)
        starts = [tpairs.P(u, tpairs.UNI[u]["start"]) for u in (a, b)]
        try:
            with limit(5):
                both = tpairs.searcher(a), tpairs.searcher(b)
                with wsearch.Clock(rng, (0.0001,), 10**5):
                    before(rng, *both)
                got = finds(rng, FINDERS[kind](*both))
                if got is not None:
                    e["found"] = True
                    e["one"], e["two"] = ({"root": v.idx(s.root), "want": v.idx(w), "counts": {},
                                           "rules": v.spec(s)} for s, w in zip(got, starts))
                    e["iso"] = Isomorphism.check(*got)
        except CaseTimeout:  # exponential search; nothing claimed about time
            n["table_timeouts"] = n.get("table_timeouts", 0) + 1
            continue
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        n["table_pairs"] += 1
        n["table_found"] += e["found"]
        if e["found"] or e["exc"]:
            res.append(v.case(starts[0], [e], uni=[repr(tpairs.UNI[a]), repr(tpairs.UNI[b])]))
        del tpairs.UNI[a], tpairs.UNI[b]
    for k, m in n.items():
        chk.extra[k] = chk.extra.get(k, 0) + m
    return res


def side(v, want, spec):
    top = {0: 7, 1: 5, 2: 4}.get(len(want.st), 4)
    return {"root": v.idx(spec.root), "want": v.idx(want), "rules": v.spec(spec),
            "counts": v.counts(spec, top)}


def cases(chk, rng, num, secs):
    res = []
    ex = dict.fromkeys(("pairs", "found", "nontrivial_start", "no_specification", "skipped", "plain",
                        "path"), 0)
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        c1, c2 = pair(rng)
        kind = rng.choice(sorted(FINDERS))
        if kind == "plain" and not (honest(c1.pack) and honest(c2.pack)):
            kind = "path"
        # only universes in which the finder can stop looking for a specification
        stops = True
        for c in (c1, c2):
            css, spec, exc = wsearch.run(c, 3)
            if exc or css is None or (spec is None and not dry(css)):
                stops = False
                break
            ex["no_specification"] += spec is None
        if not stops:
            ex["skipped"] += 1
            continue
        e = {"op": "found", "kind": kind, "found": False, "iso": False, "exc": "", "one": {}, "two": {}}
        f = None
        try:
            with limit(4), wsearch.Clock(rng, (0.0001,), 10**5):
                s1, s2 = wsearch.make(c1), wsearch.make(c2)
                before(rng, s1, s2)
                f = FINDERS[kind](s1, s2)
        except CaseTimeout:
            ex["skipped"] += 1
            continue
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        v = View([c1.pack, c2.pack])
        if not e["exc"]:
            try:
                with limit(20):
                    got = finds(rng, f)
                if got is not None:
                    e["found"] = True
                    with limit(20):
                        e["one"], e["two"] = side(v, c1.start, got[0]), side(v, c2.start, got[1])
                        e["iso"] = Isomorphism.check(*got)
            except CaseTimeout:
                e["exc"] = "hang"
            except Exception as x:  # pylint: disable=broad-except
                e["exc"] = errs(x)
        ex["pairs"] += 1
        ex["found"] += e["found"]
        ex[kind] += 1
        if f is not None:
            ex["nontrivial_start"] += any(
                s.ruledb.equivdb[s.start_label] != s.start_label for s in (s1, s2))
        res.append(v.case(c1.start, [e], cf=[wsearch.describe(c1), wsearch.describe(c2)]))
    for k, n in ex.items():
        chk.extra[k] = chk.extra.get(k, 0) + n
    return res


def dry(css):
    """Nothing is left to expand."""
    try:
        with limit(1):
            next(css.classqueue)
    except StopIteration:
        return True
    except (Exception, CaseTimeout):  # pylint: disable=broad-except
        return False
    return False


def run(chk):
    cs = fan(chk, tables, 900 if chk.quick else 12000, 4 if chk.quick else 250)
    cs += fan(chk, cases, 12000, 13 if chk.quick else 600)
    chk.judge("BijTrace", cs, cfg="Trace.cfg", batch=1000)
