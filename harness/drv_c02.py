"""C02: rule sets of specifications found by real searches."""
import random

import tables
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View
from comb_spec_searcher.exception import ExceededMaxtimeError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy


def word_cases(chk, rng, num, secs):
    cases = []
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        cf = wsearch.rand_gconfig(rng) if rng.random() < 0.3 else wsearch.rand_config(rng)
        _, spec, _ = wsearch.run(cf)
        if spec is None:
            continue
        if len(spec.rules_dict) > (40 if chk.quick else 70):  # slow to judge
            chk.extra["too_large"] = chk.extra.get("too_large", 0) + 1
            continue
        v = View([cf.pack])
        v.idx(cf.start)
        cases.append(v.case(cf.start, [v.spec(spec)], cf=wsearch.describe(cf)))
    return cases


def table_cases(chk, rng, num, secs):
    cases = []
    dbs = {"base": RuleDB, "forget": RuleDBForgetStrategy, "forest": RuleDBForest,
           "forestf": lambda: RuleDBForest(reverse=False)}
    tag = rng.randrange(10**6)
    for i in range(num):
        if chk.left(secs) < 0:
            break
        kind = rng.choice(sorted(dbs))
        forest = kind.startswith("forest")
        u = tables.random_universe(rng, f"c02-{tag}-{i}", forest=forest,
                                   chains=rng.random() < 0.3,
                                   iterative=False if forest else None)
        spec, exc = None, ""
        random.seed(tag + i)
        try:
            with limit(20), wsearch.Clock(rng, wsearch.CLOCKS[rng.choice(sorted(wsearch.CLOCKS))]):
                css = tables.searcher(u, dbs[kind](), expand_verified=rng.random() < 0.3)
                spec = css.auto_search(max_expansion_time=1e6, perc=rng.choice([1, 20]),
                                       smallest=not css.strategy_pack.iterative and rng.random() < 0.3)
        except (SpecificationNotFound, ExceededMaxtimeError):
            pass
        except CaseTimeout:
            exc = "hang"
        except Exception as x:  # pylint: disable=broad-except
            exc = errs(x)
        if spec is None and not exc:
            continue
        t = tables.UNI[u]
        # the other databases take it that rules with several children are productive
        v = View([tables.pack(u)], lambda c: {"w": False, "e": c.i in t["empty"], "m": 0},
                 None if forest else lambda s, p, ch: [
                     int(sum(x.i not in t["empty"] for x in ch) > 1)] * len(ch))
        ev = [{"op": "search", "exc": exc}]
        if spec is not None:
            ev.append(v.spec(spec, announced=False))
        cases.append(v.case(tables.mk(u, t["start"]), ev, u=u, db=kind))
    return cases


def run(chk):
    n, secs = (200, 8) if chk.quick else (4000, 300)
    w = fan(chk, word_cases, n, secs)
    t = fan(chk, table_cases, 3 * n, 2 * secs)
    chk.extra["word_specifications"] = len(w)
    chk.extra["table_specifications"] = len(t)
    chk.judge("SpecTrace", w + t, cfg="Trace.cfg", batch=3000)
