"""C11: forest extraction judged by ExtractTrace."""
import random

import tables
import wsearch
from common import CaseTimeout, err, errs, fan, limit
from specview import View
from forest_gen import key, rand_universe, unkey
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor, RuleDBForest
from comb_spec_searcher.strategies.strategy import EmptyStrategy


class Recording(RuleDBForest):
    """Remembers the rules that were added."""

    def __init__(self, **kw):
        self.log = []
        super().__init__(**kw)

    def add(self, start, ends, rule):
        self.log.append(rule)
        super().add(start, ends, rule)


def run_case(n, rules, root):
    db = RuleDBForest()
    e = {"op": "extract", "needed": [], "exc": ""}
    try:
        with limit(60):
            for r in rules:
                db.table_method.add_rule_key(key(r))
            ex = ForestRuleExtractor(root, db, None, None)
            ex.check()
            e["needed"] = [unkey(k) for k in ex.needed_rules]
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:
        e["exc"] = err(x)
    return {"n": n, "rules": rules, "root": root, "ev": [e]}


def integer_cases(chk, rng, num):
    cases = []
    tries = 0
    while len(cases) < num and tries < 50 * num:
        tries += 1
        n, rules = rand_universe(rng, buckets=True)
        db = RuleDBForest()
        for r in rules:
            db.table_method.add_rule_key(key(r))
        pumping = [x for x in range(n) if db.is_verified(x)]
        if not pumping:
            continue
        cases.append(run_case(n, rules, rng.choice(pumping)))
        if rng.random() < 0.5:
            rules = list(rules)
            rng.shuffle(rules)
            cases.append(run_case(n, rules, rng.choice(pumping)))
    return cases


def extraction(css, v):
    """The rules inserted so far, and what is extracted."""
    db = css.ruledb
    ins = []
    for rule in db.log:
        if isinstance(rule.strategy, EmptyStrategy):
            x = [0, v.idx(rule.comb_class)]
        else:
            x = [v.fact(rule.strategy, rule.comb_class), 0]
        if x not in ins:
            ins.append(x)
    e = {"op": "extract", "needed": [], "rules": [], "exc": ""}
    v.parents, v.seen = set(), set()
    try:
        with limit(30):
            ex = ForestRuleExtractor(css.start_label, db, css.classdb, css.strategy_pack)
            ex.check()
            cl = lambda x: v.idx(css.classdb.get_class(x))
            e["needed"] = [{"p": cl(k.parent), "c": list(map(cl, k.children)), "s": list(k.shifts)}
                           for k in ex.needed_rules]
            e["rules"] = [v.rule(r) for r in ex.rules(())]
            v.learn(list(v.seen), v.parents)
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    return ins, e


def search_cases(chk, rng, num, secs, most=60):
    cases = []
    tag = rng.randrange(10**6)
    for k in range(num):
        if chk.left(secs) < 0:
            break
        db = Recording(reverse=rng.random() < 0.8)
        kind = rng.choice(["t", "t", "t", "w", "w", "g"])
        if kind == "t":
            u = tables.random_universe(rng, f"c11-{tag}-{k}", forest=True, iterative=False)
            packs = [tables.pack(u)]
            t = tables.UNI[u]
            view = lambda: View(packs, lambda c: {"w": False, "e": c.i in t["empty"], "m": 0})
            make = lambda: tables.searcher(u, db)
            info = {"u": u}
        else:
            cf = wsearch.rand_gconfig(rng, db="forest") if kind == "g" else wsearch.rand_config(
                rng, iterative=False, rev=0.6)
            if cf.pack.iterative:
                continue
            packs = [cf.pack]
            view = lambda: View(packs)
            make = lambda: wsearch.CombinatorialSpecificationSearcher(cf.start, cf.pack, ruledb=db)
            info = {"cf": wsearch.describe(cf)}
        random.seed(tag + k)
        exc = None
        try:
            with limit(3):
                css = make()
                more = rng.choice([0, 0, 0, 1, 2])
                for _ in range(30):
                    if len(db.log) >= most:
                        break
                    if db.has_specification():
                        if not more:
                            break
                        more -= 1
                    css.do_level()
                if not db.has_specification():
                    continue
        except CaseTimeout:  # a large universe
            continue
        except NoMoreClassesToExpandError:
            if not db.has_specification():
                continue
        except Exception as x:  # pylint: disable=broad-except
            exc = errs(x)
        if not exc and len(css.classdb.label_to_info) > 70:
            continue
        v = view()
        if exc:
            e, ins = {"op": "extract", "needed": [], "rules": [], "exc": exc}, []
        else:
            ins, e = extraction(css, v)
        cases.append(v.case(css.start_class, [e], ins=ins, rev=db.reverse, mins=kind != "t", **info))
    return cases


def generated_cases(chk, rng):
    """Every small universe of the design, inserted in some order."""
    cases = []
    for cfg in ["ExtractGen.cfg"] if chk.quick else ["ExtractGen.cfg", "ExtractGen3.cfg"]:
        for rules in chk.generate("ExtractMC.tla", cfg):
            if chk.quick and rng.random() < 0.5:
                continue
            rng.shuffle(rules)
            cases.append(run_case(2, rules, 0))
    chk.extra["generated_universes"] = len(cases)
    return cases


def run(chk):
    rng = random.Random(chk.seed)
    chk.design("ExtractMC.tla", "ExtractMC.cfg")
    if not chk.quick:
        chk.design("ExtractMC.tla", "ExtractMCThorough.cfg")
        chk.design("ExtractMC.tla", "ExtractMC4.cfg")
    chk.judge("ExtractTrace", generated_cases(chk, rng), cfg="Trace.cfg", batch=2000)
    chk.judge("ExtractTrace", integer_cases(chk, rng, 1200 if chk.quick else 20000),
              cfg="Trace.cfg", batch=2000)
    real = fan(chk, search_cases, 600 if chk.quick else 8000, 14 if chk.quick else 400)
    chk.extra["real_extractions"] = len(real)
    chk.judge("RealExtractTrace", real, cfg="Trace.cfg", batch=2000)
