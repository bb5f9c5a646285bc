"""C03: insertion histories of the table method judged by ForestTrace."""
import random

from common import CaseTimeout, err, limit
from forest_gen import key, rand_universe, unkey
from comb_spec_searcher.rule_db.forest import RuleDBForest


def run_case(n, rules, mode, rng):
    db = RuleDBForest()
    tm = db.table_method
    ev = []
    for i, r in enumerate(rules):
        r = dict(r, b=r.get("b", "normal"))
        look = mode == "all" or i == len(rules) - 1 or (mode == "some" and rng.random() < 0.3)
        e = {"op": "add", "r": r, "look": look, "exc": "", "fn": [], "pump": []}
        try:
            with limit(30):
                tm.add_rule_key(key(r))
                if look:
                    if rng.random() < 0.5:
                        e["pump"] = [x for x in range(n) if db.is_verified(x)]
                    else:
                        e["pump"] = [x for x in range(n) if tm.is_pumping(x)]
                    e["fn"] = [[k, -1 if v is None else v] for k, v in tm.function.items()]
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:
            e["exc"] = err(x)
        ev.append(e)
        if e["exc"]:
            break
    if not ev[-1]["exc"]:
        e = {"op": "sub", "rules": [], "exc": ""}
        try:
            e["rules"] = [unkey(k) for k in tm.pumping_subuniverse()]
        except Exception as x:
            e["exc"] = err(x)
        ev.append(e)
    return {"n": n, "ev": ev}


def run(chk):
    rng = random.Random(chk.seed)
    for c in ["ForestMC.cfg", "ForestMC2.cfg"] + ([] if chk.quick else ["ForestMC3.cfg", "ForestMC4.cfg"]):
        chk.design("ForestMC.tla", c)
    gen = chk.generate("ForestMC.tla", "ForestGen.cfg",
                       extra=("-simulate", f"num={60 if chk.quick else 800}", "-depth", "400"))
    chk.extra["generated_behaviours"] = len(gen)
    cases = []
    modes = ["all", "some", "end"]
    for i, h in enumerate(gen):
        cases.append(run_case(4, h, modes[i % 3], rng))
    for i in range(1200 if chk.quick else 15000):
        n, rules = rand_universe(rng, buckets=i % 2 == 0)
        cases.append(run_case(n, rules, modes[i % 3], rng))
        if i % 4 == 0:  # the same rules in other orders
            for _ in range(2):
                rules = list(rules)
                rng.shuffle(rules)
                cases.append(run_case(n, rules, "end", rng))
    chk.judge("ForestTrace", cases, cfg="Trace.cfg", batch=2000)
