"""C04: every rule insertion of real searches over table universes."""
import random

import tables
from common import CaseTimeout, errs, limit
from tables import UNI, describe, random_universe, searcher
import comb_spec_searcher.comb_spec_searcher as css_mod
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies.strategy import EmptyStrategy

if hasattr(css_mod, "asizeof"):
    css_mod.asizeof = lambda *a, **k: 0  # very slow, only used in status output

DBS = {"base": RuleDB, "forget": RuleDBForgetStrategy, "forest": RuleDBForest}


class Recorder:
    """Records every insertion into the rule database of a searcher."""

    def __init__(self, db, cls, kind):
        self.ev, self.kind, self.seen = [], kind, 0
        self.cls = cls
        self.db = db
        self.depth = []
        orig = db.add

        def add(start, ends, rule):
            before = set(db) if kind != "forest" else set()
            fkeys = []
            self.depth.append(fkeys)
            try:
                return orig(start, ends, rule)
            finally:
                self.depth.pop()
                after = set(db) if kind != "forest" else set()
                k = -1 if isinstance(rule.strategy, EmptyStrategy) else rule.strategy.k
                self.ev.append({
                    "op": "add", "start": start, "ends": list(ends), "k": k,
                    "parent": rule.comb_class.i, "children": [c.i for c in rule.children],
                    "new": sorted([a, list(b)] for a, b in after - before),
                    "stored": bool(after & before and any(
                        a == start and len(b) <= len(ends) and set(b) <= set(ends)
                        for a, b in after & before)),
                    "fkeys": fkeys, "labels": self.labels()})
        db.add = add
        if kind == "forest":
            tm = db.table_method
            orig_tm = tm.add_rule_key

            def add_rule_key(key):
                if self.depth:
                    self.depth[-1].append([key.parent, list(key.children)])
                return orig_tm(key)
            tm.add_rule_key = add_rule_key

    def labels(self):
        out = []
        cdb = self.db.classdb
        while True:
            try:
                c = cdb.get_class(self.seen)
            except Exception:
                return out
            out.append(c.i)
            self.seen += 1


def run_case(u, kind, rng, mode):
    db = DBS[kind]()
    rec = Recorder(db, None, kind)
    ev = rec.ev
    try:
        with limit(30):
            css = searcher(u, db, expand_verified=rng.random() < 0.4)
            if mode == "levels":
                for _ in range(30):
                    try:
                        css.do_level()
                    except NoMoreClassesToExpandError:
                        break
                    if rng.random() < 0.3:
                        db.has_specification()
            else:
                try:
                    css.auto_search(max_expansion_time=5)
                except CaseTimeout:
                    raise
                except Exception:  # pylint: disable=broad-except
                    pass  # no specification, or a failure while extracting it (not C04)
                for _ in range(3):
                    try:
                        css.do_level()
                    except NoMoreClassesToExpandError:
                        break
            labels = rec.labels()
            n = rec.seen
            ev.append({"op": "end", "labels": labels,
                       "lookup": [css.classdb.get_class(i).i for i in range(n)],
                       "emp": [bool(css.classdb.is_empty(css.classdb.get_class(i), i)) for i in range(n)],
                       "stored": sorted([a, list(b)] for a, b in set(db)) if kind != "forest" else []})
    except CaseTimeout:
        ev.append({"op": "hang", "labels": []})
    except Exception as x:  # pylint: disable=broad-except
        ev.append({"op": "exc", "labels": [], "exc": errs(x)})
    return {"u": describe(u), "db": kind, "mode": mode, "uni": u, "ev": ev}


def run(chk):
    rng = random.Random(chk.seed)
    cases = []
    num = 600 if chk.quick else 4000
    for i in range(num):
        for kind in DBS:
            u = random_universe(random.Random(f"{chk.seed}-{i}"), f"c04-{i}",
                                forest=True, iterative=False if kind == "forest" else None,
                                start_empty=i % 17 == 0)
            cases.append(run_case(u, kind, rng, "levels" if rng.random() < 0.6 else "auto"))
            if chk.left(14 if chk.quick else 600) < 0:
                break
    chk.judge("UniverseTrace", cases, cfg="Trace.cfg", batch=400)
