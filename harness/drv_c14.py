"""C14: the same insertions into the default and the memory-saving database."""
import random

from common import CaseTimeout, errs, limit
from tables import UNI, describe, mk, pack, random_universe, searcher
import drv_c04  # noqa: F401  (silences the slow status output)
from comb_spec_searcher.exception import NoMoreClassesToExpandError, StrategyDoesNotApply
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy
from comb_spec_searcher.strategies.rule import AbstractRule


def keyset(db):
    return sorted([a, list(b)] for a, b in set(db))


class Tee:
    """Feeds what the searcher adds to one database to the other one as well."""

    def __init__(self, rng, swap):
        self.rng = rng
        self.ev = []
        self.dbs = [RuleDB(), RuleDBForgetStrategy()]
        self.front, self.back = (self.dbs[1], self.dbs[0]) if swap else self.dbs
        self.css = None
        self.nlab = 0
        front_link = self.front.link_searcher
        front_add = self.front.add

        def link(css):
            front_link(css)
            self.back.link_searcher(css)
            self.css = css

        def add(start, ends, rule):
            front_add(start, ends, rule)
            self.back.add(start, ends, rule)
            self.observe(start, ends, rule)
        self.front.link_searcher = link
        self.front.add = add

    def labels(self):
        out = []
        while True:
            try:
                c = self.css.classdb.get_class(self.nlab)
            except Exception:  # pylint: disable=broad-except
                return out
            out.append(c.i)
            self.nlab += 1

    def strats(self, db, keys):
        res = []
        for a, b in keys:
            key = (a, tuple(b))
            for eqv, store in ((False, db.rule_to_strategy), (True, db.eqv_rule_to_strategy)):
                if key in store:
                    try:
                        res.append([a, list(b), store[key].k, eqv])
                    except CaseTimeout:
                        raise
                    except Exception:  # pylint: disable=broad-except
                        res.append([a, list(b), -9, eqv])
        return res

    def observe(self, start, ends, rule, final=False):
        rng = self.rng
        stored = [keyset(db) for db in self.dbs]
        probes = []
        pool = stored[0] if final or len(stored[0]) < 4 else rng.sample(stored[0], 3)
        for a, b in pool:
            c = list(b)
            rng.shuffle(c)
            probes.append([a, c])
            if rng.random() < 0.3:
                probes.append([a, c + [rng.randrange(6)]])
            if rng.random() < 0.3 and len(b) == 1:
                probes.append([b[0], [a]])
        probes.append([start, list(ends)])
        for _ in range(2):
            probes.append([rng.randrange(8), [rng.randrange(8) for _ in range(rng.randrange(3))]])
        o = {"op": "end" if final else "add", "stored": stored, "probes": probes,
             "has": [[db.contains(a, tuple(b)) for a, b in probes] for db in self.dbs]}
        if rng.random() < 0.7 or final:
            o["spec"] = [db.has_specification() for db in self.dbs]
        else:
            o["spec"] = [False, False]
        self.labels_new = self.labels()
        n = self.nlab
        o["labels"] = self.labels_new
        o["ver"] = [[lb for lb in range(n) if db.is_verified(lb)] for db in self.dbs]
        ks = stored[0] if final else [k for k in stored[0] if k[0] == start or rng.random() < 0.1]
        o["strat"] = [self.strats(db, ks) for db in self.dbs]
        self.ev.append(o)


def pack_rules(u):
    res = []
    n = UNI[u]["n"]
    for i in range(n):
        c = mk(u, i)
        for s in pack(u):
            ys = [s] if not hasattr(s, "t") or s.t["kind"] != "fac" else list(s(c))
            for y in ys:
                try:
                    r = y if isinstance(y, AbstractRule) else y(c)
                    ch = r.children
                except StrategyDoesNotApply:
                    continue
                if len(ch) == 1 and ch[0] == r.comb_class:
                    continue
                res.append(r)
    return res


def run_case(u, rng, mode):
    tee = Tee(rng, rng.random() < 0.5)
    try:
        with limit(30):
            css = searcher(u, tee.front, expand_verified=rng.random() < 0.6)
            if mode == "search":
                for _ in range(30):
                    try:
                        css.do_level()
                    except NoMoreClassesToExpandError:
                        break
            else:
                rules = pack_rules(u)
                rng.shuffle(rules)
                if rng.random() < 0.5:
                    rules = rules + [r for r in rules if rng.random() < 0.3]
                for r in rules[:40]:
                    st = css.classdb.get_label(r.comb_class)
                    tee.front.add(st, tuple(css.classdb.get_label(c) for c in r.children), r)
            tee.observe(0, (), None, final=True)
    except CaseTimeout:
        tee.ev.append({"op": "hang"})
    except Exception as x:  # pylint: disable=broad-except
        tee.ev.append({"op": "exc", "exc": errs(x)})
    return {"u": describe(u), "uni": u, "mode": mode, "ev": tee.ev}


def run(chk):
    rng = random.Random(chk.seed)
    cases = []
    for i in range(450 if chk.quick else 4000):
        u = random_universe(random.Random(f"{chk.seed}-{i}"), f"c14-{i}", start_empty=i % 17 == 0)
        for mode in ("search", "shuffled"):
            cases.append(run_case(u, rng, mode))
        del UNI[u]
        if chk.left(14 if chk.quick else 600) < 0:
            break
    chk.judge("RuleDBTrace", cases, cfg="Trace.cfg", batch=400)
