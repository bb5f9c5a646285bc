"""C05: pruning, proof tree finders and the pruning based rule databases."""
import random
from copy import deepcopy
from itertools import islice

from common import CaseTimeout, errs, limit
from drv_c14 import pack_rules
from tables import UNI, random_universe, searcher
import comb_spec_searcher.tree_searcher as ts
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy


def preorder(node):
    return [[n.label, [c.label for c in n.children]] for n in node.nodes()]


def dump(d):
    return [[k, sorted(list(r) for r in v)] for k, v in sorted(d.items())]


def rand_dict(rng):
    n = rng.randint(2, 7)
    dens = rng.choice([1, 2, 2, 3])
    d = {}
    for x in range(1, n + 1):
        rs = set()
        for _ in range(rng.randint(0, dens)):
            k = rng.choice([0, 1, 1, 2, 2, 3])
            rs.add(tuple(sorted(rng.randint(1, n) for _ in range(k))))
        if rs:
            d[x] = rs
    return n, d


def gfp(d):
    d = {k: set(v) for k, v in d.items()}
    while True:
        new = {k: {r for r in v if all(x in d for x in r)} for k, v in d.items()}
        new = {k: v for k, v in new.items() if v}
        if new == d:
            return d
        d = new


def lfp(d, root):
    s = {root}
    while True:
        t = s | {k for k, v in d.items() if any(set(r) <= s for r in v)}
        if t == s:
            break
        s = t
    res = {k: {r for r in v if set(r) <= s} for k, v in d.items()}
    return {k: v for k, v in res.items() if v}


def bfs_ok(p, root):
    """The breadth first generator builds all branches independently."""
    def count(x, seen):
        if x in seen:
            return 1
        tot = 0
        for r in p[x]:
            c = 1
            for y in r:
                c *= count(y, seen | {x})
                if c > 500:
                    return 501
            tot += c
        return min(tot, 501)
    return count(root, frozenset()) <= 500


def small(p):
    x = 1
    for v in p.values():
        x *= len(v)
    return x <= 300


def dict_case(rng, n=None, d=None):
    if d is None:
        n, d = rand_dict(rng)
    ev = []

    def call(e, f):
        try:
            with limit(20):
                f(e)
        except CaseTimeout:
            e["op"], e["exc"] = "exc", "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["op"], e["exc"] = "exc", errs(x)
        ev.append(e)

    def prune(e):
        c = deepcopy(d)
        ts.prune(c)
        e["out"] = dump(c)
    call({"op": "prune"}, prune)
    p = gfp(d)  # the finders assume a pruned dictionary
    base = {"iter": False, "smallest": False, "maximum": 0}
    for root in sorted(p)[:3]:
        random.seed(rng.random())

        def tree(e, f):
            res = f(deepcopy(p))
            e["found"] = res is not None
            e["t"] = preorder(res) if res is not None else []

        def t_op(name, f, **k):
            call({**base, "op": "tree", "finder": name, "root": root, **k},
                 lambda e: tree(e, f))
        t_op("random", lambda q: ts.random_proof_tree(q, root))
        t_op("dfs", lambda q: ts.proof_tree_dfs(q, root)[1])
        t_op("smallish", lambda q: ts.smallish_random_proof_tree(q, root, 0.0005))

        def gen(e, g):
            trees = [preorder(t) for t in islice(g(deepcopy(p)), 40)]
            e["trees"], e["all"] = trees, len(trees) < 40

        def g_op(name, g, **k):
            call({**base, "op": "gen", "finder": name, "root": root, **k},
                 lambda e: gen(e, g))
        if small(p):
            g_op("gen_dfs", lambda q: ts.proof_tree_generator_dfs(q, root))
            if bfs_ok(p, root):
                g_op("gen_bfs", lambda q: ts.proof_tree_generator_bfs(q, root))
            for m in rng.sample(range(1, 14), 3):
                g_op("gen_dfs_max", lambda q: ts.proof_tree_generator_dfs(q, root, maximum=m),
                     maximum=m)
    for root in rng.sample(range(1, n + 1), min(2, n)):
        def itp(e):
            c = deepcopy(d)
            e["out"] = dump(ts.iterative_prune(c, root=root))
        call({"op": "iter", "root": root}, itp)
        q = lfp(d, root)
        if root in q:
            for name in ("iterative_proof_tree_finder", "iterative_proof_tree_bfs"):
                f = getattr(ts, name, None)
                if f is None:
                    continue

                def itree(e):
                    t = f(deepcopy(q), root)
                    e["found"], e["t"] = True, preorder(t)
                call({**base, "op": "tree", "finder": name, "root": root, "iter": True}, itree)
    return {"kind": "dict", "R": dump(d), "iterative": False, "ev": ev}


class Watch:
    def __init__(self, db, rng, u):
        self.ev, self.rng, self.db, self.u = [], rng, db, u
        self.css = None
        orig, link = db.add, db.link_searcher

        def add(start, ends, rule):
            orig(start, ends, rule)
            pe = rule.possibly_empty
            empty = UNI[u]["empty"]
            self.ev.append({"op": "add", "start": start, "ends": list(ends),
                            "drop": [pe and c.i in empty for c in rule.children],
                            "two": bool(rule.is_two_way()), "ver": hasattr(rule.strategy, "verified")})
            if self.rng.random() < 0.5:
                self.look()

        def lnk(css):
            self.css = css
            link(css)
        db.add, db.link_searcher = add, lnk

    def look(self):
        db, rng = self.db, self.rng
        e = {"op": "look", "root": 0, "t": [], "smallest": False}
        e["has"] = bool(db.has_specification())
        cdb = self.css.classdb
        n = 0
        while n in cdb:
            n += 1
        e["n"] = n
        e["verified"] = True
        e["verl"] = [x for x in range(n) if db.is_verified(x)]
        f = getattr(db, "_get_specification_node", None)
        if e["has"] and f is not None and rng.random() < 0.5:
            random.seed(rng.random())
            iterative = self.css.strategy_pack.iterative
            sm = not iterative and rng.random() < 0.6 and small(db.pruned_dict)
            node = f(minimization_time_limit=0, smallest=sm)
            e["t"], e["smallest"] = preorder(node), sm
        self.ev.append(e)


def db_case(u, rng, mode):
    db = rng.choice([RuleDB, RuleDBForgetStrategy])()
    w = Watch(db, rng, u)
    try:
        with limit(30):
            css = searcher(u, db, expand_verified=rng.random() < 0.6)
            if mode == "search":
                for _ in range(30):
                    try:
                        css.do_level()
                    except NoMoreClassesToExpandError:
                        break
            else:
                rules = pack_rules(u)
                rng.shuffle(rules)
                for r in rules[:30]:
                    st = css.classdb.get_label(r.comb_class)
                    db.add(st, tuple(css.classdb.get_label(c) for c in r.children), r)
            w.look()
    except CaseTimeout:
        w.ev.append({"op": "exc", "exc": "hang"})
    except Exception as x:  # pylint: disable=broad-except
        w.ev.append({"op": "exc", "exc": errs(x)})
    return {"kind": "db", "iterative": UNI[u]["pack"]["iterative"], "mode": mode, "uni": u, "ev": w.ev}


def run(chk):
    rng = random.Random(chk.seed)
    for c in ["PruneMC.cfg", "PruneMC3.cfg"] + ([] if chk.quick else ["PruneMC2.cfg"]):
        chk.design("Prune.tla", c)
    cases = []
    for i in range(300 if chk.quick else 6000):
        cases.append(dict_case(rng))
        if i % 3 == 0:  # several random choices over the same dictionary
            n, d = rand_dict(rng)
            cases += [dict_case(rng, n, d) for _ in range(3)]
    for i in range(400 if chk.quick else 4000):
        u = random_universe(random.Random(f"{chk.seed}-{i}"), f"c05-{i}")
        for mode in ("search", "shuffled"):
            cases.append(db_case(u, rng, mode))
        del UNI[u]
        if chk.left(16 if chk.quick else 600) < 0:
            break
    chk.judge("PruneTrace", cases, cfg="Trace.cfg", batch=1000)
