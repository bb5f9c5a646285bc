"""C06: histories of EquivalenceDB judged by EquivTrace."""
import random

from common import CaseTimeout, err, limit
from comb_spec_searcher.equiv_db import EquivalenceDB


def query(db, n, rng):
    e = {"op": "query", "x": 0, "y": 0, "exc": "", "eq": [], "rep": [], "ver": [], "paths": []}
    try:
        with limit(30):
            # the order in which questions are asked must not matter
            order = list(range(n))
            rng.shuffle(order)
            rep, ver, eq = [0] * n, [False] * n, [[False] * n for _ in range(n)]
            for x in order:
                ver[x] = bool(db.is_verified(x))
                for y in range(n):
                    eq[x][y] = bool(db.equivalent(x, y))
            for x in range(n):
                rep[x] = db[x]
            e.update(eq=eq, rep=rep, ver=ver)
            for x in range(n):
                for y in range(n):
                    if eq[x][y]:
                        e["paths"].append({"x": x, "y": y, "p": list(db.find_path(x, y))})
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:
        e["exc"] = err(x)
    if e["exc"]:
        e.update(eq=[[i == j for j in range(n)] for i in range(n)], rep=list(range(n)),
                 ver=[False] * n, paths=[])
    return e


def run_case(n, ops, mode, rng):
    db = EquivalenceDB()
    ev = []
    for op, x, y in ops:
        e = {"op": op, "x": x, "y": y, "exc": ""}
        try:
            with limit(30):
                if op == "two":
                    db.add_two_way_edge(x, y)
                elif op == "one":
                    db.add_one_way_edge(x, y)
                elif op == "ver":
                    db.set_verified(x)
                elif op == "connect":
                    db.connect_cycles()
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as z:
            e["exc"] = err(z)
        ev.append(e)
        if e["exc"]:
            break
        if mode == "all" or (mode == "connect" and op == "connect") or (
                mode == "some" and rng.random() < 0.2):
            ev.append(query(db, n, rng))
    ev.append(query(db, n, rng))
    return {"n": n, "ev": ev}


def rand_ops(rng):
    n = rng.choice([3, 5, 7, 9, 12])
    labels = list(range(n))
    k = rng.choice([5, 10, 20, 30])
    kinds = rng.choice([["one"] * 6 + ["two", "ver", "connect"],
                        ["one"] * 3 + ["two"] * 2 + ["ver", "connect"],
                        ["one"] * 10 + ["two"] + ["ver"],
                        ["two"] * 4 + ["ver"] * 2 + ["one", "connect"]])
    ops = []
    for _ in range(k):
        op = rng.choice(kinds)
        x, y = rng.choice(labels), rng.choice(labels)
        if op == "connect":
            x = y = 0
        ops.append((op, x, y))
    if rng.random() < 0.3:
        # a long cycle, edges in random order, among the others
        p = labels[:]
        rng.shuffle(p)
        m = rng.randrange(2, n + 1)
        cyc = [("one", p[i], p[(i + 1) % m]) for i in range(m)]
        for c in cyc:
            ops.insert(rng.randrange(len(ops) + 1), c)
    ops.append(("connect", 0, 0))
    for _ in range(rng.randrange(0, 4)):
        ops.append(("ver", rng.choice(labels), 0))
    return n, ops


def run(chk):
    rng = random.Random(chk.seed)
    if chk.quick:
        chk.design("Equiv.tla", "EquivMC.cfg")
    else:
        chk.design("Equiv.tla", "EquivMCThorough.cfg")
        chk.design("Equiv.tla", "EquivMCG.cfg")
    gen = chk.generate("Equiv.tla", "EquivGenQ.cfg" if chk.quick else "EquivGen.cfg")
    chk.extra["generated_behaviours"] = len(gen)
    rng.shuffle(gen)
    cases = []
    modes = ["all", "connect", "some", "end"]
    for i, h in enumerate(gen[: 2500 if chk.quick else 40000]):
        ops = [tuple(x) for x in h] + [("connect", 0, 0)]
        cases.append(run_case(4, ops, modes[i % 4], rng))
    for i in range(800 if chk.quick else 12000):
        n, ops = rand_ops(rng)
        cases.append(run_case(n, ops, modes[i % 4], rng))
    chk.judge("EquivTrace", cases, cfg="Trace.cfg", batch=1500)
