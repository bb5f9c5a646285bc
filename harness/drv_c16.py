"""C16: histories of the work queue judged by QueueTrace."""
import random

from common import CaseTimeout, err, limit
from comb_spec_searcher import AtomStrategy, StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError


def _mk():
    from comb_spec_searcher import DisjointUnionStrategy

    class Mark(DisjointUnionStrategy):
        """A strategy identified by its tag; never applied here."""

        def __init__(self, tag):
            super().__init__()
            self.tag = tag

        def decomposition_function(self, comb_class):
            return None

        def formal_step(self):
            return str(self.tag)

        def forward_map(self, comb_class, obj, children=None):
            raise NotImplementedError

        @classmethod
        def from_dict(cls, d):
            return cls(d["tag"])

        def __hash__(self):
            return hash(tuple(self.tag))

    return Mark


Mark = _mk()


def make_pack(p):
    return StrategyPack(
        initial_strats=[Mark(["init", i + 1]) for i in range(p["init"])],
        inferral_strats=[Mark(["infs", i + 1]) for i in range(p["inf"])],
        expansion_strats=[[Mark(["exp", k + 1, i + 1]) for i in range(n)]
                          for k, n in enumerate(p["exp"])],
        ver_strats=[AtomStrategy()],
        name="marks",
    )


def packet(wp):
    label, strats, inf = wp
    return {"label": label, "inf": bool(inf), "items": [s.tag for s in strats]}


def run_case(p, ops, drain):
    q = DefaultQueue(make_pack(p))
    ev = []
    gen = None

    def step(op, a):
        nonlocal gen
        e = {"op": op, "a": a, "lv0": q.levels_completed}
        try:
            with limit(20):
                if op == "add":
                    q.add(a)
                    out = "ok"
                elif op == "stop":
                    q.set_stop_yielding(a)
                    out = "ok"
                elif op == "verified":
                    q.set_verified(a)
                    out = "ok"
                elif op == "notinf":
                    q.set_not_inferrable(a)
                    out = "ok"
                elif op == "next":
                    try:
                        e["pk"] = packet(next(q))
                        out = "packet"
                    except StopIteration:
                        out = "StopIteration"
                elif op == "lnext":
                    if gen is None:
                        gen = q.do_level()
                    try:
                        e["pk"] = packet(next(gen))
                        out = "packet"
                    except StopIteration:
                        out = "end"
                        gen = None
                    except NoMoreClassesToExpandError:
                        out = "NoMoreClassesToExpandError"
                        gen = None
        except CaseTimeout:
            out = "hang"
        except Exception as x:
            out = err(x)
            gen = None
        e["out"] = out
        e["lv1"] = q.levels_completed
        ev.append(e)
        return out

    dead = False
    for op, a in ops:
        if step(op, a) == "hang":
            dead = True
            break
    if drain and not dead:
        # drain to exhaustion, and see that exhaustion persists
        nitems = 1 + p["init"] + sum(p["exp"])
        bound = nitems * (1 + len({a for _, a in ops})) + 5
        for _ in range(bound):
            if step("next", 0) != "packet":
                break
        else:
            ev.append({"op": "never_exhausted", "a": 0, "lv0": 0, "lv1": 0, "out": "x"})
        step("next", 0)
        step("lnext", 0)
    return {"pack": p, "ev": ev}


def rand_pack(rng):
    return {
        "inf": rng.choice([0, 1, 2, 3]),
        "init": rng.choice([0, 1, 1, 2, 3]),
        "exp": [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
    }


def rand_ops(rng, n):
    labels = list(range(rng.choice([2, 4, 8])))
    mode = rng.choice(["next", "lnext", "mix"])
    wstop = rng.choice([0, 1, 2])
    wnot = rng.choice([0, 1, 2])
    ops = []
    for _ in range(n):
        op = rng.choice(["add"] * 4 + ["stop"] * wstop + ["verified"] * (wstop // 2)
                        + ["notinf"] * wnot + ["get"] * 6)
        if op == "get":
            op = mode if mode != "mix" else rng.choice(["next", "next", "next", "lnext"])
            # switching from one open level iteration to plain next is fine: both
            # draw from the same queue
        ops.append((op, rng.choice(labels)))
    return ops


PACKS = {
    "111": {"inf": 1, "init": 1, "exp": [1]},
    "0021": {"inf": 0, "init": 0, "exp": [2, 1]},
    "120": {"inf": 1, "init": 2, "exp": []},
    "1011": {"inf": 1, "init": 0, "exp": [1, 1]},
    "011": {"inf": 0, "init": 1, "exp": [1]},
}


def run(chk):
    import os
    rng = random.Random(chk.seed)
    cases = []
    for name, p in PACKS.items():
        os.environ["PACK"] = name
        chk.design("QueueMC.tla", "QueueMC.cfg" if chk.quick else "QueueMCThorough.cfg")
        gen = chk.generate("QueueMC.tla", "QueueGen.cfg" if chk.quick else "QueueGenThorough.cfg")
        rng.shuffle(gen)
        chk.extra["generated_" + name] = len(gen)
        for i, h in enumerate(gen[: 1000 if chk.quick else 20000]):
            nxt = "next" if i % 3 else "lnext"
            ops = [(nxt if op == "next" else op, a) for op, a in h]
            cases.append(run_case(p, ops, True))
    for i in range(500 if chk.quick else 6000):
        cases.append(run_case(rand_pack(rng), rand_ops(rng, rng.choice([20, 60, 120])),
                              rng.random() < 0.8))
    chk.judge("QueueTrace", cases, cfg="Trace.cfg")
