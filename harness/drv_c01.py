"""C01: counts of specifications found by real searches over word universes."""
import random

import wsearch
from common import CaseTimeout
from specview import View


def run(chk):
    rng = random.Random(chk.seed)
    num, secs = (900, 14) if chk.quick else (20000, 500)
    if not chk.quick:
        chk.design("WordsMC", "WordsMC.cfg")
    cases, found = [], 0
    for i in range(num):
        if chk.left(secs) < 0:
            break
        gram = rng.random() < 0.25
        cf = wsearch.rand_gconfig(rng) if gram else wsearch.rand_config(rng)
        css, spec, exc = wsearch.run(cf)
        v = View([cf.pack])
        v.idx(cf.start)
        ev = [{"op": "search", "exc": exc}]
        if spec is not None:
            found += 1
            k, s = len(cf.start.A), len(cf.start.st)
            if gram:
                top = {0: 8, 1: 6, 2: 5}[s]
            else:
                top = {0: 10, 1: 9, 2: 7, 3: 6}[s] - (2 if k > 2 else 0)
            ev.append(v.counts(spec, top))
        cases.append(v.case(cf.start, ev, cf=wsearch.describe(cf)))
    chk.extra["specifications"] = found
    chk.judge("SpecTrace", cases, cfg="Trace.cfg", batch=3000)
