"""C10: declared shifts bound what a rule reads when counting."""
import random

import ruleforms
import specview
import wsearch
from specview import View


def specs(chk, rng, num, secs, most):
    cases = []
    for _ in range(num):
        if chk.left(secs) < 0 or len(cases) >= most:
            break
        cf = wsearch.rand_gconfig(rng) if rng.random() < 0.35 else wsearch.rand_config(rng, rev=0.6)
        _, spec, _ = wsearch.run(cf)
        if spec is None or len(spec.rules_dict) > 60:
            continue
        v = View([cf.pack])
        v.idx(cf.start)
        cases.append(v.case(cf.start, specview.reads(v, spec, 6), cf=wsearch.describe(cf)))
    return cases


def run(chk):
    rng = random.Random(chk.seed + 10)
    cases = []
    a, b = (350, 100) if chk.quick else (6000, 2500)
    for u, steps, p in ruleforms.random_forms(rng, a, b):
        rec = ruleforms.Recorder(u, steps, p, 6)
        rec.terms(reads=True)
        cases.append(rec.case)
    chk.judge("RuleTrace", cases, cfg="Trace.cfg", batch=2000)
    s = specs(chk, rng, 5000, 18 if chk.quick else 600, 250 if chk.quick else 6000)
    chk.extra["specifications"] = len(s)
    chk.judge("SpecTrace", s, cfg="Trace.cfg", batch=1000)
