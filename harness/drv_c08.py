"""C08: exact distributions of samplers."""
import random

import grammar
import ruleforms
import specview
import words
import wsearch
from specview import View


def forms(chk, rng, a, b, secs):
    cases = []
    for u, steps, p in ruleforms.random_forms(rng, a, b):
        if chk.left(secs) < 0:
            break
        rec = ruleforms.Recorder(u, steps, p, 4)
        rec.samples()
        cases.append(rec.case)
    return cases


def warm(spec):
    """Find the specifications the verified classes are sampled from beforehand."""
    for r in specview.all_rules(spec):
        if isinstance(r.strategy, (words.Ver, grammar.GVer)) and not r.strategy.own:
            warm(r.strategy.get_specification(r.comb_class))


def specs(chk, rng, num, secs):
    cases = []
    cap = 700 if chk.quick else 6000
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        cf = (wsearch.rand_gconfig(rng) if rng.random() < 0.3 else
              wsearch.rand_config(rng, plain=rng.random() < 0.3, rev=0.1))
        _, spec, _ = wsearch.run(cf)
        if spec is None:
            continue
        warm(spec)
        v = View([cf.pack])
        v.idx(cf.start)
        ev = []
        for n in range(6):
            ps = specview.grid(cf.start, n)
            good = [p for p in ps if p in cf.start.true_terms(n)]
            ps = rng.sample(good, min(len(good), 4)) + rng.sample(ps, min(len(ps), 2))
            for p in dict.fromkeys(ps):
                e = specview.sample(v, spec, n, p, cap)
                if e:
                    ev.append(e)
            if not cf.start.extra_parameters and cf.start.true_terms(n)[()] > 40:
                break
        if ev:
            cases.append(v.case(cf.start, ev, cf=wsearch.describe(cf)))
    return cases


def run(chk):
    rng = random.Random(chk.seed)
    f = forms(chk, rng, *((220, 120) if chk.quick else (3000, 1500)), 8 if chk.quick else 200)
    s = specs(chk, rng, 500 if chk.quick else 8000, 18 if chk.quick else 500)
    chk.extra["rule_forms"], chk.extra["specifications"] = len(f), len(s)
    chk.extra["distributions"] = sum(len(c["ev"]) for c in s)
    chk.extra["refusals"] = sum(e["exc"] == "refused" for c in s for e in c["ev"])
    chk.judge("RuleTrace", f, cfg="Trace.cfg", batch=2000)
    chk.judge("SpecTrace", s, cfg="Trace.cfg", batch=1000)
