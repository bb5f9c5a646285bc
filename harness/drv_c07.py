"""C07: generated objects and object maps, of synthetic rule forms and of
specifications found by real searches over word universes."""
import random

import ruleforms
import specview
import wsearch
from specview import View


def forms(chk, rng, a, b, secs):
    cases = []
    for u, steps, p in ruleforms.random_forms(rng, a, b):
        if chk.left(secs) < 0:
            break
        rec = ruleforms.Recorder(u, steps, p, 4)
        rec.objects()
        rec.maps()
        cases.append(rec.case)
    return cases


def specs(chk, rng, num, secs):
    cases = []
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        cf = (wsearch.rand_gconfig(rng) if rng.random() < 0.3 else
              wsearch.rand_config(rng, plain=rng.random() < 0.3))
        _, spec, _ = wsearch.run(cf)
        if spec is None:
            continue
        v = View([cf.pack])
        v.idx(cf.start)
        ev = [v.objects(spec, 4 if len(cf.start.A) > 2 or hasattr(cf.start, "g") else 5)]
        seen = set()
        for r in specview.all_rules(spec):
            k = (type(r).__name__, specview.skey(r.strategy), r.comb_class, r.children)
            if k in seen:
                continue
            seen.add(k)
            ev.append(specview.maps(v, r, 4))
        ev = [e for e in ev if e]
        rng.shuffle(ev)
        cases.append(v.case(cf.start, ev[:25], cf=wsearch.describe(cf)))
    return cases


def run(chk):
    rng = random.Random(chk.seed)
    f = forms(chk, rng, *((220, 120) if chk.quick else (3000, 1500)), 6 if chk.quick else 150)
    s = specs(chk, rng, 500 if chk.quick else 8000, 14 if chk.quick else 450)
    chk.extra["rule_forms"], chk.extra["specifications"] = len(f), len(s)
    kinds = {}
    for c in s:
        for e in c["ev"]:
            k = e.get("form", "objects")
            kinds[k] = kinds.get(k, 0) + 1
    chk.extra["events"] = kinds
    chk.judge("RuleTrace", f, cfg="Trace.cfg", batch=2000)
    chk.judge("SpecTrace", s, cfg="Trace.cfg", batch=1000)
