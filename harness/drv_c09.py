"""C09: every rule form counts its parent correctly from its children."""
import random

import ruleforms


def run(chk):
    rng = random.Random(chk.seed)
    cases = []
    a, b = (260, 120) if chk.quick else (4000, 2500)
    for u, steps, p in ruleforms.random_forms(rng, a, b):
        if chk.left(1e9 if chk.quick else 700) < 0:
            break
        rec = ruleforms.Recorder(u, steps, p, 5)
        rec.terms()
        cases.append(rec.case)
    chk.judge("RuleTrace", cases, cfg="Trace.cfg", batch=2000)
