"""Random rule universes for the forest checks."""


def rand_universe(rng, buckets=False):
    n = rng.choice([2, 3, 4, 5, 6, 8])
    k = rng.choice([3, 6, 10, 15, 22])
    shifts = rng.choice([[-1, 0, 1], [0, 1, 2], [-2, -1, 1, 2, 3], [-3, 3, 1, 4], [0, 1],
                         [-1, 1], [-5, 6, 1, 0], [0], [0, 0, 0, 5], [-4, -1, 4, 7]])
    arity = rng.choice([[0, 1, 2], [1], [1, 1, 1, 0], [1, 2, 3], [0, 1, 1, 2, 3, 4], [2]])
    rules = []
    for _ in range(k):
        a = rng.choice(arity)
        p = rng.randrange(n)
        c = sorted(rng.randrange(n) for _ in range(a))
        s = [rng.choice(shifts) for _ in range(a)]
        rules.append({"p": p, "c": c, "s": s})
    if rng.random() < 0.4:
        # a cycle with chosen total gain, inserted among the rest
        m = rng.randrange(1, n + 1)
        p = list(range(n))
        rng.shuffle(p)
        for i in range(m):
            rules.insert(rng.randrange(len(rules) + 1),
                         {"p": p[i], "c": [p[(i + 1) % m]], "s": [rng.choice(shifts)]})
    if rng.random() < 0.3:
        # late growth of the gap
        r = {"p": rng.randrange(n), "c": [rng.randrange(n)], "s": [rng.choice([5, -6, 9, -9])]}
        rules.append(r)
    if rng.random() < 0.2 and rules:
        rules.append(dict(rng.choice(rules)))  # the same rule again
    # labels shuffled so that no label order is special
    perm = list(range(n))
    rng.shuffle(perm)
    for r in rules:
        pairs = sorted((perm[x], s) for x, s in zip(r["c"], r["s"]))
        r["p"], r["c"], r["s"] = perm[r["p"]], [x for x, _ in pairs], [s for _, s in pairs]
    if buckets:
        for r in rules:
            r["b"] = rng.choice(["normal", "normal", "reverse", "reverse", "equivalence"]) if r["c"] else \
                rng.choice(["verification", "normal"])
            if r["b"] == "equivalence" and len(r["c"]) != 1:
                r["b"] = "normal"
            if rng.random() < 0.1:
                r["b"] = rng.choice(["normal", "reverse", "equivalence", "verification"])
    return n, rules


def key(r):
    from comb_spec_searcher.typing import ForestRuleKey, RuleBucket
    b = {"normal": RuleBucket.NORMAL, "reverse": RuleBucket.REVERSE,
         "equivalence": RuleBucket.EQUIV, "verification": RuleBucket.VERIFICATION}
    return ForestRuleKey(r["p"], tuple(r["c"]), tuple(r["s"]), b[r.get("b", "normal")])


def unkey(k):
    from comb_spec_searcher.typing import RuleBucket
    b = {RuleBucket.NORMAL: "normal", RuleBucket.REVERSE: "reverse",
         RuleBucket.EQUIV: "equivalence", RuleBucket.VERIFICATION: "verification"}
    return {"p": k.parent, "c": list(k.children), "s": list(k.shifts),
            "b": b.get(k.bucket, "undefined")}
