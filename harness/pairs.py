"""Pairs of classes that are, or nearly are, the same up to renaming."""
import grammar
import wsearch
from grammar import G, gram


def renamed(rng, g, letters=True):
    """The grammar with nonterminals, productions, symbols and letters rearranged."""
    n = len(g) - 1
    order = list(range(2, n + 1))
    rng.shuffle(order)
    num = {1: 1, n + 1: n + 1}
    num.update((o, i + 2) for i, o in enumerate(order))
    swap = letters and rng.random() < 0.3
    res = [None] * (n + 1)
    perm = rng.random() < 0.7
    turn = rng.random() < 0.6
    for i, ps in enumerate(g):
        new = []
        for p in ps:
            q = [num[s] if s > 0 else (-3 - s if swap and s > -3 else s) for s in p]
            if turn and rng.random() < 0.7:
                rng.shuffle(q)
            new.append(tuple(q))
        if perm:
            rng.shuffle(new)
        res[num[i + 1] - 1] = tuple(new)
    return tuple(res)


def aliased(rng, g):
    """With an alias for a symbol: N -> s, where s was."""
    n = len(g) - 1
    h = [list(ps) for ps in g[:-1]]
    spots = [(i, j, k) for i, ps in enumerate(h) for j, p in enumerate(ps) for k in range(len(p))]
    if not spots or n > 4:
        return g
    i, j, k = rng.choice(spots)
    s = h[i][j][k]
    new = n + 1
    if s > 0 and rng.random() < 0.4:  # everywhere
        h = [[tuple(new if x == s else x for x in p) for p in ps] for ps in h]
    else:
        p = h[i][j]
        h[i][j] = p[:k] + (new,) + p[k + 1:]
    h = [[tuple(n + 2 if x == n + 1 and (a, b, c) != (i, j, k) and s == n + 1 else x
                for c, x in enumerate(p)) for b, p in enumerate(ps)] for a, ps in enumerate(h)]
    if s == n + 1:
        s = n + 2
    return tuple(tuple(ps) for ps in h) + (((s,),), ())


def chained(rng, g):
    """With aliases of an alias, all of them used."""
    n = len(g) - 1
    if n > 3:
        return g
    dead, u, v = n + 3, n + 1, n + 2
    m = rng.randrange(1, n + 1)
    h = [[tuple(dead if x == n + 1 else rng.choice([m, u, v, v]) if x == m else x for x in p)
          for p in ps] for ps in g[:-1]]
    return tuple(tuple(ps) for ps in h) + (((v,),), ((m,),), ())


def copied(rng, g):
    """With a copy of a nonterminal used at some places, perhaps changed a little."""
    n = len(g) - 1
    if n > 3:
        return g
    m = rng.randrange(1, n + 1)
    dead = n + 1
    h = [[tuple(n + 2 if x == dead else x for x in p) for p in ps] for ps in g[:-1]]
    new = [list(ps) for ps in h] + [[tuple(p) for p in h[m - 1]]]
    for a, ps in enumerate(new):
        new[a] = [tuple(n + 1 if x == m and rng.random() < 0.5 else x for x in p) for p in ps]
    return tuple(tuple(ps) for ps in new) + ((),)


def turned(rng, g):
    """With a choice between symbols in place of their product, or the other way round."""
    h = [list(ps) for ps in g[:-1]]
    spots = [i for i, ps in enumerate(h)
             if len(ps) > 1 and all(len(p) == 1 for p in ps)
             or len(ps) == 1 and 1 < len(ps[0]) == len(set(ps[0]))]
    if not spots:
        return g
    i = rng.choice(spots)
    h[i] = [(s,) for s in h[i][0]] if len(h[i]) == 1 else [tuple(p[0] for p in h[i])]
    return tuple(tuple(ps) for ps in h) + ((),)


def noised(rng, g):
    """With one production changed."""
    n = len(g) - 1
    h = [list(ps) for ps in g[:-1]]
    i = rng.randrange(n)
    r = rng.random()
    if h[i] and r < 0.6:
        j = rng.randrange(len(h[i]))
        p = list(h[i][j])
        if p and rng.random() < 0.8:
            k = rng.randrange(len(p))
            p[k] = rng.choice([-1, -2] if p[k] < 0 or k == 0 else [*range(1, n + 1), -1])
        else:
            p.insert(rng.randrange(len(p) + 1), -1)
        h[i][j] = tuple(p)
    elif h[i] and r < 0.8 and len(h[i]) > 1:
        h[i].pop(rng.randrange(len(h[i])))
    else:
        h[i].append(tuple(rng.choice([[-1], [-1, rng.randrange(1, n + 1)], [-2, -1]])))
    return tuple(tuple(ps) for ps in h) + ((),)


def good(g, most=40):
    """No nonterminal derives itself, and there are not too many objects."""
    gr = gram(g)
    if 1 not in gr.alive or gr.idle:
        return False
    low = {i: gr.low((i,)) for i in gr.alive}
    edges = {i: set() for i in gr.alive}
    for i in gr.alive:
        for p in g[i - 1]:
            if all(s < 0 or s in gr.alive for s in p):
                for k, s in enumerate(p):
                    if s > 0 and all(t > 0 and low[t] == 0 for m, t in enumerate(p) if m != k):
                        edges[i].add(s)
    for i in edges:
        todo, seen = list(edges[i]), set()
        while todo:
            x = todo.pop()
            if x == i:
                return False
            if x not in seen:
                seen.add(x)
                todo += edges[x]
    for m in range(6):
        if max(len(gr.ders((i,), m)) for i in gr.alive) > most:
            return False
    return True


def unary(rng):
    """Small grammars with much of the same: words over one letter, with loops."""
    n = rng.choice([2, 3, 3, 4])
    g = []
    for i in range(n):
        ps = []
        for _ in range(rng.choice([1, 2, 2])):
            ps.append(rng.choice([(-1,), (-1, rng.randrange(1, n + 1)), (-1, rng.randrange(1, n + 1)),
                                  (-1, rng.randrange(1, n + 1), rng.randrange(1, n + 1)), ()]))
        g.append(tuple(ps))
    return tuple(g) + ((),)


# pairs on which matches made under an assumption that fails later matter
HARD = [
    ((((-1, 1), (-1, 2)), ((-1, 3), (-1,)), ((-1, 3), (-1, 2)), ((-1, 4),), ()),
     (((-1, 2), (1, -1)), ((-1,), (-1, 4)), ((3, -1),), ((2, -1), (-1, 4)), ())),
    ((((-1, 1, 3), (-1,)), ((-1, 3), (-1, 2, 1)), ((-1,), (-1, 3, 1)), ()),
     (((-1,), (-1, 1, 3)), ((-1, 3), (-1, 2, 1)), ((-1, 3, 2), (-1,)), ())),
    ((((-1, 3), (-1, 1), (-1, 2)), ((-1, 3, 3), (-1, 1, 2)), ((-1, 2), (-1,), (-1, 2, 3)), ()),
     (((1, -1), (-1, 3), (-1, 2)), ((1, -1, 2), (-1, 3, 1)), ((2, -1), (-1,), (-1, 3, 2)), ())),
    ((((-1, 2), (-1, 1, 2)), ((-1, 3), (-1,)), ((-1, 1), (-1,)), ()),
     (((2, 1, -1), (2, -1)), ((-1, 2), (-1,)), ((-1,), (1, -1)), ())),
    ((((-1, 1, 2), (-1, 4)), ((-1, 2), (-1, 4)), ((-1, 2), (-1, 5)), ((-1, 4), (-1, 3)),
      ((-1, 1), (-1,)), ()),
     (((-1, 1, 4), (-1, 5)), ((-1, 3), (-1, 4)), ((-1, 4), (-1,), (1, -1)), ((4, -1), (5, -1)),
      ((-1, 2), (-1, 5)), ())),
    ((((-1, 1), (-1, 3)), ((-1,), (-1, 3)), ((-1,), (-1, 1)), ()),
     (((-1, 2), (-1, 1)), ((-1, 2), (-1,)), ((-1, 2), (-1,)), ())),
    # an alias of an alias on one side only
    ((((-1, 2), (-1, -1, 3)), ((3,),), ((4,),), ((-1,), (-1, 4)), ()),
     (((-1, 2), (-1, -1, 3)), ((3,),), ((-1,), (-1, 3)), ())),
]


def loops(rng):
    """Two grammars over one letter in which everything can be reached from everything."""
    while True:
        n = rng.choice([3, 4, 5, 6])
        some = lambda: rng.randrange(1, n + 1)
        g = tuple(tuple(rng.choice([(-1,), (-1, some()), (-1, some()), (-1, some(), some())])
                        for _ in range(rng.choice([1, 2, 2, 2, 3]))) for _ in range(n)) + ((),)
        h = noised(rng, g) if rng.random() < 0.5 else g
        if rng.random() < 0.15:
            g, h = g, turned(rng, g)
            if rng.random() < 0.5:
                g, h = h, g
        if rng.random() < 0.2:
            g = chained(rng, g)
        if rng.random() < 0.2:
            h = (chained if rng.random() < 0.5 else aliased)(rng, h)
        if rng.random() < 0.02:
            g, h = rng.choice(HARD)
        if rng.random() < 0.8:
            h = renamed(rng, h, False)
        if good(g, 400) and good(h, 400):
            return g, h


def grammars(rng):
    """Two grammars."""
    while True:
        g = unary(rng) if rng.random() < 0.4 else grammar.rand_grammar(rng)
        if rng.random() < 0.5:
            g = copied(rng, g)
        h = g
        if rng.random() < 0.2:
            g = chained(rng, g)
        for f, p in ((copied, 0.15), (chained, 0.1), (aliased, 0.3), (aliased, 0.2), (noised, 0.3),
                     (turned, 0.12),
                     (renamed, 0.8), (aliased, 0.15)):
            if rng.random() < p:
                h = f(rng, h)
        if rng.random() < 0.2:
            g = aliased(rng, g)
        if rng.random() < 0.08:
            h = unary(rng)
        if rng.random() < 0.5:
            g, h = h, g
        if good(g) and good(h):
            return g, h


def starts(rng, stats=None, shift=True):
    """Two start classes over grammars."""
    g, h = grammars(rng)
    st = [rng.choice(["a", "b", "ab"]) for _ in range(rng.choice([0, 0, 0, 1, 2])
                                                      if stats is None else stats)]
    f1, f2 = (1,), (1,)
    if shift and rng.random() < 0.25:  # start from another form
        fs = [p for p in g[0] if p and all(s < 0 or s in gram(g).alive for s in p)]
        hs = [p for p in h[0] if p and all(s < 0 or s in gram(h).alive for s in p)]
        if fs and hs:
            f1, f2 = rng.choice(fs), rng.choice(hs)
            same = [p for p in hs if len(p) == len(f1)]
            if same:
                f2 = rng.choice(same)
    if not st or rng.random() < 0.7:
        st2 = st
    else:
        st2 = [rng.choice(["a", "b", "ab"]) for _ in st]
    return G(g, f1, st), G(h, f2, st2)


def words(rng):
    """Two word classes: one, and its image under a symmetry of words."""
    a = wsearch.rand_start(rng, stats=rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.6 and len(a.A) > 1:
        a = a.make(must="")
    t = str.maketrans("abc", rng.choice(["bac", "abc", "cba", "bca"]) if len(a.A) == 3 else
                      rng.choice(["bac", "abc"]) if len(a.A) == 2 else "abc")
    pats = [p.translate(t) for p in a.pats]
    if rng.random() < 0.5 and not a.pre:
        pats = [p[::-1] for p in pats]
    if rng.random() < 0.2 and pats:
        pats[0] = rng.choice([p for p in wsearch.PATS if all(x in a.A for x in p)])
    b = a.make(pats=pats, pre=a.pre.translate(t), must=a.must.translate(t),
               st=["".join(sorted(S.translate(t))) for S in a.st])
    return a, b
