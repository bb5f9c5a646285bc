"""C19: expanding the verified classes of specifications."""
import random
from types import SimpleNamespace

import drv_c18
import grammar
import words
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View
from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import (InvalidOperationError, NoMoreClassesToExpandError,
                                          SpecificationNotFound)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest
from comb_spec_searcher.strategies import StrategyFactory
from comb_spec_searcher.strategies.rule import (EquivalencePathRule, EquivalenceRule, ReverseRule,
                                                VerificationRule)

CHOSEN: dict = {}  # name -> {class: pack or None}


class Chosen(words.Ver):
    """Verifies chosen classes, each with a pack of its own (or none)."""

    def __init__(self, k, own=True, ignore_parent=True):
        super().__init__("any", "", own, ignore_parent)
        self.k = k

    def verified(self, comb_class):
        return comb_class in CHOSEN[self.k]

    def pack(self, comb_class):
        if CHOSEN[self.k].get(comb_class) is None:
            raise InvalidOperationError("no pack")
        return CHOSEN[self.k][comb_class]

    def get_specification(self, comb_class):
        key = (self.k, comb_class)
        if key not in words.SPECS:
            words.SPECS[key] = super(words.Ver, self).get_specification(comb_class)
        return words.SPECS[key]

    def formal_step(self):
        return f"chosen {self.k}"

    def __repr__(self):
        return f"Chosen({CHOSEN[self.k]})".replace("\n", " ")


def with_ver(pack, *vers, first=True):
    vs = [*vers, *pack.ver_strats] if first else [*pack.ver_strats, *vers]
    return StrategyPack(pack.initial_strats, pack.inferral_strats, pack.expansion_strats, vs,
                        pack.name, pack.symmetries, False)


def searches(pack, c, reverse, most=40):
    """Does the pack count the class?  None if the universe may not be finite."""
    try:
        with limit(1), wsearch.Clock(random.Random(1), (0.0,), 10**9):
            css = CombinatorialSpecificationSearcher(c, pack, ruledb=RuleDBForest(reverse=reverse))
            while True:
                try:
                    css.do_level()
                except NoMoreClassesToExpandError:
                    break
                if css.ruledb.has_specification():
                    return True
                if len(css.classdb.label_to_info) > most:
                    return None
            return bool(css.ruledb.has_specification())
    except CaseTimeout:
        return None


def rev_case(rng, num):
    """A class of words and a pack that counts it only by reverse rules, if possible."""
    cf = wsearch.rand_config(rng, rev=1)
    for _ in range(num):
        if cf.pack.name.startswith("rev") and not searches(cf.pack, cf.start, False) and searches(
                cf.pack, cf.start, True):
            return cf
        cf = wsearch.rand_config(rng, rev=1)
    return None


def several_reverse(rng):
    """A search with several verified classes, counted by their packs by reverse rules only."""
    cf = wsearch.rand_config(rng, rev=0, vers=False, iterative=False)
    if rng.random() < 0.7:
        cf.pack = words.PACKS["must"]()
    _, s, _ = wsearch.run(cf, 2, 60)
    if s is None or not 3 <= len(s.rules_dict) < 30:
        return None
    cl = sorted((c for c in s.comb_classes()
                 if c != cf.start and not c.is_atom() and not c.is_empty()), key=repr)
    some = {}
    for c in cl[:10]:
        for _ in range(3):
            p = wsearch.needs_reverse_pack(rng)
            if searches(p, c, False) is False and searches(p, c, True):
                some[c] = p
                break
    if len(some) < 2:
        return None
    k = f"k{len(CHOSEN)}"
    CHOSEN[k] = some
    cf.pack = with_ver(cf.pack, Chosen(k, ignore_parent=rng.random() < 0.7))
    return cf


def mirrored_pack(rng):
    """The class, its mirror image and rules between them that stop one of them."""
    g, b = grammar, rng.random() < 0.5
    main = [g.Unfold(rot=rng.choice([0, 1]), pad=rng.choice([0, 0, 2])), g.Split(how="first")]
    init = [g.Sort(up=not b, two=rng.random() < 0.8, workable=rng.random() < 0.7)]
    init += [main.pop()] if rng.random() < 0.3 else []
    return StrategyPack(
        init, [g.Sort(up=b, possibly_empty=False, ignore_parent=rng.random() < 0.7)]
        if rng.random() < 0.7 else [], [main], [g.AtomV()], name="mirrored", symmetries=[g.Flip()])


def expansion(rng, c, depth, stats):
    """A pack that counts the class, None if none is found."""
    gram = isinstance(c, grammar.G)
    for _ in range(6):
        if gram:
            p = grammar.rand_pack(rng, vers=False, iterative=False)
        elif rng.random() < 0.3:
            p = wsearch.needs_reverse_pack(rng)
        else:
            p = wsearch.rand_pack(rng, vers=False, iterative=False)
        if gram and rng.random() < 0.25:
            p = mirrored_pack(rng)
        elif rng.random() < 0.3:
            p = grammar.plain_pack(pad=rng.choice([0, 1])) if gram else words.base_pack()
        if depth and rng.random() < 0.5:
            # the pack leaves some classes verified, with packs of their own
            try:
                with limit(1), wsearch.Clock(random.Random(1), (0.0,), 10**9):
                    s = CombinatorialSpecificationSearcher(
                        c, p, ruledb=RuleDBForest(reverse=True)).auto_search()
                cl = [x for x, r in s.rules_dict.items() if x != c and not x.is_atom()]
            except (SpecificationNotFound, CaseTimeout):
                continue
            if cl:
                p = with_ver(p, choose(rng, rng.sample(cl, min(len(cl), rng.choice([1, 2]))),
                                       depth - 1, stats), first=rng.random() < 0.7)
        plain = searches(p, c, False)
        if plain is None:
            continue
        if plain and rng.random() < 0.95:
            return p
        if not plain and searches(p, c, True):
            stats["reverse_needed"] = stats.get("reverse_needed", 0) + 1
            return p
    return None


def choose(rng, classes, depth, stats, bare=0.1):
    k = f"k{len(CHOSEN)}"
    CHOSEN[k] = {}  # the packs may make further choices
    CHOSEN[k] = {c: None if rng.random() < bare else expansion(rng, c, depth, stats)
                 for c in classes}
    return Chosen(k, ignore_parent=rng.random() < 0.7)


def packs_of(pack, seen=None):
    """The pack, and the packs its verifications offer."""
    seen = [] if seen is None else seen
    if not any(p is pack for p in seen):
        seen.append(pack)
        for s in pack.ver_strats:
            if isinstance(s, Chosen):
                for p in CHOSEN[s.k].values():
                    if p is not None:
                        packs_of(p, seen)
            elif getattr(s, "packname", ""):
                packs_of((words if isinstance(s, words.Ver) else grammar).PACKS[s.packname](), seen)
    return seen


def rules(spec):
    """Every rule object of a specification."""
    todo, res = list(spec.rules_dict.values()), {}
    while todo:
        r = todo.pop()
        if id(r) in res:
            continue
        res[id(r)] = r
        if isinstance(r, EquivalencePathRule):
            todo += r.rules
        if isinstance(r, (EquivalenceRule, ReverseRule)):
            todo.append(r.original_rule)
    return res


def offers(spec):
    for c, r in list(spec.rules_dict.items()):
        if isinstance(r, VerificationRule):
            try:
                r.strategy.pack(c)
            except InvalidOperationError:
                continue
            yield c


def base_search(rng):
    """A specification with some verified classes that can be expanded."""
    gram = rng.random() < 0.4
    stats = {}
    if not gram and rng.random() < 0.4:
        cf = several_reverse(rng)
        if cf is None:
            return None
        stats["several_reverse"] = 1
    elif not gram and rng.random() < 0.25:
        cf = rev_case(rng, 4)
        if cf is None:
            return None
        # the class is reached from another one, or is the start itself
        c, p = cf.start, cf.pack
        k = f"k{len(CHOSEN)}"
        CHOSEN[k] = {c: p}
        up = [c]
        if c.pre and not c.must:
            up.append(c.make(pre=c.pre[:-1]))
        if c.must:
            up.append(c.make(must=""))
        up = [x for x in up if not x.is_empty()]
        cf = wsearch.rand_config(rng, rev=0, vers=False, iterative=False)
        cf.start = rng.choice(up)
        cf.pack = with_ver(cf.pack, Chosen(k, ignore_parent=rng.random() < 0.7),
                           first=rng.random() < 0.8)
        stats["reverse_needed"] = 1
    elif rng.random() < 0.3 and not gram:
        cf = wsearch.rand_config(rng, rev=0, iterative=False)
        cf.pack = with_ver(cf.pack, words.Ver(rng.choice(["one", "nopats", "prefix2", "b", "must"]),
                                              rng.choice(["base", "nested", "nested2"])))
    else:
        cf = wsearch.rand_gconfig(rng, vers=rng.random() < 0.3) if gram else wsearch.rand_config(
            rng, rev=0.15, vers=rng.random() < 0.3, iterative=False)
        cf.pack = with_ver(cf.pack)
        _, s, _ = wsearch.run(cf, 5, 100)
        if s is None or len(s.rules_dict) > 40:
            return None
        cl = [c for c in s.comb_classes() if not c.is_atom() and not c.is_empty()]
        if not cl:
            return None
        cl = sorted((c for c in cl if c != cf.start), key=repr)
        pick = rng.sample(cl, min(len(cl), rng.choice([1, 2, 3, 3, 4, 5])))
        if rng.random() < 0.08 or not pick:
            pick = [cf.start]
        cf.pack = with_ver(cf.pack, choose(rng, pick, rng.choice([0, 0, 1, 2]), stats),
                           first=rng.random() < 0.85)
    if cf.db not in wsearch.DBS:
        return None
    return cf, stats


def expand(v, spec, how, rng, num):
    """The event, the expanded specification."""
    before = drv_c18.content(num, spec)
    e = {"op": "expand", "how": how, "offers": [], "left": [], "shared": 0, "unchanged": True,
         "found": True, "must": how == "all", "exc": ""}
    old = rules(spec)
    e["offers"] = [v.idx(c) for c in offers(spec)]
    new = None
    try:
        with limit(20), wsearch.Clock(rng, (0.0001,), 10**9):
            if how == "all":
                new = spec.expand_verified()
            else:
                c = rng.choice(list(offers(spec)))
                new = spec.expand_comb_class(
                    c if rng.random() < 0.5 else spec.get_label(c), spec.rules_dict[c].strategy.pack(c),
                    reverse=rng.random() < 0.6, continue_expanding_verified=rng.random() < 0.5)
        e["left"] = [v.idx(c) for c in offers(new)]
        e["shared"] = len(set(old) & set(rules(new)))
    except SpecificationNotFound:
        e["found"] = False
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    e["unchanged"] = drv_c18.content(num, spec) == before
    return e, new


def cases(chk, rng, num, secs):
    res, ex = [], {}
    for _ in range(num):
        if chk.left(secs) < 0:
            break
        CHOSEN.clear()
        words.SPECS.clear()
        try:
            with limit(8):
                got = base_search(rng)
        except CaseTimeout:
            got = None
        if got is None:
            continue
        cf, stats = got
        _, spec, _ = wsearch.run(cf, 8)
        if spec is None or len(spec.rules_dict) > 40:
            continue
        offered = list(offers(spec))
        if (not offered and rng.random() < 0.9) or (
                len(offered) == 1 and rng.random() < 0.6 and not set(stats) & {"reverse_needed"}):
            continue
        if any(isinstance(r, EquivalencePathRule) and r.children[0] in offered
               for r in spec.rules_dict.values()):
            ex["at_the_end_of_a_path"] = ex.get("at_the_end_of_a_path", 0) + 1
        v = View(packs_of(cf.pack))
        v.idx(cf.start)
        n = drv_c18.Num()
        st = len(cf.start.st)
        top = {0: 8, 1: 6}.get(st, 5) - (1 if isinstance(cf.start, grammar.G) else 0)
        ev = []
        try:
            with limit(6):
                if rng.random() < 0.4:
                    spec.get_terms(rng.randrange(top))
                if rng.random() < 0.2:
                    spec.get_objects(rng.randrange(3))
                if rng.random() < 0.2:
                    n2 = rng.randrange(4)
                    spec.count_objects_of_size(n2, **{k: 0 for k in cf.start.extra_parameters})
        except (CaseTimeout, NotImplementedError):
            continue
        how = "all" if rng.random() < 0.8 or not list(offers(spec)) else "one"
        noff = len(list(offers(spec)))
        e, new = expand(v, spec, how, rng, n)
        ev.append(e)
        ex["specifications"] = ex.get("specifications", 0) + 1
        ex[f"verified_{min(noff, 4)}"] = ex.get(f"verified_{min(noff, 4)}", 0) + 1
        for k, c in stats.items():
            ex[k] = ex.get(k, 0) + c
        if not e["found"]:
            ex["not_found"] = ex.get("not_found", 0) + 1
        if new is not None:
            if any(isinstance(r, (ReverseRule, EquivalenceRule)) for r in rules(new).values()):
                ex["with_reverse_or_equivalence"] = ex.get("with_reverse_or_equivalence", 0) + 1
            if len(new.rules_dict) <= 50:
                ev.append(v.spec(new))
            ev.append(v.counts(new, top, 3))
            o = v.objects(new, min(top, 3)) if rng.random() < 0.3 else None
            if o:
                ev.append(o)
        ev.append(v.spec(spec))
        ev.append(v.counts(spec, top, 3))
        o = v.objects(spec, min(top, 3)) if rng.random() < 0.3 else None
        if o:
            ev.append(o)
        if new is not None and rng.random() < 0.3:  # further, after the original was used
            ev.append(v.counts(new, top + 1, 3))
        res.append(v.case(cf.start, ev, cf=wsearch.describe(cf)))
    for k, c in ex.items():
        chk.extra[k] = chk.extra.get(k, 0) + c
    return res


def run(chk):
    secs = 22 if chk.quick else 500
    cs = fan(chk, cases, 12000, secs)
    chk.judge("SpecTrace", cs, cfg="Trace.cfg", batch=800)
