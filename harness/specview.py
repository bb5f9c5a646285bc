"""A specification returned by the library, as data for SpecTrace/SpecDefs."""
import enumrng
import equations
import grammar
import words
from common import CaseTimeout, errs, limit
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import StrategyFactory, VerificationStrategy
from comb_spec_searcher.strategies.rule import (AbstractRule, EquivalencePathRule,
                                                EquivalenceRule, ReverseRule, VerificationRule)
from comb_spec_searcher.strategies.strategy import EmptyStrategy, Strategy


def skey(s):
    """What identifies a strategy of the harness: its type and its settings."""
    if isinstance(s, EmptyStrategy):
        return "empty"
    d = {k: v for k, v in s.__dict__.items() if k in (
        "o", "pred", "sym", "packname", "own", "u", "k", "_ignore_parent", "_inferrable",
        "_possibly_empty", "_workable")}
    return f"{type(s).__name__} {sorted(d.items(), key=str)}"


def letters(w):
    """An object as data."""
    return w.code() if hasattr(w, "code") else [ord(a) - 96 for a in w]


class View:
    """Numbers the classes, and finds out independently what the strategies do."""

    def __init__(self, packs, describe=None, shifts=None):
        self.num, self.cls, self.data = {}, [], []
        self.packs = list(packs)
        self.describe = describe or (lambda c: grammar.data(c) if isinstance(c, grammar.G)
                                     else dict(words.data(c), w=True))
        self.strats = {}
        self.shifts = shifts or (lambda s, p, ch: list(s.shifts(p, ch)))
        self.facts = []
        self.done = set()

    def idx(self, c):
        if c not in self.num:
            self.cls.append(c)
            self.num[c] = len(self.cls)
            self.data.append(self.describe(c))
        return self.num[c]

    def sid(self, s):
        return self.strats.setdefault(skey(s), len(self.strats) + 1)

    # --- what the strategies do -------------------------------------------------
    def applications(self, c):
        """(strategy, parent) for everything the packs apply when given c."""
        for pack in self.packs:
            for s in pack:
                if isinstance(s, StrategyFactory):
                    for x in s(c):
                        if isinstance(x, AbstractRule):
                            yield x.strategy, x.comb_class
                        else:
                            yield x, c
                else:
                    yield s, c

    def fact(self, s, p):
        if isinstance(s, VerificationStrategy):
            if not s.verified(p):
                return
            ch, kind = (), "ver"
            if hasattr(s, "t"):  # the verifications of table universes may have children
                ch, kind = s.decomposition_function(p), "table"
        else:
            ch = s.decomposition_function(p)
            if ch is None:
                return
            kind = self.kind(s)
        rev = isinstance(s, Strategy) and bool(s.is_reversible(p))
        eqv = isinstance(s, Strategy) and bool(s.can_be_equivalent())
        f = {"k": self.sid(s), "p": self.idx(p), "c": [self.idx(x) for x in ch], "kind": kind,
             "con": getattr(s, "con", kind),
             "s": (list(s.shifts(p, ch)) if isinstance(s, VerificationStrategy) else
                    self.shifts(s, p, ch)) if kind == "table" else [], "rev": rev, "eqv": eqv}
        if f not in self.facts:
            self.facts.append(f)
        return self.facts.index(f) + 1

    def kind(self, s):
        if isinstance(s, words._Product):  # pylint: disable=protected-access
            return "product"
        if isinstance(s, (words._Union, words._Sym)):  # pylint: disable=protected-access
            return "union"
        return "table"

    def learn(self, classes, parents):
        """All facts whose parent is in parents, obtained from the given classes."""
        for c in classes:
            if c in self.done:
                continue
            self.done.add(c)
            for s, p in self.applications(c):
                if p in parents:
                    self.fact(s, p)

    # --- rules -------------------------------------------------------------------
    def step(self, rule):
        if isinstance(rule, EquivalenceRule):
            o = rule.original_rule
            if isinstance(o, ReverseRule):
                return self.base("eqrev", o.original_rule, o.idx + 1)
            return self.base("eq", o, rule.child_idx + 1)
        if isinstance(rule, ReverseRule):
            return self.base("rev", rule.original_rule, rule.idx + 1)
        if isinstance(rule.strategy, EmptyStrategy):
            return {"f": "none", "k": 0, "p": self.idx(rule.comb_class), "c": [], "i": 0}
        return self.base("plain", rule, 0)

    def base(self, f, rule, i):
        if isinstance(rule, (EquivalenceRule, ReverseRule, EquivalencePathRule)):
            raise TypeError("unexpected nesting of rule forms")
        self.parents.add(rule.comb_class)
        self.seen.update([rule.comb_class, *rule.children])
        return {"f": f, "k": self.sid(rule.strategy), "p": self.idx(rule.comb_class),
                "c": [self.idx(x) for x in rule.children], "i": i}

    def rule(self, rule):
        steps = rule.rules if isinstance(rule, EquivalencePathRule) else [rule]
        self.seen.update([rule.comb_class, *rule.children])
        return {"l": self.idx(rule.comb_class), "r": [self.idx(c) for c in rule.children],
                "s": [int(x) for x in rule.shifts()], "steps": [self.step(r) for r in steps]}

    def spec(self, spec, announced=True):
        self.parents, self.seen, self.done = set(), set(), set()
        e = {"op": "spec", "rules": [], "announced": announced, "exc": ""}
        try:
            with limit(20):
                for c, r in list(spec.rules_dict.items()):
                    d = self.rule(r)
                    if r.comb_class != c:
                        d["steps"] = []
                    e["rules"].append(d)
                self.learn(list(self.seen), self.parents)
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        return e

    def case(self, root, ev, **info):
        root = self.idx(root)
        return dict(info, cls=self.data, facts=self.facts, root=root, ev=ev)

    # --- what is computed from it --------------------------------------------------
    def counts(self, spec, top, ttop=None, secs=30):
        """All terms up to size top; count_objects_of_size, with every value of the
        parameters (some attained by no object), up to ttop."""
        root = spec.root
        ttop = min(top, 5) if ttop is None else ttop
        e = {"op": "counts", "c": self.idx(root), "top": top, "got": [], "totals": [],
             "ttop": ttop, "exc": ""}
        try:
            with limit(secs):
                for n in range(top + 1):
                    e["got"] += [[n, list(map(int, p)), int(k)]
                                 for p, k in sorted(spec.get_terms(n).items())]
                for n in range(ttop + 1):
                    tot = 0
                    for p in grid(root, n):
                        par = dict(zip(root.extra_parameters, p))
                        tot += spec.count_objects_of_size(n, **par)
                    e["totals"].append([n, [], int(tot)])
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        return e

    def objects(self, spec, top, secs=30):
        root = spec.root
        e = {"op": "objects", "c": self.idx(root), "top": top, "got": [], "num": [], "exc": ""}
        try:
            with limit(secs):
                for n in range(top + 1):
                    objs = spec.get_objects(n)
                    e["got"] += [[letters(w), list(p), n] for p, ws in sorted(objs.items())
                                 for w in ws]
                    for p in grid(root, n):
                        par = dict(zip(root.extra_parameters, p))
                        e["num"].append([n, list(p), int(spec.count_objects_of_size(n, **par))])
                        ws = list(spec.generate_objects_of_size(n, **par))
                        if ws != list(objs.get(p, [])):
                            e["got"] += [[letters(w), list(p), n] for w in ws]
        except NotImplementedError:
            return None
        except CaseTimeout:
            e["exc"] = "hang"
        except Exception as x:  # pylint: disable=broad-except
            e["exc"] = errs(x)
        return e


def grid(c, n):
    """All candidate parameter values at size n."""
    res = [()]
    for _ in c.extra_parameters:
        res = [p + (k,) for p in res for k in range(n + 2)]
    return res


def part(o):
    return [0] if o is None else [1, *letters(o)]


def maps(v, rule, top, cap=60, secs=20):
    """Every object of the parent up to a size: parts and back."""
    if isinstance(rule, VerificationRule):
        return None
    l = rule.comb_class
    e = {"op": "maps", "l": v.idx(l), "r": [v.idx(c) for c in rule.children], "top": top,
         "maps": [], "exc": "", "form": type(rule).__name__}
    objs = []
    for n in range(top + 1):
        new = list(l.objects_of_size(n))
        if len(objs) + len(new) > cap and n > 0:
            e["top"] = n - 1
            break
        objs += new
    try:
        with limit(secs):
            for o in objs:
                ps = rule.forward_map(o)
                e["maps"].append({"o": letters(o), "parts": [part(x) for x in ps],
                                  "back": [part(x) for x in rule.backward_map(tuple(ps))]})
    except NotImplementedError:
        return None
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    return e


def all_rules(spec):
    """The rules of a specification, the members of its equivalence paths, and the
    reverse of the equivalences among them."""
    for r in list(spec.rules_dict.values()):
        yield r
        if isinstance(r, EquivalencePathRule):
            yield from r.rules
            for x in r.rules:
                if isinstance(x, EquivalenceRule):
                    yield x.original_rule


def reads(v, spec, top, secs=20):
    """For every rule and size: the terms of children and the own terms it reads."""
    rules = list(spec.rules_dict.values())
    logs = []
    for r in rules:
        log, own = [], []
        logs.append((log, own))
        if r.subterms is not None:
            def wrap(i, f, log=log):
                def get(m):
                    log.append((i + 1, m))
                    return f(m)
                return get
            r.subterms = tuple(wrap(i, f) for i, f in enumerate(r.subterms))

        def get_own(m, own=own, real=r.get_terms):
            own.append(m)
            return real(m)
        r.get_terms = get_own
    ev = []
    for n in range(top + 1):
        for r, (log, own) in zip(rules, logs):
            before = len(log)
            exc = ""
            own.clear()
            try:
                with limit(secs):
                    type(r).get_terms(r, n)
            except CaseTimeout:
                exc = "hang"
            except NotImplementedError:
                return ev
            except Exception as x:  # pylint: disable=broad-except
                exc = errs(x)
            new = sorted(set(log[before:]))
            ev.append({"op": "reads", "n": n, "l": v.idx(r.comb_class), "form": type(r).__name__,
                       "s": [int(x) for x in r.shifts()], "reads": [list(x) for x in new],
                       "own": sorted(set(own)), "exc": exc})
            if exc:
                return ev
    return ev


def sample(v, spec, n, p, cap):
    """Exact distribution of the sampler at size n and parameters p."""
    root = spec.root
    par = dict(zip(root.extra_parameters, p))
    e = {"op": "sample", "c": v.idx(root), "n": n, "par": list(p), "dist": [], "exc": ""}
    try:
        with limit(60):
            d, _ = enumrng.distribution(
                lambda: spec.random_sample_object_of_size(n, **par), cap)
            e["dist"] = [[letters(o), w.numerator, w.denominator] for o, w in sorted(d.items())]
    except InvalidOperationError:
        e["exc"] = "refused"
    except (NotImplementedError, enumrng.TooManyLeaves):
        return None
    except CaseTimeout:
        e["exc"] = "hang"
    except Exception as x:  # pylint: disable=broad-except
        e["exc"] = errs(x)
    return e
