"""C17: searches saved, restored and interrupted after every number of packets."""
import os
import pickle
import random
import subprocess
import sys
import time as time_mod

import drv_c04  # noqa: F401  (silences the slow status output)
import tables
import words
import wsearch
from common import CaseTimeout, errs, fan, limit
from specview import View, skey
import comb_spec_searcher.tree_searcher as tree_mod
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import (ExceededMaxtimeError, NoMoreClassesToExpandError,
                                          SpecificationNotFound)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies import StrategyFactory, VerificationStrategy

real = time_mod.time


class Stop(BaseException):
    """The user stops the search, between two packets."""


class Rec:
    """What one branch of a search does; also the clock."""

    def __init__(self, num, ticks):
        self.num, self.ticks = num, ticks
        self.steps = []  # [packet, adds, new classes, required]
        self.css = None
        self.now, self.reads, self.stop_at = 0.0, 0, None
        self.known = 0
        self.work = None  # number of classes when a specification was first extracted

    # clock
    def time(self):
        self.reads += 1
        if self.reads > 3000:  # waiting for time to pass
            self.now += 0.05
        return 1000.0 + self.now

    def slow(self):
        self.now += 0.05
        return self.time()

    def packet(self, wp):
        label, strats, inf = wp
        done = self.css is not None and not self.css.expand_verified and bool(
            self.css.ruledb.is_verified(label))
        need = []
        if not done and not inf:
            need = self.num.required(self.css.classdb.get_class(label), strats)
        self.close()
        self.reads = 0
        if len(self.steps) + 1 in self.ticks:
            self.now = int(self.now) + 1.0
        self.steps.append([[int(label), [self.num.sid(s) for s in strats], int(inf)], [], [], need])

    def close(self):
        if self.steps and self.steps[-1] is not None and self.css is not None:
            new = sorted(self.css.classdb)[self.known:]
            self.known += len(new)
            self.steps[-1][2] += [[int(x), self.num.idx(self.css.classdb.get_class(x))] for x in new]

    def extract(self):
        """The database looks for a specification: what is labelled now is not work."""
        self.close()
        if self.work is None:
            self.work = len(list(self.css.classdb))

    def add(self, start, ends, rule):
        if self.steps and self.steps[-1] is not None:
            self.steps[-1][1].append([int(start), [int(x) for x in ends], self.num.sid(rule.strategy),
                                      self.num.idx(rule.comb_class),
                                      [self.num.idx(c) for c in rule.children]])


CUR: Rec = None  # type: ignore


class Ignore:
    def __getattr__(self, name):
        return getattr(time_mod, name)

    @staticmethod
    def time():
        return CUR.slow()


class Clocked:
    """time.time() is the recorder's clock; every slice ends where it says."""

    def __enter__(self):
        time_mod.time = lambda: CUR.time()  # pylint: disable=unnecessary-lambda
        self.saved = getattr(tree_mod, "time", None)
        if self.saved is not None:
            tree_mod.time = CUR.slow if callable(self.saved) else Ignore()

    def __exit__(self, *exc):
        time_mod.time = real
        if self.saved is not None:
            tree_mod.time = self.saved
        return False


class Queue(DefaultQueue):
    def __next__(self):
        if CUR.stop_at is not None and len(CUR.steps) >= CUR.stop_at:
            raise Stop
        wp = super().__next__()
        CUR.packet(wp)
        return wp


def _rec(base):
    class DB(base):
        def add(self, start, ends, rule):
            CUR.add(start, ends, rule)
            super().add(start, ends, rule)

        def has_specification(self):
            CUR.now += 0.25  # the next slice is not empty
            return super().has_specification()

        def get_specification_rules(self, **kwargs):
            CUR.extract()
            return super().get_specification_rules(**kwargs)
    DB.__name__ = DB.__qualname__ = "Rec" + base.__name__
    return DB


RecRuleDB = _rec(RuleDB)
RecRuleDBForgetStrategy = _rec(RuleDBForgetStrategy)
RecRuleDBForest = _rec(RuleDBForest)
DBS = {"base": RecRuleDB, "forget": RecRuleDBForgetStrategy,
       "forest": lambda: RecRuleDBForest(reverse=True),
       "forestf": lambda: RecRuleDBForest(reverse=False)}


class Num:
    """Numbers for classes and strategies, the same in every branch."""

    def __init__(self, pack):
        self.cls, self.strats, self.must = {}, {}, {}
        for s in pack:
            self.sid(s)

    def idx(self, c):
        return self.cls.setdefault(c, len(self.cls) + 1)

    def sid(self, s):
        return self.strats.setdefault(skey(s) if not isinstance(s, StrategyFactory)
                                      else f"{type(s).__name__} {s}", len(self.strats) + 1)

    def required(self, c, strats):
        """The rules the strategies have for the class."""
        res = []
        for s in strats:
            key = (c, self.sid(s))
            if key not in self.must:
                self.must[key] = self.rules(c, s)
            res += self.must[key]
        return res

    def rules(self, c, s):
        todo = []
        if isinstance(s, StrategyFactory):
            for x in s(c):
                todo.append((x.strategy, x.comb_class) if hasattr(x, "comb_class") else (x, c))
        else:
            todo.append((s, c))
        res = []
        for t, p in todo:
            if isinstance(t, VerificationStrategy) and not t.verified(p):
                continue
            ch = t.decomposition_function(p)
            if ch is None and not isinstance(t, VerificationStrategy):
                continue
            ch = tuple(ch or ())
            if len(ch) == 1 and ch[0] == p:
                continue
            res.append([self.sid(t), self.idx(p), [self.idx(x) for x in ch]])
        return res


# --- calls --------------------------------------------------------------------
def perform(css, call, seed, secs=20):
    """(answer, specification or None)"""
    CUR.css = css
    CUR.stop_at = None
    CUR.reads = 0
    random.seed(seed)
    kind = call[0]
    spec, ans = None, ""
    try:
        with limit(secs), Clocked():
            if kind == "auto":
                # most: number of slices; stop: number of packets
                _, smallest, most, CUR.stop_at = call
                spec = css.auto_search(smallest=smallest, perc=100,
                                       max_expansion_time=1e9 if most is None else most - 0.5)
                ans = "found"
            elif kind == "level":
                CUR.stop_at = call[1]
                css.do_level()
                ans = "done"
            elif kind == "levels":
                CUR.stop_at = call[1]
                while True:
                    css.do_level()
            elif kind == "has":
                ans = str(css.has_specification())
            elif kind == "get":
                spec = css.get_specification(smallest=call[1], minimization_time_limit=0.5)
                ans = "found"
    except Stop:
        ans = "stopped"
    except SpecificationNotFound:
        ans = "none"
    except ExceededMaxtimeError:
        ans = "exceeded"
    except NoMoreClassesToExpandError:
        ans = "exhausted"
    except CaseTimeout:
        ans = "hang"
    except Exception as x:  # pylint: disable=broad-except
        ans = errs(x)
    try:
        if spec is None:
            CUR.close()
        CUR.known = len(list(css.classdb))
    except Exception as x:  # pylint: disable=broad-except
        ans = "left unusable: " + errs(x)
    return ans, spec


def snap(css):
    """The universe."""
    try:
        return _snap(css)
    except Exception as x:  # pylint: disable=broad-except
        time_mod.time = real
        return {"cls": [], "emp": [], "ver": [], "keys": [[-1, [], [], errs(x)]]}


def _snap(css):
    db, num = css.classdb, CUR.num
    with limit(20), Clocked():
        labels = sorted(db)[:CUR.work]
        keys = []
        if hasattr(css.ruledb, "table_method"):
            tm = css.ruledb.table_method
            keys = [[int(k.parent), [int(x) for x in k.children], [int(x) for x in k.shifts],
                     str(k.bucket)] for k in tm.pumping_subuniverse()]
        elif hasattr(css.ruledb, "__iter__"):
            keys = [[int(s), [int(x) for x in e], [], ""] for s, e in css.ruledb]
        return {"cls": [num.idx(db.get_class(x)) for x in labels],
                "emp": [int(bool(db.is_empty(db.get_class(x), x))) for x in labels],
                "ver": [int(bool(css.ruledb.is_verified(x))) for x in labels],
                "keys": sorted(keys)}


def eqs(a, b):
    """How two searchers, that should be equal, compare."""
    try:
        with limit(20):
            return [int(a == b), int(b == a), int(not a != b), int(a.classdb == b.classdb),
                    int(a.classqueue == b.classqueue), int(a.ruledb == b.ruledb)]
    except Exception:  # pylint: disable=broad-except
        return [0]


# --- another process ----------------------------------------------------------
class Other:
    """Restores searches in another process, where strings hash differently."""

    def __init__(self):
        env = dict(os.environ, PYTHONHASHSEED="4242")
        code = f"import sys; sys.path[:0] = {sys.path[:2]!r}; import drv_c17; drv_c17.serve()"
        self.p = subprocess.Popen([sys.executable, "-c", code], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, *msg):
        pickle.dump(msg, self.p.stdin)
        self.p.stdin.flush()
        return pickle.load(self.p.stdout)

    def close(self):
        self.p.kill()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


def serve():
    global CUR
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.setrecursionlimit(20000)
    inp = os.fdopen(0, "rb")
    while True:
        try:
            msg = pickle.load(inp)
        except EOFError:
            return
        data, calls, seeds, num, ticks, now, nsteps, work, uni = msg
        tables.UNI.clear()
        tables.UNI.update(uni)
        words.SPECS.clear()
        try:
            res = _serve(data, calls, seeds, num, ticks, now, nsteps, work)
        except Exception as x:  # pylint: disable=broad-except
            res = ("failed", errs(x))
        pickle.dump(res, out)
        out.flush()


def _serve(data, calls, seeds, num, ticks, now, nsteps, work):
    global CUR
    css = pickle.loads(data)
    again = pickle.dumps(css)
    CUR = resumed(num, ticks, now, nsteps, css, work)
    ans, specs = [], []
    for c, s in zip(calls, seeds):
        a, spec = perform(css, c, s)
        ans.append(a)
        if spec is not None:
            try:
                pickle.dumps(spec)
                specs.append(spec)
            except Exception:  # pylint: disable=broad-except
                pass
        if a == "hang" or final(css, a):
            break
    end = snap(css)
    return ("ok", again, ans, specs, CUR.steps[nsteps:], end, num)


def resumed(num, ticks, now, nsteps, css, work):
    r = Rec(num, ticks)
    r.now = now
    r.steps = [None] * nsteps
    r.css, r.work = css, work
    r.known = len(list(css.classdb))
    return r


# --- cases --------------------------------------------------------------------
def make(cf, num, ticks):
    global CUR
    CUR = Rec(num, ticks)
    with limit(20), Clocked():
        css = CombinatorialSpecificationSearcher(
            cf["start"], cf["pack"], ruledb=DBS[cf["db"]](), classqueue=Queue(cf["pack"]),
            expand_verified=cf["ev"])
        CUR.css = css
        CUR.known = len(list(css.classdb))
    return css


def config(rng, i):
    r = rng.random()
    if r < 0.45:
        kind = rng.choice(["base", "forget", "forest", "forestf"])
        forest = kind.startswith("forest")
        u = tables.random_universe(rng, f"c17-{i}", forest=forest,
                                   iterative=False if forest else None,
                                   chains=not forest and rng.random() < 0.4)
        cf = {"start": tables.mk(u, tables.UNI[u]["start"]), "pack": tables.pack(u), "db": kind,
              "u": u, "smallest": rng.random() < 0.3}
    else:
        c = wsearch.rand_gconfig(rng) if r < 0.65 else wsearch.rand_config(rng)
        cf = {"start": c.start, "pack": c.pack, "db": c.db, "u": "", "smallest": c.smallest}
    cf["smallest"] = cf["smallest"] and not cf["pack"].iterative
    cf["ev"] = rng.random() < 0.3
    return cf


def final(css, a):
    """Looking for strategies it forgot, the database labels classes in some order."""
    return a == "found" and isinstance(css.ruledb, RuleDBForgetStrategy)


def branch(css, calls, seeds):
    """Answers and specifications of a sequence of calls."""
    ans, specs = [], []
    for c, s in zip(calls, seeds):
        a, spec = perform(css, c, s)
        ans.append(a)
        if spec is not None:
            specs.append(spec)
        if a == "hang" or final(css, a):
            break
    return ans, specs


def events(b, steps, full=True):
    return [{"op": "step", "b": b, "pkt": s[0], "adds": list(s[1]), "cls": list(s[2]),
             "need": s[3] if full else []} for s in steps]


def config_cases(rng, cf, other, most, ks, ex):
    """(cases for ResumeTrace, specifications found)"""
    num = Num(cf["pack"])
    num.idx(cf["start"])
    every = rng.random() < 0.5
    ticks = frozenset(k for k in range(1, 500) if every or rng.random() < 0.35)
    cases, found = [], []
    if rng.random() < 0.25:
        smallest = not cf["smallest"] and not cf["pack"].iterative
    else:
        smallest = cf["smallest"]
    # uninterrupted
    css = make(cf, num, ticks)
    last = ("auto", smallest, None, most)
    ref_ans, specs = branch(css, [last], [7])
    if ref_ans[0] == "hang":
        return [], []
    if not CUR.steps:
        return [], []
    found += specs
    ref = CUR.steps
    ref_snap = snap(css)
    total = len(ref)
    auto = {"ref": [s[:3] for s in ref], "refans": ref_ans, "refsnap": ref_snap, "kind": "auto"}
    # level by level
    css = make(cf, num, ticks)
    lab0 = [[int(x), num.idx(css.classdb.get_class(x))] for x in sorted(css.classdb)]
    lans, _ = perform(css, ("levels", most), 7)
    if lans == "hang":
        return [], []
    lref = CUR.steps
    level = {"ref": [s[:3] for s in lref], "refans": [lans], "refsnap": snap(css), "kind": "level"}
    ltotal = len(lref)
    sids = [num.sid(s) for s in cf["pack"]]
    for d in (auto, level):
        d.update(lab0=lab0, repeats=int(len(set(sids)) != len(sids)))
    points = list(range(total + 1))
    if len(points) > ks:
        points = sorted(rng.sample(points, ks))
    for k in points:
        for mode in (("auto",) if rng.random() < 0.7 else ("auto", "level")):
            if mode == "level" and k > ltotal:
                continue
            r = one(rng, cf, num, ticks, auto if mode == "auto" else level, mode, k, most,
                    smallest, other, ex)
            if r is not None:
                cases.append(r[0])
                found += r[1]
    return cases, found


def one(rng, cf, num, ticks, base, mode, k, most, smallest, other, ex):
    """A search stopped after k packets, saved, restored and continued in several calls."""
    global CUR
    css = make(cf, num, ticks)
    total = len(base["ref"])
    # reaching k, possibly in several calls
    cuts = sorted({rng.randrange(k + 1) for _ in range(rng.choice([0, 0, 1, 2]))} | {k})
    pre_ans = []
    bad_end = False
    for c in cuts:
        if mode == "level":
            a, _ = perform(css, ("levels", c), 3)
            pre_ans.append(a)
            continue
        sofar = len(CUR.steps)
        n = sum(1 for t in ticks if sofar < t <= c)
        if c in ticks and c > sofar and rng.random() < 0.7:
            a, _ = perform(css, ("auto", smallest, n, None), 7)  # the time limit
            ex["time_limit"] = ex.get("time_limit", 0) + 1
        else:
            a, _ = perform(css, ("auto", smallest, None, c), 7)
            ex["stopped"] = ex.get("stopped", 0) + 1
        pre_ans.append(a)
    if any(a not in ("stopped", "exceeded", "exhausted", "found", "none") for a in pre_ans):
        bad_end = True
    at_k = CUR
    nk = len(at_k.steps)
    # the rest
    script = rng.random() < 0.35 or "found" in pre_ans
    if script:
        calls = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.3:
                calls.append(("level", nk + rng.choice([1, 3, 10, most])))
            elif r < 0.5:
                calls.append(("has",))
            elif r < 0.65:
                calls.append(("get", smallest))
            else:
                calls.append(("auto", smallest, rng.choice([1, 2, 5, None]), max(nk + 10, most)))
    elif mode == "auto":
        more = sorted(t for t in ticks if nk < t < total)
        lim = rng.sample(more, min(len(more), rng.choice([0, 0, 1, 3])))
        calls, at = [], nk
        for t in sorted(lim):
            calls.append(("auto", smallest, sum(1 for x in ticks if at < x <= t), None))
            at = t
        calls.append(("auto", smallest, None, most))
    else:
        calls = [("levels", c) for c in sorted(rng.randrange(nk, total + 1)
                                               for _ in range(rng.choice([0, 1, 2])))]
        calls.append(("levels", most))
    seeds = [7 if not script else rng.randrange(1000) for _ in calls]
    try:
        with limit(20):
            data = pickle.dumps(css, protocol=rng.choice([2, 3, 4, pickle.HIGHEST_PROTOCOL]))
            back = pickle.loads(data)
        exc = ""
    except CaseTimeout:
        exc, back = "hang", None
    except Exception as x:  # pylint: disable=broad-except
        exc, back = errs(x), None
    ev = events(1, CUR.steps)
    ev.append({"op": "paused", "b": 1, "how": pre_ans, "bad": int(bad_end)})
    case = dict(base, u=cf["u"], cf={"start": repr(cf["start"]), "db": cf["db"], "ev": cf["ev"],
                                     "pack": repr(cf["pack"]).replace("\n", " "), "k": k,
                                     "mode": mode, "smallest": smallest,
                                     "ticks": sorted(t for t in ticks if t <= most)},
                start=num.idx(cf["start"]), script=int(script), other=0)
    if exc:
        ev.append({"op": "save", "b": 2, "exc": exc, "eq": []})
        return dict(case, ev=ev), []
    # comparing databases that forget strategies labels classes
    forget = cf["db"] == "forget"
    if forget and "found" in pre_ans:
        return None
    if not forget or rng.random() < 0.2:
        ev.append({"op": "save", "b": 2, "exc": "", "eq": eqs(css, back)})
        if forget:
            return dict(case, ev=ev), []
    specs = []
    remote = other is not None and rng.random() < 0.3
    # the original, after being saved
    CUR = at_k
    before, now, work = len(CUR.steps), CUR.now, CUR.work
    ans1, sp = branch(css, calls, seeds)
    specs += sp
    steps1 = CUR.steps[before:]
    end1 = snap(css)
    if remote:
        case["other"] = 1
        uni = {cf["u"]: tables.UNI[cf["u"]]} if cf["u"] else {}
        res = other.ask(data, calls, seeds, num, ticks, now, nk, work, uni)
        if res[0] != "ok":
            if forget:
                ev.append({"op": "save", "b": 2, "eq": []})
            ev[-1]["exc"] = res[1]
            return dict(case, ev=ev), specs
        _, again, ans2, sp, steps2, end2, num2 = res
        num.cls, num.strats = num2.cls, num2.strats
        if not forget:
            ev[-1]["eq"] += eqs(back, pickle.loads(again))
        specs += sp
        ex["restored_elsewhere"] = ex.get("restored_elsewhere", 0) + 1
    else:
        try:
            CUR = resumed(num, ticks, now, nk, back, work)
        except Exception as x:  # pylint: disable=broad-except
            return dict(case, ev=ev + [{"op": "save", "b": 2, "exc": errs(x), "eq": []}]), []
        ans2, sp = branch(back, calls, seeds)
        specs += sp
        steps2 = CUR.steps[nk:]
        end2 = snap(back)
    if forget:
        ev.append({"op": "save", "b": 2, "exc": "", "eq": []})
    ev += events(1, steps1)
    ev.append({"op": "end", "b": 1, "ans": ans1, "snap": end1})
    ev += events(2, steps2)
    ev.append({"op": "end", "b": 2, "ans": ans2, "snap": end2})
    return dict(case, ev=ev), specs


def viewed(cf, spec, rng):
    """The specification as a case of SpecTrace."""
    if len(spec.rules_dict) > 40:
        return None
    if cf["u"]:
        t = tables.UNI[cf["u"]]
        v = View([cf["pack"]], lambda c: {"w": False, "e": c.i in t["empty"], "m": 0},
                 None if cf["db"].startswith("forest") else lambda s, p, ch: [
                     int(sum(x.i not in t["empty"] for x in ch) > 1)] * len(ch))
        return v.case(cf["start"], [v.spec(spec, announced=False)], u=cf["u"], db=cf["db"])
    v = View([cf["pack"]])
    v.idx(cf["start"])
    ev = [v.spec(spec)]
    top = {0: 7, 1: 5}.get(len(cf["start"].st), 4)
    with limit(20):
        ev.append(v.counts(spec, top, 3))
    return v.case(cf["start"], ev, db=cf["db"], start=repr(cf["start"]))


def cases(chk, rng, num, secs):
    res, ex = [], {}
    other = Other()
    try:
        for i in range(num):
            if chk.left(secs) < 0:
                break
            words.SPECS.clear()
            cf = config(rng, f"{rng.random()}")
            try:
                with limit(40):
                    cs, found = config_cases(rng, cf, other, 30 if chk.quick else 60,
                                             8 if chk.quick else 40, ex)
            except CaseTimeout:
                ex["skipped"] = ex.get("skipped", 0) + 1
                other.close()
                other = Other()
                continue
            finally:
                time_mod.time = real
            res += [("r", c) for c in cs]
            ex["searches"] = ex.get("searches", 0) + 1
            ex["db_" + cf["db"]] = ex.get("db_" + cf["db"], 0) + 1
            seen = set()
            for s in found:
                key = str(sorted(str(r) for r in s.rules_dict.values()))
                if key in seen or len(seen) > 3:
                    continue
                seen.add(key)
                try:
                    c = viewed(cf, s, rng)
                except CaseTimeout:
                    c = None
                if c is not None:
                    res.append(("s", c))
            tables.UNI.pop(cf["u"], None)
    finally:
        other.close()
    for k, c in ex.items():
        chk.extra[k] = chk.extra.get(k, 0) + c
    return res


def run(chk):
    for p in "a" if chk.quick else "abc":
        os.environ["PACK"] = p
        chk.design("ResumeMC.tla", "ResumeMC.cfg" if chk.quick else "ResumeMCThorough.cfg")
    cs = fan(chk, cases, 12000, 11 if chk.quick else 400)
    chk.judge("ResumeTrace", [c for k, c in cs if k == "r"], cfg="Trace.cfg", batch=1500)
    chk.judge("SpecTrace", [c for k, c in cs if k == "s"], cfg="Trace.cfg", batch=1500)
