"""Shared machinery: running TLC, judging recorded cases, verdicts, evidence."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
real_time = _time.time


class MachineryError(Exception):
    """The check itself failed: never a verdict."""


class CaseTimeout(BaseException):
    """Not an Exception: neither the code under test nor sympy may swallow it."""


class limit:
    """Raise CaseTimeout in the enclosed code after `secs` seconds."""

    def __init__(self, secs):
        self.secs, self.fired = secs, False

    def _fire(self, *_):
        self.fired = True
        raise CaseTimeout(f"no answer within {self.secs} s")

    def __enter__(self):
        self.t0 = real_time()
        self.old = signal.signal(signal.SIGALRM, self._fire)
        self.outer = signal.setitimer(signal.ITIMER_REAL, self.secs)[0]
        if self.outer and self.outer < self.secs:
            signal.setitimer(signal.ITIMER_REAL, self.outer)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.outer:  # an enclosing limit goes on
            signal.setitimer(signal.ITIMER_REAL,
                             max(0.001, self.outer - (real_time() - self.t0)))
        if exc[0] and issubclass(exc[0], MemoryError):
            raise CaseTimeout("no memory")
        if self.fired and not (exc[0] and issubclass(exc[0], CaseTimeout)):
            raise CaseTimeout("swallowed")  # what follows from it is no behaviour of the code
        return False


def err(e):
    """Stable description of an exception raised by the code under test."""
    return f"{type(e).__name__}"


def errs(e):
    return f"{type(e).__name__}: {str(e)[:200]}"


MEMORY = [0]  # a worker stops making cases beyond this


def _held():
    with open("/proc/self/statm", encoding="ascii") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def _job(chk, fn, i, args):
    import random
    held = _held()  # what the parent already holds
    top = held + (3 << 30)  # computer algebra can explode
    MEMORY[0] = held + (3 << 29)
    resource.setrlimit(resource.RLIMIT_AS, (top, resource.getrlimit(resource.RLIMIT_AS)[1]))
    chk.extra = {}
    try:
        return fn(chk, random.Random(chk.seed * 1000 + i), *args), chk.extra, ""
    except (Exception, CaseTimeout):  # pylint: disable=broad-except
        import traceback
        return [], {}, traceback.format_exc()


def fan(chk, fn, *args, procs=6):
    """The cases fn(chk, rng, *args) records, with several generators in parallel
    processes; counters in chk.extra are added up."""
    import concurrent.futures
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    # an executor, not a Pool: a worker that dies is an error there, not a hang
    with concurrent.futures.ProcessPoolExecutor(procs, mp_context=ctx) as pool:
        res = [pool.submit(_job, chk, fn, i, args) for i in range(procs)]
        out = [r.result() for r in res]
    cases = []
    for cs, extra, trouble in out:
        if trouble:
            raise MachineryError(trouble)
        cases += cs
        for k, v in extra.items():
            if isinstance(v, int):
                chk.extra[k] = chk.extra.get(k, 0) + v
    return cases


class TLCResult:
    def __init__(self, out, rc):
        out = "\n".join(x for x in out.splitlines() if not x.startswith(
            ("Parsing file", "Semantic processing", "Linting", "Computed ", "Picked up")))
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.finished = self.ok or "Finished in" in out


def tlc(module, cfg, env=None, workers=8, timeout=3000, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m"
    cmd = ["tlc", "-config", cfg, "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-fp", "1", "-seed", str(SEED), *extra, module]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0] + f"\nTLC timed out on {module}/{cfg}"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, p.returncode)


def unq(s):
    """Undo TLC's string escaping of a printed string."""
    return s.replace('\\"', '"').replace("\\\\", "\\")


def printed(out, tag):
    res = []
    for line in out.splitlines():
        i = line.find('"' + tag + "@")
        if i >= 0:
            body = line[i + len(tag) + 2:]
            body = body[: body.rindex('"')]
            res.append(json.loads(unq(body)))
    return res


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = SEED
        self.quick = tier != "thorough"
        self.t0 = real_time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.extra = {}
        self.unreadable = []
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.designs = []
        self.known = [
            k for k in load_known() if k.get("property") == pid and k.get("kind") == "known"
        ]

    def left(self, budget):
        """Seconds left; none for a worker that has used up half of its memory."""
        if MEMORY[0] and _held() > MEMORY[0]:
            return -1
        return budget - (real_time() - self.t0)

    # --- design-level checks -------------------------------------------------
    def design(self, module, cfg, timeout=3000, extra=()):
        """Exhaustively model check a configuration of the specification."""
        r = tlc(module, cfg, timeout=timeout, extra=extra)
        if not r.ok:
            raise MachineryError(f"design check {module}/{cfg} failed:\n" + r.out[-4000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.designs.append({"config": cfg, "distinct": r.distinct, "generated": r.generated})

    def generate(self, module, cfg, env=None, extra=(), timeout=1200):
        """Behaviours printed by a Gen configuration of the specification."""
        r = tlc(module, cfg, env=env, extra=extra, timeout=timeout)
        if not r.ok and "-simulate" not in extra:
            raise MachineryError(f"generation {module}/{cfg} failed:\n" + r.out[-4000:])
        self.states += r.distinct
        self.transitions += r.generated
        seen, res = set(), []
        for g in printed(r.out, "GEN"):
            k = json.dumps(g)
            if k not in seen:
                seen.add(k)
                res.append(g)
        if not res:
            raise MachineryError(f"generation {module}/{cfg} gave nothing:\n" + r.out[-3000:])
        return sorted(res, key=json.dumps)

    # --- conformance ---------------------------------------------------------
    def judge(self, module, cases, cfg=None, batch=4000, timeout=3000, describe=None):
        """Have TLC judge the recorded cases; collect rejections."""
        cfg = cfg or module + ".cfg"
        nfail = 0
        limit_ = 300 if self.quick else 10**6
        parts = [cases[b:b + batch] for b in range(0, len(cases), batch)]
        while parts:
            part = parts.pop(0)
            fd, path = tempfile.mkstemp(prefix="cases_", suffix=".json")
            try:
                with os.fdopen(fd, "w") as f:
                    json.dump([c for c in part], f)
                r = tlc(module, cfg, env={"CASES": path},
                        timeout=max(20, min(timeout, limit_ - (real_time() - self.t0))))
                if "TLC timed out" in r.out:
                    limit_ += 30  # a little time for the halves
            finally:
                os.unlink(path)
            fails = printed(r.out, "FAIL")
            want = sum(len(c["ev"]) + 1 for c in part)
            accepted = r.ok and r.distinct == want and "NOTACCEPTED" not in r.out
            if not accepted and not fails:
                # data the specification cannot even read: find out which
                if len(part) > 1 and len(self.unreadable) < 12:
                    k = len(part) // 2
                    parts[:0] = [part[:k], part[k:]]
                    continue
                dbg = os.path.join(tempfile.gettempdir(), f"verif_debug_{self.pid}.json")
                with open(dbg, "w") as f:
                    json.dump(part, f)
                self.unreadable.append(
                    f"TLC neither accepted nor rejected {module}: want {want} "
                    f"distinct, got {r.distinct}\n" + r.out[-6000:])
                continue
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            self.steps += want - len(part)
            done = set()
            for c, step, bad in fails:
                if c in done:
                    continue
                done.add(c)
                nfail += 1
                self.violation(part[c - 1], step, sorted(bad), module)
        if cases and len(self.samples) < 6:
            s = dict(cases[len(cases) // 2])
            txt = json.dumps(s)
            self.samples.append(s if len(txt) < 3000 else {"truncated": txt[:3000]})
        return nfail

    def violation(self, case, step, clauses, module=None):
        mach = [c for c in clauses if c.startswith("machinery")]
        if mach and len(mach) < len(clauses):
            clauses, mach = [c for c in clauses if c not in mach], []
        if mach:
            dbg = os.path.join(tempfile.gettempdir(), f"verif_debug_{self.pid}.json")
            with open(dbg, "w") as f:
                json.dump(case, f, default=str)
            self.unreadable.append(f"{mach} at step {step} (case in {dbg})")
            return
        for k in self.known:
            if set(clauses) <= set(k["clauses"]) and all(
                case.get(f) == v for f, v in k["match"].items()
            ):
                if k not in self.known_hits:
                    self.known_hits.append(k)
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rec = {"property": self.pid, "module": module, "clauses": clauses,
               "step": step, "case": case}
        h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{self.pid}-{h}.json")
        if len(self.violations) < 20:
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            ev = case["ev"][step - 1] if 0 < step <= len(case.get("ev", [])) else None
            print(f"# clauses {clauses} at step {step}: {json.dumps(ev, default=str)[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        self.violations.append(path)

    # --- result --------------------------------------------------------------
    def finish(self):
        if self.unreadable and not self.violations:
            raise MachineryError(self.unreadable[0])
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "trace_steps": self.steps,
            "design_checks": self.designs,
            "samples": self.samples,
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(real_time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: {self.traces} traces, {self.steps} steps, "
              f"{self.states} states, {len(self.violations)} violations, "
              f"{ev['wall_s']} s", flush=True)
        return 1 if self.violations else 0


def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]
