"""Drives the generated-input search of one property and writes its evidence.

A check module defines SUBS, a list of Sub.  Each Sub has a hypothesis strategy that yields one
JSON-able case, and a function fn(case, rec) that executes the case against the code in /repo and
raises Violation when the property does not hold.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import traceback

from . import boot
from . import ops
from .boot import perf

from hypothesis import HealthCheck, Phase, Verbosity, given, seed as hseed, settings, strategies as st
from hypothesis.errors import Flaky, Unsatisfiable

VERIF = boot.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))
BATCH = 120


class Violation(Exception):
    """The property does not hold for this case.  sig identifies the failing call site or input class."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    pass


def fail(msg, sig=None):
    raise Violation(msg, sig)


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule="", ids=False):
        if ids:
            # the identifiers of the clients are part of the case: some are prefixes of others or differ in case only
            inner_s, inner_f = strategy, fn

            def strategy():
                return st.tuples(inner_s(), st.sampled_from([0, 0, 1, 2, 3])).map(lambda t: {**t[0], "ids": t[1]})

            def fn(case, rec):
                ops.IDS = ops.ID_STYLES[case.get("ids", 0)]
                try:
                    inner_f(case, rec)
                finally:
                    ops.IDS = ops.ID_STYLES[0]
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 25
        self.rule = rule

    def n(self, tier):
        return 2 * self.quick if tier == "quick" else self.thorough


class Rec:
    def __init__(self, known=()):
        self.labels = collections.Counter()
        self.is_nontrivial = False
        self.known = known
        self.known_hit = set()

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def find(self, sig, msg):
        """Report a violation identified by sig, unless it is a recorded known finding."""
        if sig in self.known:
            self.known_hit.add(sig)
            self.labels["known:" + sig] += 1
            return
        raise Violation(msg, sig)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d["property"] == pid and d.get("status") != "fixed":
                out.append(d)
    return out


def _in_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(boot.SRC) + os.sep):
            return True
        tb = tb.tb_next
    return False


def execute(sub, case, known):
    """Run one case. Returns (rec, None) or (rec, Violation); raises HarnessError."""
    rec = Rec(known)
    case = json.loads(canon(case))
    boot.CLOCK.reset()
    boot.reseed(1)
    try:
        sub.fn(case, rec)
    except Violation as v:
        if v.sig is not None and v.sig in known:
            rec.known_hit.add(v.sig)
            rec.labels["known:" + v.sig] += 1
            return rec, None
        return rec, v
    except (KeyboardInterrupt, MemoryError):
        raise
    except HarnessError:
        raise
    except Exception as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        if _in_repo(e.__traceback__):
            return rec, Violation(f"unexpected {type(e).__name__} from the code under test: {e}\n{tb}")
        raise HarnessError(f"{sub.name}: {type(e).__name__}: {e}\n{tb}\ncase={canon(case)[:3000]}")
    return rec, None


def run_batch(sub, n, seedval, known, stats, deadline):
    found = {}

    def body(case):
        if perf() > deadline and not found:
            stats["cut"] += 1
            return
        rec, v = execute(sub, case, known)
        if not found:
            stats["evaluations"] += 1
            for k, c in rec.labels.items():
                stats["labels"][k] += c
            if rec.is_nontrivial:
                h = hashlib.blake2b((sub.name + canon(case)).encode(), digest_size=8).digest()
                if h not in stats["distinct"]:
                    stats["distinct"].add(h)
                    if len(stats["samples"]) < 3:
                        stats["samples"].append(json.loads(canon(case)))
        if v is not None:
            found["case"], found["v"] = json.loads(canon(case)), v
            raise v

    test = given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, verbosity=Verbosity.quiet,
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hseed(seedval)(test)
    try:
        test()
    except Violation:
        pass
    except HarnessError:
        raise
    except Unsatisfiable:
        raise HarnessError(f"{sub.name}: unsatisfiable strategy")
    except (Flaky, BaseException) as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not found:
            raise
    return found


def minimise(sub, found, known, secs):
    """Drop operations of a failing history that are not needed for the failure."""
    end = perf() + secs

    def fails(case):
        try:
            _, v = execute(sub, case, known)
        except HarnessError:
            return None
        return v

    case = found["case"]
    if not isinstance(case, dict) or not isinstance(case.get("ops"), list):
        return
    changed = True
    while changed and perf() < end:
        changed = False
        i = len(case["ops"]) - 1
        while i >= 0 and perf() < end:
            c2 = dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
            v = fails(c2)
            if v is not None:
                case, changed = c2, True
                found["case"], found["v"] = c2, v
            i -= 1


def subseed(seed, pid, sub, shard, batch):
    h = hashlib.sha256(f"{seed}|{pid}|{sub}|{shard}|{batch}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def worker(pid, subs, tier, seed, shard, nshards, known, budget, outfile):
    res = {"subs": {}, "violation": None, "error": None}
    try:
        start = perf()
        acc = 0
        for sub in subs:
            acc += 1
            n = sub.n(tier)
            mine = n // nshards + (1 if shard < n % nshards else 0)
            stats = {"evaluations": 0, "labels": collections.Counter(), "distinct": set(), "samples": [],
                     "cut": 0}
            t0 = perf()
            # what is left, shared among the remaining subs (unused time moves on to later ones)
            left = budget - (t0 - start)
            deadline = t0 + left / (len(subs) - acc + 1) * 1.6 if acc < len(subs) else t0 + left
            b = 0
            done = 0
            while done < mine and perf() < deadline:
                k = min(BATCH, mine - done)
                found = run_batch(sub, k, subseed(seed, pid, sub.name, shard, b), known, stats, deadline)
                done += k
                b += 1
                if found:
                    minimise(sub, found, known, 20 if tier == "quick" else 60)
                    res["violation"] = {"sub": sub.name, "case": found["case"], "message": str(found["v"]),
                                        "sig": found["v"].sig}
                    break
            stats["wall"] = perf() - t0
            res["subs"][sub.name] = stats
            if res["violation"]:
                break
    except BaseException as e:  # noqa: B902 - reported to the parent
        res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    finally:
        boot.drop_scratch()
        tmp = outfile + ".tmp"
        with open(tmp, "wb") as f:
            pickle.dump(res, f)
        os.rename(tmp, outfile)


def load_check(pid):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module(f"checks.{pid.lower()}")


def write_replay(pid, sub, case, message, sig, seed, outdir):
    os.makedirs(outdir, exist_ok=True)
    h = hashlib.sha256((sub + canon(case)).encode()).hexdigest()[:12]
    path = os.path.join(outdir, f"{pid}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "seed": seed, "sig": sig, "message": message, "case": case},
                  f, indent=1, sort_keys=True)
    return path


def replay(pid, path):
    mod = load_check(pid)
    d = json.load(open(path))
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    rec, v = execute(sub, d["case"], ())
    boot.drop_scratch()
    return v


def corpus(pid):
    d = os.path.join(VERIF, "corpus", pid)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def main(pid, tier, seed, budget=None, only=None):
    t0 = perf()
    mod = load_check(pid)
    subs = [s for s in mod.SUBS if not only or s.name in only]
    by_name = {s.name: s for s in mod.SUBS}
    known_list = load_known(pid)
    known = frozenset(k["sig"] for k in known_list)
    budget = budget or (getattr(mod, "BUDGET_QUICK", 60) if tier == "quick"
                        else getattr(mod, "BUDGET_THOROUGH", 1500))
    out = sys.stdout
    replays = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "evidence", "replays"))
    violation = None
    errors = []
    pre = 0

    # ---- known findings: shown when (and only when) they still fail
    for k in known_list:
        if "case" not in k:
            continue
        rec, v = execute(by_name[k["sub"]], k["case"], known)
        pre += 1
        if v is not None:
            violation = {"sub": k["sub"], "case": k["case"], "message": str(v), "sig": v.sig}
            break
        if k["sig"] in rec.known_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}", file=out)
        else:
            print(f"note: recorded finding {k['sig']} of {pid} no longer reproduces", file=out)
    # ---- regression corpus (shrunk failures of defects since repaired, hard-to-reach shapes)
    if violation is None and not only:
        for path in corpus(pid):
            d = json.load(open(path))
            rec, v = execute(by_name[d["sub"]], d["case"], known)
            pre += 1
            if v is not None:
                violation = {"sub": d["sub"], "case": d["case"], "message": str(v), "sig": v.sig}
                break
    boot.drop_scratch()

    results = []
    if violation is None:
        import tempfile

        tmpd = tempfile.mkdtemp(prefix="oidcop-verif-res-")
        procs = {}
        out.flush()
        for shard in range(NPROC):
            f = os.path.join(tmpd, f"r{shard}")
            p = os.fork()
            if p == 0:
                try:
                    os.setpgid(0, 0)
                    worker(pid, subs, tier, seed, shard, NPROC, known, budget, f)
                finally:
                    os._exit(0)
            procs[p] = f
        pending = dict(procs)
        while pending:
            p, st = os.wait()
            if p not in pending:
                continue
            f = pending.pop(p)
            if not os.path.exists(f):
                errors.append(f"worker died with status {st}")
                continue
            r = pickle.load(open(f, "rb"))
            results.append(r)
            if r["error"]:
                errors.append(r["error"])
            if r["violation"] and violation is None:
                violation = r["violation"]
                for q in list(pending):
                    try:
                        os.kill(q, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                for q in list(pending):
                    try:
                        os.waitpid(q, 0)
                    except ChildProcessError:
                        pass
                    f2 = pending.pop(q)
                    if os.path.exists(f2):
                        results.append(pickle.load(open(f2, "rb")))
        import glob
        import shutil

        shutil.rmtree(tmpd, ignore_errors=True)
        for p in procs:
            for d in glob.glob(os.path.join(tempfile.gettempdir(), f"oidcop-verif-{p}-*")):
                shutil.rmtree(d, ignore_errors=True)

    # ---- evidence
    per_sub, distinct, samples, labels = {}, set(), [], {}
    evaluations = pre
    for r in results:
        for name, s in r["subs"].items():
            ps = per_sub.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": collections.Counter(),
                                           "cut_by_budget": 0, "cpu_s": 0.0})
            ps["evaluations"] += s["evaluations"]
            ps["cut_by_budget"] += s["cut"]
            ps["cpu_s"] += s["wall"]
            ps["labels"].update(s["labels"])
            ps.setdefault("_d", set()).update(s["distinct"])
            ps.setdefault("_s", []).extend(s["samples"])
            evaluations += s["evaluations"]
    for name, ps in per_sub.items():
        d = ps.pop("_d", set())
        ps["distinct_nontrivial"] = len(d)
        distinct |= d
        for c in ps.pop("_s", [])[:2]:
            samples.append({"sub": name, "case": c})
        ps["labels"] = dict(sorted(ps["labels"].items()))
        ps["cpu_s"] = round(ps["cpu_s"], 2)
        if by_name[name].rule:
            ps["rule"] = by_name[name].rule
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples,
            "replayed_examples": pre,
            "per_sub": per_sub,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "time is a virtual clock replacing the time functions of oidcop, oidcmsg and cryptojwt",
            "os.urandom is replaced by a seeded generator, so randomness is reproducible",
        ],
        "wall_s": round(perf() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    print(f"{pid} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
          f"{ev['wall_s']} s", file=out)
    for name, ps in per_sub.items():
        print(f"  {name}: {ps['evaluations']} cases, {ps['distinct_nontrivial']} non-trivial, cpu {ps['cpu_s']} s"
              + (f", {ps['cut_by_budget']} cut" if ps["cut_by_budget"] else ""), file=out)
    if violation:
        path = write_replay(pid, violation["sub"], violation["case"], violation["message"], violation["sig"], seed,
                            replays)
        print(f"{violation['sub']}: {violation['message']}\ncase: {canon(violation['case'])[:4000]}", file=out)
        print(f"VIOLATION property={pid} replay={path}", file=out)
        out.flush()
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        return 2
    return 0
