"""Runner shared by every property: generated cases -> oracle -> evidence/replay.

A property module (harness/props/<id>.py) exposes

    RULE         text: how cases are made, what makes one non-trivial
    subs(tier)   list of Sub

A Sub pairs a Hypothesis strategy producing *plain literals* with a body that
raises on violation.  Cases being literals, every failure is saved as a replay
file that re-runs without Hypothesis.
"""

import ast
import hashlib
import importlib
import json
import mmap
import multiprocessing as mp
import os
from pathlib import Path
import signal
import struct
import sys
import time
import traceback
import warnings
import zlib

ROOT = Path(os.environ["VERIF_ROOT"])
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CASE_LIMIT_S = 150  # one generated case takes milliseconds; this long is a hang
MEMORY_LIMIT = 8 << 30  # of one worker; on the unchanged tree none comes near
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


SETUP = "(setup)"


class Violation(AssertionError):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Rec:
    """Per-case classification."""

    __slots__ = ("labels", "nontrivial")

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, s):
        self.labels.append(s)

    def hit(self, s=None):
        self.nontrivial = True
        if s is not None:
            self.labels.append(s)


class Sub:
    def __init__(self, name, strategy, body, quick=200, thorough=None, shards=1,
                 thorough_shards=None):
        self.name = name
        self.strategy = strategy  # callable -> strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.budget = 1
        self.shards = shards
        self.thorough_shards = thorough_shards or shards

    def n(self, tier):
        if tier == "quick":
            return self.quick * self.budget
        return self.quick * self.budget * 10 if self.thorough is None else self.thorough

    def nshards(self, tier):
        return self.shards if tier == "quick" else self.thorough_shards


class CaseLog:
    """Last case of a worker, readable by the parent even if the worker dies."""

    SIZE = 1 << 20

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)

    def put(self, text):
        b = text.encode()[: self.SIZE - 8]
        self.m[:8] = struct.pack("<Q", len(b))
        self.m[8:8 + len(b)] = b

    def get(self):
        n = struct.unpack("<Q", self.m[:8])[0]
        return self.m[8:8 + n].decode(errors="replace")


def died(code):
    """A worker's exit code that means the library crashed."""
    return code < 0 and code != -signal.SIGKILL or code == 99


def resident(pid):
    try:
        return int(Path(f"/proc/{pid}/statm").read_text().split()[1]) * mmap.PAGESIZE
    except (OSError, IndexError):
        return 0


def report(pid):
    """What the sanitizer wrote about a process, if there is one."""
    for f in sorted((ROOT / ".build").glob(f"asan-report.{pid}")):
        text = f.read_text(errors="replace")
        f.unlink()
        lines = [ln for ln in text.splitlines() if "ERROR" in ln or "runtime error" in ln or "randomgen" in ln
                 or ln.startswith(("READ", "WRITE", "SUMMARY"))]
        return "\n".join(lines[:14])[:2500]
    return ""


def run_sub(sub, shard, tier, log, crash=None):
    """Explore one sub-check; with crash, find that crashing case again and shrink it.

    Every case is then run in a process of its own, and log keeps the smallest that dies."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    out = {"sub": sub.name, "count": 0, "nontrivial": set(), "labels": {},
           "samples": [], "failure": None}
    state = {"case": None, "shrinking": False}

    def body(case):
        text = repr(case)
        state["case"] = text
        if crash is not None:
            isolated(case, text)
            return
        log.put(text)
        rec = Rec()
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
        sub.body(case, rec)
        signal.setitimer(signal.ITIMER_REAL, 0)
        out["count"] += 1
        for lab in rec.labels:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        if rec.nontrivial:
            out["nontrivial"].add(hashlib.blake2b(
                (sub.name + text).encode(), digest_size=8).digest())
            if len(out["samples"]) < 2:
                out["samples"].append(text[:600])

    def isolated(case, text):
        if not state["shrinking"]:
            if text != crash:
                return
            state["shrinking"] = True
        pid = os.fork()
        if not pid:
            try:
                signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
                sub.body(case, Rec())
            finally:
                os._exit(0)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        told = report(pid)
        if died(code):
            log.put(repr((text, told)))
            raise Violation("crash")

    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    seed = zlib.crc32(f"{SEED}:{sub.name}:{shard}".encode())
    n = max(1, sub.n(tier) // sub.nshards(tier))
    test = settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        print_blob=False, verbosity=Verbosity.quiet,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(hypothesis.seed(seed)(given(sub.strategy())(body)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except BaseException as e:  # the last executed case is the minimal one
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if isinstance(e, hypothesis.errors.Flaky):
            out["failure"] = (state["case"], "not reproducible: " + repr(e)[:1500])
        elif state["case"] is None:  # the library failed while the strategy was built
            out["failure"] = ("None", "no case could be made: " + "".join(traceback.format_exception(e))[-3000:])
        else:
            out["failure"] = (state["case"], "".join(
                traceback.format_exception_only(e)).strip()[:3000] + "\n" + "".join(
                traceback.format_tb(e.__traceback__)[-3:])[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return out


def worker(sub, shard, tier, log, conn):
    try:
        res = run_sub(sub, shard, tier, log)
        res["nontrivial"] = list(res["nontrivial"])
    except BaseException as e:
        res = {"sub": sub.name, "error": "".join(traceback.format_exception(e))[-3000:]}
    conn.send(res)
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def shrink_crash(sub, shard, tier, case, told, limit=90):
    log = CaseLog()
    p = mp.get_context("fork").Process(target=run_sub, args=(sub, shard, tier, log, case))
    p.start()
    p.join(limit)
    p.kill()
    p.join()
    return ast.literal_eval(log.get() or repr((case, told)))


def write_replay(prop, sub, case, message):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    digest = hashlib.sha256((sub + case).encode()).hexdigest()[:10]
    path = d / f"{prop}-{sub.replace('/', '_').replace(' ', '_')}-{digest}.json"
    path.write_text(json.dumps(
        {"property": prop, "sub": sub, "case": case, "message": message}, indent=1))
    return path


def known_findings(prop):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["open"] if k["property"] == prop]


def run_property(prop):
    t0 = time.time()
    for f in (ROOT / ".build").glob("asan-report.*"):
        f.unlink()
    try:
        mod = importlib.import_module(f"harness.props.{prop}")
        subs = mod.subs(TIER)
    except Exception:  # what the module needs of the library before any case is not there
        msg = traceback.format_exc()[-3000:]
        path = write_replay(prop, SETUP, "None", msg)
        print(f"--- {prop}: the library cannot be used at all\n{msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for s in subs:
        s.budget = getattr(mod, "BUDGET", 4)
    only = os.environ.get("VERIF_ONLY")
    if only:
        subs = [s for s in subs if only in s.name]
    assert len({s.name for s in subs}) == len(subs), "duplicate sub-check names"
    known = known_findings(prop)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    tasks = [(s, i) for s in subs for i in range(s.nshards(TIER))]
    # long ones first
    tasks.sort(key=lambda t: -t[0].n(TIER) / t[0].nshards(TIER))
    ctx = mp.get_context("fork")
    running, results, failures, errors, crashes = {}, [], [], [], []
    pos = 0
    slow = []
    most = 0
    while pos < len(tasks) or running:
        while pos < len(tasks) and len(running) < JOBS and not failures:
            sub, shard = tasks[pos]
            pos += 1
            log = CaseLog()
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(sub, shard, TIER, log, tx))
            p.start()
            tx.close()
            running[p.pid] = (p, rx, log, sub, shard, time.time())
        if not running:
            break
        from multiprocessing.connection import wait
        wait([r[1] for r in running.values()], timeout=0.5)
        for pid, (p, rx, log, sub, shard, ts) in list(running.items()):
            res = None
            size = resident(pid)
            most = max(most, size)
            if size > MEMORY_LIMIT:
                p.kill()
                p.join()
                del running[pid]
                failures.append((sub, log.get(), f"one case used more than {MEMORY_LIMIT >> 30} GB of memory"))
                continue
            if rx.poll(0):
                try:
                    res = rx.recv()
                except EOFError:
                    pass
            elif p.is_alive():
                continue
            p.join()
            del running[pid]
            slow.append((time.time() - ts, sub.name, shard))
            if res is None:
                code = p.exitcode
                if code == -signal.SIGALRM:
                    msg = f"hang: one case ran longer than {CASE_LIMIT_S} s"
                elif code is not None and died(code):
                    crashes.append((sub, shard, log.get(), report(pid)))
                    msg = f"process died with status {code} (crash inside the library)"
                else:
                    errors.append(f"{sub.name}: worker ended with {code}")
                    continue
                failures.append((sub, log.get(), msg))
            elif res.get("error"):
                errors.append(f"{sub.name}: {res['error']}")
            else:
                results.append(res)
                if res["failure"]:
                    failures.append((sub, *res["failure"]))
        if failures:
            for pid, (p, *_r) in running.items():
                p.terminate()
            for pid, (p, *_r) in running.items():
                p.join()
            running.clear()
            break
    if crashes and len(failures) == len(crashes):
        sub, shard, case, told = crashes[0]
        case, told = shrink_crash(sub, shard, TIER, case, told)
        failures = [(sub, case, failures[0][2] + "\n" + told)]
    evaluations = sum(r["count"] for r in results)
    distinct = set()
    labels, per_sub, samples = {}, {}, []
    for r in results:
        distinct.update(r["nontrivial"])
        e = per_sub.setdefault(r["sub"], {"cases": 0, "nontrivial": 0})
        e["cases"] += r["count"]
        e["nontrivial"] += len(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for s in r["samples"][:1]:
            if len(samples) < 24:
                samples.append({"sub": r["sub"], "case": s})
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples or ["none"],
            "per_subcheck": per_sub,
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:120]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    flavour = os.environ.get("VERIF_FLAVOUR")  # one of several builds: merged later
    out = ROOT / ".build" / f"{prop}-{flavour}.json" if flavour else ROOT / "evidence" / f"{prop}.json"
    out.parent.mkdir(exist_ok=True)
    out.write_text(json.dumps(ev, indent=1, default=str))
    if os.environ.get("VERIF_TIMES"):
        print(f"  most memory of one worker: {most >> 20} MB", file=sys.stderr)
        for t in sorted(slow, reverse=True)[:25]:
            print("  %.1fs %s #%d" % t, file=sys.stderr)
    if failures:
        for sub, case, msg in failures[:3]:
            path = write_replay(prop, sub.name, case, msg)
            print(f"--- {prop}/{sub.name}\ncase: {case[:1500]}\n{msg}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    print(f"{prop}{' ' + flavour if flavour else ''}: held on {evaluations} cases ({len(distinct)} distinct non-trivial), "
          f"{len(subs)} sub-checks, {ev['wall_s']} s")
    return 0


def replay(path):
    d = json.loads(Path(path).read_text())
    if d["sub"] == SETUP:
        importlib.import_module(f"harness.props.{d['property']}").subs("quick")
        print("the module loads")
        return 0
    mod = importlib.import_module(f"harness.props.{d['property']}")
    for tier in ("quick", "thorough"):
        for s in mod.subs(tier):
            if s.name == d["sub"]:
                pid = os.fork()
                if not pid:
                    code = 0
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            s.body(ast.literal_eval(d["case"]), Rec())
                    except Exception as e:
                        print("".join(traceback.format_exception(e)))
                        code = 1
                    sys.stdout.flush()
                    os._exit(code)
                code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                if not code:
                    print("case passes")
                    return 0
                if code != 1:
                    print(f"the process died with status {code}\n{report(pid)}")
                print(f"VIOLATION property={d['property']} replay={path}")
                return 1
    print("no such sub-check", file=sys.stderr)
    return 2
