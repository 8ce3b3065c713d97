"""Runs the sub-checks of one property: generation, search, shrinking, evidence, replay.

A sub-check is a generator of plain (JSON) cases and a function that decides one case, raising
sut.Violation when the code under test is wrong.  Generators are Hypothesis strategies or finite
enumerations.  Work is sharded over processes; every shard is a pure function of the code,
VERIF_SEED, the tier and the shard number.
"""
import collections
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from . import sut
from .sut import Hang, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 60  # after this, a case is re-run counting executed lines
STEP_LIMIT = 60_000_000  # times max(4, slow): far above any case of the unchanged tree (see DESIGN.md)
SHRINK_SECONDS = 40


class Sub:
    def __init__(self, name, check, gen=None, enum=None, fuzz=None, quick=0, thorough=0, slow=1):
        """check(case) -> iterable of labels; a case is non-trivial if "nontrivial" is among them.
        Cases come from gen (a strategy), enum(tier) (all of them) or fuzz (function from bytes to a case, seed inputs).
        slow: how many times longer than usual a case may take before it counts as endless."""
        self.slow = slow
        self.name, self.check, self.gen, self.enum, self.fuzz = name, check, gen, enum, fuzz
        self.n = {"quick": quick, "thorough": thorough}


class Property:
    def __init__(self, pid, rule, subs, assumptions=(), known=None):
        self.pid, self.rule, self.subs = pid, rule, subs
        self.assumptions = list(assumptions)
        self.known = known  # callable -> list of known-finding lines that still fail


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.per_sub = collections.Counter()
        self.labels = collections.Counter()
        self.seen = set()
        self.samples = []

    def add(self, sub, case, labels):
        self.evaluations += 1
        self.per_sub[sub.name] += 1
        labels = list(labels or ())
        for l in labels:
            self.labels[f"{sub.name}:{l}"] += 1
        if "nontrivial" in labels:
            text = json.dumps([sub.name, case], sort_keys=True)
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in self.seen:
                self.seen.add(h)
                k = self.per_sub[sub.name]
                if (k in (2, 20, 60) or k % 400 == 0) and len(text) < 2500 and len(self.samples) < 12:
                    self.samples.append({"sub": sub.name, "case": case})

    def merge(self, st):
        self.evaluations += st["evaluations"]
        self.per_sub.update(st["per_sub"])
        self.labels.update(st["labels"])
        self.seen.update(st["seen"])
        self.samples.extend(st["samples"])

    def dump(self):
        return {"evaluations": self.evaluations, "per_sub": self.per_sub, "labels": self.labels,
                "seen": sorted(self.seen), "samples": self.samples}


def _alarm(signum, frame):
    raise Hang()


def decide(sub, case):
    """The check proper.  An exception that comes out of the code under test and that the check did
    not expect is a violation; one of the check's own stays an error."""
    try:
        return list(sub.check(case) or ())
    except (Violation, AssertionError):
        raise
    except (Exception, SystemExit) as e:
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(sut.SRC):
                raise Violation(f"unexpected {type(e).__name__} in {os.path.relpath(tb.tb_frame.f_code.co_filename, sut.SRC)}: {e}")
            tb = tb.tb_next
        raise


def run_case(sub, case):
    """Decide one case; a Hang escapes as such."""
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS * min(5, sub.slow))
    try:
        return decide(sub, case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def steps_exceeded(sub, case):
    """Re-run a slow case counting executed lines of the code under test: a verdict that does not
    depend on the clock.  True: the step limit was passed.  False: the case ended on its own."""
    count = 0

    class Enough(BaseException):
        pass

    def local(frame, event, arg):
        nonlocal count
        count += 1
        if count > STEP_LIMIT * max(4, sub.slow):
            raise Enough()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(sut.SRC) else None

    sys.settrace(tracer)
    try:
        decide(sub, case)
    except Enough:
        return True
    except Violation:
        raise
    finally:
        sys.settrace(None)
    return False


class Failure(Exception):
    def __init__(self, sub, case, msg):
        super().__init__(msg)
        self.sub, self.case, self.msg = sub, case, msg


def hang_verdict(sub, case):
    try:
        if steps_exceeded(sub, case):
            raise Failure(sub, case, f"does not terminate within {STEP_LIMIT * max(4, sub.slow)} executed lines")
    except Violation as e:
        raise Failure(sub, case, str(e))


def run_enum(sub, tier, shard, shards, stats):
    for i, case in enumerate(sub.enum(tier)):
        if i % shards != shard:
            continue
        try:
            stats.add(sub, case, run_case(sub, case))
        except Violation as e:
            raise Failure(sub, case, str(e))
        except Hang:
            hang_verdict(sub, case)


def run_gen(sub, pid, tier, seed, shard, shards, stats):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = sub.n[tier]
    n = total // shards + (1 if shard < total % shards else 0)
    if n == 0:
        return
    best = None
    first = None

    def body(case):
        nonlocal best, first
        if first is not None and time.monotonic() - first > SHRINK_SECONDS:
            return
        try:
            try:
                labels = run_case(sub, case)
            except Hang:        # slow: the same case without a clock
                plain = json.loads(json.dumps(case))
                if steps_exceeded(sub, plain):
                    raise _Endless(plain)
                labels = ["slow"]
        except Violation as e:
            if first is None:
                first = time.monotonic()
            size = len(json.dumps(case))
            if best is None or size <= best[0]:
                best = (size, json.loads(json.dumps(case)), str(e))
            raise
        if first is None:
            stats.add(sub, case, labels)

    test = given(sub.gen)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False)(test)
    s = zlib.crc32(f"{seed}:{pid}:{sub.name}:{tier}:{shard}".encode())
    test = hypothesis.seed(s)(test)
    try:
        test()
    except _Endless as h:
        raise Failure(sub, h.case, f"does not terminate within {STEP_LIMIT * max(4, sub.slow)} executed lines")
    except BaseException as e:
        if best is None or isinstance(e, KeyboardInterrupt):
            raise
    if best is not None:
        raise Failure(sub, best[1], best[2])


def run_fuzz(sub, pid, tier, seed, shard, shards, stats):
    from . import fuzz

    total = sub.n[tier]
    n = total // shards + (1 if shard < total % shards else 0)
    if n == 0:
        return
    for more in range(5):
        r = fuzz.run(sub, n, zlib.crc32(f"{seed}:{pid}:{sub.name}:{tier}:{shard}{'+' * more}".encode()), run_case, stats, SHRINK_SECONDS)
        if not r:
            return
        if "slow" not in r:
            raise Failure(sub, r["case"], r["msg"])
        hang_verdict(sub, r["slow"])    # it ended: look for others


class _Endless(BaseException):
    def __init__(self, case):
        self.case = case


def shard_main(prop, tier, seed, shard, shards, out):
    signal.signal(signal.SIGALRM, _alarm)
    import hypothesis.configuration
    home = tempfile.mkdtemp(prefix="hyp")
    hypothesis.configuration.set_hypothesis_home_dir(home)
    stats = Stats()
    result = {}
    try:
        for sub in prop.subs:
            if sub.enum is not None:
                run_enum(sub, tier, shard, shards, stats)
            if sub.gen is not None:
                run_gen(sub, prop.pid, tier, seed, shard, shards, stats)
            if sub.fuzz is not None:
                run_fuzz(sub, prop.pid, tier, seed, shard, shards, stats)
    except Failure as f:
        result["failure"] = {"sub": f.sub.name, "case": f.case, "msg": f.msg}
    except BaseException:
        result["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(home, ignore_errors=True)
    result["stats"] = stats.dump()
    with open(out, "w") as fo:
        json.dump(result, fo)


def known_findings(pid):
    """The lines of the committed list that concern a property."""
    with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") as f:
        return [ln.strip() for ln in f if ln.startswith(f"KNOWN-FINDING: property={pid} ")]


def corpus(prop):
    d = os.path.join(VERIF, "corpus", prop.pid)
    if not os.path.isdir(d):
        return
    byname = {s.name: s for s in prop.subs}
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            with open(os.path.join(d, f)) as fi:
                r = json.load(fi)
            yield byname[r["sub"]], r["case"]


def write_replay(prop, failure, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.pid, "sub": failure["sub"], "case": failure["case"],
            "message": failure["msg"], "seed": seed, "tier": tier}
    h = hashlib.blake2b(json.dumps(body["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{prop.pid}-{failure['sub']}-{h}.json")
    with open(path, "w") as fo:
        json.dump(body, fo, indent=1)
    return path


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    sub = {s.name: s for s in prop.subs}[r["sub"]]
    signal.signal(signal.SIGALRM, _alarm)
    try:
        run_case(sub, r["case"])
    except Violation as e:
        print(f"{prop.pid} {sub.name}: {e}")
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    except Hang:
        try:
            hang_verdict(sub, r["case"])
        except Failure as f:
            print(f.msg)
            print(f"VIOLATION property={prop.pid} replay={path}")
            return 1
    print(f"{prop.pid} {sub.name}: holds on {path}")
    return 0


def main(prop, tier, seed, shards):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop.pid}-")
    # every temporary file of every shard goes below work, which is removed at the end
    os.environ["TMPDIR"] = work
    tempfile.tempdir = work
    try:
        return _main(prop, tier, seed, shards, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(prop, tier, seed, shards, work, t0):
    signal.signal(signal.SIGALRM, _alarm)
    total = Stats()
    results = []
    failures, errors = [], []
    # saved inputs first
    replayed = 0
    sut.fresh()
    for sub, case in corpus(prop):
        replayed += 1
        try:
            total.add(sub, case, run_case(sub, case))
        except Violation as e:
            failures.append({"sub": sub.name, "case": case, "msg": str(e)})
            break
        except Hang:
            try:
                hang_verdict(sub, case)
            except Failure as f:
                failures.append({"sub": sub.name, "case": case, "msg": f.msg})
                break
    if not failures:
        # compile and import everything once, so that the forked shards share it
        s = sut.fresh()
        for n in s.NAMES:
            try:
                getattr(s, n)
            except (Exception, SystemExit):
                pass  # the cases that need it will tell
        pids = {}
        for k in range(shards):
            out = os.path.join(work, f"shard{k}.json")
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    shard_main(prop, tier, seed, k, shards, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = out
        while pids:
            pid, status = os.wait()
            if pid not in pids:
                continue
            out = pids.pop(pid)
            try:
                with open(out) as f:
                    results.append(json.load(f))
            except Exception:
                errors.append(f"shard died with status {status}")
    for r in results:
        total.merge(r["stats"])
        if "failure" in r:
            failures.append(r["failure"])
        if "error" in r:
            errors.append(r["error"])
    known = []
    if prop.known and not failures:
        try:
            for line, failing in prop.known():
                if failing:
                    known.append(line)
                    print(line)
        except Violation as e:
            failures.append({"sub": "known", "case": None, "msg": str(e)})
    # smallest failure first; the order does not depend on which shard ended first
    failures.sort(key=lambda f: (len(json.dumps(f["case"])), json.dumps(f, sort_keys=True)))
    by = {}
    for smp in sorted(total.samples, key=lambda s: json.dumps(s, sort_keys=True)):
        by.setdefault(smp["sub"], []).append(smp)
    samples = [s for v in by.values() for s in v[:3]]
    ev = {
        "property": prop.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.seen),
            "rule": prop.rule,
            "samples": samples[:15] or [{"note": "no case was completed"}],
            "cases_per_subcheck": dict(sorted(total.per_sub.items())),
            "classes": dict(sorted(total.labels.items())),
            "saved_inputs_replayed": replayed,
            "shards": shards,
            "known_findings_still_failing": known,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop.pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop.pid}.json"))
    if failures:
        for f in failures[:3]:
            path = write_replay(prop, f, seed, tier)
            print(f"{prop.pid} {f['sub']}: {f['msg'][:2000]}")
            print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        print(f"{prop.pid}: the check itself failed", file=sys.stderr)
        return 2
    print(f"{prop.pid}: held on {total.evaluations} cases ({len(total.seen)} distinct non-trivial), "
          f"tier {tier}, seed {seed}, {time.time() - t0:.1f} s")
    return 0
