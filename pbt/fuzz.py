"""Coverage-guided fuzzing of a sub-check: libFuzzer (through atheris) drives the bytes from which a
case is made, and keeps those that reach new branches or get closer in a comparison of the code
under test.

It runs in a child of the shard, since libFuzzer ends its process; a failing case is made small by
removing parts of the bytes and is then reported as the plain JSON case, which is replayed without
any fuzzer.  With a fixed seed and number of runs the search is reproducible.
"""
import json
import os
import sys
import tempfile
import time
import traceback

from . import gens, sut
from .sut import Hang, Violation

CHREGS = gens.CHREG + [r + 8 * i for r in gens.OPREG for i in range(4)]


def available():
    try:
        import atheris  # noqa: F401
    except ImportError:
        return False
    return True


def history(data, waits=None):
    """Bytes as a register history: three bytes a step."""
    ops = []
    for i in range(0, len(data) - 2, 3):
        k, a, b = data[i:i + 3]
        k %= 16
        if k < 4:
            if a != 8:
                ops.append(["w", a, b])
        elif k < 7:
            ops.append(["w", CHREGS[a // 8 % len(CHREGS)] + a % 8, b])
        elif k < 8:
            ops.append(["w", gens.GLOBAL[a % 4], b])
        elif k < 11:
            ops.append(["on", a % 8, b % 16 or 15])
        elif k < 12:
            ops.append(["off", a % 8])
        elif k < 13:
            ops.append(["w", 8, b])
        else:
            n = a * 256 + b
            ops.append(["t", waits(n) if waits else n])
    return ops


# a note, a patch change, the note again, ended: what a song looks like
SONG = bytes([5, 0, 199, 5, 8, 0x4A, 8, 0, 15, 13, 3, 0xE8, 11, 0, 0, 13, 3, 0xE8, 5, 0x28, 9, 8, 0, 15, 13, 3, 0xE8,
              8, 3, 15, 7, 1, 3, 8, 0, 15, 7, 0, 0x85, 8, 7, 7])


def smaller(data, fails, seconds):
    """Remove parts of data, then lower bytes, while it fails."""
    t0 = time.monotonic()
    n = max(1, len(data) // 2)
    while n and time.monotonic() - t0 < seconds:
        i = 0
        while i < len(data) and time.monotonic() - t0 < seconds:
            c = data[:i] + data[i + n:]
            if fails(c):
                data = c
            else:
                i += n
        n //= 2
    for i in range(len(data)):
        for v in (0, 1, 8, 15):
            if time.monotonic() - t0 > seconds:
                return data
            if data[i] > v and fails(data[:i] + bytes([v]) + data[i + 1:]):
                data = data[:i] + bytes([v]) + data[i + 1:]
                break
    return data


def child(sub, runs, seed, out, run_case, stats, shrink_seconds):
    import atheris

    decode, seeds = sub.fuzz
    state = {"n": 0}
    t_end = None

    def finish(result):
        result["stats"] = stats.dump()
        with open(out, "w") as f:
            json.dump(result, f)
        os._exit(0)

    def fails(data):
        try:
            run_case(sub, decode(data))
        except Violation as e:
            return str(e)
        except Hang:
            return None
        return None

    def one(data):
        try:
            case = decode(data)
            try:
                labels = run_case(sub, case)
            except Violation:
                small = smaller(bytes(data), fails, shrink_seconds)
                case = json.loads(json.dumps(decode(small)))
                finish({"case": case, "msg": fails(small) or "fails only after the cases before it"})
            except Hang:
                finish({"slow": json.loads(json.dumps(case))})
            stats.add(sub, case, labels)
            state["n"] += 1
            if state["n"] >= runs:
                finish({})
        except BaseException:
            finish({"error": traceback.format_exc()})

    sut.instrument(lambda code: atheris.instrument_bytecode.patch_code(code, True))
    corpus = tempfile.mkdtemp(prefix="seeds")
    for i, b in enumerate(seeds):
        with open(os.path.join(corpus, f"s{i:03}"), "wb") as f:
            f.write(b)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.dup2(null, 1)
    os.chdir(corpus)
    atheris.Setup(["fuzz", f"-seed={seed % 0x7FFFFFFF + 1}", "-timeout=0", "-rss_limit_mb=0", "-verbosity=0", "-max_len=400",
                   "-len_control=20", f"-runs={runs * 4 + 1000}", corpus], one, enable_python_coverage=True)
    atheris.Fuzz()


def run(sub, runs, seed, run_case, stats, shrink_seconds):
    """None, or {"case", "msg"} of a failing case, or {"slow": case}; counts into stats."""
    if not available():
        stats.labels[f"{sub.name}:fuzzer not available"] += 1
        return None
    fd, out = tempfile.mkstemp(prefix="fuzz")
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child(sub, runs, seed, out, run_case, type(stats)(), shrink_seconds)
        except BaseException:
            with open(out, "w") as f:
                json.dump({"error": traceback.format_exc()}, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    with open(out) as f:
        text = f.read()
    os.unlink(out)
    if not text:
        raise RuntimeError("the fuzzer ended without a result")
    r = json.loads(text)
    if "error" in r:
        raise RuntimeError("in the fuzzer's process: " + r["error"])
    stats.merge(r["stats"])
    return {k: r[k] for k in ("case", "msg", "slow") if k in r} or None
