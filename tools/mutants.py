"""Mutation of the hand-written source, to find what the checks do not notice.

usage: mutants.py [--jobs N] [--shards N] [--only FILE-PART] [--sample K/N] OUT.jsonl

Every mutant is made in a copy of /repo below /tmp; mutants that a stable test notices are skipped;
the others are given to the checks that concern the file (quick tier) until one reports a violation.
One JSON line per mutant: file, line, what was changed, outcome.  Nothing here is run by a check.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/vgm/core.py": "C01 C02 C03 C07 C16",
    "src/vgm/command.py": "C01 C07 C03",
    "src/vgm/ym2151/config.py": "C19 C08 C05 C04",
    "src/vgm/ym2151/note.py": "C10 C13 C06",
    "src/vgm/ym2151/state.py": "C04 C06 C05 C12",
    "src/extractors.py": "C13 C09 C10 C11 C08",
    "src/main.py": "C07 C15",
    "src/tools.py": "C16 C15",
    "src/xrns/xrns_serializer.py": "C17 C11 C09",
    "src/xrns/writer.py": "C17 C11",
    "src/xrns/parts/song.py": "C17 C11",
    "src/xrns/parts/globals.py": "C17 C11",
    "src/xrns/parts/pattern.py": "C17 C09 C11",
    "src/xrns/parts/track.py": "C17 C11",
    "src/xrns/parts/pattern_sequence.py": "C17 C09",
    "src/xrns/parts/instrument.py": "C17",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+", "//"], ast.Div: ["//", "*"], ast.FloorDiv: ["/", "%"], ast.Mod: ["//"],
       ast.BitAnd: ["|", "^"], ast.BitOr: ["&"], ast.LShift: [">>"], ast.RShift: ["<<"]}


def mutants(src):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    out = []

    def edit(a, b, new, line, what):
        s = raw[:a] + new.encode() + raw[b:]
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            return
        out.append((line, what, s.decode()))

    def swap_op(left, right, old_ops, line):
        a, b = pos(left, True), pos(right)
        gap = raw[a:b].decode()
        for o, n in old_ops:
            if gap.count(o) == 1 or gap.strip(" ()\n") == o:
                i = gap.index(o)
                edit(a + i, a + i + len(o), n, line, f"{o} -> {n} in {raw[pos(left):pos(right, True)].decode()[:60]!r}")

    names = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
             ast.In: "in", ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&",
             ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>"}
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            doc.update(id(c) for c in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            doc.update(id(c) for c in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef):
            if n.returns is not None:
                doc.update(id(c) for c in ast.walk(n.returns))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Constant):
            text = raw[pos(n):pos(n, True)].decode()
            v = n.value
            if v is True or v is False:
                edit(pos(n), pos(n, True), str(not v), n.lineno, f"{v} -> {not v}")
            elif isinstance(v, int):
                for w in sorted({v + 1, v - 1, v ^ 4 if v > 4 else v + 2, v >> 1 if v > 15 else v + 3}):
                    if w >= 0:
                        edit(pos(n), pos(n, True), str(w), n.lineno, f"{text} -> {w}")
            elif isinstance(v, str) and v:
                edit(pos(n), pos(n, True), repr(v[:-1]), n.lineno, f"{text} -> {v[:-1]!r}")
                if v.swapcase() != v:
                    edit(pos(n), pos(n, True), repr(v.swapcase()), n.lineno, f"{text} -> {v.swapcase()!r}")
            elif v is None:
                edit(pos(n), pos(n, True), "0", n.lineno, "None -> 0")
        elif isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                swap_op(left, right, [(names[type(op)], x) for x in CMP.get(type(op), [])], n.lineno)
                left = right
        elif isinstance(n, ast.BinOp):
            swap_op(n.left, n.right, [(names[type(n.op)], x) for x in BIN.get(type(n.op), [])], n.lineno)
        elif isinstance(n, ast.AugAssign):
            t = raw[pos(n.target, True):pos(n.value)].decode()
            for x in BIN.get(type(n.op), []):
                edit(pos(n.target, True), pos(n.value), t.replace(names[type(n.op)], x, 1), n.lineno, f"augmented {t.strip()} -> {x}=")
        elif isinstance(n, ast.BoolOp):
            o, x = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for a, b in zip(n.values, n.values[1:]):
                swap_op(a, b, [(o, x)], a.lineno)
            for v in n.values:
                edit(pos(v), pos(v, True), "True" if o == "and" else "False", v.lineno,
                     f"drop {raw[pos(v):pos(v, True)].decode()[:60]!r}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            edit(pos(n), pos(n.operand), "", n.lineno, "drop not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for w in (["True", "False"] if not isinstance(n, ast.While) else ["False"]):
                edit(pos(n.test), pos(n.test, True), w, n.lineno, f"condition {raw[pos(n.test):pos(n.test, True)].decode()[:60]!r} -> {w}")
        elif isinstance(n, ast.Call):
            if raw[pos(n.func):pos(n.func, True)].decode() == "copy.deepcopy":
                edit(pos(n), pos(n.args[0]), "(", n.lineno, "drop deepcopy")
            if raw[pos(n.func):pos(n.func, True)].decode() == "sorted":
                edit(pos(n.func), pos(n.func, True), "list", n.lineno, "sorted -> list") if not n.keywords else None
            for kw in n.keywords:
                if kw.arg and not isinstance(kw.value, ast.Constant):
                    edit(pos(kw.value), pos(kw.value, True), "None", n.lineno, f"argument {kw.arg} -> None")
            if len(n.args) == 2:
                a, b = n.args
                edit(pos(a), pos(b, True), raw[pos(b):pos(b, True)].decode() + ", " + raw[pos(a):pos(a, True)].decode(), n.lineno,
                     "exchange arguments")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Return)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            edit(pos(n), pos(n, True), "pass", n.lineno, f"drop {raw[pos(n):pos(n, True)].decode()[:70]!r}")
        if isinstance(n, (ast.Assign,)):
            for t in n.targets:
                pass
        if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.value, ast.IfExp):
            edit(pos(n.value), pos(n.value, True), raw[pos(n.value.body):pos(n.value.body, True)].decode(), n.lineno, "always default")
        if isinstance(n, ast.Dict):
            for v, w in zip(n.values, n.values[1:]):
                edit(pos(v), pos(v, True), raw[pos(w):pos(w, True)].decode(), v.lineno, f"dict value -> {raw[pos(w):pos(w, True)].decode()[:40]!r}")
    seen, res = set(), []
    for m in out:
        if m[2] not in seen and m[2] != src:
            seen.add(m[2])
            res.append(m)
    return res


def stable():
    out = set()
    for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        a, b = x.split("::")
        p = a.split(".")
        out.add("/".join(p[:2]) + ".py::" + "::".join(p[2:] + [b]))
    return out


def run_one(job):
    k, path, line, what, text, shards, base = job
    d = tempfile.mkdtemp(prefix=f"mut{k}-", dir="/tmp")
    res = {"k": k, "file": path, "line": line, "what": what}
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        with open(os.path.join(repo, path), "w") as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
        try:
            t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-rA", "tests"], cwd=repo, env=env,
                               capture_output=True, text=True).stdout
        except Exception:
            t = ""
        if base - set(re.findall(r"^PASSED (\S+)", t, re.M)):
            res["outcome"] = "noticed by the tests"
            return res
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for n in ("check", "run.py", "known_findings.txt"):
            shutil.copy(os.path.join(VERIF, n), v)
        shutil.copytree(os.path.join(VERIF, "pbt"), os.path.join(v, "pbt"), ignore=shutil.ignore_patterns("__pycache__"))
        res["outcome"], res["ran"] = "SURVIVED", []
        for c in CHECKS[path].split():
            env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SEED="1")
            p = subprocess.run(["timeout", "1200", "/opt/veriftools/pyvenv/bin/python", "run.py", c, "--tier", "quick", "--shrink", "1", "--scale", "0.2",
                                "--shards", str(shards)], cwd=v, env=env, capture_output=True, text=True)
            res["ran"].append([c, p.returncode])
            if p.returncode not in (0, 1):
                res.setdefault("errors", []).append(c + ": " + p.stderr[-600:])
            if p.returncode == 1:
                res["outcome"] = "caught by " + c
                res["message"] = p.stdout.strip().split("\n")[0][:200]
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--shards", type=int, default=2)
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", default="0/1")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    r, m = map(int, a.sample.split("/"))
    base = stable()
    jobs, k = [], 0
    for path in CHECKS:
        if a.only not in path:
            continue
        with open(os.path.join("/repo", path)) as f:
            src = f.read()
        for line, what, text in mutants(src):
            k += 1
            if k % m == r:
                jobs.append((k, path, line, what, text, a.shards, base))
    print(len(jobs), "mutants")
    if a.list:
        return
    with open(a.out, "a") as out, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for res in ex.map(run_one, jobs):
            out.write(json.dumps(res) + "\n")
            out.flush()


main()
