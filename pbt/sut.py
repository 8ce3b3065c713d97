"""Access to the code under test: /repo/src, always from its current working tree.

Light modules are imported afresh for every case (module and class level state of the code under
test cannot leak between cases); the generated Renoise document model, which is only data classes,
is imported once.  Source is compiled once per process; nothing is written into /repo.
"""
import contextlib
import functools
import importlib
import importlib.machinery
import io
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SITE = "/opt/venv/lib/python3.12/site-packages"  # xsdata, as the project's own environment has it
HEAVY = "xrns.xml"

sys.dont_write_bytecode = True


class Violation(Exception):
    """The property is broken by the code under test."""


class Hang(BaseException):
    """A case ran far beyond its usual time (decided by counting steps, see core.py)."""


_codes = {}
_transform = None


def instrument(transform):
    """From now on, code of the light modules is passed through transform once (for fuzzing)."""
    global _transform
    _transform = transform
    _codes.clear()


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _codes.get(path)
        if code is None:
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            if _transform is not None and not fullname.startswith(HEAVY):
                code = _transform(code)
            _codes[path] = code
        return code


_installed = False


def install():
    global _installed
    if _installed:
        return
    hook = importlib.machinery.FileFinder.path_hook((_Loader, [".py"]))

    def only_src(path):
        if path == SRC or path.startswith(SRC + os.sep):
            return hook(path)
        raise ImportError

    sys.path_hooks.insert(0, only_src)
    sys.path_importer_cache.clear()
    sys.path.insert(0, SRC)
    sys.path.append(SITE)
    _installed = True


def _mine(mod):
    f = getattr(mod, "__file__", None)
    return bool(f) and f.startswith(SRC + os.sep)


class Sut:
    """One fresh instance of the program's modules."""

    NAMES = {
        "core": "vgm.core",
        "command": "vgm.command",
        "config": "vgm.ym2151.config",
        "note": "vgm.ym2151.note",
        "state": "vgm.ym2151.state",
        "tools": "tools",
        "extractors": "extractors",
        "main": "main",
        "writer": "xrns.writer",
        "serializer": "xrns.xrns_serializer",
        "song": "xrns.parts.song",
        "pattern": "xrns.parts.pattern",
        "sequence": "xrns.parts.pattern_sequence",
        "track": "xrns.parts.track",
        "globals": "xrns.parts.globals",
        "instrument": "xrns.parts.instrument",
        "dao": "xrns.xml.song.renoise_song65",
    }

    def __getattr__(self, name):
        mod = importlib.import_module(self.NAMES[name])
        if not _mine(mod):
            raise RuntimeError(f"{name} was imported from {mod.__file__}, not from {SRC}")
        setattr(self, name, mod)
        return mod


def fresh():
    install()
    for name in list(sys.modules):
        if name == HEAVY or name.startswith(HEAVY + "."):
            continue
        if _mine(sys.modules[name]):
            del sys.modules[name]
    # the package object "xrns" is new; its submodule "xml" is kept and must be reachable from it
    s = Sut()
    heavy = sys.modules.get(HEAVY)
    if heavy is not None:
        importlib.import_module("xrns").xml = heavy
    return s


@contextlib.contextmanager
def running(what, allow=()):
    """Everything inside is the code under test on valid input: an exception is a violation."""
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
    old = sys.stdout
    sys.stdout = out
    try:
        yield out
    except Violation:
        raise
    except allow:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(t.filename, REPO)}:{t.lineno} {t.name}" for t in tb
                 if t.filename.startswith(REPO)][-3:]
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e} at {where}") from e
    finally:
        sys.stdout = old


def judged(fn):
    """For functions that read a written file: what they cannot digest is a malformed file."""
    @functools.wraps(fn)
    def wrapper(*a, **k):
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except (AttributeError, LookupError, TypeError, ValueError, ArithmeticError) as e:
            raise Violation(f"the output cannot be read ({fn.__name__}): {type(e).__name__}: {e}") from e
    return wrapper


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}{_where(got, want)}")


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


def _where(a, b, path=""):
    """First place where two plain data values differ."""
    if type(a) is type(b):
        if isinstance(a, dict):
            for k in sorted(set(a) | set(b), key=str):
                if k not in a or k not in b:
                    return f" [key {path}/{k} only on one side]"
                if a[k] != b[k]:
                    return _where(a[k], b[k], f"{path}/{k}")
        elif isinstance(a, (list, tuple)):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return _where(x, y, f"{path}/{i}")
            if len(a) != len(b):
                return f" [length at {path or '/'}: {len(a)} against {len(b)}]"
    return f" [first difference at {path or '/'}: {_short(a, 80)} against {_short(b, 80)}]"
