"""What a process has beside its data: settings that using the program as a library must leave alone."""
import contextlib
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

from . import sut


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def _handlers():
    out = {}
    for n in signal.valid_signals():
        try:
            out[int(n)] = signal.getsignal(n)
        except (OSError, ValueError):
            pass
    return out


def _back_to(handlers):
    for n, h in handlers.items():
        if h is not None and signal.getsignal(n) != h:
            try:
                signal.signal(n, h)
            except (OSError, ValueError):
                pass


SETTINGS = {
    "working directory": (os.getcwd, os.chdir),
    "environment": (lambda: dict(os.environ), lambda v: (os.environ.clear(), os.environ.update(v))),
    "file mode mask": (_umask, os.umask),
    "locale": (lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v)),
    "garbage collection": (gc.isenabled, lambda v: gc.enable() if v else gc.disable()),
    "garbage collection thresholds": (gc.get_threshold, lambda v: gc.set_threshold(*v)),
    "recursion limit": (sys.getrecursionlimit, sys.setrecursionlimit),
    "switch interval": (sys.getswitchinterval, sys.setswitchinterval),
    "longest number as text": (sys.get_int_max_str_digits, sys.set_int_max_str_digits),
    "signal handlers": (_handlers, _back_to),
    "import path": (lambda: list(sys.path), lambda v: sys.path.__setitem__(slice(None), v)),
    "arguments": (lambda: list(sys.argv), lambda v: sys.argv.__setitem__(slice(None), v)),
    "hooks": (lambda: (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook), lambda v: None),
    "standard streams": (lambda: [id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__)], lambda v: None),
    "built-in functions": (lambda: [id(x) for x in (open, print, input)], lambda v: None),
    "warning filters": (lambda: list(warnings.filters), lambda v: warnings.filters.__setitem__(slice(None), v)),
    "logging": (lambda: (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable), lambda v: None),
    "random numbers": (random.getstate, random.setstate),
    "decimal numbers": (lambda: repr(decimal.getcontext()), lambda v: decimal.setcontext(decimal.Context())),
    "time zone": (lambda: time.tzname, lambda v: None),
    "threads": (lambda: sorted(t.ident for t in threading.enumerate() if t.ident), lambda v: None),
}


@contextlib.contextmanager
def unchanged(what):
    """The settings after the block are those from before it."""
    before = {k: get() for k, (get, _) in SETTINGS.items()}
    try:
        yield
    finally:
        changed = []
        for k, (get, put) in SETTINGS.items():
            try:
                now = get()
            except OSError as e:
                now = str(e)
            if now != before[k]:
                changed.append((k, now))
                put(before[k])
    for k, now in changed:    # (not reached when the block itself failed)
        sut.need(False, lambda: f"{k} of the process after {what}: {sut._short(now)}, was {sut._short(before[k])}")
