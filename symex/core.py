"""Case registry, shared by the driver, the workers and the replayer."""

import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    """One harness with fixed structural parameters.

    fn(ctx, **params): drives the real code.  `covers`: labels the exploration must reach
    (vacuity guard).  `thorough`: only explored in the thorough tier.
    `bounds`: what is fixed (structure) and what is symbolic, in words."""

    def __init__(self, name, fn, params=None, covers=(), thorough=False, bounds="", path_timeout=60,
                 weight=1, quick_only=False, reach=(), dist=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.covers = tuple(covers)
        self.reach = tuple(reach)  # outcomes that must be possible: missing = violation
        self.dist = dist  # {outcome: its exact probability}; other outcomes must not occur
        self.thorough = thorough
        self.quick_only = quick_only
        self.bounds = bounds
        self.path_timeout = path_timeout
        self.weight = weight

    def run(self, ctx):
        self.fn(ctx, **self.params)


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    from symex import patches

    patches.load()
    return importlib.import_module("checks." + pid.lower())


def find_case(mod, name):
    for c in mod.CASES:
        if c.name == name:
            return c
    raise KeyError(name)


def origin(exc):
    """Innermost frame of an exception inside /repo (file:function) -- or None when it never
    was in the code under test."""
    out = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith("/repo/gerrychain"):
            out = f"{fr.filename[6:]}:{fr.name}"
    return out


def describe(exc):
    return f"{type(exc).__name__}: {exc}"
