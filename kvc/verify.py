"""Running specifications: one exploration per (function, case)."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from terms import *
from values import *
import state
from state import *
from reg import Reg, Lost
from mir import Crate
from interp import Interp, SMALL
import lib


class Result:
    """outcome of one task"""

    def __init__(self, prop, name):
        self.prop, self.name = prop, name
        self.obls = []
        self.paths = 0
        self.status = None       # proved | failed | unsupported | lost | vacuous
        self.why = None
        self.secs = 0.0
        self.assumptions = set()
        self.invariants = []
        self.mode = "real"
        self.fns = []


class World:
    def __init__(self, path):
        self.path = path
        self.crate = Crate(path)


def run_task(world, prop, name, body, mode="real", fns=(), budget=240, axioms=(), maxpaths=4000, about=None):
    """body(i) -> None sets up the state, runs code, proves; executed once per path"""
    Mode.t = mode
    r = Result(prop, name)
    r.mode, r.fns = mode, list(fns)
    t0 = time.time()
    try:
        shapes = Shapes(world.crate)
        reg = Reg(world.crate, shapes)
        for k in fns:
            reg.fn(k)
        x = Ctx(world.crate, shapes, name)
        x.maxpaths = maxpaths
        x.deadline = t0 + budget
        x.axioms = list(mon_axioms()) + lib.cnt_axioms() + list(axioms)
        i = Interp(x, reg)
        i.covered = set()

        def run(_):
            i.depth = 0
            i.templates, i.contracts = [], {}
            i.unroll, i.dyncall, i.onsolve, i.onlist = SMALL, None, None, None
            i.onlock = i.onunlock = None
            x.only = None
            body(i)
            # reached the end: note that the path is feasible
            if not x.replaying() and not i.covered:
                if x.check(z3.BoolVal(True), 4000) != "unsat":
                    i.covered.add(1)
        r.paths = x.run_paths(run)
        r.obls = x.obls
        r.invariants = i.loop_results
        r.assumptions = x.assumptions
        bad = [o for o in r.obls if o.status != "proved"]
        if bad:
            r.status, r.why = "failed", "%s: %s" % (bad[0].fn, bad[0].label)
            if about and not [o for o in bad if o.kind in about]:
                r.status = "other"
        elif not i.covered:
            r.status, r.why = "vacuous", "no path reaches the end of the specification"
        else:
            r.status = "proved"
    except Lost as e:
        r.status, r.why = "lost", str(e)
    except Unsupported as e:
        r.status, r.why = "unsupported", str(e)
        if os.environ.get("KVC_DEBUG"):
            traceback.print_exc(limit=-8)
        try:
            r.obls = x.obls
        except NameError:
            pass
    except z3.Z3Exception as e:
        r.status, r.why = "unsupported", "z3: " + str(e)[:300]
        if os.environ.get("KVC_DEBUG"):
            traceback.print_exc(limit=-4)
    except (AttributeError, TypeError, KeyError, IndexError, AssertionError, RecursionError, ValueError) as e:
        r.status, r.why = "unsupported", "internal: %s: %s" % (type(e).__name__, str(e)[:200])
        if os.environ.get("KVC_DEBUG"):
            traceback.print_exc(limit=-4)
    r.secs = time.time() - t0
    return r
