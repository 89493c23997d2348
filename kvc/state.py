"""Symbolic state, path exploration, obligations."""
import os
import subprocess
import tempfile
import time
import z3
import terms
from terms import *
from values import *


class PathEnd(Exception):
    """this path needs no further execution"""


class LoopBack(Exception):
    """the current iteration of the analysed loop is complete"""


class LoopExit(Exception):
    """the analysed loop was left"""


class State:
    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.cells = {}
        self.guards = {}      # gid -> Guard
        self.alloc = None
        self.ghost = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cells = dict(self.cells)
        s.guards = dict(self.guards)
        s.alloc = self.alloc
        s.ghost = dict(self.ghost)
        return s


class Obligation:
    __slots__ = ("fn", "label", "where", "kind", "status", "detail", "backend", "secs", "path")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


SLOW = float(os.environ.get("KVC_SLOW", 0))


class Config:
    timeout_ms = 15000
    feas_ms = 300
    scale = 1      # all time limits are multiplied by this
    alt = None     # seconds for asking other solvers again what was proved (thorough)


class Stats:
    def __init__(self):
        self.queries = 0
        self.secs = 0.0
        self.max = 0.0
        self.alt = {}
        self.altsecs = 0.0


STATS = Stats()


def mk_solver(ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("mbqi", False)
    s.set("auto_config", False)
    s.set("random_seed", 7)
    if not os.environ.get("KVC_EXT"):
        s.set("array.extensional", False)
    return s


class Ctx:
    """One exploration. Paths are re-executed from the start with a prefix of recorded decisions."""

    def __init__(self, crate, shapes, fnname, parent=None):
        self.crate, self.shapes = crate, shapes
        self.fnname = fnname
        self.parent = parent
        self.obls = []
        self.seen_obl = set()
        self.quiet = 0           # >0: analysis run, obligations are assumed not recorded
        self.axioms = []
        self.extra, self.memo, self.kept = [], {}, {}
        self.loopcache = {}
        self.epoch = 0
        self.loopdepth = 0
        self.npaths = 0
        self.nchoices = 0
        self.maxpaths = 4000
        self.deadline = None
        self.assumptions = set()
        self.chosen = []

    # ---- running
    def run_paths(self, body, st0=None, pc0=None, ns=""):
        """body(ctx) executed for every feasible path; yields nothing, body does the work"""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.maxpaths:
                raise Unsupported("too many paths")
            saved = self._save()
            self.prefix, self.log = prefix, []
            self.alts = []
            self.ns, self.cnt = ns, 0
            self.gidc = (saved[10] if saved else 0) or 0
            self.instc = 0
            self.st = st0.copy() if st0 is not None else State()
            self.pc = []
            self.solver = mk_solver(Config.feas_ms)
            for a in self.axioms:
                self.solver.add(a)
            self.nlit = 0
            for c in pc0 or []:
                self.assume(c)
            try:
                body(self)
            except PathEnd:
                pass
            finally:
                alts = self.alts
                self._restore(saved)
            stack.extend(alts)
            self.npaths += 1
        return n

    def _save(self):
        return tuple(getattr(self, a, None) for a in
                     ("prefix", "log", "alts", "ns", "cnt", "st", "pc", "solver", "instc", "nlit", "gidc"))

    def _restore(self, s):
        (self.prefix, self.log, self.alts, self.ns, self.cnt, self.st, self.pc, self.solver, self.instc, self.nlit,
         self.gidc) = s

    def replaying(self):
        return len(self.log) < len(self.prefix)

    def fresh(self, base, sort):
        self.cnt += 1
        return z3.Const("%s!%s%d" % (base, self.ns, self.cnt), sort)

    def fresh_of(self, sh, base):
        self.cnt += 1
        b = "%s!%s%d" % (base, self.ns, self.cnt)
        ts = [z3.Const(b + s, so) for s, so in sh.leaves()]
        v = sh.build(ts)
        for c in wf_of(sh, v):
            self.assume(c)
        return v

    def assume(self, c):
        b = as_bool(c)
        if b is True:
            return
        self.pc.append(c)
        self.solver.add(c)

    def _lits(self):
        from terms import _lits
        if len(_lits) != self.nlit:
            self.nlit = len(_lits)
            for a in lit_axioms():
                self.solver.add(a)

    def check(self, c, ms):
        """'unsat' / 'sat' / 'unknown' for pc and c"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this function used up")
        self._lits()
        t = time.time()
        self.solver.push()
        self.solver.set("timeout", ms * Config.scale)
        self.solver.add(c)
        r = str(self.solver.check())
        self.solver.pop()
        dt = time.time() - t
        STATS.queries += 1
        STATS.secs += dt
        STATS.max = max(STATS.max, dt)
        if SLOW and dt > SLOW:
            import traceback
            if os.environ.get("KVC_SLOWDUMP") and os.environ["KVC_SLOWDUMP"] in str(c):
                self.solver.push()
                self.solver.add(c)
                open("/tmp/slow.smt2", "w").write(self.solver.to_smt2())
                self.solver.pop()
                os._exit(0)
            print("      slow %.1f s %s: %s | %s" % (dt, r, str(c)[:160].replace("\n", " "), " < ".join(f.name for f in reversed(traceback.extract_stack(limit=7)[:-1]))), flush=True)
        return r

    def implied(self, c, ms=None):
        b = as_bool(c)
        if b is not None:
            return b
        return self.check(z3.Not(c), ms or Config.feas_ms) == "unsat"

    def settled(self, c):
        """True / False when the facts at hand settle c, else None; answers are remembered (facts are only added along a path)"""
        b = as_bool(c)
        if b is not None:
            return b
        facts = [f.get_id() for f in self.pc] + [None] + [f.get_id() for f in self.extra]
        n, m = len(self.pc), len(self.extra)
        key = c.get_id()
        for (n0, m0, h, r) in self.memo.get(key, (None, ()))[1]:
            if n0 > n or m0 > m or r is None and (n0 != n or m0 != m):
                continue
            if h == hash(tuple(facts[:n0] + facts[n:n + 1 + m0])):
                return r
        r = None
        if self.check(c, Config.feas_ms) == "unsat":
            r = False
        elif self.check(z3.Not(c), Config.feas_ms) == "unsat":
            r = True
        for f in self.pc + self.extra:
            self.kept[f.get_id()] = f       # their ids are not used again
        self.memo.setdefault(key, (c, []))[1].append((n, m, hash(tuple(facts)), r))
        return r

    def choose(self, c):
        """branch on c"""
        b = as_bool(c)
        if b is not None:
            return b
        i = len(self.log)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.check(c, Config.feas_ms) != "unsat"
            f = self.check(z3.Not(c), Config.feas_ms) != "unsat" if t else True
            if t and f:
                self.alts.append(self.log + [False])
                self.nchoices += 1
                d = True
            else:
                d = t
                if not t and self.check(z3.Not(c), Config.feas_ms) == "unsat":
                    self.log.append(d)
                    raise PathEnd()
        self.log.append(d)
        self.assume(c if d else z3.Not(c))
        self.chosen.append(c if d else z3.Not(c))
        return d

    def end(self):
        raise PathEnd()

    # ---- obligations
    def prove(self, c, label, kind="post", where=None):
        """record the obligation pc => c"""
        if self.quiet:
            if kind in ("panic", "wait"):
                self.assume(c)
            return
        if self.replaying() or (self.only and kind not in self.only):
            self.assume(c)
            if as_bool(c) is False:
                self.end()
            return
        t = time.time()
        status, backend, detail = self.decide(c)
        self.obls.append(Obligation(fn=self.fnname, label=label, kind=kind, where=where, status=status, backend=backend,
                                    detail=detail, secs=time.time() - t, path="".join("1" if x else "0" for x in self.log)))
        if status == "proved":
            self.assume(c)
        elif as_bool(c) is False:
            self.end()
        else:
            self.assume(c)

    def note_proved(self, label, kind="post", where=None):
        if not self.quiet and not self.replaying():
            self.obls.append(Obligation(fn=self.fnname, label=label, kind=kind, where=where, status="proved", backend="z3", secs=0.0,
                                        path="".join("1" if x else "0" for x in self.log)))

    def decide(self, c, ms=None):
        r = self._decide(c, ms)
        if Config.alt and r[0] == "proved" and r[1] != "simplifier" and not self.quiet and STATS.altsecs < Config.alt:
            t = time.time()
            facts = self.axioms + self.pc + lit_axioms()
            for name in ("z3-new", "cvc5"):
                if other_solver(name, facts, c, 4) == "unsat":
                    STATS.alt[name] = STATS.alt.get(name, 0) + 1
            STATS.alt["asked"] = STATS.alt.get("asked", 0) + 1
            STATS.altsecs += time.time() - t
        return r

    def _decide(self, c, ms=None):
        b = as_bool(c)
        if b is True:
            return "proved", "simplifier", None
        ms = ms or Config.timeout_ms
        already = any(o.status != "proved" for o in self.obls)
        r = self.check(z3.Not(c), min(ms, 3000) if already else ms // 2)
        if r == "unsat":
            return "proved", "z3", None
        if already:
            return "failed", "z3", "%s: %s" % (r, str(c)[:1500])
        # split conjunctions: z3 is often quicker on the parts
        if z3.is_and(c):
            bad = None
            for p in c.children():
                if self.check(z3.Not(p), ms // 2) != "unsat":
                    bad = p
                    break
            if bad is None:
                return "proved", "z3", None
            c = bad
        facts = self.axioms + self.pc + lit_axioms()
        tried = [r]
        if os.environ.get("KVC_DUMP"):
            d = z3.Solver()
            d.add(facts + [z3.Not(c)])
            open(os.environ["KVC_DUMP"], "w").write(d.to_smt2())

        def fresh(fs, name, ms, opts):
            s = z3.Solver()
            s.set("timeout", ms * Config.scale)
            for k, v in opts.items():
                s.set(k, v)
            for a in fs:
                s.add(a)
            s.add(z3.Not(c))
            t = time.time()
            q = str(s.check())
            STATS.queries += 1
            STATS.secs += time.time() - t
            tried.append(q)
            return q == "unsat"
        em = dict(mbqi=False, auto_config=False)
        near = relevant(facts, c, 3)
        if fresh(near, "z3", ms // 2, dict(em, random_seed=1)):
            return "proved", "z3(relevant facts)", None
        for sd in (1, 11):
            if fresh(facts, "z3", ms // 3, dict(em, random_seed=sd)):
                return "proved", "z3(fresh)", None
        if fresh(facts, "z3", ms // 2, {}):
            return "proved", "z3(mbqi)", None
        if other_solver("cvc5", facts, c, ms * Config.scale // 1000) == "unsat":
            return "proved", "cvc5", None
        return "failed", "z3", "%s: %s" % ("/".join(tried), str(c)[:1500])

    def fail(self, label, kind, detail, where=None):
        if self.quiet:
            self.end()
        if not self.replaying() and not (self.only and kind not in self.only):
            if self.check(z3.BoolVal(True), 3000) != "unsat":
                self.obls.append(Obligation(fn=self.fnname, label=label, kind=kind, where=where, status="failed",
                                            backend="z3", detail=detail, secs=0.0, path="".join("1" if x else "0" for x in self.log)))
            else:
                self.obls.append(Obligation(fn=self.fnname, label=label, kind=kind, where=where, status="proved",
                                            backend="z3", secs=0.0, path=""))
        self.end()


def consts_of(t, memo={}):
    """names of the uninterpreted symbols of a term"""
    k = t.get_id()
    if k in memo and memo[k][0].eq(t):
        return memo[k][1]
    out, seen, st = set(), set(), [t]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_quantifier(y):
            st.append(y.body())
            continue
        if z3.is_app(y):
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(y.decl().name())
            st.extend(y.children())
    if len(memo) > 20000:
        memo.clear()
    memo[k] = (t, out)
    return out


def relevant(facts, goal, depth):
    """facts that share symbols with the goal, over a few steps; symbols in very many facts do not count"""
    sy = [consts_of(f) for f in facts]
    freq = {}
    for s in sy:
        for n in s:
            freq[n] = freq.get(n, 0) + 1
    lim = max(12, len(facts) // 4)
    have = set(consts_of(goal))
    take = [False] * len(facts)
    for _ in range(depth):
        new = set()
        for k, s in enumerate(sy):
            if not take[k] and (not s or any(n in have and freq[n] <= lim for n in s) or s <= have):
                take[k] = True
                new |= s
        have |= new
    return [f for k, f in enumerate(facts) if take[k]]


def other_solver(name, facts, goal, secs):
    """the same question for another solver, through SMT-LIB"""
    s = z3.Solver()
    for a in facts:
        s.add(a)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="kvc")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        cmd = {"cvc5": ["cvc5", "--tlimit=%d" % (secs * 1000), path], "z3-new": ["z3-new", "-T:%d" % secs, path],
               "z3-4.8": ["z3", "-T:%d" % secs, path]}[name]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 5).stdout.split("\n")[0].strip()
        except (subprocess.TimeoutExpired, OSError):
            r = "unknown"
        STATS.queries += 1
        STATS.secs += time.time() - t
        return r if r in ("sat", "unsat") else "unknown"
    finally:
        os.unlink(path)


def wf_of(sh, v):
    """range facts of a fresh symbolic value (tags and lengths), not under vectors"""
    r = []
    if isinstance(sh, EnumSh):
        r.append(sh.wf(v))
        for i, (vn, ns, subs) in enumerate(sh.variants):
            for s, x in zip(subs, v.pl.get(i, ())):
                r += wf_of(s, x)
    elif isinstance(sh, StructSh):
        for s, x in zip(sh.subs, v.f):
            r += wf_of(s, x)
    elif isinstance(sh, VecSh):
        r.append(v.len >= 0)
    elif isinstance(sh, LeafSh):
        if sh.kind == "uint":
            r.append(v >= 0)
    elif isinstance(sh, DMatSh):
        r += [v.r >= 0, v.c >= 0]
    elif isinstance(sh, RefSh):
        r += wf_of(sh.inner, Shapes.state_read(v) if isinstance(v, Ref) else v)
    return r
