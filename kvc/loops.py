"""Loops: structure of the control flow, unrolling of constant loops, invariants of the others."""
import os
import re
import time
import z3
import lib
from terms import *
from values import *
from state import *


class Cfg:
    pass


def succs(blk):
    t = blk["t"]
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [x for _, x in t["ts"]] + ([t["else"]] if t["else"] is not None else [])
    if k in ("call", "drop", "assert"):
        return [t["to"]] if t["to"] is not None else []
    return []


def analyse_cfg(body):
    bl = body["blocks"]
    n = len(bl)
    sc = [succs(b) for b in bl]
    # reverse postorder from the entry
    seen, order = set(), []
    st = [(0, iter(sc[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    pos = {b: k for k, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in sc[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    c = Cfg()
    c.loops, c.straight = {}, {}
    for b in order:
        for s in sc[b]:
            if dom(s, b):
                L = c.loops.setdefault(s, {s})
                w = [b]
                while w:
                    y = w.pop()
                    if y not in L:
                        L.add(y)
                        w.extend(pred[y])
    for hd, L in c.loops.items():
        s, b = set(), hd
        while b in L and b not in s:
            s.add(b)
            if len(sc[b]) != 1:
                break
            b = sc[b][0]
        c.straight[hd] = s
    return c


def small_loop(i, fr, head, cfg):
    """may this loop be unrolled? only if it steps an iterator with few elements left"""
    for b in sorted(cfg.straight[head]):
        t = fr.body["blocks"][b]["t"]
        if t["t"] == "call" and t["f"]["o"] == "const" and t["f"]["c"]["c"] == "fn":
            if t["f"]["c"]["f"]["name"] == "next":
                # the argument is a reborrow of a local assigned in the straight part
                for bb in cfg.straight[head]:
                    for s in fr.body["blocks"][bb]["st"]:
                        if s["s"] == "assign" and s["r"]["r"] in ("ref", "reborrow") and not s["r"]["p"]["p"]:
                            loc = s["r"]["p"]["l"]
                            v = i.st.frames[fr.fid].get(loc)
                            if isinstance(v, (It, Struct)):
                                try:
                                    n = lib.remaining(i, v)
                                except Unsupported:
                                    n = None
                                if n is not None and n <= i.unroll:
                                    return True
                return False
    return False


# ------------------------------------------------------------ value trees
class Mismatch(Exception):
    pass


class Break(Exception):
    """a library loop stops early"""

    def __init__(self, v):
        self.v = v


def teq(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))


def merge(a, b, mk):
    """a where a and b agree, fresh where they differ; b None: fresh everywhere"""
    if a is b:
        return a
    n = b is None
    if not n and type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)):
        raise Mismatch()
    if isinstance(a, Poly):
        return a if not n and a.key() == b.key() else num(mk(RealS))
    if isinstance(a, Rot):
        if not n and len(a.w) == len(b.w) and all(x[0].eq(y[0]) and x[1] == y[1] for x, y in zip(a.w, b.w)):
            return a
        return rot(mk(RotS))
    if z3.is_expr(a):
        if not n and a.eq(b):
            return a
        if not n and a.sort() != b.sort():
            raise Mismatch()
        if not n and simp(a).eq(simp(b)):
            return a
        return mk(a.sort())
    if isinstance(a, Struct):
        if not n and (a.name != b.name or len(a.f) != len(b.f)):
            raise Mismatch()
        return Struct(a.name, [merge(x, None if n else y, mk) for x, y in zip(a.f, b.f if not n else a.f)])
    if isinstance(a, Enum):
        if not n and a.name != b.name:
            raise Mismatch()
        pl = {}
        for k in sorted(set(a.pl) | set(() if n else b.pl)):
            x = a.pl.get(k)
            y = None if n else b.pl.get(k)
            if x is None:
                x, y = y, None
            if len(x) and y is not None and len(x) != len(y):
                raise Mismatch()
            pl[k] = tuple(merge(p, None if y is None else q, mk) for p, q in zip(x, y if y is not None else x))
        t = a.tag if not n and (teq(a.tag, b.tag) or simp(a.tag).eq(simp(b.tag))) else mk(IntS)
        return Enum(a.name, t, pl)
    if isinstance(a, Mat):
        if not n and (a.r, a.c) != (b.r, b.c):
            raise Mismatch()
        return Mat(a.r, a.c, [merge(x, None if n else y, mk) for x, y in zip(a.e, b.e if not n else a.e)])
    if isinstance(a, Vec):
        if not n and len(a.cols) != len(b.cols):
            raise Mismatch()
        return Vec(a.sh, merge(a.len, None if n else b.len, mk),
                   [merge(x, None if n else y, mk) for x, y in zip(a.cols, b.cols if not n else a.cols)], a.kind)
    if isinstance(a, DMat):
        return DMat(merge(a.r, None if n else b.r, mk), merge(a.c, None if n else b.c, mk), merge(a.arr, None if n else b.arr, mk))
    if isinstance(a, Map):
        return Map(a.ksh, a.vsh, merge(a.dom, None if n else b.dom, mk),
                   [merge(x, None if n else y, mk) for x, y in zip(a.cols, b.cols if not n else a.cols)])
    if isinstance(a, Arc):
        return type(a)(merge(a.id, None if n else b.id, mk))
    if isinstance(a, Ref):
        if not n and (a.base[0] != b.base[0] or len(a.path) != len(b.path)):
            raise Mismatch()
        if a.base[0] in ("node", "mutex"):
            base = (a.base[0], merge(a.base[1], None if n else b.base[1], mk))
        else:
            if not n and a.base != b.base:
                raise Mismatch()
            base = a.base
        path = []
        for p, q in zip(a.path, a.path if n else b.path):
            if p[0] != q[0]:
                raise Mismatch()
            if p[0] in ("i", "mk", "dm"):
                path.append((p[0],) + tuple(merge(p[z], None if n else q[z], mk) for z in range(1, len(p))))
            elif p != q:
                raise Mismatch()
            else:
                path.append(p)
        return Ref(base, path)
    if isinstance(a, Guard):
        if not n and a.gid == b.gid:
            return a
        raise Mismatch()
    if isinstance(a, Closure):
        if not n and (a.d != b.d or len(a.up) != len(b.up)):
            raise Mismatch()
        return Closure(a.d, [merge(x, None if n else y, mk) for x, y in zip(a.up, b.up if not n else a.up)])
    if isinstance(a, It):
        if not n and (a.kind != b.kind or len(a.f) != len(b.f)):
            raise Mismatch()
        return It(a.kind, [merge(x, None if n else y, mk) for x, y in zip(a.f, b.f if not n else a.f)])
    if isinstance(a, Fn):
        if n or a.c is b.c:
            return a
        raise Mismatch()
    if isinstance(a, Opaque):
        if n:
            return Opaque(a.what, mk(a.data.sort())) if z3.is_expr(a.data) else a
        if a.what == b.what and z3.is_expr(a.data) and z3.is_expr(b.data):
            return a if a.data.eq(b.data) else Opaque(a.what, mk(a.data.sort()))
        if a.what == b.what and a.data is b.data:
            return a
        raise Mismatch()
    raise Mismatch()


def vmap(v, f):
    """rebuild a value, every leaf term through f"""
    if isinstance(v, Poly):
        return poly(f(v.z()))
    if isinstance(v, Rot):
        return rot(f(v.z()))
    if z3.is_expr(v):
        return f(v)
    if isinstance(v, Struct):
        return Struct(v.name, [vmap(x, f) for x in v.f])
    if isinstance(v, Enum):
        return Enum(v.name, f(v.tag), {k: tuple(vmap(x, f) for x in fs) for k, fs in v.pl.items()})
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [vmap(x, f) for x in v.e])
    if isinstance(v, Vec):
        return Vec(v.sh, f(v.len), [f(c) for c in v.cols], v.kind)
    if isinstance(v, DMat):
        return DMat(f(v.r), f(v.c), f(v.arr))
    if isinstance(v, Map):
        return Map(v.ksh, v.vsh, f(v.dom), [f(c) for c in v.cols])
    if isinstance(v, Arc):
        return type(v)(f(v.id))
    if isinstance(v, Ref):
        b = (v.base[0], f(v.base[1])) if v.base[0] in ("node", "mutex") else v.base
        return Ref(b, [(p[0],) + tuple(f(z) for z in p[1:]) if p[0] in ("i", "mk", "dm") and z3.is_expr(p[1]) else p for p in v.path])
    if isinstance(v, Closure):
        return Closure(v.d, [vmap(x, f) for x in v.up])
    if isinstance(v, It):
        return It(v.kind, [vmap(x, f) for x in v.f])
    if isinstance(v, Opaque) and z3.is_expr(v.data):
        return Opaque(v.what, f(v.data))
    return v


def pairs(t, v, fresh, out):
    """(const of the template, term of the value) for every fresh leaf"""
    if t is v:
        # constants stand for themselves
        return
    def leaf(a, b):
        if z3.is_const(a) and a.get_id() in fresh:
            out.append((a, b))
    if isinstance(t, Poly):
        leaf(t.z(), v.z())
    elif isinstance(t, Rot):
        leaf(t.z(), v.z())
    elif z3.is_expr(t):
        leaf(t, v)
    elif isinstance(t, (Struct, It)):
        for a, b in zip(t.f, v.f):
            pairs(a, b, fresh, out)
    elif isinstance(t, Closure):
        for a, b in zip(t.up, v.up):
            pairs(a, b, fresh, out)
    elif isinstance(t, Enum):
        leaf(t.tag, v.tag)
        for k, fs in t.pl.items():
            if k in v.pl:
                for a, b in zip(fs, v.pl[k]):
                    pairs(a, b, fresh, out)
    elif isinstance(t, Mat):
        for a, b in zip(t.e, v.e):
            pairs(a, b, fresh, out)
    elif isinstance(t, Vec):
        leaf(t.len, v.len)
        for a, b in zip(t.cols, v.cols):
            leaf(a, b)
    elif isinstance(t, DMat):
        for a, b in ((t.r, v.r), (t.c, v.c), (t.arr, v.arr)):
            leaf(a, b)
    elif isinstance(t, Map):
        leaf(t.dom, v.dom)
        for a, b in zip(t.cols, v.cols):
            leaf(a, b)
    elif isinstance(t, Arc):
        leaf(t.id, v.id)
    elif isinstance(t, Ref):
        if t.base[0] in ("node", "mutex"):
            leaf(t.base[1], v.base[1])
        for a, b in zip(t.path, v.path):
            if a[0] in ("i", "mk", "dm"):
                for y, z in zip(a[1:], b[1:]):
                    leaf(y, z)
    elif isinstance(t, Opaque) and z3.is_expr(t.data):
        leaf(t.data, v.data)


def ranges(v, out):
    """facts that hold of every value of this form: vector lengths, tags"""
    if isinstance(v, Enum):
        if as_int(v.tag) is None:
            out.append(v.tag >= 0)
            out.append(z3.Or([v.tag == k for k in sorted(v.pl)]) if v.pl else v.tag < 16)
        for fs in v.pl.values():
            for x in fs:
                ranges(x, out)
    elif isinstance(v, (Struct, It)):
        for x in v.f:
            ranges(x, out)
    elif isinstance(v, Closure):
        for x in v.up:
            ranges(x, out)
    elif isinstance(v, Vec):
        if as_int(v.len) is None:
            out.append(v.len >= 0)
    elif isinstance(v, DMat):
        out += [v.r >= 0, v.c >= 0]


# ------------------------------------------------------------ candidates
class Cand:
    def __init__(self, label, vs, body, pats=(), spec=False, splits=None):
        self.label, self.vs, self.body, self.pats, self.spec = label, list(vs), body, list(pats), spec
        self.splits = splits        # cases to tell apart in the proof, instead of the usual ones
        self._f = None

    def formula(self):
        if self._f is None:
            self._f = forall(self.vs, self.body, self.pats) if self.vs else self.body
        return self._f


class Analysis:
    pass


def get_loc(i, st, loc):
    if loc[0] == "frame":
        return st.frames[loc[1]][loc[2]]
    if loc[0] == "cell":
        return st.cells[loc[1]]
    if loc[0] == "heap":
        if loc[1] in st.heap:
            return st.heap[loc[1]]
        return z3.Const("H" + loc[1], z3.ArraySort(IntS, i.nodeleaves[loc[1]]))
    if loc[0] == "alloc":
        return st.alloc if st.alloc is not None else z3.Int("alloc0")
    raise KeyError(loc)


def set_loc(st, loc, v):
    if loc[0] == "frame":
        if v is None:
            st.frames[loc[1]].pop(loc[2], None)
        else:
            st.frames[loc[1]][loc[2]] = v
    elif loc[0] == "cell":
        st.cells[loc[1]] = v if v is not None else Opaque("killed")
    elif loc[0] == "heap":
        st.heap[loc[1]] = v
    elif loc[0] == "alloc":
        st.alloc = v


def diff_locs(i, a, b):
    """locations of state a whose value differs in b"""
    for fid, f in a.frames.items():
        g = b.frames.get(fid, {})
        for l in set(f) | set(g):
            if l not in f or l not in g:
                yield ("frame", fid, l)
            elif f[l] is not g[l]:
                yield ("frame", fid, l)
    for n in a.cells:
        if a.cells[n] is not b.cells.get(n):
            yield ("cell", n)
    for n in set(a.heap) | set(b.heap):
        x, y = get_loc(i, a, ("heap", n)), get_loc(i, b, ("heap", n))
        if not x.eq(y):
            yield ("heap", n)
    x, y = get_loc(i, a, ("alloc",)), get_loc(i, b, ("alloc",))
    if not x.eq(y):
        yield ("alloc",)


_uid = [0]


def run_iteration(i, body):
    """'back' or 'exit'"""
    try:
        body(i)
        return "back"
    except LoopBack:
        return "back"
    except (LoopExit, Break, lib.Done):
        return "exit"


def collect_backs(i, an, body, start, pc):
    """states at the end of one iteration from the start state: (state, choices, assumed)"""
    x = i.x
    backs = []

    def one(_):
        base = len(x.pc)
        x.chosen = []
        if run_iteration(i, body) == "back":
            if set(x.st.guards) != set(start.guards):
                raise Unsupported("guards differ between iterations of a loop")
            backs.append((x.st, list(x.chosen), x.pc[base:], x))
            an.onback and an.onback(i)
    d, n0 = i.depth, x.npaths
    q, e = x.quiet, x.epoch
    x.quiet += 1
    # what was found out about loops inside belongs to this start state and these assumptions only
    _uid[0] += 1
    x.epoch = _uid[0]
    where0, ch0 = getattr(x, "where", None), x.chosen
    try:
        x.run_paths(one, start, pc, an.ns)
    finally:
        x.quiet, x.epoch = q, e
        i.depth = d
        x.where, x.chosen = where0, ch0
    return backs


def subst_for(i, an, st, kval):
    out = [(an.k, kval)]
    for loc, t in an.mods.items():
        if t is None:
            continue
        try:
            v = get_loc(i, st, loc)
        except KeyError:
            continue
        try:
            pairs(t, v, an.fresh, out)
        except AttributeError:
            pass
    return [(a, b if b is not None else a) for a, b in out]


def analyse(i, body, label, hints, keep_alive=()):
    x = i.x
    an = Analysis()
    _uid[0] += 1
    an.uid = _uid[0]
    an.ns = x.ns + "L%d_" % an.uid
    an.label = label
    an.onback = None
    an.mods = {}
    an.fresh = {}
    an.s0 = S0 = x.st.copy()
    pc0 = list(x.pc)
    an.k = z3.Int("k!%s" % an.ns)
    cnt = [0]

    def mk(so, name="t%d"):
        cnt[0] += 1
        c = z3.Const((name % cnt[0] if "%d" in name else "%s!%d" % (name, cnt[0])) + "!" + an.ns, so)
        an.fresh[c.get_id()] = c
        return c

    def start():
        s = S0.copy()
        for loc, t in an.mods.items():
            set_loc(s, loc, t)
        return s

    def tw():
        w = [an.k >= 0]
        for t in an.mods.values():
            if t is not None and not z3.is_expr(t):
                ranges(t, w)
        if ("alloc",) in an.mods:
            w.append(an.mods[("alloc",)] >= get_loc(i, S0, ("alloc",)))
        return w

    # 1. what the loop changes
    deltas = {}
    for rnd in range(12):
        s = start()
        backs = collect_backs(i, an, body, s, pc0 + tw())
        changed = False
        for (b, ch, asm, _) in backs:
            for loc in diff_locs(i, s, b):
                if loc in an.mods and an.mods[loc] is None:
                    continue
                try:
                    a0 = get_loc(i, s, loc)
                    b0 = get_loc(i, b, loc)
                except KeyError:
                    if loc not in an.mods or an.mods[loc] is not None:
                        an.mods[loc] = None
                        changed = True
                    continue
                old = an.mods.get(loc, a0)
                try:
                    new = merge(old, b0, mk if loc[0] != "heap" else lambda so: mk(so, "H" + loc[1]))
                    # leaves that are already fresh stay as they are
                    new = keep_fresh(old, new, an.fresh)
                except Mismatch:
                    new = None
                if new is None or not same_value(old, new):
                    an.mods[loc] = new
                    changed = True
                elif loc not in an.mods and not same_value(a0, b0):
                    an.mods[loc] = new
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop effects do not settle")
    # 2. linear integers
    sub0 = dict((a.get_id(), b) for a, b in subst_for(i, an, S0, I(0)))
    lin = []
    for c in list(an.fresh.values()):
        if c.sort() != IntS or c.get_id() not in sub0:
            continue
        ds = set()
        for (b, ch, asm, _) in backs:
            m = dict((a.get_id(), t) for a, t in subst_for(i, an, b, an.k))
            t = m.get(c.get_id(), c)
            d = as_int(simp(t - c))
            ds.add(d)
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            lin.append((c, simp(sub0[c.get_id()] + d * an.k)))
    if lin:
        for loc in an.mods:
            if an.mods[loc] is not None:
                an.mods[loc] = vmap(an.mods[loc], lambda t: simp_keep(z3.substitute(t, lin)))
        for c, _ in lin:
            del an.fresh[c.get_id()]
    an.lin = lin
    an.sub0 = subst_for(i, an, S0, I(0))
    # 3. candidates
    st = start()
    cands = []
    for loc, t in an.mods.items():
        if t is not None:
            bounds_cands(i, an, loc, t, cands)
    sub0 = dict((a.get_id(), b) for a, b in an.sub0)
    for c in an.fresh.values():
        v0 = sub0.get(c.get_id())
        if v0 is None:
            continue
        if c.sort() == IntS:
            cands.append(Cand("not below its first value", [], c >= v0))
            cands.append(Cand("grows by at most one", [], c <= v0 + an.k))
            cands.append(Cand("unchanged", [], c == v0))
        elif c.sort() == BoolS or c.sort() == RealS:
            cands.append(Cand("unchanged", [], c == v0))
    an.axioms = []
    alone = False
    if hints:
        view = start()
        saved = x.st
        x.st = view
        try:
            for hnt in hints:
                for c in hnt(i, an, view) or []:
                    cands.append(c)
                    alone = alone or getattr(hnt, "alone", False)
        finally:
            x.st = saved
    if not alone:
        # the specification does not say it all: guess from what an iteration writes
        auto = []
        store_cands(i, an, collect_backs(i, an, body, st, pc0 + tw()), auto)
        n = next((k for k, c in enumerate(cands) if c.spec), len(cands))
        cands[n:n] = auto
    # 4. initially true
    live = []
    for a in an.axioms:
        x.assume(a)
    for c in cands:
        if truth_at(i, an, c, an.sub0, 600 if not c.spec else 4000):
            live.append(c)
        elif c.spec and os.environ.get("KVC_LOOP"):
            print("    [loop %s] not initially: %s" % (label, c.label))
    # 5. preserved
    pc1 = list(x.pc)
    rounds = 0
    while True:
        rounds += 1
        if x.deadline and time.time() > x.deadline:
            raise Unsupported("time budget of this function used up")
        bad = set()
        cur = list(live)

        def onback(i):
            s = subst_for(i, an, x.st, simp(an.k + 1))
            for c in cur:
                if c not in bad and not truth_at(i, an, c, s, 500 if not c.spec else int(os.environ.get("KVC_MS", 5000)), cur):
                    bad.add(c)
                    if c.spec and os.environ.get("KVC_LOOP"):
                        print("    [loop %s] not kept: %s (path %s)" % (label, c.label, x.log))
        an.onback = onback
        collect_backs(i, an, body, start(), pc1 + tw() + [c.formula() for c in cur])
        an.onback = None
        if not bad:
            break
        live = [c for c in live if c not in bad]
        if rounds > 25:
            raise Unsupported("loop invariants do not settle")
    an.live = live
    an.wf = tw()
    if os.environ.get("KVC_LOOP"):
        print("  [loop %s] mods %d, invariants %d of %d, rounds %d" % (label, len(an.mods), len(live), len(cands), rounds))
        if os.environ.get("KVC_LOOP") == "2":
            for c in live:
                print("      ", c.label, str(c.formula())[:300].replace("\n", " "))
            for loc, t in an.mods.items():
                print("      mod", loc, "killed" if t is None else "")
    return an


def simp_keep(t):
    return z3.simplify(t, som=False) if not z3.is_array(t) else t


def keep_fresh(old, new, fresh):
    """merge makes a new constant for a leaf that was one already; keep the old constant"""
    out = []
    _zip_leaves(old, new, out)
    sub = [(n, o) for o, n in out if z3.is_const(o) and o.get_id() in fresh and not o.eq(n)]
    if not sub:
        return new
    for n, o in sub:
        fresh.pop(n.get_id(), None)
    return vmap(new, lambda t: z3.substitute(t, sub))


def _zip_leaves(a, b, out):
    try:
        if a is b:
            return
        if isinstance(a, Poly):
            out.append((a.z(), b.z()))
        elif isinstance(a, Rot):
            out.append((a.z(), b.z()))
        elif z3.is_expr(a):
            out.append((a, b))
        elif isinstance(a, (Struct, It)):
            for p, q in zip(a.f, b.f):
                _zip_leaves(p, q, out)
        elif isinstance(a, Closure):
            for p, q in zip(a.up, b.up):
                _zip_leaves(p, q, out)
        elif isinstance(a, Enum):
            out.append((a.tag, b.tag))
            for k in a.pl:
                if k in b.pl:
                    for p, q in zip(a.pl[k], b.pl[k]):
                        _zip_leaves(p, q, out)
        elif isinstance(a, Mat):
            for p, q in zip(a.e, b.e):
                _zip_leaves(p, q, out)
        elif isinstance(a, Vec):
            out.append((a.len, b.len))
            out.extend(zip(a.cols, b.cols))
        elif isinstance(a, DMat):
            out.extend([(a.r, b.r), (a.c, b.c), (a.arr, b.arr)])
        elif isinstance(a, Map):
            out.append((a.dom, b.dom))
            out.extend(zip(a.cols, b.cols))
        elif isinstance(a, Arc):
            out.append((a.id, b.id))
        elif isinstance(a, Ref):
            if a.base[0] in ("node", "mutex"):
                out.append((a.base[1], b.base[1]))
            for p, q in zip(a.path, b.path):
                if p[0] in ("i", "mk", "dm"):
                    out.extend(zip(p[1:], q[1:]))
        elif isinstance(a, Opaque) and z3.is_expr(a.data):
            out.append((a.data, b.data))
    except AttributeError:
        pass


def same_value(a, b):
    """structurally identical"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    n = [0]

    def mk(so):
        n[0] += 1
        return z3.Const("cmp", so)
    try:
        merge(a, b, mk)
    except Mismatch:
        return False
    if n[0]:
        return False
    if isinstance(a, Enum) and set(a.pl) != set(b.pl):
        return False
    return True


def bounds_cands(i, an, loc, t, out):
    """iterators stay inside their range"""
    def go(v):
        if isinstance(v, It):
            if v.kind in ("slice", "rslice", "rrange"):
                n = 1 if v.kind != "rrange" else 0
                out.append(Cand("iterator in range", [], v.f[n] <= v.f[n + 1]))
                out.append(Cand("iterator in range", [], v.f[n] >= 0))
            elif v.kind == "into":
                ln = v.f[0].len if isinstance(v.f[0], Vec) else I(len(v.f[0].f))
                out.append(Cand("iterator in range", [], v.f[1] <= ln))
                out.append(Cand("iterator in range", [], v.f[1] >= 0))
            for y in v.f:
                go(y)
        elif isinstance(v, Struct):
            if v.name in (lib.RANGE, "rrange") and z3.is_expr(v.f[0]) and v.f[0].sort() == IntS:
                out.append(Cand("range", [], v.f[0] <= v.f[1]))
                out.append(Cand("range", [], v.f[0] >= 0))
            for y in v.f:
                go(y)
        elif isinstance(v, Closure):
            for y in v.up:
                go(y)
        elif isinstance(v, Enum):
            for fs in v.pl.values():
                for y in fs:
                    go(y)
    go(t)


MODNAME = re.compile(r"^(t\d|H.*!\d+!(L\d+_)+$)")


def mentions_new(an, t):
    """mentions a constant made while running the body"""
    return lib.has_const(t, lambda n: "!" + an.ns in n and not MODNAME.match(n) and not n.startswith("k!"))


def mentions_mod(an, t):
    return lib.has_const(t, lambda n: "!" + an.ns in n and MODNAME.match(n) is not None)


def stores(t, base):
    """[(index, value)] of a store chain on base, or None"""
    out = []
    while not t.eq(base):
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE):
            return None
        out.append((t.arg(1), t.arg(2)))
        t = t.arg(0)
    out.reverse()
    return out


def shift_of(an, ts):
    """s such that the terms speak of (k + s) only"""
    for c, e in an.lin:
        s = simp(z3.substitute(e, (an.k, I(0))))
        d = simp(e - s)
        if d.eq(an.k) and as_int(s) != 0 and any(occurs(t, simp(e)) for t in ts):
            return s
    return I(0)


def occurs(t, u):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(u):
            return True
        st.extend(y.children())
    return False


def find_pats(q, ts):
    """select or function terms with q as a direct argument"""
    out, seen = [], set()
    st = list(ts)
    while st:
        y = st.pop()
        if y.get_id() in seen or z3.is_quantifier(y):
            continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and y.num_args() > 0:
            if any(a.eq(q) for a in y.children()) and not any(y.eq(o) for o in out):
                out.append(y)
        st.extend(y.children())
    return out


def store_cands(i, an, backs, out):
    """what the stores of one iteration say about all earlier ones"""
    sub0 = [(a, b) for a, b in an.sub0 if not a.eq(an.k)]
    q = z3.Int("q!i")
    written, rows = {}, []
    for (b, ch, asm, _) in backs:
        for a, t in subst_for(i, an, b, an.k):
            if a.eq(an.k) or not z3.is_array(a):
                continue
            sts = stores(t, a)
            rec = written.setdefault(a.get_id(), (a, []))[1]
            if sts is None:
                rec.append((None, None, ch))
                continue
            for ix, v in sts:
                # a write inside one row: speak of the row
                if z3.is_array(v) and not occurs(ix, an.k) and not mentions_mod(an, ix) and not mentions_new(an, ix) and len(sts) == 1:
                    row = simp_sel(z3.Select(a, ix))
                    inner = stores(v, row)
                    if inner:
                        rr = written.setdefault(row.get_id(), (row, []))[1]
                        rows.append(row)
                        for jx, w in inner:
                            rr.append((jx, w, ch))
                rec.append((ix, v, ch))
    passed_cand(i, an, backs, sub0, q, out)
    for a, recs in written.values():
        frames_ok = True
        idxs = []
        groups = []
        for ix, v, ch in recs:
            if ix is None or mentions_new(an, ix):
                frames_ok = False
                continue
            conds = [c for c in ch if not mentions_new(an, c)]
            idxs.append((ix, conds))
            if mentions_new(an, v):
                continue
            for g in groups:
                if g[0].eq(ix) and g[1].eq(v):
                    g[2].append(conds)
                    break
            else:
                groups.append((ix, v, [conds]))
        groups = [(ix, v, conds) for ix, v, css in groups for conds in reduce_dnf(css)]
        for ix, v, conds in groups:
            for variant in ("first", "now"):
                terms = [ix, v] + conds
                if variant == "first":
                    if any(mentions_mod(an, t) for t in terms):
                        terms = [z3.substitute(t, sub0) for t in terms]
                    else:
                        pass
                elif not any(mentions_mod(an, t) for t in terms):
                    continue
                s = shift_of(an, terms)
                terms = [simp_sel(z3.substitute(t, (an.k, q - s))) for t in terms]
                jx, val, cs = terms[0], terms[1], terms[2:]
                lo, hi = s, simp(s + an.k)
                if jx.sort() == IntS and is_linear(jx, q):
                    # the index moves with the counter: speak of the index itself
                    off = simp(jx - q)
                    cs = [simp_sel(z3.substitute(c, (q, q - off))) for c in cs]
                    val = simp_sel(z3.substitute(val, (q, q - off)))
                    lo, hi = simp(lo + off), simp(hi + off)
                    jx = q
                body = z3.Implies(z3.And([lo <= q, q < hi] + cs), z3.Select(a, jx) == val)
                if not occurs(body, q):
                    continue
                p = find_pats(q, [jx]) or find_pats(q, [z3.Select(a, jx)])
                pats = [[y] for y in p[:1]]
                if p and not occurs(z3.Select(a, jx), p[0]) or not p:
                    pats = [[z3.Select(a, jx)]]
                if jx.eq(q):
                    pats = [[z3.Select(a, q)]] + [[y] for y in find_pats(q, [val])[:2]]
                out.append(Cand("written (%s): %s" % (variant, lib_head(a)), [q], body, pats))
        if frames_ok and idxs:
            frame_cands(i, an, a, idxs, sub0, out)


def neg_of(c):
    return c.arg(0) if z3.is_not(c) else simp(z3.Not(c))


def reduce_dnf(css):
    """merge sets of conditions that differ in one condition and its negation"""
    sets = []
    for cs in css:
        d = {}
        for c in cs:
            if as_bool(c) is not True:
                d[c.get_id()] = c
        sets.append(d)
    ch = True
    while ch:
        ch = False
        for x in range(len(sets)):
            for y in range(len(sets)):
                if x == y:
                    continue
                a, b = sets[x], sets[y]
                if set(a) <= set(b):
                    del sets[y]
                    ch = True
                    break
                # a = A + c, b within A + not c
                for k, c in a.items():
                    n = neg_of(c).get_id()
                    if n in b and set(b) - {n} <= set(a) - {k}:
                        r = dict(a)
                        del r[k]
                        sets[x] = r
                        ch = True
                        break
                if ch:
                    break
            if ch:
                break
    return [list(d.values()) for d in sets]


def passed_cand(i, an, backs, sub0, q, out):
    """every earlier iteration went round the loop on one of its paths"""
    if not backs:
        return
    css = []
    for (b, ch, asm, _) in backs:
        css.append([c for c in ch if not mentions_new(an, c)])
    for variant in ("first", "now"):
        d = css
        if variant == "first":
            d = [[z3.substitute(c, sub0) for c in cs] for cs in d]
            d = [[c for c in cs if not mentions_mod(an, c)] for cs in d]
        elif not any(mentions_mod(an, c) for cs in d for c in cs):
            continue
        d = reduce_dnf([[simp(c) for c in cs] for cs in d])
        if any(not cs for cs in d):
            continue
        # conditions common to all paths one by one, the rest as it stands
        com = [c for c in d[0] if all(any(c.eq(e) for e in cs) for cs in d[1:])]
        rest = [[c for c in cs if not any(c.eq(e) for e in com)] for cs in d]
        fs = com + ([z3.Or([z3.And(cs) for cs in rest])] if all(rest) else [])
        for f in fs:
            if not occurs(f, an.k):
                continue
            s = shift_of(an, [f])
            g = simp_sel(z3.substitute(f, (an.k, q - s)))
            body = z3.Implies(z3.And(s <= q, q < simp(s + an.k)), g)
            p = find_pats(q, [g])
            if not p:
                continue
            out.append(Cand("passed (%s)" % variant, [q], body, [[y] for y in p[:2]]))


def lib_head(a):
    return str(a)


def is_linear(t, q):
    d = simp(t - q)
    return not occurs(d, q)


def simp_sel(t):
    return z3.simplify(t, som=False, arith_lhs=False)


def frame_cands(i, an, a, idxs, sub0, out):
    a0 = dict((c.get_id(), v) for c, v in sub0).get(a.get_id())
    if a0 is None and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
        a0 = simp_sel(z3.substitute(a, sub0))
    if a0 is None or a0.eq(a):
        return
    n = z3.Const("n!f", a.sort().domain())
    q = z3.Int("q!i")
    uniq = []
    for ix, cs in idxs:
        ix = z3.substitute(ix, sub0)
        cs = [z3.substitute(c, sub0) for c in cs]
        cs = [c for c in cs if not mentions_mod(an, c)]
        for u in uniq:
            if u[0].eq(ix):
                u[1].append(cs)
                break
        else:
            uniq.append((ix, [cs]))
    if any(mentions_mod(an, u[0]) for u in uniq):
        return
    for withcond in (False, True):
        conds = []
        okc = True
        for ix, css in uniq:
            if not occurs(ix, an.k):
                conds.append(n != ix)
                continue
            s = shift_of(an, [ix])
            jx = simp_sel(z3.substitute(ix, (an.k, q - s)))
            lo, hi = s, simp(s + an.k)
            if jx.sort() == IntS and is_linear(jx, q) and not withcond:
                off = simp(jx - q)
                conds.append(z3.Or(n < simp(lo + off), n >= simp(hi + off)))
                continue
            w = z3.BoolVal(True)
            if withcond:
                w = z3.Or([z3.And([simp_sel(z3.substitute(c, (an.k, q - s))) for c in cs]) for cs in css])
                w = simp(w)
                if as_bool(w) is True:
                    okc = False
                    break
            key = (jx.get_id(), w.get_id(), lo.get_id())
            if not hasattr(i.x, "fis"):
                i.x.fis = {}
            if key not in i.x.fis:
                fi = z3.Function("first!%d" % len(i.x.fis), n.sort(), IntS)
                i.x.fis[key] = (fi, jx, w)
            fi = i.x.fis[key][0]
            p = find_pats(q, [jx])
            ax = z3.ForAll([q], z3.Implies(z3.And(lo <= q, w), z3.And(lo <= fi(jx), fi(jx) <= q, z3.substitute(jx, (q, fi(jx))) == jx,
                                                                  z3.substitute(w, (q, fi(jx))))), patterns=[p[0]] if p else [jx] if z3.is_app(jx) and jx.num_args() else [])
            if not any(ax.eq(y) for y in an.axioms):
                an.axioms.append(ax)
            f = fi(n)
            conds.append(z3.Not(z3.And(lo <= f, f < hi, z3.substitute(jx, (q, f)) == n, z3.substitute(w, (q, f)))))
        if not okc:
            continue
        out.append(Cand("untouched%s: %s" % (" (where not written)" if withcond else "", lib_head(a)), [n],
                        z3.Implies(z3.And(conds), z3.Select(a, n) == z3.Select(a0, n)), [[z3.Select(a, n)], [z3.Select(a0, n)]]))


def truth_at(i, an, c, sub, ms, assumed=()):
    """is the candidate true in the state described by the substitution?"""
    x = i.x
    if not c.vs:
        g = z3.substitute(c.body, sub)
        b = as_bool(g)
        if b is not None:
            return b
        if x.check(z3.Not(g), ms) == "unsat":
            return True
        return deep(x, [], g, ms)
    sk = [z3.Const("sk%d!%s" % (n, an.ns), v.sort()) for n, v in enumerate(c.vs)]
    g = z3.substitute(z3.substitute(c.body, *zip(c.vs, sk)), sub)
    if as_bool(g) is True:
        return True
    cases = [s == an.k for s in sk if s.sort() == IntS] if c.splits is None else [z3.substitute(y, *zip(c.vs, sk)) for y in c.splits]
    inst = []
    for d in assumed:
        if len(d.vs) == len(sk) and all(a.sort() == b.sort() for a, b in zip(d.vs, sk)):
            inst.append(z3.substitute(d.body, *zip(d.vs, sk)))
    if c.spec and sk and not quick_first(x, inst, g):
        if deep(x, inst, g, ms, cases):
            return True
    if x.check(z3.And(inst + [z3.Not(g)]), ms) == "unsat":
        return True
    if ms < 1000 and not c.spec and "written" not in c.label:
        return False
    return deep(x, inst, g, ms, cases)


def quick_first(x, inst, g):
    """settled at once?"""
    return x.check(z3.And(inst + [z3.Not(g)]), 300) == "unsat"


def deep(x, inst, g, ms, splits=()):
    """prove g with aliasing resolved case by case and sums normalised"""
    x.solver.push()
    extra = x.extra
    try:
        for a in inst:
            x.solver.add(a)
        hyp, con = [], g
        while z3.is_app(con) and con.decl().kind() == z3.Z3_OP_IMPLIES:
            hyp.append(con.arg(0))
            con = con.arg(1)
        if not hyp and not splits:
            cases = [[]]
        cases = [[]]
        for s in splits:
            cases = [k + [y] for k in cases for y in (s, z3.Not(s))]
        for cs in cases:
            x.solver.push()
            x.extra = extra + inst + hyp + cs
            try:
                for y in hyp + cs:
                    x.solver.add(y)
                if x.check(z3.BoolVal(True), 300) == "unsat":
                    continue
                e = deep_simp(x, con, {})
                b = as_bool(e)
                if b is True:
                    continue
                if b is False or x.check(z3.Not(e), ms) != "unsat":
                    return False
            finally:
                x.solver.pop()
        return True
    finally:
        x.extra = extra
        x.solver.pop()


def deep_simp(x, t, memo):
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    r = _deep(x, t, memo)
    memo[k] = (t, r)
    return r


def _deep(x, t, memo):
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        return t
    kd = t.decl().kind()
    if kd == z3.Z3_OP_ITE and t.sort() != BoolS:
        c = deep_simp(x, t.arg(0), memo)
        b = x.settled(c)
        if b is not None:
            return deep_simp(x, t.arg(1 if b else 2), memo)
    if kd == z3.Z3_OP_SELECT:
        a, ix = t.arg(0), deep_simp(x, t.arg(1), memo)
        r = lib.resolve_select(x, a, ix)
        if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT:
            a2 = deep_simp(x, r.arg(0), memo)
            return a2[r.arg(1)] if not a2.eq(r.arg(0)) else r
        return deep_simp(x, r, memo) if not r.eq(t) else r
    ch = [deep_simp(x, y, memo) for y in t.children()]
    if kd == z3.Z3_OP_EQ:
        a, b = ch
        if a.sort() == RealS:
            d = poly(a) - poly(b)
            if d.const_value() is not None:
                return z3.BoolVal(d.const_value() == 0)
            return d.z() == 0
        if a.sort() == RotS:
            a, b = rot(a).z(), rot(b).z()
            return z3.BoolVal(True) if a.eq(b) else a == b
        return a == b
    r = t.decl()(*ch) if kd == z3.Z3_OP_UNINTERPRETED else rebuild(t, ch)
    if r.sort() == RealS:
        return poly(r).z()
    if r.sort() == RotS:
        return rot(r).z()
    return r


def rebuild(t, ch):
    kd = t.decl().kind()
    if kd == z3.Z3_OP_AND:
        return z3.And(ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(ch)
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(ch)
    return t.decl()(*ch)


# ------------------------------------------------------------ cutting
def cut(i, key, body, label, hints):
    x = i.x
    ck = ("loop", x.epoch, x.ns, tuple(x.log), key, x.instc)
    an = x.loopcache.get(ck)
    if an is None:
        saved = x.st
        x.st = saved.copy()
        try:
            an = analyse(i, body, label, hints)
        finally:
            x.st = saved
        x.loopcache[ck] = an
    for loc, t in an.mods.items():
        set_loc(x.st, loc, t)
    for c in an.axioms + an.wf + [c.formula() for c in an.live]:
        x.assume(c)
    if not x.quiet:
        for c in an.live:
            s = "%s: %s" % (label, c.label)
            if s not in i.loop_results:
                i.loop_results.append(s)
    return an


def loop_hints(i, label):
    r = []
    for f in i.templates:
        r.append(f)
    return r


def cut_mir_loop(i, fr, head, cfg):
    blocks = cfg.loops[head]
    act, unr = dict(fr.active), set(fr.unrolled)

    def body(i):
        fr.active, fr.unrolled = dict(act), set(unr)
        i.run_blocks(fr, head, stop=(head, blocks))
    label = "%s bb%d" % (i.reg.key(fr.fn), head)
    try:
        cut(i, ("mir", fr.fn["def"], head), body, label, loop_hints(i, label))
    finally:
        fr.active, fr.unrolled = dict(act), set(unr)


def run_lib(i, itc, handle, label):
    """run the iterator in cell itc; handle(item) may raise Break(value). Returns ('done', None) or ('break', v)"""
    n = None
    try:
        n = lib.remaining(i, i.read(itc))
    except Unsupported:
        pass

    def one(i):
        try:
            y = lib.step(i, itc)
        except lib.Skip:
            return
        handle(y)
    if n is not None and n <= i.unroll:
        for _ in range(n + 2):
            try:
                one(i)
            except lib.Done:
                return "done", None
            except Break as e:
                return "break", e.v
        raise Unsupported("iterator longer than expected")
    cut(i, ("lib", label), one, label, loop_hints(i, label))
    try:
        one(i)
    except lib.Done:
        return "done", None
    except Break as e:
        return "break", e.v
    i.x.end()


def site(i, c, kind):
    return "%s at %s" % (kind, getattr(i.x, "where", "?"))


# ------------------------------------------------------------ pure sequences
class Seq:
    """n elements, element q is item(q); item runs code without effects"""

    def __init__(self, n, item, keep=None):
        self.n, self.item, self.keep = n, item, keep


def span(i, a, b):
    """number of places from a to b"""
    if as_int(simp(b - a)) is None and i.x.implied(a <= b):
        return simp(b - a)
    return simp(z3.If(b > a, b - a, 0))


def least(i, a, b):
    if i.x.implied(a <= b):
        return a
    if i.x.implied(b <= a):
        return b
    return simp(z3.If(a < b, a, b))


def pure_seq(i, it):
    """a description of an iterator as a sequence, or None"""
    if isinstance(it, Struct):
        if it.name == lib.RANGE:
            a, b = it.f[0], it.f[1]
            return Seq(span(i, a, b), lambda q: simp(a + q))
        return None
    if not isinstance(it, It):
        return None
    k = it.kind
    if k in ("slice",):
        r, a, b = it.f
        return Seq(span(i, a, b), lambda q: r.at(("i", simp(a + q))))
    if k == "rslice":
        r, a, b = it.f
        return Seq(span(i, a, b), lambda q: r.at(("i", simp(b - 1 - q))))
    if k == "rrange":
        a, b = it.f[0], it.f[1]
        return Seq(span(i, a, b), lambda q: simp(b - 1 - q))
    if k == "into":
        v, a = it.f
        if not isinstance(v, Vec):
            return None
        return Seq(simp(v.len - a), lambda q: i.index_value(v, simp(a + q)))
    if k == "cloned":
        s = pure_seq(i, it.f[0])
        return s and Seq(s.n, lambda q: lib.clone_any(i, i.read(s.item(q))), s.keep)
    if k == "map":
        s = pure_seq(i, it.f[0])
        fc = i.new_cell(it.f[1])
        return s and Seq(s.n, lambda q: i.call_value(fc, [s.item(q)]), s.keep)
    if k == "enumerate":
        s = pure_seq(i, it.f[0])
        n0 = it.f[1]
        return s and s.keep is None and Seq(s.n, lambda q: Struct("tuple", [simp(n0 + q), s.item(q)])) or None
    if k == "zip":
        s, t = pure_seq(i, it.f[0]), pure_seq(i, it.f[1])
        if not s or not t or s.keep or t.keep:
            return None
        return Seq(least(i, s.n, t.n), lambda q: Struct("tuple", [s.item(q), t.item(q)]))
    if k == "filter":
        s = pure_seq(i, it.f[0])
        if not s:
            return None
        fc = i.new_cell(it.f[1])

        def keep(q):
            if s.keep and not i.x.choose(s.keep(q)):
                return z3.BoolVal(False)
            return i.call_value(fc, [i.new_cell(s.item(q))])
        return Seq(s.n, s.item, keep)
    if k == "filter_map":
        s = pure_seq(i, it.f[0])
        if not s or s.keep:
            return None
        fc = i.new_cell(it.f[1])

        def opt(q):
            return i.call_value(fc, [s.item(q)])

        def item(q):
            o = opt(q)
            if 1 not in o.pl or not i.x.choose(simp(o.tag == 1)):
                raise PathEnd()
            return o.pl[1][0]
        return Seq(s.n, item, lambda q: simp(opt(q).tag == 1))
    return None


class Impure(Exception):
    pass


def seq_to_vec(i, s, sh):
    """the vector of a pure sequence"""
    x = i.x
    n = as_int(s.n)
    rng = lambda q: z3.And(0 <= q, q < s.n)
    if s.keep is None:
        cols = lib.generalise(i, "item", rng, lambda q: s.item(q), sh)
        return Vec(sh, s.n, cols)
    keep = lib.generalise(i, "keep", rng, lambda q: s.keep(q), LeafSh("bool", BoolS))[0]

    def item(q):
        if not x.choose(keep[q]):
            raise PathEnd()
        return s.item(q)
    cols = lib.generalise(i, "item", rng, item, sh)
    return lib.filter_vec(i, Vec(sh, s.n, cols), keep)


def try_pure(i, it, f):
    """f(seq) when the iterator is pure; None when it is not"""
    x = i.x
    s = pure_seq(i, it)
    if s is None:
        return None
    key = ("pure", x.epoch, x.ns, tuple(x.log), x.instc, x.cnt)
    if x.loopcache.get(key) is False:
        return None
    snap = x.st.copy()
    cnt, gid, inst, npc = x.cnt, x.gidc, x.instc, len(x.pc)
    nobl = len(x.obls)
    nlog, nalts, nch, where, pc = len(x.log), len(x.alts), len(x.chosen), getattr(x, "where", None), list(x.pc)
    x.solver.push()
    try:
        r = f(s)
        ok = True
    except Unsupported as e:
        if "budget" in str(e):
            raise
        ok = False
        x.loopcache[key] = False
    if ok:
        # keep what was assumed: re-add below the push
        added = x.pc[npc:]
        x.solver.pop()
        for c in added:
            x.solver.add(c)
        return (r,)
    # forget the attempt, with the branches it took
    x.solver.pop()
    x.st = snap
    x.cnt, x.gidc, x.instc = cnt, gid, inst
    del x.log[nlog:], x.alts[nalts:], x.chosen[nch:], x.obls[nobl:]
    x.where = where
    x.pc[:] = pc
    return None


# ------------------------------------------------------------ consumers
def lib_collect(i, it, sh, c):
    it = lib.into_iter(i, it)
    if isinstance(it, It) and it.kind == "into" and isinstance(it.f[0], Vec) and as_int(it.f[1]) == 0:
        return it.f[0]
    if isinstance(it, It) and it.kind == "cloned" and it.f[0].kind == "slice" and as_int(it.f[0].f[1]) == 0:
        v = lib.rd(i, it.f[0].f[0])
        if isinstance(v, Vec) and simp(v.len).eq(simp(it.f[0].f[2])) and not isinstance(v.sh, RefSh):
            if isinstance(v.sh, (StructSh, LeafSh, MatSh)) and clone_is_copy(i, v.sh):
                return Vec(v.sh, v.len, v.cols)
    n = None
    try:
        n = lib.remaining(i, it)
    except Unsupported:
        pass
    if not (n is not None and n <= i.unroll):
        r = try_pure(i, it, lambda s: seq_to_vec(i, s, sh))
        if r is not None:
            return r[0]
    itc = i.new_cell(it)
    acc = i.new_cell(vec_of(sh, []))

    def handle(y):
        i.write(acc, vec_push(i.read(acc), y))
    run_lib(i, itc, handle, site(i, c, "collect"))
    return i.read(acc)


def clone_is_copy(i, sh):
    return True


def lib_collect_map(i, it, m, c):
    itc = i.new_cell(lib.into_iter(i, it))
    acc = i.new_cell(m)

    def handle(y):
        mm = i.read(acc)
        i.write(acc, lib.map_insert(i, mm, y.f[0], y.f[1]))
    run_lib(i, itc, handle, site(i, c, "collect"))
    return i.read(acc)


def lib_collect_result(i, it, sh, c):
    itc = i.new_cell(lib.into_iter(i, it))
    acc = i.new_cell(vec_of(sh, []) if sh is not None else UNIT)

    def handle(y):
        if i.x.choose(simp(y.tag == 0)):
            if sh is not None:
                i.write(acc, vec_push(i.read(acc), y.pl[0][0]))
        else:
            raise Break(Enum(y.name, I(1), {1: y.pl[1]}))
    k, v = run_lib(i, itc, handle, site(i, c, "collect"))
    if k == "break":
        return v
    return lib.ok(i.read(acc))


def lib_loop(i, it, kind, f, c):
    """next() of a filtering iterator, when the surrounding loop cannot take the skip"""
    itc = it.f[0] if isinstance(it, It) and it.kind == "byref" else i.new_cell(it)

    def handle(y):
        raise Break(lib.some(y))
    k, v = run_lib(i, itc, handle, site(i, c, "next"))
    return v if k == "break" else lib.none()


def quant_search(i, s, pred, name):
    """first q in range with pred: (found, q)"""
    x = i.x
    rng = lambda q: z3.And(0 <= q, q < s.n)

    def p(q):
        if s.keep is not None and not x.choose(s.keep(q)):
            return z3.BoolVal(False)
        return pred(s.item(q))
    P = lib.generalise(i, name, rng, p, LeafSh("bool", BoolS))[0]
    f = x.fresh("found", BoolS)
    w = x.fresh("at", IntS)
    q = z3.Int("sq")
    x.assume(z3.Implies(f, z3.And(0 <= w, w < s.n, P[w])))
    x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < s.n, z3.Or(z3.Not(f), q < w)), z3.Not(P[q])), patterns=[P[q]]))
    inst_terms(i, s, P, f, w)
    return f, w


def inst_terms(i, s, P, f, w):
    """link the element terms to P, so that facts about elements meet facts about P"""
    return


def lib_iter_fn(i, kind, it, args, c, orig):
    x = i.x
    f = i.new_cell(args[-1]) if args and kind not in ("count", "last", "sum", "max", "min", "nth") else None
    n = None
    try:
        n = lib.remaining(i, it)
    except Unsupported:
        pass
    small = n is not None and n <= i.unroll
    if kind == "count" and n is not None and n <= 8:
        # a sum over the elements
        s = pure_seq(i, it)
        if s is not None:
            return simp(z3.Sum([I(0)] + [z3.If(s.keep(I(q)), 1, 0) if s.keep else I(1) for q in range(n)]))
    if not small and kind in ("find", "position", "any", "all", "find_map", "count"):
        def go(s):
            if kind == "count":
                if s.keep is None:
                    return s.n
                keep = lib.generalise(i, "keep", lambda q: z3.And(0 <= q, q < s.n), lambda q: s.keep(q), LeafSh("bool", BoolS))[0]
                v = lib.filter_vec(i, Vec(LeafSh("int", IntS), s.n, [x.fresh("cnt", z3.ArraySort(IntS, IntS))]), keep)
                return v.len
            if kind == "find":
                fd, w = quant_search(i, s, lambda y: i.call_value(f, [i.new_cell(y)]), "pred")
                if x.choose(fd):
                    return lib.some(s.item(w))
                return lib.none()
            if kind == "position" and s.keep is None:
                fd, w = quant_search(i, s, lambda y: i.call_value(f, [y]), "pred")
                if x.choose(fd):
                    return lib.some(w)
                return lib.none()
            if kind == "any":
                return quant_search(i, s, lambda y: i.call_value(f, [y]), "pred")[0]
            if kind == "all":
                return simp(z3.Not(quant_search(i, s, lambda y: simp(z3.Not(i.call_value(f, [y]))), "pred")[0]))
            raise Unsupported(kind)
        base = it
        if isinstance(it, It) and it.kind == "byref":
            base = None
        if base is not None:
            r = try_pure(i, base, go)
            if r is not None:
                return r[0]
    itc = i.new_cell(it) if not (isinstance(it, It) and it.kind == "byref") else it.f[0]
    lab = site(i, c, kind)
    if kind == "for_each":
        run_lib(i, itc, lambda y: i.call_value(f, [y]), lab)
        return UNIT
    if kind == "try_for_each":
        def h(y):
            r = i.call_value(f, [y])
            if x.choose(simp(r.tag == (0 if r.name != lib.OPT else 1))):
                return
            raise Break(r)
        k, v = run_lib(i, itc, h, lab)
        if k == "break":
            return v
        d = c.dty(i)
        return lib.ok(UNIT) if d["def"] == lib.RES else lib.some(UNIT) if d["def"] == lib.OPT else Enum(lib.CF, I(0), {0: (UNIT,)})
    if kind == "fold":
        acc = i.new_cell(args[0])

        def h(y):
            i.write(acc, i.call_value(f, [i.read(acc), y]))
        run_lib(i, itc, h, lab)
        return i.read(acc)
    if kind == "sum":
        d = c.dty(i)
        acc = i.new_cell(I(0) if d["k"] in ("uint", "int") else n_const(0))

        def h(y):
            y = lib.rd(i, y)
            a = i.read(acc)
            i.write(acc, n_add(a, y) if lib.isnum(y) else simp(a + y))
        run_lib(i, itc, h, lab)
        return i.read(acc)
    if kind in ("find", "position", "any", "all", "find_map"):
        cnt = i.new_cell(I(0))

        def h(y):
            if kind == "find_map":
                o = i.call_value(f, [y])
                if x.choose(simp(o.tag == 1)):
                    raise Break(o)
                return
            r = i.call_value(f, [i.new_cell(y) if kind == "find" else y])
            if kind == "all":
                r = simp(z3.Not(r))
            if x.choose(r):
                raise Break(lib.some(y) if kind == "find" else lib.some(i.read(cnt)) if kind == "position" else z3.BoolVal(kind == "any"))
            i.write(cnt, simp(i.read(cnt) + 1))
        k, v = run_lib(i, itc, h, lab)
        if k == "break":
            return v
        return z3.BoolVal(kind == "all") if kind in ("any", "all") else lib.none()
    if kind == "count":
        cnt = i.new_cell(I(0))

        def h(y):
            i.drop(y)
            i.write(cnt, simp(i.read(cnt) + 1))
        run_lib(i, itc, h, lab)
        return i.read(cnt)
    if kind == "last":
        if isinstance(it, It) and it.kind == "slice":
            if x.choose(simp(it.f[1] < it.f[2])):
                return lib.some(it.f[0].at(("i", simp(it.f[2] - 1))))
            return lib.none()
        acc = i.new_cell(lib.none())
        run_lib(i, itc, lambda y: i.write(acc, lib.some(y)), lab)
        return i.read(acc)
    if kind == "nth":
        m = as_int(args[0])
        if m is None or m > i.unroll:
            raise Unsupported("nth")
        for _ in range(m + 1):
            try:
                y = lib.step(i, itc)
            except lib.Done:
                return lib.none()
            except lib.Skip:
                raise Unsupported("nth of a filter")
        return lib.some(y)
    raise Unsupported("iterator method " + kind)
