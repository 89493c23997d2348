"""Symbolic execution of MIR."""
import re
import z3
from terms import *
from values import *
from state import *

SMALL = 8


class Frame:
    def __init__(self, fid, fn, body):
        self.fid, self.fn, self.body = fid, fn, body
        self.active = {}      # loop head -> info, for loops cut in this activation
        self.unrolled = set()


class LoopInfo:
    pass


class Interp:
    def __init__(self, ctx, reg):
        self.x = ctx
        self.reg = reg           # function registry
        self.crate = ctx.crate
        self.sh = ctx.shapes
        self.depth = 0
        self.nodesh = reg.node_shape()
        self.nodeleaves = dict(self.nodesh.leaves())
        self.cfgs = {}
        self.contracts = {}
        self.templates = []      # callables producing loop invariant candidates
        self.unroll = SMALL
        self.verifying = None
        self.loop_results = []
        Shapes.state_cell = staticmethod(self.new_cell)
        Shapes.state_read = staticmethod(self.read)
        import lib
        self.lib = lib

    @property
    def st(self):
        return self.x.st

    # ------------------------------------------------------------ memory
    def new_cell(self, v):
        n = "c%s%d" % (self.x.ns, self.x.instc)
        self.x.instc += 1
        self.st.cells[n] = v
        return Ref(("cell", n))

    def col(self, name):
        h = self.st.heap
        if name not in h:
            if name not in self.nodeleaves:
                raise Unsupported("no such field " + name)
            h[name] = z3.Const("H" + name, z3.ArraySort(IntS, self.nodeleaves[name]))
        return h[name]

    def nav(self, path):
        """shape, leaf prefix and vector indices of a path inside a node"""
        sh, pre, idx = self.nodesh, "", []
        i = 0
        while i < len(path):
            e = path[i]
            if e[0] == "f":
                if isinstance(sh, ArraySh):
                    pre += ".%d" % e[1]
                    sh = sh.elem
                elif isinstance(sh, StructSh):
                    pre += "." + sh.names[e[1]]
                    sh = sh.subs[e[1]]
                elif isinstance(sh, RefSh):
                    sh = sh.inner
                    continue
                else:
                    raise Unsupported("field of " + type(sh).__name__)
            elif e[0] == "v":
                if not isinstance(sh, EnumSh):
                    raise Unsupported("variant of " + type(sh).__name__)
                vn, ns, subs = sh.variants[e[1]]
                if i + 1 == len(path):
                    raise Unsupported("bare variant")
                j = path[i + 1][1]
                pre += "#" + vn + "." + ns[j]
                sh = subs[j]
                i += 1
            elif e[0] == "i":
                if isinstance(sh, VecSh):
                    pre += "[]"
                    idx.append(e[1])
                    sh = sh.elem
                elif isinstance(sh, ArraySh):
                    n = as_int(e[1])
                    if n is None:
                        raise Unsupported("symbolic array index in a node")
                    pre += ".%d" % n
                    sh = sh.elem
                elif isinstance(sh, MatSh):
                    n = as_int(e[1])
                    return sh, pre, idx, n
                else:
                    raise Unsupported("index into " + type(sh).__name__)
            else:
                raise Unsupported("path")
            i += 1
        return sh, pre, idx, None

    def sel(self, a, i):
        """select with alias resolution by the solver"""
        return self.lib.resolve_select(self.x, a, i)

    def heap_read(self, nid, path):
        sh, pre, idx, mi = self.nav(path)
        ts = []
        for s, so in sh.leaves():
            t = self.sel(self.col(pre + s), nid)
            for j in idx:
                t = self.sel(t, j)
            ts.append(t)
        v = sh.build(ts)
        self.note(sh, v)
        if mi is not None:
            return v.e[mi]
        return v

    def note(self, sh, v):
        for c in wf_of(sh, v):
            if as_bool(c) is None:
                self.x.assume(c)

    def heap_write(self, nid, path, v):
        sh, pre, idx, mi = self.nav(path)
        if mi is not None:
            old = self.heap_read(nid, path[:-1])
            e = list(old.e)
            e[mi] = v
            v = Mat(old.r, old.c, e)
        for (s, so), t in zip(sh.leaves(), sh.flat(v)):
            n = pre + s
            c = self.col(n)
            self.st.heap[n] = z3.Store(c, nid, self._nest(lambda: self.sel(c, nid), idx, t))

    def _nest(self, cur, idx, t):
        if not idx:
            return t
        a = cur()
        return z3.Store(a, idx[0], self._nest(lambda: self.sel(a, idx[0]), idx[1:], t))

    def base_value(self, base):
        if base[0] == "frame":
            f = self.st.frames[base[1]]
            if base[2] not in f:
                raise Unsupported("uninitialised local")
            return f[base[2]]
        if base[0] == "cell":
            return self.st.cells[base[1]]
        raise Unsupported("base " + base[0])

    def read(self, r):
        if r.base[0] == "node":
            return self.heap_read(r.base[1], r.path)
        if r.base[0] == "mutex":
            return Opaque("mutex", r)
        return self.vget(self.base_value(r.base), r.path)

    def write(self, r, v):
        b = r.base
        if b[0] == "node":
            return self.heap_write(b[1], r.path, v)
        if b[0] == "frame":
            f = self.st.frames[b[1]]
            f[b[2]] = self.vset(f.get(b[2]), r.path, v) if r.path else v
        elif b[0] == "cell":
            c = self.st.cells
            c[b[1]] = self.vset(c[b[1]], r.path, v) if r.path else v
        else:
            raise Unsupported("write to " + b[0])

    def vget(self, v, path):
        i = 0
        while i < len(path):
            e = path[i]
            if e[0] == "f":
                if isinstance(v, Struct):
                    v = v.f[e[1]]
                elif isinstance(v, Closure):
                    v = v.up[e[1]]
                elif isinstance(v, It):
                    v = v.f[e[1]]
                elif isinstance(v, Mat) and v.c == 1:
                    v = v.e[e[1]]
                elif isinstance(v, Ref) and e[1] == 0 and i + 1 == len(path):
                    pass        # the pointer inside a box
                elif isinstance(v, Rot) or isinstance(v, Arc):
                    raise Unsupported("field of a library value")
                else:
                    raise Unsupported("field of %r" % (v,))
            elif e[0] == "v":
                if not isinstance(v, Enum):
                    raise Unsupported("variant of %r" % (v,))
                if i + 1 == len(path):
                    return v
                if e[1] not in v.pl:
                    self.x.fail("payload of a variant that is not there", "internal", "variant")
                v = v.pl[e[1]][path[i + 1][1]]
                i += 1
            elif e[0] == "i":
                v = self.index_value(v, e[1])
            elif e[0] == "mk":
                v = v.vsh.build([self.sel(c, e[1]) for c in v.cols])
            elif e[0] == "dm":
                v = self.lib.num(self.lib.simp_arr(v.arr[e[1]][e[2]]))
            else:
                raise Unsupported("path")
            i += 1
        return v

    def index_value(self, v, j):
        if isinstance(v, Vec):
            x = v.sh.build([self.sel(c, j) for c in v.cols])
            self.note(v.sh, x)
            return x
        if isinstance(v, Struct) and v.name == "array":
            n = as_int(j)
            if n is None:
                return self.ite_list(list(v.f), j)
            return v.f[n]
        if isinstance(v, Mat):
            n = as_int(j)
            if n is None:
                return self.ite_list(list(v.e), j)
            # storage is column major
            return v.e[(n % v.r) * v.c + n // v.r]
        raise Unsupported("index into %r" % (v,))

    def ite_list(self, items, j):
        r = items[-1]
        for n in range(len(items) - 2, -1, -1):
            r = self.ite(j == n, items[n], r)
        return r

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a if a.key() == b.key() else poly(z3.If(c, a.z(), b.z()))
        if z3.is_expr(a) and z3.is_expr(b):
            return simp(z3.If(c, a, b))
        if isinstance(a, Struct) and isinstance(b, Struct):
            return Struct(a.name, [self.ite(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Mat):
            return Mat(a.r, a.c, [self.ite(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Rot):
            return a if a.w == b.w else rot(z3.If(c, a.z(), b.z()))
        if isinstance(a, Arc):
            return type(a)(simp(z3.If(c, a.id, b.id)))
        raise Unsupported("conditional value %r" % (a,))

    def vset(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Struct):
                return v.with_(e[1], self.vset(v.f[e[1]], path[1:], new))
            if isinstance(v, Closure):
                u = list(v.up)
                u[e[1]] = self.vset(u[e[1]], path[1:], new)
                return Closure(v.d, u)
            if isinstance(v, It):
                u = list(v.f)
                u[e[1]] = self.vset(u[e[1]], path[1:], new)
                return It(v.kind, u)
            raise Unsupported("field write to %r" % (v,))
        if e[0] == "v":
            j = path[1][1]
            pl = dict(v.pl)
            fs = list(pl[e[1]])
            fs[j] = self.vset(fs[j], path[2:], new)
            pl[e[1]] = tuple(fs)
            return Enum(v.name, v.tag, pl)
        if e[0] == "i":
            if isinstance(v, Vec):
                old = v.sh.build([self.sel(c, e[1]) for c in v.cols]) if path[1:] else None
                return vec_set(v, e[1], self.vset(old, path[1:], new))
            if isinstance(v, Struct) and v.name == "array":
                n = as_int(e[1])
                if n is None:
                    fs = [self.ite(e[1] == q, self.vset(v.f[q], path[1:], new), v.f[q]) for q in range(len(v.f))]
                    return Struct(v.name, fs)
                return v.with_(n, self.vset(v.f[n], path[1:], new))
            if isinstance(v, Mat):
                n = as_int(e[1])
                if n is None:
                    if v.c != 1:
                        raise Unsupported("symbolic matrix index")
                    return Mat(v.r, v.c, [self.ite(e[1] == q, new, v.e[q]) for q in range(len(v.e))])
                es = list(v.e)
                es[(n % v.r) * v.c + n // v.r] = new
                return Mat(v.r, v.c, es)
            raise Unsupported("index write to %r" % (v,))
        if e[0] == "mk":
            old = v.vsh.build([self.sel(c, e[1]) for c in v.cols]) if path[1:] else None
            nv = self.vset(old, path[1:], new)
            return Map(v.ksh, v.vsh, v.dom, [z3.Store(c, e[1], t) for c, t in zip(v.cols, v.vsh.flat(nv))])
        if e[0] == "dm":
            return DMat(v.r, v.c, z3.Store(v.arr, e[1], z3.Store(v.arr[e[1]], e[2], self.lib.nz(new))))
        raise Unsupported("path")

    # ------------------------------------------------------------ places and operands
    def place(self, fr, p):
        r = Ref(("frame", fr.fid, p["l"]))
        ty = fr.body["locals"][p["l"]]["ty"]
        for e in p["p"]:
            k = e[0]
            if k == "deref":
                v = self.read(r)
                if isinstance(v, Ref):
                    r = v
                # otherwise a box: transparent
            elif k == "field":
                r = r.at(("f", e[1]))
            elif k == "downcast":
                r = r.at(("v", e[1]))
            elif k == "index":
                j = self.st.frames[fr.fid][e[1]]
                r = r.at(("i", j))
            elif k == "cindex":
                if e[3]:
                    raise Unsupported("index from the end")
                r = r.at(("i", I(e[1])))
            else:
                raise Unsupported("projection " + k)
        return r

    def operand(self, fr, o):
        if o["o"] in ("copy", "move"):
            return self.read(self.place(fr, o["p"]))
        if o["o"] == "const":
            return self.const(fr, o["c"], o.get("ty"))
        raise Unsupported("operand " + str(o))

    def const(self, fr, c, ty):
        k = c["c"]
        if k == "fn":
            return Fn(c["f"])
        if k == "scalar":
            t = self.crate.types[c["ty"]] if "ty" in c else self.crate.types[ty]
            b = int(c["bits"])
            if t["k"] == "bool":
                return z3.BoolVal(bool(b))
            if t["k"] in ("uint", "char"):
                return I(b)
            if t["k"] == "int":
                n = 8 * c["size"]
                return I(b - (1 << n) if b >= 1 << (n - 1) else b)
            if t["k"] == "float":
                return n_lit(b, c["size"])
            if t["k"] == "adt":
                a = self.crate.adts.get(t["def"])
                if a and a["kind"] == "enum":
                    return Enum(t["def"], I(b), {b: ()})
            raise Unsupported("constant of type " + t["s"])
        if k == "str":
            return self.new_cell(str_lit(c["text"]))
        if k == "item":
            d = c.get("resolved") or c["def"]
            if isinstance(d, dict):
                d = d["def"]
            if c.get("promoted") is not None:
                f = self.crate.fns[c["def"]] if c["def"] in self.crate.fns else fr.fn
                return self.run_const(f, f["promoted"][c["promoted"]])
            f = self.crate.fns.get(d)
            if f is not None and f["body"]:
                return self.run_const(f, f["body"])
            return self.lib.const_item(self, c)
        if k == "other":
            s = c.get("s") or c.get("text") or ""
            t = self.crate.types[c["ty"]] if "ty" in c else (self.crate.types[ty] if ty is not None else None)
            if t and t["k"] == "tuple" and not t["args"]:
                return UNIT
            if t and t["k"] == "closure":
                return Closure(t["def"], ())
            if t and t["k"] == "adt":
                a = self.crate.adts.get(t["def"])
                if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                    return Struct(t["def"], ())
            if t and t["k"] == "fndef":
                return Opaque("fndef", t)
            if s.startswith('b"'):
                return self.new_cell(Opaque("bytes"))
            raise Unsupported("constant " + str(s))
        raise Unsupported("constant " + str(c)[:80])

    def run_const(self, fn, body):
        key = ("const", fn["def"], id(body))
        return self.exec_body(fn, body, [])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(fr, r["o"])
        if k in ("ref", "rawptr", "reborrow"):
            return self.place(fr, r["p"])
        if k == "bin":
            return self.binop(fr, r["op"], self.operand(fr, r["a"]), self.operand(fr, r["b"]))
        if k == "un":
            v = self.operand(fr, r["a"]) if "a" in r else self.operand(fr, r["o"])
            if isinstance(v, Opaque) and v.what == "address":
                return v
            if r["op"] == "Not":
                if z3.is_bool(v):
                    return simp(z3.Not(v))
                raise Unsupported("bitwise not")
            if r["op"] == "Neg":
                return n_neg(v) if not z3.is_int(v) else -v
            if r["op"] == "PtrMetadata":
                return self.lib.slice_len(self, v)
            raise Unsupported("unary " + r["op"])
        if k == "discr":
            v = self.read(self.place(fr, r["p"]))
            if not isinstance(v, Enum):
                raise Unsupported("discriminant of %r" % (v,))
            a = self.crate.adts.get(v.name)
            ds = (a or {}).get("discrs")
            if ds and [int(d) for d in ds] != list(range(len(ds))):
                return self.ite_list([I(int(d)) for d in ds], v.tag)
            return v.tag
        if k == "agg":
            ops = [self.operand(fr, o) for o in r["ops"]]
            kk = r["k"]
            a = kk["a"]
            if a == "tuple":
                return Struct("tuple", ops)
            if a == "array":
                return Struct("array", ops)
            if a == "closure":
                return Closure(kk["def"], ops)
            if a == "adt":
                ad = self.crate.adts.get(kk["def"])
                if ad and ad["kind"] == "enum":
                    return Enum(kk["def"], I(kk["v"]), {kk["v"]: tuple(ops)})
                nm = kk["def"]
                return Struct(self.lib.struct_name(nm), ops)
            raise Unsupported("aggregate " + a)
        if k == "repeat":
            v = self.operand(fr, r["o"])
            n = r.get("n", r.get("len"))
            m = re.match(r"^(\d+)", str(n))
            if not m:
                raise Unsupported("repeat length %r" % (n,))
            return Struct("array", [v] * int(m.group(1)))
        if k == "cast":
            return self.cast(fr, r)
        raise Unsupported("rvalue " + k)

    def cast(self, fr, r):
        v = self.operand(fr, r["o"])
        kind = r["kind"]
        t = self.crate.types[r["ty"]]
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute") and isinstance(v, Ref) and t["k"] not in ("uint", "int"):
            return v
        if kind in ("IntToInt",) and z3.is_int(v):
            return v
        if "IntToFloat" in kind and z3.is_int(v):
            if Mode.t == "real":
                n = as_int(v)
                return Poly.const(n) if n is not None else poly(z3.ToReal(v))
            raise Unsupported("int to float")
        if kind == "IntToInt" and z3.is_bool(v):
            return z3.If(v, I(1), I(0))
        if isinstance(v, Ref) and t["k"] in ("uint", "int"):
            return Opaque("address", v)
        if isinstance(v, (Ref, Fn, Closure, Opaque)):
            return v
        raise Unsupported("cast " + kind)

    UMAX = 2 ** 64 - 1

    def binop(self, fr, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if "address" in (getattr(a, "what", 0), getattr(b, "what", 0)):
                return Opaque("address")        # only the compiler's own alignment and null checks compute with these
            raise Unsupported("operation on an opaque value")
        if isinstance(a, Poly) or isinstance(b, Poly) or (z3.is_expr(a) and z3.is_fp(a)):
            o = {"Add": n_add, "Sub": n_sub, "Mul": n_mul, "Div": n_div}.get(op)
            if o:
                return o(a, b)
            c = {"Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge", "Eq": "eq", "Ne": "ne"}.get(op)
            if c:
                return n_cmp(c, a, b)
            raise Unsupported("float operation " + op)
        if z3.is_expr(a) and z3.is_bool(a):
            o = {"Eq": lambda: a == b, "Ne": lambda: a != b, "BitAnd": lambda: z3.And(a, b), "BitOr": lambda: z3.Or(a, b),
                 "BitXor": lambda: a != b}.get(op)
            if not o:
                raise Unsupported("bool operation " + op)
            return simp(o())
        if isinstance(a, Enum) or isinstance(a, Struct) or isinstance(a, Ref):
            if op in ("Eq", "Ne") and isinstance(a, Ref):
                e = self.lib.ref_eq(self, a, b)
                return e if op == "Eq" else simp(z3.Not(e))
            raise Unsupported("operation on %r" % (a,))
        if op == "Add":
            return simp(a + b)
        if op == "Sub":
            return simp(a - b)
        if op == "Mul":
            if as_int(a) is None and as_int(b) is None:
                raise Unsupported("integer product")
            return simp(a * b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            if op[:3] == "Add":
                v = simp(a + b)
                self.x.assumptions.add("no usize addition or multiplication overflows (all counts are bounded by memory)")
                o = z3.BoolVal(False)
            elif op[:3] == "Mul":
                if as_int(a) is None and as_int(b) is None:
                    raise Unsupported("integer product")
                v = simp(a * b)
                o = z3.BoolVal(False)
            else:
                v = simp(a - b)
                o = simp(v < 0)
            return Struct("tuple", [v, o])
        c = {"Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b, "Eq": lambda: a == b,
             "Ne": lambda: a != b}.get(op)
        if c:
            return simp(c())
        n, m = as_int(a), as_int(b)
        if op in ("Rem", "Div") and m:
            return simp(a % b) if op == "Rem" else simp(a / b)
        if n is not None and m is not None:
            f = {"Shl": lambda: n << m, "Shr": lambda: n >> m, "BitAnd": lambda: n & m, "BitOr": lambda: n | m, "BitXor": lambda: n ^ m}.get(op)
            if f:
                return I(f())
        raise Unsupported("integer operation " + op)

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args):
        """run a local function or closure body"""
        if not fn["body"]:
            raise Unsupported("no body: " + fn["def"])
        return self.exec_body(fn, fn["body"], args)

    def exec_body(self, fn, body, args):
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("recursion")
        self.x.instc += 1
        fid = "f%s%d" % (self.x.ns, self.x.instc)
        fr = Frame(fid, fn, body)
        self.st.frames[fid] = {i + 1: a for i, a in enumerate(args)}
        try:
            self.run_blocks(fr, 0)
            r = self.st.frames[fid].get(0, UNIT)
            # a returned reference may point into this frame only through a promoted constant
            if isinstance(r, Ref) and r.base[0] == "frame" and r.base[1] == fid:
                return self.new_cell(self.st.frames.pop(fid)[r.base[2]]) if not r.path else r
            del self.st.frames[fid]
            return r
        finally:
            self.depth -= 1

    def cfg(self, body):
        k = id(body)
        if k not in self.cfgs:
            import loops
            self.cfgs[k] = loops.analyse_cfg(body)
        return self.cfgs[k]

    def run_blocks(self, fr, b, stop=None):
        """execute from block b until return; stop=(head, blocks): raise LoopBack/LoopExit"""
        import loops
        cfg = self.cfg(fr.body)
        steps = 0
        cur = None
        while True:
            steps += 1
            if steps > 5000:
                raise Unsupported("path too long")
            if stop is not None:
                if b == stop[0] and cur is not None:
                    raise LoopBack()
                if b not in stop[1]:
                    raise LoopExit()
            if b in cfg.loops and not (stop is not None and b == stop[0] and cur is None):
                if b in fr.active:
                    if cur is not None and cur in cfg.loops[b]:
                        # back edge of a loop that was cut
                        raise PathEnd()
                    del fr.active[b]
                if b in fr.unrolled and not (cur is not None and cur in cfg.loops[b]):
                    fr.unrolled.discard(b)
                if b not in fr.active and b not in fr.unrolled:
                    # entering from outside
                    if loops.small_loop(self, fr, b, cfg):
                        fr.unrolled.add(b)
                    else:
                        loops.cut_mir_loop(self, fr, b, cfg)
                        fr.active[b] = True
            cur = b
            blk = fr.body["blocks"][b]
            self.x.line = (fr.fn["file"], None)
            for s in blk["st"]:
                if s["s"] == "assign":
                    self.write(self.place(fr, s["p"]), self.rvalue(fr, s["r"]))
                elif s["s"] == "setdiscr":
                    raise Unsupported("set discriminant")
                elif s["s"] in ("live", "dead"):
                    pass
                elif s["s"] == "intrinsic":
                    raise Unsupported("intrinsic")
            t = blk["t"]
            k = t["t"]
            if k == "goto":
                b = t["to"]
            elif k == "return":
                if stop is not None:
                    raise LoopExit()
                return
            elif k == "switch":
                b = self.switch(fr, t)
            elif k == "call":
                self.x.where = "%s:%s" % (fr.fn["file"], t.get("ln"))
                heads = [h for h in list(fr.active) + ([stop[0]] if stop else []) + list(fr.unrolled)
                         if b in cfg.straight.get(h, ())]
                try:
                    v = self.call(fr, t, skip_ok=bool(heads))
                except self.lib.Skip:
                    b = heads[-1]
                    if stop is not None and b == stop[0]:
                        raise LoopBack()
                    if b in fr.active:
                        raise PathEnd()
                    continue
                if t["to"] is None:
                    self.x.fail("unreachable return", "internal", t["f"])
                self.write(self.place(fr, t["dest"]), v)
                b = t["to"]
            elif k == "drop":
                r = self.place(fr, t["p"])
                if r.base[0] == "frame" and r.base[2] in self.st.frames[r.base[1]]:
                    self.drop(self.read(r))
                b = t["to"]
            elif k == "assert":
                c = self.operand(fr, t["c"])
                if isinstance(c, Opaque) and c.what == "address":
                    b = t["to"]         # alignment and null checks of references the compiler made
                    continue
                want = c if t["exp"] else simp(z3.Not(c))
                self.x.prove(want, "no panic: " + self.msg(t["msg"]), "panic", "%s:%s" % (fr.fn["file"], t.get("ln")))
                b = t["to"]
            elif k == "unreachable":
                self.x.fail("unreachable code is not reached", "panic", "unreachable", fr.fn["file"])
            else:
                raise Unsupported("terminator " + str(k))

    def msg(self, m):
        m = str(m)
        if "BoundsCheck" in m:
            return "index in bounds"
        if "Overflow" in m:
            return "no overflow (%s)" % (re.search(r"Overflow\((\w+)", m) or [0, "?"])[1]
        return m.split("{")[0].split("(")[0][:60]

    def switch(self, fr, t):
        v = self.operand(fr, t["d"])
        if z3.is_bool(v):
            m = {int(a): x for a, x in t["ts"]}
            c = self.x.choose(v)
            return m.get(1 if c else 0, t["else"])
        for a, x in t["ts"]:
            a = int(a)
            if a >= 2 ** 63:
                a -= 2 ** 128 if a >= 2 ** 127 else 2 ** 64
            if self.x.choose(simp(v == a)):
                return x
        return t["else"]

    def drop(self, v):
        if isinstance(v, Guard):
            if self.onunlock and v.gid in self.st.guards and v.kind == "mutex":
                self.onunlock(self, v)
            self.st.guards.pop(v.gid, None)
        elif isinstance(v, (Struct, It)):
            for y in v.f:
                self.drop(y)
        elif isinstance(v, Closure):
            for y in v.up:
                self.drop(y)
        elif isinstance(v, Enum):
            t = as_int(v.tag)
            for i, fs in v.pl.items():
                if t is None or t == i:
                    for y in fs:
                        self.drop(y)

    # ------------------------------------------------------------ calls
    def call(self, fr, t, skip_ok=False):
        f = t["f"]
        if f["o"] == "const" and f["c"]["c"] == "fn":
            callee = f["c"]["f"]
        else:
            v = self.operand(fr, f)
            args = [self.operand(fr, a) for a in t["args"]]
            return self.call_value(v, args)
        args = [self.operand(fr, a) for a in t["args"]]
        return self.call_callee(callee, args, t, skip_ok)

    def call_callee(self, callee, args, t, skip_ok=False):
        r = callee.get("resolved")
        d = r["def"] if r else callee["def"]
        if (callee.get("trait") or "").split("<")[0] in ("core::ops::Fn", "core::ops::FnMut", "core::ops::FnOnce", "core::ops::function::Fn",
                                                       "core::ops::function::FnMut", "core::ops::function::FnOnce"):
            return self.lib.call(self, callee, args, t, skip_ok)    # the arguments come as one tuple
        if (r and r.get("local")) or (not r and callee.get("local")):
            return self.call_local(d, args)
        return self.lib.call(self, callee, args, t, skip_ok)

    def call_local(self, d, args):
        fn = self.crate.fns.get(d)
        if fn is None:
            raise Unsupported("unknown local function " + d)
        key = self.reg.key(fn)
        c = self.contracts.get(key)
        if c is not None:
            return c(self, args)
        return self.call_fn(fn, args)

    def call_value(self, v, args):
        """call a closure, function item or function pointer"""
        if isinstance(v, Ref):
            inner = self.read(v)
            if isinstance(inner, Closure):
                return self.call_closure(v, inner, args)
            return self.call_value(inner, args)
        if isinstance(v, Closure):
            return self.call_closure(None, v, args)
        if isinstance(v, Fn):
            return self.call_callee(v.c, args, {"dty": v.c["sig"][0], "argtys": v.c["sig"][1:]})
        raise Unsupported("call of %r" % (v,))

    def call_closure(self, ref, clo, args):
        fn = self.crate.fns.get(clo.d)
        if fn is None:
            raise Unsupported("closure " + clo.d)
        self_ty = self.crate.types[fn["body"]["locals"][1]["ty"]]
        if self_ty["k"] == "ref":
            if ref is None:
                ref = self.new_cell(clo)
            first = ref
        else:
            first = clo
        argc = fn["body"]["argc"]
        if argc == 2 + len(args) - 1 or argc == 1 + len(args):
            return self.call_fn(fn, [first] + list(args))
        raise Unsupported("closure arity")
