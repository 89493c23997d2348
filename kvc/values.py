"""Values of the symbolic execution and their shapes (how a type is laid out in leaves)."""
import re
import z3
from terms import *


# ------------------------------------------------------------ values
class Struct:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, tuple(f)

    def __repr__(self):
        return "%s%r" % (self.name.split("::")[-1], self.f)

    def with_(self, i, v):
        f = list(self.f)
        f[i] = v
        return Struct(self.name, f)


class Enum:
    """tag is an Int term; payload maps a variant index to its field values"""
    __slots__ = ("name", "tag", "pl")

    def __init__(self, name, tag, pl):
        self.name, self.tag, self.pl = name, tag, pl

    def __repr__(self):
        return "%s#%s%r" % (self.name.split("::")[-1], self.tag, self.pl)


class Mat:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)

    def at(self, i, j=0):
        return self.e[i * self.c + j]


class Vec:
    """a vector (or slice storage): length and one array per leaf of the element shape"""
    __slots__ = ("sh", "len", "cols", "kind")

    def __init__(self, sh, ln, cols, kind="vec"):
        self.sh, self.len, self.cols, self.kind = sh, ln, tuple(cols), kind


class DMat:
    __slots__ = ("r", "c", "arr")

    def __init__(self, r, c, arr):
        self.r, self.c, self.arr = r, c, arr


class Map:
    __slots__ = ("ksh", "vsh", "dom", "cols")

    def __init__(self, ksh, vsh, dom, cols):
        self.ksh, self.vsh, self.dom, self.cols = ksh, vsh, dom, tuple(cols)


class Arc:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Weak(Arc):
    __slots__ = ()


class Ref:
    """pointer: base is ('frame',fid,local) | ('node',id) | ('mutex',id) | ('cell',n)"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base, self.path = base, tuple(path)

    def at(self, *p):
        return Ref(self.base, self.path + p)

    def __repr__(self):
        return "&%r%r" % (self.base, self.path)


class Guard:
    """kind 'mutex' (node id) or 'ref' (a RefCell borrow, at a location)"""
    __slots__ = ("gid", "kind", "target", "note")

    def __init__(self, gid, kind, target):
        self.note = None
        self.gid, self.kind, self.target = gid, kind, target


class Closure:
    __slots__ = ("d", "up")

    def __init__(self, d, up):
        self.d, self.up = d, tuple(up)


class Fn:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Opaque:
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what, self.data = what, data


class It:
    """iterator: kind and components (values); see lib_iter"""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind, self.f = kind, tuple(f)


UNIT = Struct("tuple", ())


# ------------------------------------------------------------ scalar mode
class Mode:
    """'real', 'f32' or 'f64': how T is read"""
    t = "real"


def sort_T():
    return {"real": RealS, "f32": z3.Float32(), "f64": z3.Float64()}[Mode.t]


def sort_f64():
    return RealS if Mode.t == "real" else z3.Float64()


def num(t):
    return poly(t) if t.sort() == RealS else t


def nz(v):
    return v.z() if isinstance(v, Poly) else v


RNE = z3.RNE()


def n_add(a, b):
    return a + b if isinstance(a, Poly) else z3.fpAdd(RNE, a, b)


def n_sub(a, b):
    return a - b if isinstance(a, Poly) else z3.fpSub(RNE, a, b)


def n_mul(a, b):
    return a * b if isinstance(a, Poly) else z3.fpMul(RNE, a, b)


def n_neg(a):
    return -a if isinstance(a, Poly) else z3.fpNeg(a)


def n_div(a, b):
    if not isinstance(a, Poly):
        return z3.fpDiv(RNE, a, b)
    c = b.const_value()
    if c:
        return a.scale(1 / c)
    if len(b.m) == 1:
        (k, v), = b.m.items()
        if len(k) == 1:
            return (a * Poly.atom(rinv_f(b.scale(1 / v).z()))).scale(1 / v)
    return a * Poly.atom(rinv_f(b.z()))


def n_cmp(op, a, b):
    if isinstance(a, Poly):
        d = (a - b)
        c = d.const_value()
        if c is not None:
            return z3.BoolVal({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op])
        x, y = a.z(), b.z()
        return {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y,
                "eq": lambda: x == y, "ne": lambda: x != y}[op]()
    return {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "eq": z3.fpEQ, "ne": z3.fpNEQ}[op](a, b)


def n_const(x, sort=None):
    sort = sort_T() if sort is None else sort
    return Poly.const(Fraction(x)) if sort == RealS else z3.FPVal(float(x), sort)


def n_lit(bits, size):
    import struct
    x = struct.unpack("<d", struct.pack("<Q", bits))[0] if size == 8 else struct.unpack("<f", struct.pack("<I", bits))[0]
    if Mode.t == "real":
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in exact mode")
        return Poly.const(Fraction(repr(x)))
    return z3.FPVal(x, z3.Float64() if size == 8 else z3.Float32())


# ------------------------------------------------------------ shapes
class Sh:
    leafcount = None

    def leaves(self):
        """[(suffix, sort)]"""
        raise NotImplementedError

    def nleaves(self):
        if self.leafcount is None:
            self.leafcount = len(self.leaves())
        return self.leafcount

    def fresh(self, base):
        return self.build([fresh(base + s, so) for s, so in self.leaves()])

    def named(self, base):
        return self.build([z3.Const(base + s, so) for s, so in self.leaves()])

    def build(self, ts):
        v, rest = self.unflat(list(ts))
        assert not rest
        return v


def default_of(so):
    if so == IntS:
        return I(0)
    if so == BoolS:
        return z3.BoolVal(False)
    if so == RealS:
        return z3.RealVal(0)
    if so == RotS:
        return r_id
    if so == Str:
        return str_lit("")
    if so.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(so.domain(), default_of(so.range()))
    if so.kind() == z3.Z3_FLOATING_POINT_SORT:
        return z3.FPVal(0, so)
    return z3.Const("default:" + so.name(), so)


class LeafSh(Sh):
    def __init__(self, kind, sort):
        self.kind, self.sort = kind, sort

    def leaves(self):
        return [("", self.sort)]

    def unflat(self, ts):
        t = ts.pop(0)
        return self.wrap(t), ts

    def wrap(self, t):
        k = self.kind
        if k == "T":
            return num(t)
        if k == "rot":
            return rot(t)
        if k == "arc":
            return Arc(t)
        if k == "weak":
            return Weak(t)
        if k == "opaque":
            return Opaque("sym", t)
        return t

    def flat(self, v):
        if isinstance(v, (Poly, Rot)):
            return [v.z()]
        if isinstance(v, Arc):
            return [v.id]
        if isinstance(v, Opaque):
            if v.data is None or not z3.is_expr(v.data):
                raise Unsupported("opaque value stored: " + str(v.what))
            return [v.data]
        if not z3.is_expr(v):
            raise Unsupported("leaf expected, got %r" % (v,))
        return [v]

    def eq(self, a, b):
        x, y = self.flat(a)[0], self.flat(b)[0]
        if self.kind == "T" and isinstance(a, Poly) and isinstance(b, Poly):
            if a.key() == b.key():
                return z3.BoolVal(True)
        return x == y


class UnitSh(Sh):
    """no leaves (fn items, unit)"""

    def __init__(self, v):
        self.v = v

    def leaves(self):
        return []

    def unflat(self, ts):
        return self.v, ts

    def flat(self, v):
        return []

    def eq(self, a, b):
        return z3.BoolVal(True)


class StructSh(Sh):
    def __init__(self, name, names, subs):
        self.name, self.names, self.subs = name, names, subs

    def leaves(self):
        return [("." + n + s, so) for n, sub in zip(self.names, self.subs) for s, so in sub.leaves()]

    def unflat(self, ts):
        fs = []
        for s in self.subs:
            v, ts = s.unflat(ts)
            fs.append(v)
        return Struct(self.name, fs), ts

    def flat(self, v):
        if not isinstance(v, Struct):
            raise Unsupported("struct %s expected, got %r" % (self.name, v))
        return [t for s, x in zip(self.subs, v.f) for t in s.flat(x)]

    def eq(self, a, b):
        return z3.And([s.eq(x, y) for s, x, y in zip(self.subs, a.f, b.f)])


class EnumSh(Sh):
    def __init__(self, name, variants):
        self.name, self.variants = name, variants  # [(vname, [fname], [sub])]

    def leaves(self):
        r = [("#", IntS)]
        for vn, ns, subs in self.variants:
            for n, sub in zip(ns, subs):
                r += [("#" + vn + "." + n + s, so) for s, so in sub.leaves()]
        return r

    def unflat(self, ts):
        tag = ts.pop(0)
        pl = {}
        for i, (vn, ns, subs) in enumerate(self.variants):
            fs = []
            for s in subs:
                v, ts = s.unflat(ts)
                fs.append(v)
            pl[i] = tuple(fs)
        return Enum(self.name, tag, pl), ts

    def flat(self, v):
        if not isinstance(v, Enum):
            raise Unsupported("enum %s expected, got %r" % (self.name, v))
        r = [v.tag]
        for i, (vn, ns, subs) in enumerate(self.variants):
            if i in v.pl:
                for s, x in zip(subs, v.pl[i]):
                    r += s.flat(x)
            else:
                r += [default_of(so) for s in subs for _, so in s.leaves()]
        return r

    def wf(self, v):
        return z3.And(v.tag >= 0, v.tag < len(self.variants))

    def eq(self, a, b):
        cs = [a.tag == b.tag]
        for i, (vn, ns, subs) in enumerate(self.variants):
            if subs:
                if i in a.pl and i in b.pl:
                    c = z3.And([s.eq(x, y) for s, x, y in zip(subs, a.pl[i], b.pl[i])])
                    cs.append(z3.Implies(a.tag == i, c))
                elif i in a.pl or i in b.pl:
                    cs.append(z3.Not(z3.And(a.tag == i, b.tag == i)))
        return z3.And(cs)


class MatSh(Sh):
    def __init__(self, r, c, sort):
        self.r, self.c, self.sort = r, c, sort

    def leaves(self):
        return [("[%d%d]" % (i, j), self.sort) for i in range(self.r) for j in range(self.c)]

    def unflat(self, ts):
        n = self.r * self.c
        return Mat(self.r, self.c, [num(t) for t in ts[:n]]), ts[n:]

    def flat(self, v):
        if not isinstance(v, Mat):
            raise Unsupported("matrix expected, got %r" % (v,))
        return [nz(e) for e in v.e]

    def eq(self, a, b):
        return z3.And([n_eqv(x, y) for x, y in zip(a.e, b.e)])


def n_eqv(a, b):
    """identity of scalars (for specifications)"""
    if isinstance(a, Poly):
        if a.key() == b.key():
            return z3.BoolVal(True)
        return a.z() == b.z()
    return a == b


class VecSh(Sh):
    def __init__(self, elem, kind="vec"):
        self.elem, self.kind = elem, kind

    def leaves(self):
        return [(".len", IntS)] + [("[]" + s, z3.ArraySort(IntS, so)) for s, so in self.elem.leaves()]

    def unflat(self, ts):
        n = self.elem.nleaves()
        ln = ts.pop(0)
        return Vec(self.elem, ln, ts[:n], self.kind), ts[n:]

    def flat(self, v):
        if not isinstance(v, Vec):
            raise Unsupported("vector expected, got %r" % (v,))
        return [v.len] + list(v.cols)

    def eq(self, a, b):
        j = z3.Int("vj")
        ea, eb = vec_at(a, j), vec_at(b, j)
        if all(x.eq(y) for x, y in zip(a.cols, b.cols)):
            return a.len == b.len
        body = self.elem.eq(ea, eb)
        return z3.And(a.len == b.len, forall([j], z3.Implies(z3.And(0 <= j, j < a.len), body),
                                             [[c[j] for c in a.cols[:1]], [c[j] for c in b.cols[:1]]]))


class ArraySh(StructSh):
    def __init__(self, n, elem):
        StructSh.__init__(self, "array", [str(i) for i in range(n)], [elem] * n)
        self.n, self.elem = n, elem


class DMatSh(Sh):
    def leaves(self):
        return [(".r", IntS), (".c", IntS), (".m", z3.ArraySort(IntS, z3.ArraySort(IntS, sort_T())))]

    def unflat(self, ts):
        return DMat(ts[0], ts[1], ts[2]), ts[3:]

    def flat(self, v):
        return [v.r, v.c, v.arr]

    def eq(self, a, b):
        return z3.And(a.r == b.r, a.c == b.c, a.arr == b.arr)


class MapSh(Sh):
    def __init__(self, k, v):
        self.k, self.v = k, v
        ls = k.leaves()
        if len(ls) != 1:
            raise Unsupported("map key")
        self.ks = ls[0][1]

    def leaves(self):
        return [(".dom", z3.ArraySort(self.ks, BoolS))] + [("{}" + s, z3.ArraySort(self.ks, so)) for s, so in self.v.leaves()]

    def unflat(self, ts):
        n = self.v.nleaves()
        return Map(self.k, self.v, ts[0], ts[1:n + 1]), ts[n + 1:]

    def flat(self, v):
        return [v.dom] + list(v.cols)

    def eq(self, a, b):
        k = z3.Const("mk", self.ks)
        ea = self.v.build([c[k] for c in a.cols])
        eb = self.v.build([c[k] for c in b.cols])
        return z3.And(forall([k], a.dom[k] == b.dom[k], [[a.dom[k]], [b.dom[k]]]),
                      forall([k], z3.Implies(a.dom[k], self.v.eq(ea, eb)), [[c[k] for c in a.cols[:1]]]))


class RefSh(Sh):
    """a shared reference kept inside a container, represented by the value it points at"""

    def __init__(self, inner):
        self.inner = inner
        self.ctx = None

    def leaves(self):
        return self.inner.leaves()

    def unflat(self, ts):
        v, ts = self.inner.unflat(ts)
        return Shapes.state_cell(v), ts

    def flat(self, v):
        if isinstance(v, Ref):
            v = Shapes.state_read(v)
        return self.inner.flat(v)

    def eq(self, a, b):
        a = Shapes.state_read(a) if isinstance(a, Ref) else a
        b = Shapes.state_read(b) if isinstance(b, Ref) else b
        return self.inner.eq(a, b)


def vec_at(v, j):
    return v.sh.build([c[j] for c in v.cols])


def vec_set(v, j, x):
    return Vec(v.sh, v.len, [z3.Store(c, j, t) for c, t in zip(v.cols, v.sh.flat(x))], v.kind)


def vec_push(v, x):
    w = vec_set(v, v.len, x)
    return Vec(v.sh, simp(v.len + 1), w.cols, v.kind)


def vec_of(sh, items, kind="vec"):
    v = Vec(sh, I(0), [default_of(z3.ArraySort(IntS, so)) for _, so in sh.leaves()], kind)
    for x in items:
        v = vec_push(v, x)
    return v


def forall(vs, body, pats=None):
    ps = []
    for p in pats or []:
        p = [x for x in (p if isinstance(p, list) else [p]) if _pat_ok(x)]
        if p and all(any(_mentions(x, v) for x in p) for v in vs):
            ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    if as_bool(body) is True:
        return z3.BoolVal(True)
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def _mentions(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def _pat_ok(t):
    """no interpreted arithmetic / boolean head"""
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    return k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and t.num_args() > 0


class Shapes:
    """type index -> shape"""
    state_cell = None
    state_read = None

    def __init__(self, crate):
        self.c = crate
        self.cache = {}

    def dim(self, i, env):
        t = self.c.types[i]
        if t["k"] == "adt" and t["def"].endswith("::Const"):
            s = t["args"][0].get("const", "")
            m = re.match(r"^(\d+)", s) or re.search(r"::U(\d+)::", s)
            if m:
                return int(m.group(1))
        if t["k"] == "adt" and t["def"].endswith("::Dynamic"):
            return None
        raise Unsupported("matrix dimension " + t["s"])

    def of(self, i, env=()):
        k = (i, tuple(id(e) for e in env))
        if k not in self.cache:
            self.cache[k] = (self._of(i, env), env)
        return self.cache[k][0]

    def _args(self, t, env):
        r = []
        for a in t["args"]:
            try:
                r.append(self.of(a, env) if isinstance(a, int) else None)
            except Unsupported:
                r.append(None)
        return r

    def _of(self, i, env):
        t = self.c.types[i]
        k = t["k"]
        if k == "bool":
            return LeafSh("bool", BoolS)
        if k in ("int", "uint", "char"):
            return LeafSh("uint" if k == "uint" else "int", IntS)
        if k == "float":
            return LeafSh("T", sort_f64())
        if k == "str":
            return LeafSh("str", Str)
        if k == "param":
            if env:
                if t["idx"] < len(env) and env[t["idx"]] is not None:
                    return env[t["idx"]]
                raise Unsupported("type parameter " + t["s"])
            if t["name"] == "T":
                return LeafSh("T", sort_T())
            raise Unsupported("type parameter " + t["s"])
        if k == "tuple":
            subs = [self.of(a, env) for a in t["args"]]
            return StructSh("tuple", [str(n) for n in range(len(subs))], subs)
        if k == "array":
            n = t["len"]
            if not isinstance(n, int):
                m = re.match(r"^(\d+)", str(n))
                if not m:
                    raise Unsupported("array length")
                n = int(m.group(1))
            return ArraySh(n, self.of(t["elem"], env))
        if k == "slice":
            return VecSh(self.of(t["elem"], env))
        if k == "ref":
            if t.get("mut"):
                raise Unsupported("mutable reference in a container: " + t["s"])
            return RefSh(self.of(t["elem"], env))
        if k == "fndef":
            return UnitSh(None)
        if k == "never":
            return UnitSh(UNIT)
        if k == "adt":
            return self._adt(i, t, env)
        raise Unsupported("type " + t["s"])

    def _adt(self, i, t, env):
        d = t["def"]
        last = d.split("::")[-1]
        root = d.split("::")[0]
        if root in ("alloc", "core", "std", "nalgebra"):
            if last == "String":
                return LeafSh("str", Str)
            if last == "Vec":
                return VecSh(self.of(t["args"][0], env))
            if last == "VecDeque":
                raise Unsupported("VecDeque")
            if last == "Box":
                e = self.c.types[t["args"][0]]
                if e["k"] in ("dyn", "slice"):
                    return LeafSh("opaque", z3.DeclareSort("Dyn"))
                return self.of(t["args"][0], env)
            if last in ("Arc", "Weak"):
                return LeafSh("arc" if last == "Arc" else "weak", IntS)
            if last == "RefCell":
                return StructSh("RefCell", ["cell"], [self.of(t["args"][0], env)])
            if last == "HashMap":
                return MapSh(self.of(t["args"][0], env), self.of(t["args"][1], env))
            if last == "Isometry":
                return StructSh("Isometry", ["rotation", "translation"],
                                [LeafSh("rot", RotS), StructSh("Translation", ["vector"], [MatSh(3, 1, self._tsort(t["args"][0], env))])])
            if last == "Translation":
                return StructSh("Translation", ["vector"], [MatSh(3, 1, self._tsort(t["args"][0], env))])
            if last == "Rotation":
                return LeafSh("rot", RotS)
            if last == "Unit":
                e = self.c.types[t["args"][0]]
                if e["k"] == "adt" and e["def"].endswith("::Quaternion"):
                    return LeafSh("rot", RotS)
                return StructSh("Unit", ["value"], [self.of(t["args"][0], env)])
            if last == "Matrix":
                r, c = self.dim(t["args"][1], env), self.dim(t["args"][2], env)
                so = self._tsort(t["args"][0], env)
                if r is None and c == 1:
                    return VecSh(LeafSh("T", so), "dvec")
                if r is None or c is None:
                    return DMatSh()
                return MatSh(r, c, so)
            if last not in ("Option", "Result", "ControlFlow", "Range", "RangeInclusive", "Ordering"):
                raise Unsupported("library type " + t["s"])
        a = self.c.adts.get(d)
        if a is None:
            raise Unsupported("type " + t["s"])
        args = self._args(t, env)
        if a["kind"] == "struct":
            fs = a["variants"][0]["fields"]
            return StructSh(d, [f[0] for f in fs], [self._fty(f, args) for f in fs])
        if a["kind"] == "enum":
            return EnumSh(d, [(v["name"], [f[0] for f in v["fields"]], [self._fty(f, args) for f in v["fields"]]) for v in a["variants"]])
        raise Unsupported("type " + t["s"])

    def _fty(self, f, args):
        if f[1] is None:
            return UnknownSh(f[0])
        try:
            return self.of(f[1], args or [None])
        except Unsupported as e:
            return UnknownSh(str(e))

    def _tsort(self, i, env):
        sh = self.of(i, env)
        return sh.leaves()[0][1]


class UnknownSh(Sh):
    """a field that cannot be represented; an error only when it is used"""

    def __init__(self, why):
        self.why = why

    def leaves(self):
        return []

    def unflat(self, ts):
        return Opaque("unknown " + self.why), ts

    def flat(self, v):
        return []

    def eq(self, a, b):
        raise Unsupported("comparison of " + self.why)
