"""Contracts assumed for library functions (core, alloc, std, nalgebra, num-traits, log)."""
import z3
from terms import *
from values import *
from state import *


class Skip(Exception):
    """a filtering iterator dropped this element"""


class Done(Exception):
    """the iterator is exhausted"""


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
RANGE = "core::ops::range::Range"
RANGEI = "core::ops::range::RangeInclusive"


def none():
    return Enum(OPT, I(0), {0: ()})


def some(v):
    return Enum(OPT, I(1), {1: (v,)})


def ok(v):
    return Enum(RES, I(0), {0: (v,)})


def err(v):
    return Enum(RES, I(1), {1: (v,)})


def ordering(n):
    return Enum("core::cmp::Ordering", n, {})


H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


_np = {}


def norm_path(p):
    if p in _np:
        return _np[p]
    out, depth, i = [], 0, 0
    s = p
    while i < len(s):
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">" and not (i and s[i - 1] == "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    while "::::" in r:
        r = r.replace("::::", "::")
    r = r.strip(":").strip()
    _np[p] = r
    return r


class Call:
    """what a handler is told about the call"""

    def __init__(self, callee, t, skip_ok):
        self.callee, self.t, self.skip_ok = callee, t, skip_ok

    def dsh(self, i):
        return i.sh.of(self.t["dty"])

    def dty(self, i):
        d = self.t.get("dty")
        return i.crate.types[d] if d is not None else None

    def aty(self, i, n):
        a = (self.t.get("argtys") or [])
        return i.crate.types[a[n]] if n < len(a) and a[n] is not None else None


USED = set()


def call(i, callee, args, t, skip_ok=False):
    p = norm_path(callee["path"])
    f = H.get(p)
    if f is None:
        f = H.get("*::" + p.split("::")[-1])
    if f is None:
        raise Unsupported("library function " + callee["path"])
    if i.x.quiet == 0:
        USED.add(p)
    return f(i, args, Call(callee, t, skip_ok))


def struct_name(nm):
    l = nm.split("::")
    if l[0] == "nalgebra":
        return l[-1]
    return nm


def rd(i, v):
    """value behind any number of references"""
    n = 0
    while isinstance(v, Ref):
        v = i.read(v)
        n += 1
        if n > 10:
            raise Unsupported("reference chain")
    if isinstance(v, Guard):
        return rd(i, guard_ref(v))
    return v


def tgt(i, v):
    """the innermost reference"""
    while isinstance(v, Ref):
        if v.base[0] == "mutex":
            return v
        w = i.read(v)
        if not isinstance(w, Ref):
            return v
        v = w
    return v


def guard_ref(g):
    if g.kind == "mutex":
        return Ref(("node", g.target))
    return g.target


def isnum(v):
    return isinstance(v, Poly) or (z3.is_expr(v) and z3.is_fp(v))


def is_str(v):
    return z3.is_expr(v) and v.sort() == Str


# ------------------------------------------------------------ selects
def resolve_select(x, a, i):
    """select a[i] through stores and conditionals, asking the solver about aliasing"""
    a = a if not z3.is_app(a) or a.decl().kind() == z3.Z3_OP_STORE else a
    n = 0
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        e = simp(i == j)
        b = as_bool(e)
        if b is None:
            b = x.settled(e)
        if b is True:
            return a.arg(2)
        if b is None:
            return simp_arr(z3.Select(a, i))
        a = a.arg(0)
        n += 1
    return simp_arr(z3.Select(a, i))


def slice_len(i, v):
    w = rd(i, v)
    if isinstance(w, Vec):
        return w.len
    if isinstance(w, Struct) and w.name == "array":
        return I(len(w.f))
    if isinstance(w, Mat):
        return I(len(w.e))
    raise Unsupported("length of %r" % (w,))


def ref_eq(i, a, b):
    """address equality"""
    if a.base[0] == "mutex" and b.base[0] == "mutex":
        return simp(a.base[1] == b.base[1])
    if a.base[0] in ("node",) and b.base[0] == "node" and not a.path and not b.path:
        return simp(a.base[1] == b.base[1])
    raise Unsupported("address comparison")


def const_item(i, c):
    s = str(c.get("s") or c.get("def"))
    if "STATIC_MAX_LEVEL" in s:
        return Opaque("loglevel")
    if "SizedTypeProperties>::" in s:
        return Opaque("address")
    raise Unsupported("constant " + s)


# ------------------------------------------------------------ shapes of values
def shape_of(i, v):
    if isinstance(v, Poly):
        return LeafSh("T", RealS)
    if isinstance(v, Rot):
        return LeafSh("rot", RotS)
    if isinstance(v, Weak):
        return LeafSh("weak", IntS)
    if isinstance(v, Arc):
        return LeafSh("arc", IntS)
    if isinstance(v, Mat):
        return MatSh(v.r, v.c, RealS if isinstance(v.e[0], Poly) else v.e[0].sort())
    if isinstance(v, Vec):
        return VecSh(v.sh, v.kind)
    if isinstance(v, DMat):
        return DMatSh()
    if isinstance(v, Map):
        return MapSh(v.ksh, v.vsh)
    if isinstance(v, Struct):
        return StructSh(v.name, [str(n) for n in range(len(v.f))], [shape_of(i, x) for x in v.f])
    if isinstance(v, Enum):
        a = i.crate.adts.get(v.name)
        n = len(a["variants"]) if a else (2 if v.name in (OPT, RES, CF) else 1 + max(list(v.pl) + [0]))
        vs = []
        for k in range(n):
            fs = v.pl.get(k, ())
            nm = a["variants"][k]["name"] if a else str(k)
            vs.append((nm, [str(q) for q in range(len(fs))], [shape_of(i, x) for x in fs]))
        return EnumSh(v.name, vs)
    if z3.is_expr(v):
        if z3.is_fp(v):
            return LeafSh("T", v.sort())
        return LeafSh("str" if v.sort() == Str else "int", v.sort())
    if isinstance(v, Ref):
        return RefSh(shape_of(i, i.read(v)))
    if isinstance(v, Opaque) and z3.is_expr(v.data):
        return LeafSh("opaque", v.data.sort())
    raise Unsupported("shape of %r" % (v,))


def eq_value(i, a, b):
    a, b = rd(i, a), rd(i, b)
    if isnum(a):
        return n_cmp("eq", a, b)
    if isinstance(a, Struct) and a.name != "tuple" and isinstance(b, Struct):
        for fn in i.crate.fns.values():
            if fn["name"] == "eq" and fn.get("trait", "") and "PartialEq" in fn["trait"] and fn["body"]:
                t = i.crate.types[fn["impl"]]
                if t["k"] == "adt" and t["def"] == a.name:
                    return i.call_local(fn["def"], [i.new_cell(a), i.new_cell(b)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        if not i.x.choose(simp(a.tag == b.tag)):
            return z3.BoolVal(False)
        for k in a.pl:
            if k in b.pl and a.pl[k]:
                if i.x.choose(simp(a.tag == k)):
                    r = z3.BoolVal(True)
                    for p, q in zip(a.pl[k], b.pl[k]):
                        r = z3.And(r, eq_value(i, p, q))
                    return simp(r)
        return z3.BoolVal(True)
    if isinstance(a, Struct):
        return simp(z3.And([eq_value(i, x, y) for x, y in zip(a.f, b.f)]))
    if isinstance(a, Mat):
        return simp(z3.And([n_cmp("eq", x, y) for x, y in zip(a.e, b.e)]))
    if z3.is_expr(a) and z3.is_expr(b):
        return simp(a == b)
    if isinstance(a, Vec):
        return simp(VecSh(a.sh, a.kind).eq(a, b))
    raise Unsupported("comparison of %r" % (a,))


def clone_value(i, v):
    """library clone of a value that is not behind a reference"""
    if isinstance(v, (Poly, Rot, Arc, Mat, Enum, Vec, DMat, Map, It, Fn, Closure)) or z3.is_expr(v):
        return v
    if isinstance(v, Struct):
        return v
    if isinstance(v, Ref):
        return v
    if isinstance(v, Opaque):
        return v
    raise Unsupported("clone of %r" % (v,))


def default_value(i, tyi):
    t = i.crate.types[tyi]
    k = t["k"]
    if k == "bool":
        return z3.BoolVal(False)
    if k in ("uint", "int"):
        return I(0)
    if k == "float":
        return n_const(0, sort_f64())
    if k == "param":
        return n_const(0)
    if k == "tuple":
        return Struct("tuple", [default_value(i, a) for a in t["args"]])
    if k == "array":
        n = t["len"] if isinstance(t["len"], int) else int(str(t["len"]).split("_")[0])
        return Struct("array", [default_value(i, t["elem"])] * n)
    if k == "adt":
        d = t["def"]
        if d == OPT:
            return none()
        if d == "alloc::string::String":
            return str_lit("")
        if d == "alloc::vec::Vec":
            return vec_of(i.sh.of(t["args"][0]), [])
        if d.endswith("HashMap"):
            return new_map(i, tyi)
        if d == "nalgebra::base::matrix::Matrix":
            sh = i.sh.of(tyi)
            if isinstance(sh, MatSh):
                return Mat(sh.r, sh.c, [n_const(0, sh.sort)] * (sh.r * sh.c))
        for fn in i.crate.fns.values():
            if fn["name"] == "default" and fn.get("impl") is not None and fn["body"]:
                u = i.crate.types[fn["impl"]]
                if u["k"] == "adt" and u["def"] == d:
                    return i.call_local(fn["def"], [])
        if d.startswith("urdf_rs::"):
            a = i.crate.adts[d]
            i.x.assumptions.add("the defaults of urdf_rs types are the field-wise ones")
            if a["kind"] == "struct" and d.split("::")[-1] in ("Material", "Texture", "Color"):
                return Struct(d, [default_value(i, f[1]) for f in a["variants"][0]["fields"]])
    raise Unsupported("default of " + t["s"])


def new_map(i, tyi):
    sh = i.sh.of(tyi)
    return Map(sh.k, sh.v, z3.K(sh.ks, z3.BoolVal(False)),
               [default_of(z3.ArraySort(sh.ks, so)) for _, so in sh.v.leaves()])


def where(i):
    return getattr(i.x, "where", None)


def need(i, c, what):
    i.x.prove(c, "no panic: " + what, "panic", where(i))


# ------------------------------------------------------------ references, clones, conversions
@h("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
   "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut")
def _deref(i, a, c):
    v = a[0]
    if isinstance(v, Ref):
        if v.base[0] == "mutex":
            return v
        w = i.read(v)
        if isinstance(w, Guard):
            return guard_ref(w)
        if isinstance(w, Ref):
            return w
        if isinstance(w, Arc) and not isinstance(w, Weak):
            return Ref(("mutex", w.id))
        if isinstance(w, Struct) and w.name == "Unit":
            return v.at(("f", 0))
        return v
    if isinstance(v, Guard):
        return guard_ref(v)
    raise Unsupported("deref of %r" % (v,))


# functions of text that are total and have no effect: what they return is left open, but it is a function of the arguments
@h("core::str::trim", "core::str::trim_start", "core::str::trim_end", "alloc::str::to_lowercase", "alloc::str::to_uppercase",
   "core::str::to_ascii_lowercase", "core::str::to_ascii_uppercase", "alloc::str::to_ascii_lowercase", "alloc::str::to_ascii_uppercase")
def _str_fn(i, a, c):
    v = rd(i, a[0])
    if not is_str(v):
        raise Unsupported("text function")
    return z3.Function("str_" + c.callee["name"], Str, Str)(v)


@h("core::str::starts_with", "core::str::ends_with", "core::str::contains", "core::str::eq_ignore_ascii_case", "core::str::trim_start_matches",
   "core::str::trim_end_matches")
def _str_rel(i, a, c):
    v, w = rd(i, a[0]), rd(i, a[1])
    if not is_str(v) or not is_str(w):
        raise Unsupported("text function")
    n = c.callee["name"]
    if n.startswith("trim"):
        return z3.Function("str_" + n, Str, Str, Str)(v, w)
    return z3.Or(v == w, z3.Function("str_" + n, Str, Str, BoolS)(v, w))


@h("core::str::is_empty", "alloc::string::String::is_empty")
def _str_empty(i, a, c):
    v = rd(i, a[0])
    if not is_str(v):
        raise Unsupported("text function")
    return v == str_lit("")


@h("core::str::len", "alloc::string::String::len")
def _str_len(i, a, c):
    v = rd(i, a[0])
    if not is_str(v):
        raise Unsupported("text function")
    n = z3.Function("str_len", Str, IntS)(v)
    i.x.assume(z3.And(n >= 0, n <= 2 ** 63 - 1, (n == 0) == (v == str_lit(""))))
    return n


@h("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string",
   "alloc::string::String::as_str", "alloc::string::String::clone", "core::option::Option::copied", "core::option::Option::cloned",
   "alloc::slice::to_vec", "alloc::string::String::from", "alloc::str::to_owned", "alloc::string::String::as_ref")
def _clone(i, a, c):
    v = a[0]
    n = c.callee["name"]
    if n == "as_str":
        return tgt(i, v)
    if n in ("copied", "cloned"):
        if isinstance(v, Enum):
            if 1 not in v.pl:
                return v
            return Enum(v.name, v.tag, {0: (), 1: (clone_any(i, i.read(v.pl[1][0])),)})
        raise Unsupported("copied")
    if n == "to_string" and not is_str(rd(i, v)):
        return display(i, v)
    w = i.read(v) if isinstance(v, Ref) else v
    if n in ("to_owned", "to_string", "to_vec", "from"):
        w = rd(i, w)
    if isinstance(w, Struct) and w.name == "array" and n == "to_vec":
        return vec_of(shape_of(i, w.f[0]), w.f) if w.f else vec_of(c.dsh(i).elem, [])
    return clone_any(i, w)


def clone_any(i, w):
    """clone, through a local Clone impl when the type has one"""
    if isinstance(w, (Struct, Enum)) and w.name.startswith("k::"):
        for fn in i.crate.fns.values():
            if fn["name"] == "clone" and fn["body"] and fn.get("impl") is not None:
                t = i.crate.types[fn["impl"]]
                if t["k"] == "adt" and t["def"] == w.name:
                    return i.call_local(fn["def"], [i.new_cell(w)])
    if isinstance(w, Enum) and any(isinstance(x, (Struct, Enum)) and x.name.startswith("k::") for fs in w.pl.values() for x in fs):
        return Enum(w.name, w.tag, {k: tuple(clone_any(i, x) for x in fs) for k, fs in w.pl.items()})
    return clone_value(i, w)


disp_f = {}


def display(i, v):
    w = rd(i, v)
    t = z3.Const(fresh_name("text"), Str)
    return t


@h("core::convert::Into::into", "core::convert::From::from")
def _into(i, a, c):
    v = a[0]
    d, s = c.dty(i), c.aty(i, 0)
    if d is None:
        if Mode.t != "real":
            raise Unsupported("conversion")
        return v
    fn = find_from(i, d, s)
    if fn is not None:
        return i.call_local(fn["def"], [v])
    if d["k"] == "adt":
        last = d["def"].split("::")[-1]
        w = rd(i, v)
        if last == "Translation" and isinstance(w, Mat):
            return Struct("Translation", [w])
        if last == "Translation" and isinstance(w, Struct) and w.name == "array":
            return Struct("Translation", [Mat(3, 1, w.f)])
        if last == "Matrix" and isinstance(w, Struct) and w.name == "array":
            return Mat(len(w.f), 1, w.f)
        if last == "Matrix" and isinstance(w, Mat):
            return w
        if last == "Vec" and isinstance(w, Vec):
            return w
        if last == "Vec" and isinstance(w, Struct) and w.name == "array":
            return vec_of(i.sh.of(d["args"][0]), w.f)
        if last == "String" and is_str(w):
            return w
        if last == "Isometry":
            if isinstance(w, Struct) and w.name == "Translation":
                return Struct("Isometry", [Rot.ident(), w])
            if isinstance(w, Struct) and w.name == "Isometry":
                return w
        if d["def"] == OPT and not (isinstance(v, Enum) and v.name == OPT):
            return some(v)
        if s is not None and s["s"] == d["s"]:
            return v
    if d["k"] in ("param", "float") and isnum(v):
        if Mode.t == "real" or v.sort() == (sort_T() if d["k"] == "param" else sort_f64()):
            return v
    if s is not None and s["s"] == d["s"]:
        return v
    raise Unsupported("conversion %s -> %s" % (s and s["s"], d["s"]))


def _tkey(i, t):
    n = 0
    while t["k"] == "ref":
        t = i.crate.types[t["elem"]]
        n += 1
    return (n, t["k"], t.get("def") or t.get("name"))


def find_from(i, d, s):
    if s is None:
        return None
    for fn in i.crate.fns.values():
        if fn["name"] == "from" and fn.get("trait") and "From<" in fn["trait"] and fn["body"]:
            ls = fn["body"]["locals"]
            if _tkey(i, i.crate.types[ls[0]["ty"]]) == _tkey(i, d) and _tkey(i, i.crate.types[ls[1]["ty"]]) == _tkey(i, s):
                return fn
    return None


@h("core::default::Default::default")
def _default(i, a, c):
    return default_value(i, c.t["dty"])


@h("core::mem::drop")
def _drop(i, a, c):
    i.drop(a[0])
    return UNIT


@h("core::mem::take", "core::option::Option::take")
def _take(i, a, c):
    r = tgt(i, a[0])
    v = i.read(r)
    if isinstance(v, Enum) and v.name == OPT:
        i.write(r, none())
    elif isinstance(v, Vec):
        i.write(r, vec_of(v.sh, []))
    else:
        raise Unsupported("take")
    return v


@h("core::mem::replace", "core::option::Option::replace", "core::option::Option::insert", "core::mem::swap")
def _replace(i, a, c):
    r = a[0] if i.read(a[0]).__class__ is not Ref else tgt(i, a[0])
    v = i.read(r)
    if c.callee["name"] == "swap":
        w = i.read(a[1])
        i.write(r, w)
        i.write(a[1], v)
        return UNIT
    n = a[1]
    if isinstance(v, Enum) and v.name == OPT and "Option" in c.callee["path"]:
        n = some(n)
        i.write(r, n)
        if c.callee["name"] == "insert":
            return r.at(("v", 1), ("f", 0))
        return v
    i.write(r, n)
    return v


# ------------------------------------------------------------ comparisons and scalars
@h("core::cmp::PartialEq::eq")
def _eq(i, a, c):
    return eq_value(i, a[0], a[1])


@h("core::cmp::PartialEq::ne")
def _ne(i, a, c):
    return simp(z3.Not(eq_value(i, a[0], a[1])))


def _cmp(op):
    def f(i, a, c):
        x, y = rd(i, a[0]), rd(i, a[1])
        if isnum(x):
            return n_cmp(op, x, y)
        if z3.is_expr(x) and z3.is_int(x) and z3.is_expr(y):
            return simp({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
        if isinstance(x, Opaque) or isinstance(y, Opaque) or isinstance(x, Enum):
            # log levels: nothing is logged
            s = (c.aty(i, 0) or {}).get("s", "")
            if "log::Level" in s or "log::LevelFilter" in s:
                i.x.assumptions.add("no logger is enabled (a logging call formats nodes)")
                return z3.BoolVal(False)
        raise Unsupported("comparison of %r" % (x,))
    return f


for _o in ("lt", "le", "gt", "ge"):
    H["core::cmp::PartialOrd::" + _o] = _cmp(_o)


@h("log::max_level")
def _maxlevel(i, a, c):
    return Opaque("loglevel")


@h("nalgebra::convert", "nalgebra::convert_unchecked", "nalgebra::convert_ref", "simba::scalar::subset::SupersetOf::from_subset")
def _convert(i, a, c):
    v = rd(i, a[0])
    if Mode.t == "real":
        return v
    return fpconv(i, v, c.t["dty"])


def fpconv(i, v, dty):
    t = i.crate.types[dty]
    if t["k"] == "adt" and t["def"] == OPT:
        t = i.crate.types[t["args"][0]]
    so = sort_T() if t["k"] == "param" else sort_f64() if t["k"] == "float" else None
    if so is None or not isnum(v):
        raise Unsupported("conversion in floating point")
    if v.sort() == so:
        return v
    return z3.fpToFP(RNE, v, so)


@h("nalgebra::try_convert")
def _try_convert(i, a, c):
    v = rd(i, a[0])
    return some(v if Mode.t == "real" else fpconv(i, v, c.t["dty"]))


@h("num_traits::identities::Zero::zero", "nalgebra::zero", "num_traits::identities::zero")
def _zero(i, a, c):
    t = c.dty(i)
    if t["k"] in ("param", "float"):
        return n_const(0, sort_T() if t["k"] == "param" else sort_f64())
    if t["k"] in ("uint", "int"):
        return I(0)
    sh = c.dsh(i)
    if isinstance(sh, MatSh):
        return Mat(sh.r, sh.c, [n_const(0, sh.sort)] * (sh.r * sh.c))
    raise Unsupported("zero of " + t["s"])


@h("num_traits::identities::One::one", "nalgebra::one")
def _one(i, a, c):
    t = c.dty(i)
    if t["k"] in ("param", "float"):
        return n_const(1, sort_T() if t["k"] == "param" else sort_f64())
    if t["k"] in ("uint", "int"):
        return I(1)
    sh = c.dsh(i)
    if isinstance(sh, StructSh) and sh.name == "Isometry":
        return iso_id()
    raise Unsupported("one of " + t["s"])


@h("simba::scalar::complex::ComplexField::abs", "simba::scalar::real::RealField::abs", "core::f64::abs", "num_traits::sign::Signed::abs", "core::num::f64::abs")
def _abs(i, a, c):
    v = rd(i, a[0])
    z = n_const(0, v.sort() if not isinstance(v, Poly) else RealS)
    if i.x.choose(n_cmp("lt", v, z)):
        return n_neg(v)
    return v


@h("simba::scalar::real::RealField::max", "simba::scalar::real::RealField::min", "core::cmp::Ord::max", "core::cmp::Ord::min",
   "core::num::f64::max", "core::num::f64::min")
def _maxmin(i, a, c):
    x, y = rd(i, a[0]), rd(i, a[1])
    if z3.is_expr(x) and z3.is_int(x):
        return simp(z3.If(x >= y, x, y) if c.callee["name"] == "max" else z3.If(x <= y, x, y))
    if Mode.t != "real":
        raise Unsupported("floating point max")
    mx = c.callee["name"] == "max"
    return y if i.x.choose(n_cmp("lt" if mx else "gt", x, y)) else x


@h("simba::scalar::real::RealField::clamp", "nalgebra::clamp", "core::cmp::Ord::clamp", "core::num::f64::clamp")
def _clampf(i, a, c):
    v, lo, hi = [rd(i, x) for x in a]
    if i.x.choose(n_cmp("gt", v, lo)):
        return v if i.x.choose(n_cmp("lt", v, hi)) else hi
    return lo


@h("core::num::saturating_sub")
def _satsub(i, a, c):
    return simp(z3.If(a[0] >= a[1], a[0] - a[1], I(0)))


@h("core::num::checked_sub")
def _chksub(i, a, c):
    if i.x.choose(simp(a[0] >= a[1])):
        return some(simp(a[0] - a[1]))
    return none()


# ------------------------------------------------------------ arithmetic
def iso_id():
    return Struct("Isometry", [Rot.ident(), Struct("Translation", [Mat(3, 1, [Poly.const(0)] * 3)])])


def iso_rt(v):
    return v.f[0], list(v.f[1].f[0].e)


def mk_iso(r, t):
    return Struct("Isometry", [r, Struct("Translation", [Mat(3, 1, t)])])


def iso_mul(a, b):
    r, t = iso_rt(a)
    s, u = iso_rt(b)
    ru = r.apply(u)
    return mk_iso(r * s, [x + y for x, y in zip(t, ru)])


def nm(v):
    return v.name if isinstance(v, Struct) else None


def a_mul(i, a, b):
    if isnum(a) and isnum(b):
        return n_mul(a, b)
    if z3.is_expr(a) and z3.is_int(a):
        return i.binop(None, "Mul", a, b)
    if isinstance(a, Mat) and isnum(b):
        return Mat(a.r, a.c, [n_mul(x, b) for x in a.e])
    if isinstance(b, Mat) and isnum(a):
        return Mat(b.r, b.c, [n_mul(a, x) for x in b.e])
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.c != b.r:
            raise Unsupported("matrix product")
        e = []
        for r in range(a.r):
            for c in range(b.c):
                s = n_mul(a.at(r, 0), b.at(0, c))
                for k in range(1, a.c):
                    s = n_add(s, n_mul(a.at(r, k), b.at(k, c)))
                e.append(s)
        return Mat(a.r, b.c, e)
    if Mode.t != "real":
        raise Unsupported("geometry in floating point")
    if nm(a) == "Isometry":
        if nm(b) == "Isometry":
            return iso_mul(a, b)
        if nm(b) == "Translation":
            return iso_mul(a, mk_iso(Rot.ident(), list(b.f[0].e)))
        if isinstance(b, Rot):
            return mk_iso(a.f[0] * b, list(a.f[1].f[0].e))
        if isinstance(b, Mat) and b.c == 1:
            return Mat(3, 1, a.f[0].apply(list(b.e)))
        if nm(b) == "Point":
            r, t = iso_rt(a)
            return Struct("Point", [Mat(3, 1, [x + y for x, y in zip(t, r.apply(list(b.f[0].e)))])])
    if nm(a) == "Translation":
        if nm(b) == "Translation":
            return Struct("Translation", [a_add(i, a.f[0], b.f[0])])
        if isinstance(b, Rot):
            return mk_iso(b, list(a.f[0].e))
        if nm(b) == "Isometry":
            return iso_mul(mk_iso(Rot.ident(), list(a.f[0].e)), b)
    if isinstance(a, Rot):
        if isinstance(b, Rot):
            return a * b
        if isinstance(b, Mat) and b.c == 1:
            return Mat(3, 1, a.apply(list(b.e)))
        if nm(b) == "Unit":
            return Struct("Unit", [Mat(3, 1, a.apply(list(b.f[0].e)))])
        if nm(b) == "Translation":
            return mk_iso(a, a.apply(list(b.f[0].e)))
        if nm(b) == "Isometry":
            return iso_mul(mk_iso(a, [Poly.const(0)] * 3), b)
    if isinstance(a, (DMat, Vec)) or isinstance(b, (DMat, Vec)):
        return dmul(i, a, b)
    raise Unsupported("product of %r and %r" % (a, b))


def a_add(i, a, b, neg=False):
    f = n_sub if neg else n_add
    if isnum(a) and isnum(b):
        return f(a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])
    if z3.is_expr(a) and z3.is_int(a):
        if neg:
            r = i.binop(None, "SubWithOverflow", a, b)
            need(i, simp(z3.Not(r.f[1])), "no overflow (Sub)")
            return r.f[0]
        return simp(a + b)
    if isinstance(a, (DMat, Vec)):
        return dadd(i, a, b, neg)
    if nm(a) == "Unit":
        return a_add(i, a.f[0], b, neg)
    if nm(b) == "Unit":
        return a_add(i, a, b.f[0], neg)
    raise Unsupported("sum of %r and %r" % (a, b))


@h("core::ops::arith::Mul::mul")
def _mul(i, a, c):
    return a_mul(i, rd(i, a[0]), rd(i, a[1]))


@h("core::ops::arith::Add::add")
def _add(i, a, c):
    x, y = rd(i, a[0]), rd(i, a[1])
    return a_add(i, x, y)


@h("core::ops::arith::Sub::sub")
def _sub(i, a, c):
    return a_add(i, rd(i, a[0]), rd(i, a[1]), True)


@h("core::ops::arith::Div::div")
def _div(i, a, c):
    x, y = rd(i, a[0]), rd(i, a[1])
    if isnum(x) and isnum(y):
        return n_div(x, y)
    if isinstance(x, Mat) and isnum(y):
        return Mat(x.r, x.c, [n_div(e, y) for e in x.e])
    if isinstance(x, Rot) and isinstance(y, Rot):
        return x * y.inv()
    raise Unsupported("quotient of %r" % (x,))


@h("core::ops::arith::Neg::neg")
def _neg(i, a, c):
    x = rd(i, a[0])
    if isnum(x):
        return n_neg(x)
    if isinstance(x, Mat):
        return Mat(x.r, x.c, [n_neg(e) for e in x.e])
    if nm(x) == "Unit":
        return Struct("Unit", [Mat(3, 1, [n_neg(e) for e in x.f[0].e])])
    raise Unsupported("negation of %r" % (x,))


def _opassign(f):
    def g(i, a, c):
        r = a[0]
        while isinstance(i.read(r), Ref):
            r = i.read(r)
        i.write(r, f(i, i.read(r), rd(i, a[1])))
        return UNIT
    return g


H["core::ops::arith::AddAssign::add_assign"] = _opassign(lambda i, a, b: a_add(i, a, b))
H["core::ops::arith::SubAssign::sub_assign"] = _opassign(lambda i, a, b: a_add(i, a, b, True))
H["core::ops::arith::MulAssign::mul_assign"] = _opassign(a_mul)
H["core::ops::arith::DivAssign::div_assign"] = _opassign(lambda i, a, b: _div(i, [a, b], None))


@h("core::ops::bit::Not::not")
def _not(i, a, c):
    return simp(z3.Not(rd(i, a[0])))


# ------------------------------------------------------------ nalgebra, fixed size
def dyn_or_mat(i, c):
    return c.dsh(i)


@h("nalgebra::base::construction::zeros", "nalgebra::base::construction::from_element", "nalgebra::base::construction::repeat")
def _zeros(i, a, c):
    sh = c.dsh(i)
    name = c.callee["name"]
    if isinstance(sh, MatSh):
        e = n_const(0, sh.sort) if name == "zeros" else rd(i, a[0])
        return Mat(sh.r, sh.c, [e] * (sh.r * sh.c))
    if isinstance(sh, VecSh):
        x = Poly.const(0) if name == "zeros" else rd(i, a[1])
        return Vec(sh.elem, a[0], [z3.K(IntS, nz(x))], "dvec")
    if isinstance(sh, DMatSh):
        x = Poly.const(0) if name == "zeros" else rd(i, a[2])
        return DMat(a[0], a[1], z3.K(IntS, z3.K(IntS, nz(x))))
    raise Unsupported("zeros")


@h("nalgebra::base::construction::identity", "nalgebra::geometry::isometry_construction::identity",
   "nalgebra::geometry::quaternion_construction::identity", "nalgebra::geometry::translation_construction::identity",
   "nalgebra::geometry::rotation_construction::identity")
def _ident(i, a, c):
    sh = c.dsh(i)
    if isinstance(sh, MatSh):
        return Mat(sh.r, sh.c, [n_const(1 if r == q else 0, sh.sort) for r in range(sh.r) for q in range(sh.c)])
    if isinstance(sh, LeafSh) and sh.kind == "rot":
        return Rot.ident()
    if isinstance(sh, StructSh) and sh.name == "Isometry":
        return iso_id()
    if isinstance(sh, StructSh) and sh.name == "Translation":
        return Struct("Translation", [Mat(3, 1, [n_const(0, RealS)] * 3)])
    if isinstance(sh, DMatSh):
        x, y = z3.Ints("dx dy")
        arr = i.x.fresh("ident", z3.ArraySort(IntS, z3.ArraySort(IntS, RealS)))
        i.x.assume(z3.ForAll([x, y], arr[x][y] == z3.If(x == y, z3.RealVal(1), z3.RealVal(0)), patterns=[arr[x][y]]))
        return DMat(a[0], a[1], arr)
    raise Unsupported("identity")


@h("nalgebra::base::construction::new", "nalgebra::geometry::translation_construction::new",
   "nalgebra::base::construction::from_row_slice", "nalgebra::geometry::point_construction::new")
def _new(i, a, c):
    sh = c.dsh(i)
    args = [rd(i, x) for x in a]
    if c.callee["name"] == "from_row_slice":
        raise Unsupported("from_row_slice")
    if isinstance(sh, MatSh):
        return Mat(sh.r, sh.c, args)
    if isinstance(sh, StructSh) and sh.name == "Translation":
        return Struct("Translation", [Mat(3, 1, args)])
    raise Unsupported("matrix constructor")


@h("nalgebra::base::construction::x_axis", "nalgebra::base::construction::y_axis", "nalgebra::base::construction::z_axis")
def _axis(i, a, c):
    k = "xyz".index(c.callee["name"][0])
    return Struct("Unit", [Mat(3, 1, [n_const(1 if q == k else 0) for q in range(3)])])


norm3_f = z3.Function("norm3", RealS, RealS, RealS, RealS)


@h("nalgebra::base::norm::norm", "nalgebra::base::norm::magnitude")
def _norm(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Mat) and v.r == 3 and v.c == 1 and isinstance(v.e[0], Poly):
        return Poly.atom(norm3_f(*[nz(e) for e in v.e]))
    raise Unsupported("norm")


@h("nalgebra::base::norm::norm_squared", "nalgebra::base::norm::magnitude_squared")
def _norm2(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Mat) and isinstance(v.e[0], Poly):
        s = Poly.const(0)
        for e in v.e:
            s = s + e * e
        return s
    raise Unsupported("norm")


unit_f = [z3.Function("normalize%d" % k, RealS, RealS, RealS, RealS) for k in range(3)]


@h("nalgebra::base::unit::Unit::new_normalize")
def _nn(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Mat) and v.r == 3 and isinstance(v.e[0], Poly):
        es = [nz(e) for e in v.e]
        return Struct("Unit", [Mat(3, 1, [Poly.atom(f(*es)) for f in unit_f])])
    raise Unsupported("new_normalize")


@h("nalgebra::base::unit::Unit::new_unchecked")
def _nu(i, a, c):
    return Struct("Unit", [rd(i, a[0])])


@h("nalgebra::base::unit::Unit::into_inner", "nalgebra::base::unit::Unit::unwrap", "nalgebra::base::unit::Unit::as_ref")
def _ii(i, a, c):
    v = rd(i, a[0])
    if nm(v) != "Unit":
        raise Unsupported("into_inner")
    return v.f[0]


@h("nalgebra::base::matrix::Matrix::cross")
def _cross(i, a, c):
    x, y = rd(i, a[0]), rd(i, a[1])
    x = x.f[0] if nm(x) == "Unit" else x
    y = y.f[0] if nm(y) == "Unit" else y
    x, y = x.e, y.e
    return Mat(3, 1, [n_sub(n_mul(x[1], y[2]), n_mul(x[2], y[1])), n_sub(n_mul(x[2], y[0]), n_mul(x[0], y[2])),
                      n_sub(n_mul(x[0], y[1]), n_mul(x[1], y[0]))])


@h("nalgebra::base::blas::dot", "nalgebra::base::matrix::Matrix::dot")
def _dot(i, a, c):
    x, y = rd(i, a[0]), rd(i, a[1])
    if isinstance(x, Mat) and isinstance(y, Mat):
        s = n_mul(x.e[0], y.e[0])
        for p, q in zip(x.e[1:], y.e[1:]):
            s = n_add(s, n_mul(p, q))
        return s
    raise Unsupported("dot")


@h("nalgebra::geometry::isometry::Isometry::from_parts")
def _parts(i, a, c):
    t, r = rd(i, a[0]), rd(i, a[1])
    if nm(t) != "Translation" or not isinstance(r, Rot):
        raise Unsupported("from_parts")
    return Struct("Isometry", [r, t])


@h("nalgebra::geometry::isometry_construction::translation")
def _isotr(i, a, c):
    return mk_iso(Rot.ident(), [rd(i, x) for x in a])


@h("nalgebra::geometry::isometry::Isometry::inverse")
def _isoinv(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Rot):
        return v.inv()
    r, t = iso_rt(v)
    ri = r.inv()
    return mk_iso(ri, [-x for x in ri.apply(t)])


@h("nalgebra::geometry::quaternion::inverse", "nalgebra::geometry::quaternion::conjugate", "nalgebra::geometry::rotation::Rotation::inverse",
   "nalgebra::geometry::rotation::Rotation::transpose")
def _qinv(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Rot):
        return v.inv()
    raise Unsupported("inverse")


@h("nalgebra::geometry::quaternion::to_rotation_matrix", "nalgebra::geometry::quaternion_construction::from_rotation_matrix")
def _torot(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Rot):
        return v
    raise Unsupported("to_rotation_matrix")


@h("nalgebra::geometry::quaternion::transform_vector", "nalgebra::geometry::rotation::Rotation::transform_vector",
   "nalgebra::geometry::isometry::Isometry::transform_vector")
def _tv(i, a, c):
    q, v = rd(i, a[0]), rd(i, a[1])
    if nm(q) == "Isometry":
        q = q.f[0]
    return Mat(3, 1, q.apply(list(v.e)))


@h("nalgebra::geometry::quaternion_construction::from_axis_angle", "nalgebra::geometry::rotation_specialization::from_axis_angle")
def _faa(i, a, c):
    u, g = rd(i, a[0]), rd(i, a[1])
    if nm(u) != "Unit":
        raise Unsupported("axis")
    return Rot.atom(raa_f(*[nz(e) for e in u.f[0].e], nz(g)))


@h("nalgebra::geometry::quaternion_construction::from_euler_angles", "nalgebra::geometry::rotation_specialization::from_euler_angles")
def _fea(i, a, c):
    return Rot.atom(reuler_f(*[nz(rd(i, x)) for x in a]))


@h("nalgebra::geometry::quaternion::rotation_to")
def _rotto(i, a, c):
    b, t = rd(i, a[0]), rd(i, a[1])
    return t * b.inv()


@h("nalgebra::geometry::quaternion::scaled_axis", "nalgebra::geometry::rotation_specialization::scaled_axis")
def _sax(i, a, c):
    v = rd(i, a[0])
    return Mat(3, 1, [Poly.atom(f(v.z())) for f in sa_f])


# ------------------------------------------------------------ nalgebra, dynamic size
arr1 = z3.ArraySort(IntS, RealS)
arr2 = z3.ArraySort(IntS, arr1)
svd_f = z3.Function("svd_solve", arr2, IntS, IntS, arr1, arr1)
lu_f = z3.Function("lu_solve", arr2, IntS, IntS, arr1, arr1)
luok_f = z3.Function("lu_solvable", arr2, IntS, IntS, BoolS)
pinv_f = z3.Function("pinv", arr2, IntS, IntS, arr2)
dmm_f = z3.Function("matmat", arr2, arr2, IntS, arr2)
dmv_f = z3.Function("matvec", arr2, arr1, IntS, arr1)


def dmul(i, a, b):
    if isinstance(a, DMat) and isinstance(b, Vec) and b.kind == "dvec":
        need(i, simp(a.c == b.len), "matrix and vector dimensions agree")
        return Vec(b.sh, a.r, [dmv_f(a.arr, b.cols[0], a.c)], "dvec")
    if isinstance(a, DMat) and isinstance(b, DMat):
        need(i, simp(a.c == b.r), "matrix dimensions agree")
        return DMat(a.r, b.c, dmm_f(a.arr, b.arr, a.c))
    if isinstance(a, Vec) and a.kind == "dvec" and isnum(b):
        j = z3.Int("dj")
        r = i.x.fresh("scaled", arr1)
        i.x.assume(z3.ForAll([j], r[j] == n_mul(num(a.cols[0][j]), b).z(), patterns=[r[j]]))
        return Vec(a.sh, a.len, [r], "dvec")
    raise Unsupported("product of matrices")


def dadd(i, a, b, neg):
    f = n_sub if neg else n_add
    if isinstance(a, Vec) and isinstance(b, Vec) and a.kind == "dvec" and b.kind == "dvec":
        need(i, simp(a.len == b.len), "vector dimensions agree")
        j = z3.Int("dj")
        r = i.x.fresh("vsum", arr1)
        i.x.assume(z3.ForAll([j], r[j] == f(num(a.cols[0][j]), num(b.cols[0][j])).z(), patterns=[r[j]]))
        v = Vec(a.sh, a.len, [r], "dvec")
        i.onsolve and i.onsolve(None, None, v)
        return v
    if isinstance(a, DMat) and isinstance(b, DMat):
        need(i, simp(z3.And(a.r == b.r, a.c == b.c)), "matrix dimensions agree")
        x, y = z3.Ints("dx dy")
        r = i.x.fresh("msum", arr2)
        i.x.assume(z3.ForAll([x, y], r[x][y] == f(num(a.arr[x][y]), num(b.arr[x][y])).z(), patterns=[r[x][y]]))
        return DMat(a.r, a.c, r)
    raise Unsupported("sum of matrices")


@h("nalgebra::base::construction::from_vec", "nalgebra::base::construction::from_column_slice", "nalgebra::base::construction::from_row_slice")
def _fromvec(i, a, c):
    v = rd(i, a[0])
    sh = c.dsh(i)
    if isinstance(v, Vec) and isinstance(sh, VecSh):
        return Vec(v.sh, v.len, v.cols, "dvec")
    if isinstance(v, Vec) and isinstance(sh, MatSh) and sh.c == 1:
        need(i, simp(v.len == sh.r), "length fits")
        return Mat(sh.r, 1, [vec_at(v, I(k)) for k in range(sh.r)])
    raise Unsupported("from_vec")


@h("nalgebra::base::construction::from_iterator")
def _fromiter(i, a, c):
    sh = c.dsh(i)
    if isinstance(sh, VecSh):
        v = collect(i, a[1], sh.elem)
        need(i, simp(v.len >= a[0]), "iterator has enough elements")
        return Vec(v.sh, a[0], v.cols, "dvec")
    raise Unsupported("from_iterator")


@h("nalgebra::base::construction::from_fn")
def _fromfn(i, a, c):
    sh = c.dsh(i)
    f = a[-1]
    cell = i.new_cell(f)
    if isinstance(sh, MatSh):
        es = {}
        for q in range(sh.c):
            for r in range(sh.r):
                es[r, q] = i.call_value(cell, [I(r), I(q)])
        return Mat(sh.r, sh.c, [es[r, q] for r in range(sh.r) for q in range(sh.c)])
    if isinstance(sh, DMatSh):
        rows = as_int(a[0])
        if rows is not None and rows <= 8:
            # one symbolic column at a time, rows unrolled
            arrs = []
            arr = i.x.fresh("fromfn", arr2)
            for r in range(rows):
                col = generalise(i, "fn%d" % r, lambda q: z3.And(0 <= q, q < a[1]), lambda q: i.call_value(cell, [I(r), q]), LeafSh("T", sort_T()))
                q = z3.Int("dq")
                i.x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < a[1]), arr[r][q] == col[0][q]), patterns=[arr[r][q]]))
            return DMat(a[0], a[1], arr)
        raise Unsupported("from_fn with symbolic rows")
    if isinstance(sh, VecSh):
        col = generalise(i, "fn", lambda q: z3.And(0 <= q, q < a[0]), lambda q: i.call_value(cell, [q, I(0)]), sh.elem)
        return Vec(sh.elem, a[0], col, "dvec")
    raise Unsupported("from_fn")


@h("nalgebra::base::matrix::Matrix::as_slice", "nalgebra::base::matrix::Matrix::as_mut_slice", "alloc::vec::Vec::as_slice",
   "alloc::vec::Vec::as_mut_slice")
def _asslice(i, a, c):
    return tgt(i, a[0])


@h("nalgebra::base::matrix::Matrix::len", "nalgebra::base::matrix::Matrix::nrows")
def _mlen(i, a, c):
    v = rd(i, a[0])
    if isinstance(v, Vec):
        return v.len
    if isinstance(v, DMat):
        if c.callee["name"] == "nrows":
            return v.r
        raise Unsupported("len of a matrix")
    return I(v.r if c.callee["name"] == "nrows" else len(v.e))


@h("nalgebra::base::matrix::Matrix::ncols")
def _mcols(i, a, c):
    v = rd(i, a[0])
    return v.c if isinstance(v, DMat) else I(v.c) if isinstance(v, Mat) else I(1)


@h("nalgebra::base::edition::remove_row")
def _rmrow(i, a, c):
    v, k = rd(i, a[0]), a[1]
    if isinstance(v, Vec):
        need(i, simp(k < v.len), "row index in bounds")
        j = z3.Int("dj")
        r = i.x.fresh("rmrow", arr1)
        i.x.assume(z3.ForAll([j], r[j] == z3.If(j < k, v.cols[0][j], v.cols[0][j + 1]), patterns=[r[j]]))
        return Vec(v.sh, simp(v.len - 1), [r], "dvec")
    if isinstance(v, DMat):
        need(i, simp(k < v.r), "row index in bounds")
        n = as_int(v.r)
        kk = as_int(k)
        if n is not None and kk is not None:
            arr = v.arr
            new = arr
            for r in range(kk, n - 1):
                new = z3.Store(new, I(r), simp_arr(arr[I(r + 1)]))
            return DMat(I(n - 1), v.c, new)
        j = z3.Int("dj")
        r = i.x.fresh("rmrow", arr2)
        i.x.assume(z3.ForAll([j], r[j] == z3.If(j < k, v.arr[j], v.arr[j + 1]), patterns=[r[j]]))
        return DMat(simp(v.r - 1), v.c, r)
    raise Unsupported("remove_row")


@h("nalgebra::base::edition::remove_column")
def _rmcol(i, a, c):
    v, k = rd(i, a[0]), a[1]
    if isinstance(v, DMat):
        need(i, simp(k < v.c), "column index in bounds")
        x, y = z3.Ints("dx dy")
        r = i.x.fresh("rmcol", arr2)
        i.x.assume(z3.ForAll([x, y], r[x][y] == z3.If(y < k, v.arr[x][y], v.arr[x][y + 1]), patterns=[r[x][y]]))
        return DMat(v.r, simp(v.c - 1), r)
    raise Unsupported("remove_column")


@h("nalgebra::base::edition::insert_row")
def _insrow(i, a, c):
    v, k, x = rd(i, a[0]), a[1], rd(i, a[2])
    if isinstance(v, Vec):
        need(i, simp(k <= v.len), "row index in bounds")
        j = z3.Int("dj")
        r = i.x.fresh("insrow", arr1)
        i.x.assume(z3.ForAll([j], r[j] == z3.If(j < k, v.cols[0][j], z3.If(j == k, nz(x), v.cols[0][j - 1])), patterns=[r[j]]))
        return Vec(v.sh, simp(v.len + 1), [r], "dvec")
    raise Unsupported("insert_row")


@h("nalgebra::linalg::decomposition::svd")
def _svd(i, a, c):
    m = rd(i, a[0])
    if as_bool(a[1]) is not True or as_bool(a[2]) is not True:
        raise Unsupported("svd without vectors")
    need(i, simp(z3.And(m.r > 0, m.c > 0)), "the matrix is not empty")
    return Opaque("svd", m)


@h("nalgebra::linalg::decomposition::lu")
def _lu(i, a, c):
    return Opaque("lu", rd(i, a[0]))


@h("nalgebra::linalg::svd::SVD::solve")
def _svdsolve(i, a, c):
    m, b = rd(i, a[0]).data, rd(i, a[1])
    need(i, simp(m.r == b.len), "system dimensions agree")
    r = Vec(b.sh, m.c, [svd_f(m.arr, m.r, m.c, b.cols[0])], "dvec")
    i.onsolve and i.onsolve(m, b, r)
    return ok(r)


@h("nalgebra::linalg::lu::LU::solve")
def _lusolve(i, a, c):
    m, b = rd(i, a[0]).data, rd(i, a[1])
    need(i, simp(z3.And(m.r == b.len, m.r == m.c)), "system is square and dimensions agree")
    if i.x.choose(luok_f(m.arr, m.r, m.c)):
        r = Vec(b.sh, m.c, [lu_f(m.arr, m.r, m.c, b.cols[0])], "dvec")
        i.onsolve and i.onsolve(m, b, r)
        return some(r)
    return none()


@h("nalgebra::linalg::svd::pseudo_inverse")
def _pinv(i, a, c):
    m = rd(i, a[0])
    need(i, simp(z3.And(m.r > 0, m.c > 0)), "the matrix is not empty")
    i.onsolve and i.onsolve(m, None, None)
    return ok(DMat(m.c, m.r, pinv_f(m.arr, m.r, m.c)))


# ------------------------------------------------------------ option, result
@h("core::option::Option::is_some", "core::result::Result::is_ok")
def _issome(i, a, c):
    v = rd(i, a[0])
    return simp(v.tag == (1 if v.name == OPT else 0))


@h("core::option::Option::is_none", "core::result::Result::is_err")
def _isnone(i, a, c):
    v = rd(i, a[0])
    return simp(v.tag == (0 if v.name == OPT else 1))


def good(v):
    return 1 if v.name == OPT else 0


@h("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect")
def _unwrap(i, a, c):
    v = a[0]
    g = good(v)
    need(i, simp(v.tag == g), "%s succeeds" % c.callee["name"])
    if g not in v.pl:
        i.x.end()
    return v.pl[g][0]


@h("core::option::Option::unwrap_unchecked")
def _uu(i, a, c):
    raise Unsupported("unwrap_unchecked")


@h("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def _uor(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        return v.pl[g][0]
    return a[1]


@h("core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else")
def _uorelse(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        return v.pl[g][0]
    return i.call_value(i.new_cell(a[1]) if isinstance(a[1], Closure) else a[1], [] if v.name == OPT else [v.pl[1][0]])


@h("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def _uod(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        return v.pl[g][0]
    return default_value(i, c.t["dty"])


@h("core::option::Option::map", "core::result::Result::map")
def _omap(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        r = i.call_value(a[1], [v.pl[g][0]])
        return some(r) if v.name == OPT else ok(r)
    return none() if v.name == OPT else Enum(RES, I(1), {1: v.pl.get(1, ())})


@h("core::result::Result::map_err")
def _maperr(i, a, c):
    v = a[0]
    if i.x.choose(simp(v.tag == 0)):
        return ok(v.pl[0][0])
    return err(i.call_value(a[1], [v.pl[1][0]]))


@h("core::option::Option::and_then", "core::result::Result::and_then")
def _andthen(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        return i.call_value(a[1], [v.pl[g][0]])
    return none() if v.name == OPT else err(v.pl[1][0])


@h("core::option::Option::map_or", "core::option::Option::map_or_else", "core::option::Option::is_some_and", "core::option::Option::is_none_or")
def _mapor(i, a, c):
    v = a[0]
    n = c.callee["name"]
    if i.x.choose(simp(v.tag == 1)):
        return i.call_value(a[-1], [v.pl[1][0]])
    if n == "map_or":
        return a[1]
    if n == "map_or_else":
        return i.call_value(a[1], [])
    return z3.BoolVal(n == "is_none_or")


@h("core::option::Option::filter")
def _ofilter(i, a, c):
    v = a[0]
    if i.x.choose(simp(v.tag == 1)):
        if i.x.choose(i.call_value(a[1], [i.new_cell(v.pl[1][0])])):
            return some(v.pl[1][0])
    return none()


@h("core::option::Option::or", "core::option::Option::or_else", "core::option::Option::and")
def _oor(i, a, c):
    v = a[0]
    n = c.callee["name"]
    if i.x.choose(simp(v.tag == 1)):
        return a[1] if n == "and" else v
    if n == "and":
        return none()
    return a[1] if n == "or" else i.call_value(a[1], [])


@h("core::option::Option::ok_or", "core::option::Option::ok_or_else")
def _okor(i, a, c):
    v = a[0]
    if i.x.choose(simp(v.tag == 1)):
        return ok(v.pl[1][0])
    return err(a[1] if c.callee["name"] == "ok_or" else i.call_value(a[1], []))


@h("core::result::Result::ok")
def _rok(i, a, c):
    v = a[0]
    if i.x.choose(simp(v.tag == 0)):
        return some(v.pl[0][0])
    return none()


@h("core::result::Result::err")
def _rerr(i, a, c):
    v = a[0]
    if i.x.choose(simp(v.tag == 1)):
        return some(v.pl[1][0])
    return none()


@h("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref", "core::option::Option::as_deref_mut")
def _oasref(i, a, c):
    r = tgt(i, a[0])
    v = i.read(r)
    if i.x.choose(simp(v.tag == 1)):
        return some(r.at(("v", 1), ("f", 0)))
    return none()


@h("core::ops::try_trait::Try::branch")
def _branch(i, a, c):
    v = a[0]
    g = good(v)
    if i.x.choose(simp(v.tag == g)):
        return Enum(CF, I(0), {0: (v.pl[g][0],)})
    return Enum(CF, I(1), {1: (none() if v.name == OPT else Enum(RES, I(1), {1: v.pl[1]}),)})


@h("core::ops::try_trait::FromResidual::from_residual")
def _fromres(i, a, c):
    v = a[0]
    if v.name == RES:
        d, s = c.dty(i), c.aty(i, 0)
        if d and d["k"] == "adt" and d["def"] == RES and s and s["k"] == "adt" and s["def"] == RES:
            dt, st = i.crate.types[d["args"][1]], i.crate.types[s["args"][1]]
            if dt["s"] != st["s"]:
                fn = find_from(i, dt, st)
                if fn is None:
                    raise Unsupported("error conversion")
                return err(i.call_local(fn["def"], [v.pl[1][0]]))
        return Enum(RES, I(1), {1: v.pl[1]})
    return none()


@h("core::ops::try_trait::Try::from_output")
def _fromout(i, a, c):
    d = c.dty(i)
    return some(a[0]) if d["def"] == OPT else ok(a[0])


# ------------------------------------------------------------ panics
@h("core::panicking::panic", "core::panicking::panic_fmt", "std::panicking::begin_panic", "core::panicking::assert_failed",
   "std::rt::begin_panic", "core::panicking::panic_display", "core::panicking::unreachable_display", "core::panicking::panic_explicit",
   "std::rt::panic_fmt", "core::option::expect_failed", "std::panicking::panic_fmt")
def _panic(i, a, c):
    i.x.fail("no panic", "panic", "panic at %s" % where(i), where(i))


# ------------------------------------------------------------ cells, mutexes, arcs, boxes
@h("core::cell::RefCell::new")
def _rcnew(i, a, c):
    return Struct("RefCell", [a[0]])


@h("core::cell::RefCell::into_inner")
def _rcinto(i, a, c):
    return a[0].f[0]


@h("core::cell::RefCell::replace")
def _rcrep(i, a, c):
    r = tgt(i, a[0]).at(("f", 0))
    old = i.read(r)
    nob(i, r)
    i.write(r, a[1])
    return old


def nob(i, r):
    """no borrow of this cell is live"""
    for g in i.st.guards.values():
        if g.kind in ("ref", "refmut") and same_loc(i, g.target, r):
            i.x.fail("no panic: cell is not borrowed", "panic", "already borrowed", where(i))


def same_loc(i, p, q):
    if p.base[0] != q.base[0] or len(p.path) != len(q.path):
        return False
    if p.base[0] in ("node", "mutex"):
        if i.x.implied(p.base[1] != q.base[1]):
            return False
    elif p.base != q.base:
        return False
    for a, b in zip(p.path, q.path):
        if a[0] != b[0]:
            return False
        if a[0] == "i":
            if i.x.implied(a[1] != b[1]):
                return False
        elif a != b:
            return False
    return True


def new_gid(i):
    i.x.gidc += 1
    return "g%s%d" % (i.x.ns, i.x.gidc)


@h("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut")
def _rcborrow(i, a, c):
    r = tgt(i, a[0]).at(("f", 0))
    mut = c.callee["name"] == "borrow_mut"
    for g in i.st.guards.values():
        if g.kind in (("ref", "refmut") if mut else ("refmut",)) and same_loc(i, g.target, r):
            i.x.fail("no panic: cell is not borrowed", "panic", "already borrowed", where(i))
    g = Guard(new_gid(i), "refmut" if mut else "ref", r)
    i.st.guards[g.gid] = g
    return g


@h("core::cell::RefCell::get_mut")
def _rcgetmut(i, a, c):
    return tgt(i, a[0]).at(("f", 0))


@h("core::cell::RefCell::take")
def _rctake(i, a, c):
    r = tgt(i, a[0]).at(("f", 0))
    nob(i, r)
    v = i.read(r)
    if isinstance(v, Enum) and v.name == OPT:
        i.write(r, none())
        return v
    raise Unsupported("RefCell::take")


@h("std::sync::poison::mutex::Mutex::lock")
def _lock(i, a, c):
    r = tgt(i, a[0])
    if r.base[0] != "mutex":
        raise Unsupported("lock of %r" % (r,))
    nid = r.base[1]
    if i.onlock:
        i.onlock(i, nid, None)
    for g in list(i.st.guards.values()):
        if g.kind == "mutex":
            i.x.prove(simp(g.target != nid), "does not lock a node it already holds", "panic", where(i))
    g = Guard(new_gid(i), "mutex", nid)
    i.st.guards[g.gid] = g
    if i.onlock:
        i.onlock(i, nid, g)
    return ok(g)


@h("std::sync::poison::mutex::Mutex::new")
def _mnew(i, a, c):
    return Opaque("newmutex", a[0])


@h("alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new")
def _arcnew(i, a, c):
    m = a[0]
    if not (isinstance(m, Opaque) and m.what == "newmutex"):
        raise Unsupported("Arc of %r" % (m,))
    nid = i.st.alloc
    if nid is None:
        nid = i.st.alloc = z3.Int("alloc0")
    # alloc0 + k
    i.st.alloc = simp(nid + 1)
    i.x.assume(alive_f(nid))
    for g in i.st.guards.values():
        if g.kind == "mutex":
            i.x.assume(g.target != nid)
    i.heap_write(nid, (), m.data)
    return Arc(nid)


alive_f = z3.Function("alive", IntS, BoolS)


@h("alloc::rcs::arc::Arc::downgrade", "alloc::sync::Arc::downgrade")
def _downgrade(i, a, c):
    return Weak(rd(i, a[0]).id)


@h("alloc::rcs::arc::Weak::upgrade", "alloc::sync::Weak::upgrade")
def _upgrade(i, a, c):
    w = rd(i, a[0])
    i.x.assumptions.add("no node is freed during a call (whether a weak reference still upgrades does not change meanwhile)")
    if i.x.choose(alive_f(w.id)):
        return some(Arc(w.id))
    return none()


@h("alloc::rcs::arc::Arc::ptr_eq", "alloc::sync::Arc::ptr_eq")
def _ptreq(i, a, c):
    return simp(rd(i, a[0]).id == rd(i, a[1]).id)


@h("core::ptr::eq")
def _peq(i, a, c):
    return ref_eq(i, a[0], a[1])


@h("alloc::boxed::Box::new_uninit")
def _boxuninit(i, a, c):
    # MaybeUninit { uninit, value: ManuallyDrop { value } }
    return i.new_cell(Struct("boxuninit", [UNIT, Struct("slot", [UNIT])]))


@h("alloc::boxed::Box::new")
def _boxnew(i, a, c):
    return a[0]


@h("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec")
def _boxvec(i, a, c):
    v = a[0]
    while isinstance(v, Ref):
        v = i.read(v)
    # the written array sits in the box, at whatever field path the compiler used
    n = 0
    while isinstance(v, Struct) and v.name != "array":
        v = v.f[1] if v.name == "boxuninit" else v.f[0]
        if isinstance(v, Ref):
            v = i.read(v)
        n += 1
        if n > 10:
            raise Unsupported("boxed array")
    if not (isinstance(v, Struct) and v.name == "array"):
        raise Unsupported("vec! of %r" % (v,))
    return vec_of(c.dsh(i).elem, v.f)


# ------------------------------------------------------------ vectors
def vref(i, v):
    r = tgt(i, v)
    w = i.read(r)
    if isinstance(w, Vec) or (isinstance(w, Struct) and w.name == "array") or isinstance(w, Mat):
        return r, w
    raise Unsupported("vector expected, got %r" % (w,))


@h("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def _vnew(i, a, c):
    sh = c.dsh(i)
    return vec_of(sh.elem, [])


@h("alloc::vec::Vec::len", "core::slice::len")
def _vlen(i, a, c):
    return slice_len(i, a[0])


@h("alloc::vec::Vec::is_empty", "core::slice::is_empty")
def _vempty(i, a, c):
    return simp(slice_len(i, a[0]) == 0)


@h("alloc::vec::Vec::push")
def _vpush(i, a, c):
    r, v = vref(i, a[0])
    i.write(r, vec_push(v, a[1]))
    return UNIT


@h("alloc::vec::Vec::pop")
def _vpop(i, a, c):
    r, v = vref(i, a[0])
    if i.x.choose(simp(v.len == 0)):
        return none()
    n = simp(v.len - 1)
    x = i.index_value(v, n)
    i.write(r, Vec(v.sh, n, v.cols, v.kind))
    return some(x)


@h("alloc::vec::Vec::clear")
def _vclear(i, a, c):
    r, v = vref(i, a[0])
    i.write(r, Vec(v.sh, I(0), v.cols, v.kind))
    return UNIT


@h("alloc::vec::Vec::truncate")
def _vtrunc(i, a, c):
    r, v = vref(i, a[0])
    n = simp(z3.If(a[1] < v.len, a[1], v.len))
    i.write(r, Vec(v.sh, n, v.cols, v.kind))
    return UNIT


@h("alloc::vec::Vec::insert")
def _vinsert(i, a, c):
    r, v = vref(i, a[0])
    k, x = a[1], a[2]
    need(i, simp(k <= v.len), "insertion index in bounds")
    j = z3.Int("vj")
    cols = []
    for col, t in zip(v.cols, v.sh.flat(x)):
        n = i.x.fresh("ins", col.sort())
        i.x.assume(z3.ForAll([j], n[j] == z3.If(j < k, col[j], z3.If(j == k, t, col[j - 1])), patterns=[n[j]]))
        cols.append(n)
    i.write(r, Vec(v.sh, simp(v.len + 1), cols, v.kind))
    return UNIT


@h("alloc::vec::Vec::remove")
def _vremove(i, a, c):
    r, v = vref(i, a[0])
    k = a[1]
    need(i, simp(k < v.len), "removal index in bounds")
    x = i.index_value(v, k)
    j = z3.Int("vj")
    cols = []
    for col in v.cols:
        n = i.x.fresh("rem", col.sort())
        i.x.assume(z3.ForAll([j], n[j] == z3.If(j < k, col[j], col[j + 1]), patterns=[n[j]]))
        cols.append(n)
    i.write(r, Vec(v.sh, simp(v.len - 1), cols, v.kind))
    return x


@h("alloc::vec::Vec::append", "alloc::vec::Vec::extend_from_slice")
def _vappend(i, a, c):
    r, v = vref(i, a[0])
    w = rd(i, a[1])
    i.write(r, vec_concat(i, v, w))
    if c.callee["name"] == "append":
        i.write(tgt(i, a[1]), Vec(w.sh, I(0), w.cols, w.kind))
    return UNIT


def vec_concat(i, v, w):
    if isinstance(w, Struct):
        w = vec_of(v.sh, w.f)
    j = z3.Int("vj")
    cols = []
    n = as_int(v.len)
    for a, b in zip(v.cols, w.cols):
        f = i.x.fresh("cat", a.sort())
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.len), f[j] == a[j]), patterns=[f[j]]))
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(v.len <= j, j < v.len + w.len), f[j] == b[j - v.len]), patterns=[f[j]]))
        if _plain(a):
            i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.len), f[j] == a[j]), patterns=[a[j]]))
        if _plain(b):
            i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.len), f[simp(v.len + j)] == b[j]), patterns=[b[j]]))
        cols.append(f)
    return Vec(v.sh, simp(v.len + w.len), cols, v.kind)


@h("core::slice::reverse")
def _vrev(i, a, c):
    r, v = vref(i, a[0])
    i.write(r, vec_reverse(i, v))
    return UNIT


def vec_reverse(i, v):
    if isinstance(v, Struct):
        return Struct(v.name, tuple(reversed(v.f)))
    j = z3.Int("vj")
    cols = []
    for a in v.cols:
        n = i.x.fresh("rev", a.sort())
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.len), n[j] == a[v.len - 1 - j]), patterns=[n[j]]))
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.len), a[j] == n[v.len - 1 - j]), patterns=[a[j]]))
        cols.append(n)
    return Vec(v.sh, v.len, cols, v.kind)


@h("core::slice::first", "core::slice::last", "core::slice::first_mut", "core::slice::last_mut")
def _vfirst(i, a, c):
    r, v = vref(i, a[0])
    n = slice_len(i, r)
    if i.x.choose(simp(n == 0)):
        return none()
    return some(r.at(("i", I(0) if "first" in c.callee["name"] else simp(n - 1))))


@h("core::slice::get", "core::slice::get_mut")
def _vget(i, a, c):
    r, v = vref(i, a[0])
    if not (z3.is_expr(a[1]) and z3.is_int(a[1])):
        raise Unsupported("slice get")
    if i.x.choose(simp(a[1] < slice_len(i, r))):
        return some(r.at(("i", a[1])))
    return none()


@h("alloc::vec::from_elem")
def _velem(i, a, c):
    sh = c.dsh(i).elem
    return Vec(sh, a[1], [z3.K(IntS, t) for t in sh.flat(a[0])])


@h("core::slice::swap")
def _vswap(i, a, c):
    r, v = vref(i, a[0])
    n = slice_len(i, r)
    need(i, simp(z3.And(a[1] < n, a[2] < n)), "swap indices in bounds")
    x, y = i.read(r.at(("i", a[1]))), i.read(r.at(("i", a[2])))
    i.write(r.at(("i", a[1])), y)
    i.write(r.at(("i", a[2])), x)
    return UNIT


@h("core::slice::contains")
def _vcontains(i, a, c):
    it = mk_slice_iter(i, a[0])
    x = a[1]
    import loops
    r = loops.lib_loop(i, it, "any", lambda y: eq_value(i, y, x), c)
    return simp(z3.Not(r is None)) if not isinstance(r, z3.ExprRef) else r


@h("core::slice::sort_unstable", "core::slice::sort", "alloc::slice::sort")
def _vsort(i, a, c):
    """sorted, same elements"""
    r, v = vref(i, a[0])
    if not (isinstance(v, Vec) and len(v.cols) == 1 and v.cols[0].sort().range() == IntS):
        raise Unsupported("sort")
    o = v.cols[0]
    n = i.x.fresh("sorted", o.sort())
    p = i.x.fresh("perm", o.sort())
    q = i.x.fresh("permi", o.sort())
    j, k = z3.Ints("vj vk")
    L = v.len
    i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(0 <= p[j], p[j] < L, n[j] == o[p[j]], q[p[j]] == j)), patterns=[n[j]]))
    i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(0 <= q[j], q[j] < L, o[j] == n[q[j]], p[q[j]] == j)), patterns=[o[j]]))
    i.x.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k < L), n[j] <= n[k]), patterns=[z3.MultiPattern(n[j], n[k])]))
    i.write(r, Vec(v.sh, L, [n], v.kind))
    return UNIT


@h("alloc::vec::Vec::dedup")
def _vdedup(i, a, c):
    """of a sorted vector of integers: strictly increasing, same set of elements"""
    r, v = vref(i, a[0])
    if not (isinstance(v, Vec) and len(v.cols) == 1 and v.cols[0].sort().range() == IntS):
        raise Unsupported("dedup")
    o = v.cols[0]
    j, k = z3.Ints("vj vk")
    L = v.len
    n = i.x.fresh("dedup", o.sort())
    m = i.x.fresh("deduplen", IntS)
    f = i.x.fresh("dedupto", o.sort())      # old index -> new index
    g = i.x.fresh("dedupfrom", o.sort())    # new index -> old index
    i.x.assume(z3.And(0 <= m, m <= L, z3.Implies(L > 0, m > 0)))
    i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), z3.And(0 <= f[j], f[j] < m, n[f[j]] == o[j])), patterns=[o[j]]))
    i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= g[j], g[j] < L, n[j] == o[g[j]], f[g[j]] == j)), patterns=[n[j]]))
    i.x.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), g[j] < g[k]), patterns=[z3.MultiPattern(g[j], g[k])]))
    i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j + 1 < m), n[j] != n[j + 1]), patterns=[n[j]]))
    srt = forall([j, k], z3.Implies(z3.And(0 <= j, j <= k, k < L), o[j] <= o[k]), [[o[j], o[k]]])
    inc = z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), n[j] < n[k]), patterns=[z3.MultiPattern(n[j], n[k])])
    i.x.assume(z3.Implies(srt, inc))
    w = Vec(v.sh, m, [n], v.kind)
    i.write(r, w)
    if i.onlist:
        i.onlist(i, w)
    return UNIT


@h("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(i, a, c):
    r = tgt(i, a[0])
    v = i.read(r)
    k = a[1]
    if isinstance(v, Map):
        kk = rd(i, k)
        need(i, simp(v.dom[kk]), "map key is present")
        return r.at(("mk", kk))
    if isinstance(k, Ref):
        k = i.read(k)
    if isinstance(k, Struct) and k.name == RANGE:
        raise Unsupported("sub slice")
    if isinstance(v, DMat):
        if isinstance(k, Struct) and len(k.f) == 2:
            need(i, simp(z3.And(k.f[0] >= 0, k.f[1] >= 0, k.f[0] < v.r, k.f[1] < v.c)), "index in bounds")
            return r.at(("dm", k.f[0], k.f[1]))
        raise Unsupported("matrix index")
    if not (z3.is_expr(k) and z3.is_int(k)):
        if isinstance(k, Struct) and isinstance(v, Mat):
            x, y = as_int(k.f[0]), as_int(k.f[1])
            if x is not None and y is not None:
                return r.at(("i", I(y * v.r + x)))
        raise Unsupported("index by %r" % (k,))
    need(i, simp(z3.And(k >= 0, k < slice_len(i, r))), "index in bounds")
    return r.at(("i", k))


@h("alloc::vec::Vec::retain")
def _vretain(i, a, c):
    """order preserving filter by a predicate that changes nothing"""
    r, v = vref(i, a[0])
    pred = i.new_cell(a[1])
    L = v.len
    n = as_int(L)
    if n is not None and n <= 8:
        out = []
        for k in range(n):
            x = i.index_value(v, I(k))
            if i.x.choose(i.call_value(pred, [i.new_cell(x)])):
                out.append(x)
        i.write(r, vec_of(v.sh, out, v.kind))
        return UNIT
    keep = generalise(i, "keep", lambda q: z3.And(0 <= q, q < L), lambda q: i.call_value(pred, [i.new_cell(i.index_value(v, q))]), LeafSh("bool", BoolS))[0]
    i.write(r, filter_vec(i, v, keep))
    return UNIT


BArr = z3.ArraySort(IntS, BoolS)
cnt_f = z3.Function("cnt", BArr, IntS, IntS)        # how many of the first n are true
unr_f = z3.Function("unrank", BArr, IntS, IntS)     # index of the k-th true one
dif_f = z3.Function("cntdiff", BArr, BArr, IntS, IntS)


def cnt_axioms():
    """counting: definition, and the lemmas that follow from it by induction"""
    K, L = z3.Consts("K1 K2", BArr)
    j, k = z3.Ints("cj ck")
    A = z3.ForAll
    return [
        A([K, j], z3.Implies(j <= 0, cnt_f(K, j) == 0), patterns=[cnt_f(K, j)]),
        A([K, j], z3.Implies(j >= 0, z3.And(0 <= cnt_f(K, j), cnt_f(K, j) <= j)), patterns=[cnt_f(K, j)]),
        A([K, j], z3.Implies(j >= 0, cnt_f(K, j + 1) == cnt_f(K, j) + z3.If(K[j], 1, 0)), patterns=[cnt_f(K, j + 1)]),
        A([K, j], z3.Implies(z3.And(j >= 0, K[j]), unr_f(K, cnt_f(K, j)) == j), patterns=[z3.MultiPattern(cnt_f(K, j), K[j])]),
        A([K, j, k], z3.Implies(z3.And(0 <= j, j < k), cnt_f(K, j) + z3.If(K[j], 1, 0) <= cnt_f(K, k)),
          patterns=[z3.MultiPattern(cnt_f(K, j), cnt_f(K, k))]),
        A([K, L, j], z3.Or(cnt_f(K, j) == cnt_f(L, j),
                           z3.And(0 <= dif_f(K, L, j), dif_f(K, L, j) < j, K[dif_f(K, L, j)] != L[dif_f(K, L, j)])),
          patterns=[z3.MultiPattern(cnt_f(K, j), cnt_f(L, j))]),
    ]


def filter_vec(i, v, keep):
    """new vector of the elements with keep[j], in order"""
    L = v.len
    j, k = z3.Ints("vj vk")
    m = simp(cnt_f(keep, L))
    cols = [i.x.fresh("flt", c.sort()) for c in v.cols]
    for c, n in zip(v.cols, cols):
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= unr_f(keep, j), unr_f(keep, j) < L, keep[unr_f(keep, j)],
                                                                   n[j] == c[unr_f(keep, j)], cnt_f(keep, unr_f(keep, j)) == j)), patterns=[n[j]]))
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L, keep[j]), z3.And(n[cnt_f(keep, j)] == c[j], cnt_f(keep, j) < m)),
                             patterns=[c[j]] if not z3.is_quantifier(c) and _plain(c) else [keep[j]]))
        i.x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L, keep[j]), z3.And(n[cnt_f(keep, j)] == c[j], cnt_f(keep, j) < m)),
                             patterns=[cnt_f(keep, j)]))
    i.x.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), unr_f(keep, j) < unr_f(keep, k)),
                         patterns=[z3.MultiPattern(unr_f(keep, j), unr_f(keep, k))]))
    i.x.assume(z3.And(0 <= m, m <= L))
    return Vec(v.sh, m, cols, v.kind)


def _plain(c):
    """usable as the array of a pattern"""
    return z3.is_const(c) or c.decl().kind() == z3.Z3_OP_SELECT


# ------------------------------------------------------------ generalisation
def has_const(t, pred):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return False


def generalise(i, name, rng, thunk, sh):
    """columns c with, for every q in rng: c[q] == thunk(q); thunk must not change anything"""
    x = i.x
    key = ("gen", x.epoch, x.ns, tuple(x.log), x.cnt, name)
    cols = [x.fresh("gen_" + name, z3.ArraySort(IntS, so)) for _, so in sh.leaves()]
    if key not in x.loopcache:
        ns = x.ns + "q%d_" % x.cnt
        q = z3.Int("q!" + ns)
        st0, pc0 = x.st.copy(), list(x.pc)
        base = len(pc0)
        res = []
        outer_quiet = x.quiet

        def body(_):
            nonlocal base
            x.assume(rng(q))
            base = len(x.pc)
            v = thunk(q)
            for k in st0.heap:
                if not x.st.heap[k].eq(st0.heap[k]):
                    raise Unsupported("function with effects")
            res.append((list(x.pc[base:]), sh.flat(v)))
        where0 = getattr(x, "where", None)
        if x.replaying():
            x.quiet += 1
        try:
            x.run_paths(body, st0, pc0, ns)
        finally:
            x.quiet = outer_quiet
        x.where = where0
        for conds, ts in res:
            for t in conds + ts:
                if has_const(t, lambda n: "!" + ns in n):
                    if any(has_const(t, lambda n: "!" + ns in n and n != "q!" + ns) for t in conds + ts):
                        raise Unsupported("function result with unknowns")
        x.loopcache[key] = (q, res)
    q, res = x.loopcache[key]
    qq = z3.Int("gq")
    for conds, ts in res:
        sub = lambda t: z3.substitute(t, (q, qq))
        for col, t in zip(cols, ts):
            x.assume(z3.ForAll([qq], z3.Implies(z3.And([rng(qq)] + [sub(c) for c in conds]), col[qq] == sub(t)), patterns=[col[qq]]))
    return cols


# ------------------------------------------------------------ iterators
def mk_slice_iter(i, v, mut=False):
    r = tgt(i, v)
    w = i.read(r)
    return It("slice", [r, I(0), slice_len(i, r)])


@h("core::slice::iter", "core::slice::iter_mut")
def _iter(i, a, c):
    return mk_slice_iter(i, a[0])


@h("nalgebra::base::matrix::Matrix::iter", "nalgebra::base::matrix::Matrix::iter_mut")
def _miter(i, a, c):
    return mk_slice_iter(i, a[0])


@h("core::iter::traits::collect::IntoIterator::into_iter")
def _intoiter(i, a, c):
    return into_iter(i, a[0])


def into_iter(i, v):
    if isinstance(v, It):
        return v
    if isinstance(v, Struct) and v.name in (RANGE, RANGEI):
        return v
    if isinstance(v, Vec):
        return It("into", [v, I(0)])
    if isinstance(v, Struct) and v.name == "array":
        return It("into", [v, I(0)])
    if isinstance(v, Enum) and v.name == OPT:
        return It("option", [v])
    if isinstance(v, Struct) and user_next(i, v):
        return v
    if isinstance(v, Ref):
        w = i.read(v)
        if isinstance(w, (It,)) or (isinstance(w, Struct) and (w.name in (RANGE, RANGEI) or user_next(i, w))):
            return It("byref", [v])
        if isinstance(w, Ref):
            return into_iter(i, w)
        if isinstance(w, Enum) and w.name == OPT:
            return It("option", [_oasref(i, [v], None)])
        return mk_slice_iter(i, v)
    raise Unsupported("iteration over %r" % (v,))


def user_next(i, v):
    for fn in i.crate.fns.values():
        if fn["name"] == "next" and fn["body"] and fn.get("impl") is not None and fn.get("trait") and "Iterator" in fn["trait"]:
            t = i.crate.types[fn["impl"]]
            if t["k"] == "adt" and t["def"] == v.name:
                return fn
    return None


def remaining(i, v):
    """number of base elements still to come, if it is a constant"""
    if isinstance(v, It):
        k = v.kind
        if k == "slice":
            return as_int(simp(v.f[2] - v.f[1]))
        if k == "rslice":
            return as_int(simp(v.f[2] - v.f[1]))
        if k == "into":
            n = v.f[0].len if isinstance(v.f[0], Vec) else I(len(v.f[0].f))
            return as_int(simp(n - v.f[1]))
        if k == "option":
            return 1
        if k == "byref":
            return remaining(i, i.read(v.f[0]))
        if k in ("zip", "take"):
            ns = [remaining(i, v.f[0]), remaining(i, v.f[1]) if k == "zip" else as_int(v.f[1])]
            ns = [n for n in ns if n is not None]
            return min(ns) if ns else None
        if k == "chain":
            a, b = remaining(i, v.f[0]), remaining(i, v.f[1])
            return None if a is None or b is None else a + b
        if k in ("map", "filter", "filter_map", "enumerate", "cloned", "take_while", "inspect"):
            return remaining(i, v.f[0])
        return None
    if isinstance(v, Struct) and v.name == RANGE:
        n = as_int(simp(v.f[1] - v.f[0]))
        return None if n is None else max(n, 0)
    if isinstance(v, Struct) and v.name == "rrange":
        n = as_int(simp(v.f[1] - v.f[0]))
        return None if n is None else max(n, 0)
    return None


def step(i, r):
    """advance the iterator at r: an item, Done, or Skip"""
    v = i.read(r)
    x = i.x
    if isinstance(v, Ref):
        return step(i, v)
    if isinstance(v, Struct):
        if v.name == RANGE:
            if not x.choose(simp(v.f[0] < v.f[1])):
                raise Done()
            i.write(r.at(("f", 0)), simp(v.f[0] + 1))
            return v.f[0]
        if v.name == RANGEI:
            if not x.choose(simp(z3.And(v.f[0] <= v.f[1], z3.Not(v.f[2])))):
                raise Done()
            if x.choose(simp(v.f[0] < v.f[1])):
                i.write(r.at(("f", 0)), simp(v.f[0] + 1))
            else:
                i.write(r.at(("f", 2)), z3.BoolVal(True))
            return v.f[0]
        fn = user_next(i, v)
        if fn:
            o = i.call_local(fn["def"], [r])
            if x.choose(simp(o.tag == 1)):
                return o.pl[1][0]
            raise Done()
        raise Unsupported("iterator %r" % (v,))
    if not isinstance(v, It):
        raise Unsupported("iterator %r" % (v,))
    k = v.kind
    if k == "slice":
        if not x.choose(simp(v.f[1] < v.f[2])):
            raise Done()
        i.write(r.at(("f", 1)), simp(v.f[1] + 1))
        return v.f[0].at(("i", v.f[1]))
    if k == "rslice":
        if not x.choose(simp(v.f[1] < v.f[2])):
            raise Done()
        j = simp(v.f[2] - 1)
        i.write(r.at(("f", 2)), j)
        return v.f[0].at(("i", j))
    if k == "rrange":
        if not x.choose(simp(v.f[0] < v.f[1])):
            raise Done()
        j = simp(v.f[1] - 1)
        i.write(r.at(("f", 1)), j)
        return j
    if k == "into":
        n = v.f[0].len if isinstance(v.f[0], Vec) else I(len(v.f[0].f))
        if not x.choose(simp(v.f[1] < n)):
            raise Done()
        i.write(r.at(("f", 1)), simp(v.f[1] + 1))
        return i.index_value(v.f[0], v.f[1])
    if k == "option":
        o = v.f[0]
        if not x.choose(simp(o.tag == 1)):
            raise Done()
        i.write(r.at(("f", 0)), none())
        return o.pl[1][0]
    if k == "byref":
        return step(i, v.f[0])
    if k == "map":
        y = step(i, r.at(("f", 0)))
        return i.call_value(r.at(("f", 1)), [y])
    if k in ("filter", "take_while"):
        y = step(i, r.at(("f", 0)))
        if x.choose(i.call_value(r.at(("f", 1)), [i.new_cell(y)])):
            return y
        if k == "take_while":
            raise Done()
        raise Skip()
    if k == "filter_map":
        y = step(i, r.at(("f", 0)))
        o = i.call_value(r.at(("f", 1)), [y])
        if x.choose(simp(o.tag == 1)):
            return o.pl[1][0]
        raise Skip()
    if k == "inspect":
        y = step(i, r.at(("f", 0)))
        i.call_value(r.at(("f", 1)), [i.new_cell(y)])
        return y
    if k == "enumerate":
        y = step(i, r.at(("f", 0)))
        n = i.read(r.at(("f", 1)))
        i.write(r.at(("f", 1)), simp(n + 1))
        return Struct("tuple", [n, y])
    if k == "zip":
        y = step(i, r.at(("f", 0)))
        try:
            z = step(i, r.at(("f", 1)))
        except Skip:
            raise Unsupported("zip with a filter")
        return Struct("tuple", [y, z])
    if k == "take":
        if not x.choose(simp(v.f[1] > 0)):
            raise Done()
        y = step(i, r.at(("f", 0)))
        i.write(r.at(("f", 1)), simp(v.f[1] - 1))
        return y
    if k == "cloned":
        y = step(i, r.at(("f", 0)))
        return clone_any(i, i.read(y))
    if k == "chain":
        if x.choose(simp(z3.Not(v.f[2]))):
            try:
                return step(i, r.at(("f", 0)))
            except Done:
                i.write(r.at(("f", 2)), z3.BoolVal(True))
        return step(i, r.at(("f", 1)))
    raise Unsupported("iterator " + k)


@h("core::iter::traits::iterator::Iterator::next")
def _next(i, a, c):
    try:
        return some(step(i, a[0]))
    except Done:
        return none()
    except Skip:
        if c.skip_ok:
            raise
        import loops
        r = loops.lib_loop(i, It("byref", [tgt_it(i, a[0])]), "next", None, c)
        return r


def tgt_it(i, r):
    while isinstance(i.read(r), Ref):
        r = i.read(r)
    return r


def _adapter(kind, extra=None):
    def f(i, a, c):
        it = into_iter(i, a[0])
        return It(kind, [it] + (list(a[1:]) if extra is None else extra))
    return f


for _k in ("map", "filter", "filter_map", "take_while", "inspect"):
    H["core::iter::traits::iterator::Iterator::" + _k] = _adapter(_k)
H["core::iter::traits::iterator::Iterator::enumerate"] = _adapter("enumerate", [I(0)])
H["core::iter::traits::iterator::Iterator::cloned"] = _adapter("cloned", [])
H["core::iter::traits::iterator::Iterator::copied"] = _adapter("cloned", [])
H["core::iter::traits::iterator::Iterator::take"] = _adapter("take")


@h("core::iter::traits::iterator::Iterator::by_ref")
def _byref(i, a, c):
    return a[0]


@h("core::iter::traits::iterator::Iterator::zip")
def _zip(i, a, c):
    return It("zip", [into_iter(i, a[0]), into_iter(i, a[1])])


@h("core::iter::traits::iterator::Iterator::chain")
def _chain(i, a, c):
    return It("chain", [into_iter(i, a[0]), into_iter(i, a[1]), z3.BoolVal(False)])


@h("core::iter::traits::iterator::Iterator::skip")
def _skip(i, a, c):
    it = into_iter(i, a[0])
    if isinstance(it, It) and it.kind == "slice":
        p = simp(it.f[1] + a[1])
        return It("slice", [it.f[0], simp(z3.If(p < it.f[2], p, it.f[2])), it.f[2]])
    if isinstance(it, It) and it.kind == "cloned" and it.f[0].kind == "slice":
        return It("cloned", [_skip(i, [it.f[0], a[1]], c)])
    raise Unsupported("skip")


@h("core::iter::traits::iterator::Iterator::rev")
def _rev(i, a, c):
    return rev_iter(i, into_iter(i, a[0]))


def rev_iter(i, it):
    if isinstance(it, Struct) and it.name == RANGE:
        return It("rrange", [it.f[0], it.f[1]])
    if isinstance(it, It):
        if it.kind == "slice":
            return It("rslice", it.f)
        if it.kind == "rslice":
            return It("slice", it.f)
        if it.kind == "into":
            v = it.f[0]
            if as_int(it.f[1]) == 0:
                return It("into", [vec_reverse(i, v), I(0)])
        if it.kind in ("cloned", "map", "filter"):
            return It(it.kind, [rev_iter(i, it.f[0])] + list(it.f[1:]))
    raise Unsupported("rev")


def collect(i, it, elem):
    import loops
    return loops.lib_collect(i, into_iter(i, it), elem, None)


@h("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def _collect(i, a, c):
    import loops
    d = c.dty(i)
    it = into_iter(i, a[0])
    if d["k"] == "adt" and d["def"] == "alloc::vec::Vec":
        return loops.lib_collect(i, it, i.sh.of(d["args"][0]), c)
    if d["k"] == "adt" and d["def"].endswith("HashMap"):
        return loops.lib_collect_map(i, it, new_map(i, c.t["dty"]), c)
    if d["k"] == "adt" and d["def"] == RES:
        e = i.crate.types[d["args"][0]]
        if e["k"] == "tuple" or e["def"] == "alloc::vec::Vec":
            return loops.lib_collect_result(i, it, None if e["k"] == "tuple" else i.sh.of(e["args"][0]), c)
    raise Unsupported("collect into " + d["s"])


def _lib(kind, closure=True):
    def f(i, a, c):
        import loops
        it = into_iter(i, a[0])
        return loops.lib_iter_fn(i, kind, it, a[1:], c, a[0])
    return f


for _k in ("for_each", "fold", "find", "position", "any", "all", "count", "find_map", "last", "try_for_each", "sum", "nth", "max", "min"):
    H["core::iter::traits::iterator::Iterator::" + _k] = _lib(_k)


@h("core::iter::traits::collect::Extend::extend")
def _extend(i, a, c):
    import loops
    r, v = vref(i, a[0])
    w = loops.lib_collect(i, into_iter(i, a[1]), v.sh, c)
    n = as_int(w.len)
    v = i.read(r)
    if n is not None and n <= 8:
        for k in range(n):
            v = vec_push(v, i.index_value(w, I(k)))
        i.write(r, v)
    else:
        i.write(r, vec_concat(i, v, w))
    return UNIT


@h("core::ops::range::RangeInclusive::into_inner")
def _rinto(i, a, c):
    return Struct("tuple", [a[0].f[0], a[0].f[1]])


@h("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def _rstart(i, a, c):
    return tgt(i, a[0]).at(("f", 0 if c.callee["name"] == "start" else 1))


@h("core::ops::range::RangeInclusive::new")
def _rinew(i, a, c):
    return Struct(RANGEI, [a[0], a[1], z3.BoolVal(False)])


@h("core::ops::range::RangeInclusive::contains", "core::ops::range::Range::contains")
def _rcont(i, a, c):
    v, x = rd(i, a[0]), rd(i, a[1])
    hi = "le" if v.name == RANGEI else "lt"
    if isnum(x):
        return simp(z3.And(n_cmp("le", v.f[0], x), n_cmp(hi, x, v.f[1])))
    return simp(z3.And(v.f[0] <= x, x <= v.f[1] if hi == "le" else x < v.f[1]))


# ------------------------------------------------------------ maps
@h("std::collections::hash::map::HashMap::new", "std::collections::hash::map::HashMap::with_capacity")
def _hnew(i, a, c):
    return new_map(i, c.t["dty"])


def mkey(i, m, k):
    k = rd(i, k)
    return m.ksh.flat(k)[0] if not isinstance(m.ksh, RefSh) else m.ksh.inner.flat(k)[0]


def map_insert(i, m, k, v):
    k = mkey(i, m, k)
    return Map(m.ksh, m.vsh, z3.Store(m.dom, k, z3.BoolVal(True)),
               [z3.Store(col, k, t) for col, t in zip(m.cols, m.vsh.flat(v))])


@h("std::collections::hash::map::HashMap::insert")
def _hinsert(i, a, c):
    r = tgt(i, a[0])
    m = i.read(r)
    k = mkey(i, m, a[1])
    had = m.dom[k]
    old = m.vsh.build([simp_arr(col[k]) for col in m.cols])
    i.write(r, map_insert(i, m, a[1], a[2]))
    return Enum(OPT, simp(z3.If(had, I(1), I(0))), {0: (), 1: (old,)})


@h("std::collections::hash::map::HashMap::get", "std::collections::hash::map::HashMap::get_mut")
def _hget(i, a, c):
    r = tgt(i, a[0])
    m = i.read(r)
    k = mkey(i, m, a[1])
    if i.x.choose(i.sel(m.dom, k)):
        return some(r.at(("mk", k)))
    return none()


@h("std::collections::hash::map::HashMap::contains_key")
def _hcont(i, a, c):
    m = rd(i, a[0])
    return simp(i.sel(m.dom, mkey(i, m, a[1])))


@h("std::collections::hash::map::HashMap::entry")
def _hentry(i, a, c):
    r = tgt(i, a[0])
    m = i.read(r)
    return Struct("mapentry", [r, mkey(i, m, a[1])])


@h("std::collections::hash::map::Entry::or_insert", "std::collections::hash::map::Entry::or_insert_with",
   "std::collections::hash::map::Entry::or_default")
def _horins(i, a, c):
    e = a[0]
    r, k = e.f
    m = i.read(r)
    if not i.x.choose(i.sel(m.dom, k)):
        n = c.callee["name"]
        if n == "or_insert":
            v = a[1]
        elif n == "or_insert_with":
            v = i.call_value(a[1], [])
        else:
            d = c.dty(i)
            v = default_value(i, d["elem"])
        m = i.read(r)
        i.write(r, Map(m.ksh, m.vsh, z3.Store(m.dom, k, z3.BoolVal(True)), [z3.Store(col, k, t) for col, t in zip(m.cols, m.vsh.flat(v))]))
    return r.at(("mk", k))


# ------------------------------------------------------------ formatting
@h("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::rt::Argument::new_display",
   "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1", "alloc::fmt::format", "core::hint::must_use")
def _fmtargs(i, a, c):
    if c.callee["name"] in ("format",):
        return i.x.fresh("text", Str)
    if c.callee["name"] == "must_use":
        return a[0]
    if c.callee["name"] == "new_display":
        # the text is produced while the arguments live: the value is printed here
        t = [i.crate.types[g] for g in c.callee["args"] if isinstance(g, int)]
        t = t[-1] if t else None
        r = a[0]
        while t and t["k"] == "ref":
            t = i.crate.types[t["elem"]]
            r = i.read(r)
        if t and t["k"] == "adt" and t["def"] in i.crate.adts and i.crate.adts[t["def"]].get("local", True):
            name = t["def"].split("::")[-1]
            if i.reg.bykey.get(name + "::fmt"):
                i.call_local(i.reg.display(name)["def"], [r, i.new_cell(Opaque("formatter"))])
    return Opaque("fmt")


@h("core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_fmt")
def _wfmt(i, a, c):
    return ok(UNIT)


@h("alloc::str::repeat")
def _repeat(i, a, c):
    return i.x.fresh("text", Str)


@h("log::__private_api::log", "log::__private_api::loc")
def _log(i, a, c):
    return UNIT


# ------------------------------------------------------------ calls
@h("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _fncall(i, a, c):
    f = a[0]
    args = list(a[1].f) if isinstance(a[1], Struct) and a[1].name == "tuple" else [a[1]]
    v = rd(i, f)
    if isinstance(v, Opaque) or z3.is_expr(v) and str(v.sort()) == "Dyn":
        if i.dyncall:
            return i.dyncall(i, v, args)
        raise Unsupported("call of an unknown function")
    return i.call_value(f, args)
