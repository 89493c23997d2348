"""Vocabulary of the specifications."""
import z3
from terms import *
from values import *
from state import *
from reg import Lost
import lib


class W:
    """a value seen through its shape, fields by name"""
    __slots__ = ("sh", "v", "i")

    def __init__(self, i, sh, v):
        if isinstance(sh, RefSh):
            sh = sh.inner
            if isinstance(v, Ref):
                v = i.read(v)
        self.i, self.sh, self.v = i, sh, v

    def get(self, name):
        sh = self.sh
        if isinstance(sh, StructSh):
            if name not in sh.names:
                raise Lost("field %s of %s" % (name, sh.name))
            k = sh.names.index(name)
            return W(self.i, sh.subs[k], self.v.f[k])
        raise Lost("field %s of a %s" % (name, type(sh).__name__))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.get(name)

    def __getitem__(self, j):
        if isinstance(self.sh, VecSh):
            return W(self.i, self.sh.elem, vec_at(self.v, j if z3.is_expr(j) else I(j)))
        if isinstance(self.sh, StructSh):
            return W(self.i, self.sh.subs[j], self.v.f[j])
        raise Lost("index into " + type(self.sh).__name__)

    @property
    def len(self):
        return self.v.len

    def var(self, name):
        for k, (vn, ns, subs) in enumerate(self.sh.variants):
            if vn == name:
                return k
        raise Lost("variant %s of %s" % (name, self.sh.name))

    def is_(self, name):
        return self.v.tag == self.var(name)

    def pl(self, name, field=0):
        k = self.var(name)
        vn, ns, subs = self.sh.variants[k]
        f = field if isinstance(field, int) else (ns.index(field) if field in ns else None)
        if f is None:
            raise Lost("field %s of %s" % (field, name))
        if k in self.v.pl and f < len(self.v.pl[k]):
            return W(self.i, subs[f], self.v.pl[k][f])
        return W(self.i, subs[f], subs[f].named("absent"))

    def eq(self, o):
        if isinstance(o, W):
            o = o.v
        return self.sh.eq(self.v, o)

    def same_as(self, o):
        return self.eq(o)

    def fields(self):
        return list(self.sh.names)


def variant_index(i, name, variant):
    a = i.crate.adts.get(name)
    for k, v in enumerate(a["variants"]):
        if v["name"] == variant:
            return k, [f[0] for f in v["fields"]]
    raise Lost("variant %s of %s" % (variant, name))


def has_variant(i, e, variant):
    return e.tag == variant_index(i, e.name, variant)[0]


def payload(i, e, variant, field=0):
    """value of a payload field, or None when the value cannot be of that variant"""
    k, names = variant_index(i, e.name, variant)
    if k not in e.pl:
        return None
    n = field if isinstance(field, int) else (names.index(field) if field in names else None)
    if n is None:
        raise Lost("field %s of variant %s" % (field, variant))
    return e.pl[k][n]


def And(*a):
    return z3.And(*[x for x in a])


def opt_is_none(e):
    return e.tag == 0


def opt_is_some(e):
    return e.tag == 1


def res_is_ok(e):
    return e.tag == 0


def movable(jw):
    return z3.Not(jw.joint_type.is_("Fixed"))


def le(a, b):
    return n_cmp("le", a, b)


def legal(jw, p):
    lim = jw.limits
    r = lim.pl("Some")
    return z3.Or(lim.is_("None"), z3.And(le(r.get("min").v, p), le(p, r.get("max").v)))


def frame_except(a, b, names):
    """conjunction: all fields but the named ones are equal"""
    return [(n, a.get(n).eq(b.get(n))) for n in a.fields() if n not in names]


def run(i, key, args):
    """run the body of the function under verification"""
    fn = i.reg.fn(key)
    i.verifying = key
    try:
        return i.call_fn(fn, args)
    finally:
        i.verifying = None


def fresh_T(i, name):
    return num(i.x.fresh(name, sort_T()))


def in_scope_guards(i):
    return not i.st.guards


def prove_no_guards(i):
    i.x.prove(z3.BoolVal(not i.st.guards), "every guard taken is released", "lock")


# ---------------------------------------------------------------- nodes
class Snap:
    """all nodes as they are now"""

    def __init__(self, i):
        self.i = i
        self.cols = {n: i.col(n) for n in i.nodeleaves}
        self.alloc = i.st.alloc if i.st.alloc is not None else z3.Int("alloc0")

    def node(self, n):
        sh = self.i.nodesh
        return W(self.i, sh, sh.build([simp_arr(z3.Select(self.cols[s], n)) for s, so in sh.leaves()]))

    def raw(self, n):
        sh = self.i.nodesh
        v = sh.build([z3.Select(self.cols[s], n) for s, so in sh.leaves()])
        if not bound_in(n):
            r = []
            tag_ranges(sh, v, r)
            for t, m in r:
                self.i.x.assume(z3.And(0 <= t, t < m))
        return W(self.i, sh, v)


def bound_in(n):
    """does the term have a bound variable of a specification (they are named with a leading w, or q! and the like in hints)"""
    if z3.is_const(n):
        s = str(n)
        return z3.is_int(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED and ("!" not in s and s.startswith("w") or s[:2] in ("q!", "u!"))
    return z3.is_app(n) and any(bound_in(c) for c in n.children())


def tag_ranges(sh, v, out):
    """every stored enum value is one of its variants"""
    if isinstance(v, Enum):
        if as_int(v.tag) is None:
            out.append((v.tag, len(sh.variants)))
        for k, fs in v.pl.items():
            for t, y in zip(sh.variants[k][2], fs):
                tag_ranges(t, y, out)
    elif isinstance(v, Struct) and hasattr(sh, "subs"):
        for t, y in zip(sh.subs, v.f):
            tag_ranges(t, y, out)


def heap_types(i, H):
    """stored enum values are one of their variants"""
    n = z3.Int("wt")
    sh = i.nodesh
    v = sh.build([z3.Select(H.cols[s], n) for s, so in sh.leaves()])
    r = []
    tag_ranges(sh, v, r)
    for t, m in r:
        i.x.assume(z3.ForAll([n], z3.And(0 <= t, t < m), patterns=[t]))


def a_node(i, name):
    """(id, reference to a Node handle) of an existing node"""
    n = i.x.fresh(name, IntS)
    if i.st.alloc is None:
        i.st.alloc = z3.Int("alloc0")
    i.x.assume(z3.And(0 <= n, n < i.st.alloc, lib.alive_f(n)))
    return n, handle(i, n)


def handle(i, n):
    return i.new_cell(i.reg.shape("Node").build([n]))


def nid(i, v):
    """id of a Node value or a reference to one"""
    v = lib.rd(i, v)
    while isinstance(v, Struct):
        v = lib.rd(i, v.f[0])
    return v.id


def same_node(i, a, b, n, but=()):
    """node n is the same in both snapshots, the named fields left out"""
    p, q = a.raw(n), b.raw(n)
    return [(f, p.get(f).eq(q.get(f))) for f in p.fields() if f not in but]


def others_untouched(i, old, new, ids, label):
    """every existing node but the given ones is exactly as before"""
    m = i.x.fresh("other", IntS)
    ok = z3.And([0 <= m, m < old.alloc] + [m != d for d in ids])
    for f, e in same_node(i, new, old, m):
        i.x.prove(z3.Implies(ok, e), "%s leaves the %s of every other node alone" % (label, f))


def same(i, a, b):
    """the two values are identical"""
    a, b = lib.rd(i, a), lib.rd(i, b)
    if isinstance(a, (W,)):
        a = a.v
    if isinstance(b, (W,)):
        b = b.v
    if isinstance(a, Poly) or (z3.is_expr(a) and z3.is_fp(a)):
        return n_eqv(a, b)
    if isinstance(a, Rot):
        return z3.BoolVal(True) if a.z().eq(b.z()) else a.z() == b.z()
    if isinstance(a, Arc):
        return a.id == b.id
    if z3.is_expr(a):
        return a == b
    if isinstance(a, Struct):
        return z3.And([same(i, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Mat):
        return z3.And([n_eqv(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Vec):
        return VecSh(a.sh).eq(a, b)
    if isinstance(a, Enum):
        cs = [a.tag == b.tag]
        for k in set(a.pl) | set(b.pl):
            if k in a.pl and k in b.pl:
                if a.pl[k]:
                    cs.append(z3.Implies(a.tag == k, z3.And([same(i, x, y) for x, y in zip(a.pl[k], b.pl[k])])))
            elif (a.pl.get(k) or b.pl.get(k)):
                cs.append(z3.Not(z3.And(a.tag == k, b.tag == k)))
        return z3.And(cs)
    raise Unsupported("comparison of %r" % (a,))


# ---------------------------------------------------------------- contracts of callees
def ret_shape(i, key):
    return i.sh.of(i.reg.fn(key)["body"]["locals"][0]["ty"])


def cols_of(i, *prefixes):
    """columns of the node heap under the given field paths"""
    r = [n for n in i.nodeleaves if any(n == p or n.startswith(p + ".") or n.startswith(p + "#") or n.startswith(p + "[") for p in prefixes)]
    if not r:
        raise Lost("fields %s" % (prefixes,))
    return r


def havoc(i, *prefixes):
    for n in cols_of(i, *prefixes):
        i.col(n)
        i.st.heap[n] = i.x.fresh("H" + n, z3.ArraySort(IntS, i.nodeleaves[n]))


def must_hold(i, c, label):
    """the precondition of a contract: an obligation of the caller"""
    i.x.prove(c, label, "pre")


def no_guards(i, label):
    """the caller holds no lock (the callee takes some)"""
    must_hold(i, z3.BoolVal(not any(g.kind == "mutex" for g in i.st.guards.values())), label)


def unchanged_nodes(i, old, new, n, cond, fields):
    """for all n with cond: the columns under the given field paths are as before"""
    for c in cols_of(i, *fields):
        i.x.assume(z3.ForAll([n], z3.Implies(cond, new.cols[c][n] == old.cols[c][n]), patterns=[new.cols[c][n]]))
