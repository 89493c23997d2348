"""Copies of chains (C08)."""
from spec import *
import lib
import loops
from loops import Cand
from lib import cnt_f
from specs.chain import start, no_change, has_parent, par, chain_nodes, from_nodes_contract

TYPES = ["Range", "Velocity", "Mimic", "JointType", "Joint", "Color", "Texture", "Material", "Geometry", "Inertial", "Visual", "Collision", "Link"]


def copy(i, ty):
    """the clone of a value is the same value"""
    x = i.x
    old = start(i)
    v = x.fresh_of(i.reg.shape(ty), "v")
    r = i.new_cell(v)
    c = run(i, ty + "::clone", [r])
    x.prove(same(i, c, v), "the copy is the same in every part")
    x.prove(same(i, i.read(r), v), "the original stays")
    no_change(i, old, "copying")


def copied(i, args):
    return lib.rd(i, args[0])


def ident(a, b):
    """the same, part by part; vectors by their whole contents"""
    if isinstance(a, Poly) or (z3.is_expr(a) and z3.is_fp(a)):
        return [a.z() == b.z() if isinstance(a, Poly) else a == b]
    if isinstance(a, Rot):
        return [a.z() == b.z()]
    if isinstance(a, (Arc, Weak)):
        return [a.id == b.id]
    if z3.is_expr(a):
        return [a == b]
    if isinstance(a, Struct):
        return [c for p, q in zip(a.f, b.f) for c in ident(p, q)]
    if isinstance(a, Mat):
        return [c for p, q in zip(a.e, b.e) for c in ident(p, q)]
    if isinstance(a, Vec):
        return [a.len == b.len] + [p == q for p, q in zip(a.cols, b.cols)]
    if isinstance(a, Enum):
        r = [a.tag == b.tag]
        for k in a.pl:
            if k in b.pl and a.pl[k]:
                r.append(z3.Implies(a.tag == k, z3.And([c for p, q in zip(a.pl[k], b.pl[k]) for c in ident(p, q)])))
        return r
    raise Unsupported("comparison of %r" % (a,))


class Bare:
    """a chain of existing nodes, none of them twice"""

    def __init__(self, i, old):
        x = i.x
        sh = i.reg.shape("Chain")
        self.i = i
        self.w = W(i, sh, x.fresh_of(sh, "c"))
        self.ref = i.new_cell(self.w.v)
        self.nodes = self.w.nodes
        self.n = self.nodes.len
        self.place = z3.Function("place", IntS, IntS)
        j = z3.Int("wj")
        e = self.at(j)
        x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.And(0 <= e, e < old.alloc, lib.alive_f(e), self.place(e) == j)), patterns=[e]))

    def at(self, j):
        return nid(self.i, self.nodes[j].v)


class Original:
    """a chain that starts at a root: parents stand in it, every follower has its rule"""

    def __init__(self, i, old):
        x = i.x
        self.i, self.old = i, old
        self.c = c = Bare(i, old)
        self.n = c.n
        self.at, self.place = c.at, c.place
        self.first = lambda: c.at(I(0))
        self.PK = z3.Function("kids", IntS, z3.ArraySort(IntS, BoolS))
        self.MK = z3.Function("followers", IntS, z3.ArraySort(IntS, BoolS))
        q, p = z3.Ints("wq wp")
        a = self.at(q)
        x.assume(z3.Implies(self.n > 0, z3.Not(has_parent(old, self.at(I(0))))))
        x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n, has_parent(old, a)), self.inside(par(old, a))), patterns=[par(old, a)]))
        x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n, self.mimics(a)), old.raw(a).mimic.is_("Some")), patterns=[self.mpar(a)]))
        # entry q of the p-th set: is p the parent (followed joint) of q
        x.assume(z3.ForAll([p, q], self.PK(p)[q] == z3.And(has_parent(old, a), self.place(par(old, a)) == p), patterns=[self.PK(p)[q]]))
        x.assume(z3.ForAll([p, q], self.MK(p)[q] == z3.And(self.follows(a), self.place(self.mpar(a)) == p), patterns=[self.MK(p)[q]]))

    def inside(self, n):
        w = self.place(n)
        return z3.And(0 <= w, w < self.n, self.at(w) == n)

    def mpar(self, n):
        return self.old.raw(n).mimic_parent.pl("Some").v.id

    def mimics(self, n):
        p = self.old.raw(n).mimic_parent
        return z3.And(p.is_("Some"), lib.alive_f(p.pl("Some").v.id))

    def follows(self, n):
        """mimics a joint of the chain"""
        return z3.And(self.mimics(n), self.inside(self.mpar(n)))


def relations(i, o, H, base, m, k, pats=True):
    """what the relations of node m of the copy are once the first k nodes are connected: list of (label, formula)"""
    q = m - base
    a = o.at(q)
    w = H.raw(m)
    done = q < k
    out = []
    hp = z3.And(done, has_parent(o.old, a))
    out.append(("parent", z3.If(hp, z3.And(w.parent.is_("Some"), w.parent.pl("Some").v.id == base + o.place(par(o.old, a))), w.parent.is_("None"))))
    fo = z3.And(done, o.follows(a))
    out.append(("mimic parent", z3.If(fo, z3.And(w.mimic_parent.is_("Some"), w.mimic_parent.pl("Some").v.id == base + o.place(o.mpar(a))),
                                      w.mimic_parent.is_("None"))))
    out.append(("mimic rule", z3.If(fo, z3.And(ident(w.mimic.v, o.old.raw(a).mimic.v)), w.mimic.is_("None"))))
    return out


def list_facts(i, o, H, base, m, f, K, k):
    """the list f of node m of the copy holds those of the first k with K, in order: (length, entry j, place of node c)"""
    q = m - base
    l = H.raw(m).get(f)
    j, c = z3.Ints("q!j q!c")
    e = nid(i, l[j].v)
    S = K(q)
    length = l.len == cnt_f(S, k)
    entry = z3.Implies(z3.And(0 <= j, j < l.len), z3.And(base <= e, e < base + k, S[e - base], cnt_f(S, e - base) == j))
    placed = z3.Implies(z3.And(0 <= c, c < k, S[c]), nid(i, l[cnt_f(S, c)].v) == base + c)
    return l, length, (j, entry, e), (c, placed, S[c])


def hint_for(i0, o, base):
    old = o.old

    def hint(i, an, view):
        out = []
        H = Snap(i)
        m = z3.Int("q!m")
        k = an.k
        heap = {loc[1] for loc in an.mods if loc[0] == "heap"}
        if not heap:
            return out
        for s in heap:
            out.append(Cand("originals stay: " + s, [m], z3.Implies(m < base, H.cols[s][m] == old.cols[s][m]), [[H.cols[s][m]]], spec=True))
        making = ("alloc",) in an.mods
        top = base + k if making else base + o.n
        inn = z3.And(base <= m, m < top)
        w = H.raw(m)

        def cols(f):
            return [c for c in cols_of(i, "." + f) if c in heap]
        if making:
            for loc, v in loops_nodes(i, an):
                q = z3.Int("q!h")
                out.append(Cand("the new nodes", [q], z3.Implies(z3.And(0 <= q, q < v.len), z3.And(v.cols[0][q] == base + q, lib.alive_f(v.cols[0][q]))), [[v.cols[0][q]]], spec=True))
                out.append(Cand("as many as made", [], v.len == k, spec=True))
            a = old.raw(o.at(m - base))
            for f in ("joint", "link"):
                sub = [(f + "." + g, w.get(f).get(g).v, a.get(f).get(g).v) for g in w.get(f).fields()] if f == "joint" else [(f, w.get(f).v, a.get(f).v)]
                for name, v, u in sub:
                    out.append(Cand("copy of the " + name, [m], z3.Implies(inn, z3.And(ident(v, u))), [[H.cols[c][m]] for c in cols(name)], spec=True))
            for f in ("parent", "mimic_parent", "mimic"):
                out.append(Cand("no %s yet" % f, [m], z3.Implies(inn, w.get(f).is_("None")), [[H.cols[c][m]] for c in cols(f)[:1]], spec=True))
            for f in ("children", "mimic_children"):
                out.append(Cand("no %s yet" % f, [m], z3.Implies(inn, w.get(f).len == 0), [[H.cols[c][m]] for c in cols(f)], spec=True))
            return out
        for (label, e), f in zip(relations(i, o, H, base, m, k), ("parent", "mimic_parent", "mimic")):
            out.append(Cand(label, [m], z3.Implies(inn, e), [[H.cols[c][m]] for c in cols(f)], spec=True))
        for f, K in (("children", o.PK), ("mimic_children", o.MK)):
            l, length, (j, entry, e), (c, placed, p) = list_facts(i, o, H, base, m, f, K, k)
            out.append(Cand("length of " + f, [m], z3.Implies(inn, length), [[l.len]], spec=True))
            out.append(Cand("entries of " + f, [m, j], z3.Implies(inn, entry), [[e]], spec=True))
            out.append(Cand("places in " + f, [m, c], z3.Implies(inn, placed), [[p, l.len]], spec=True))
        return out
    hint.alone = True
    return hint


def loops_nodes(i, an):
    from specs.chain import node_vecs
    return node_vecs(i, an)


def chain_clone(i, fn="Chain::clone"):
    x = i.x
    old = start(i)
    base = old.alloc
    o = Original(i, old)
    c = o.c
    i.contracts["Joint::clone"] = copied
    i.contracts["Link::clone"] = copied
    i.contracts["Mimic::clone"] = copied
    i.contracts["Chain::from_nodes"] = from_nodes_contract
    i.templates.append(hint_for(i, o, base))
    i.unroll = 0
    r = chain_nodes(i, run(i, fn, [c.ref]))
    prove_no_guards(i)
    no_change(i, old, "cloning")
    new = Snap(i)
    x.prove(r.len == o.n, "the copy has as many nodes")
    q = x.fresh("q", IntS)
    x.assume(z3.And(0 <= q, q < o.n))
    m = nid(i, r[q].v)
    x.prove(m == base + q, "every node of the copy is new, and none stands twice")
    a = old.raw(o.at(q))
    w = new.raw(simp(base + q))
    for f in w.joint.fields():
        x.prove(z3.And(ident(w.joint.get(f).v, a.joint.get(f).v)), "the copy of a node has the same " + f)
    x.prove(z3.And(ident(w.link.v, a.link.v)), "the copy of a node has the same link")
    for label, e in relations(i, o, new, base, simp(base + q), o.n):
        x.prove(e, "the copy has the same " + label)
    for f, K, label in (("children", o.PK, "child"), ("mimic_children", o.MK, "follower")):
        l, length, (j, entry, e), (cc, placed, p) = list_facts(i, o, new, base, simp(base + q), f, K, o.n)
        jj = x.fresh("j", IntS)
        x.prove(z3.substitute(entry, (j, jj)), "every %s of a copy is the copy of a %s" % (label, label))
        x.prove(z3.substitute(placed, (cc, jj)), "the copy of every %s is a %s of the copy, in the order of the chain" % (label, label))


def serial_clone(i):
    """a serial chain is copied as the chain it holds"""
    from specs.locks import serial
    x = i.x
    old = start(i)
    c = Bare(i, old)
    made = []

    def inner(i, args):
        no_guards(i, "no node is held while a chain is copied")
        must_hold(i, same(i, lib.rd(i, args[0]), c.w.v), "the chain it holds is the one copied")
        made.append(i.x.fresh_of(i.reg.shape("Chain"), "copy"))
        return made[-1]
    i.contracts["Chain::clone"] = inner
    r = run(i, "SerialChain::clone", [serial(i, c)])
    prove_no_guards(i)
    x.prove(same(i, r.f[0], made[-1]), "the copy holds the copy of the chain")
    no_change(i, old, "cloning")


def tasks():
    P = "C08"
    T = [dict(prop=P, name=t + "::clone", body=lambda i, t=t: copy(i, t), fns=[t + "::clone"]) for t in TYPES]
    T.append(dict(prop=P, name="Chain::clone", body=chain_clone, fns=["Chain::clone"], budget=400))
    T.append(dict(prop=P, name="SerialChain::clone", body=serial_clone, fns=["SerialChain::clone"]))
    return T
