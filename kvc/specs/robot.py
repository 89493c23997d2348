"""The chain made from a URDF robot (C19)."""
from spec import *
import lib
from loops import Cand
from lib import cnt_f
from specs.urdf import Robot, ushape, ROOT
from specs.chain import start, no_change, has_parent, par, chain_nodes, node_vecs, Tree, from_root_contract
from specs.clone import ident


def conv(i, name, ush, u, sh):
    """what the conversion `name` (C18) makes of u: some function of u's parts"""
    ts = [t.z() if hasattr(t, "z") else t for t in ush.flat(u)]
    out = []
    for s, so in sh.leaves():
        out.append(z3.Function("%s%s" % (name, s), *([t.sort() for t in ts] + [so]))(*ts))
    return sh.build(out)


class Source:
    """a robot whose names are unique, whose links and joints are declared, and whose joints form a tree with one base link"""

    def __init__(self, i):
        x = i.x
        self.i = i
        R = self.R = Robot(i)
        n, l = R.n, R.l
        q, p = z3.Ints("wq wp")
        self.cidx = z3.Function("joint_of_child", Str, IntS)
        self.nidx = z3.Function("joint_named", Str, IntS)
        self.lidx = z3.Function("link_named", Str, IntS)
        inn, inl = z3.And(0 <= q, q < n), z3.And(0 <= q, q < l)
        # names are unique, and no link is the child of two joints
        x.assume(z3.ForAll([q], z3.Implies(inn, self.cidx(R.child(q)) == q), patterns=[R.child(q)]))
        x.assume(z3.ForAll([q], z3.Implies(inn, self.nidx(R.jname(q)) == q), patterns=[R.jname(q)]))
        x.assume(z3.ForAll([q], z3.Implies(inl, self.lidx(R.lname(q)) == q), patterns=[R.lname(q)]))
        # what is named is declared
        for f in (R.child, R.parent):
            x.assume(z3.ForAll([q], z3.Implies(inn, self.is_link(f(q))), patterns=[f(q)]))
        x.assume(z3.ForAll([q], z3.Implies(z3.And(inn, self.mimics(q)), self.is_joint(self.followed(q))), patterns=[self.followed(q)]))
        # no cycles
        self.depth = z3.Function("depth_in_urdf", IntS, IntS)
        up = self.cidx(R.parent(q))
        x.assume(z3.ForAll([q], z3.Implies(inn, z3.If(self.orphan(q), self.depth(q) == 1, z3.And(self.depth(q) == self.depth(up) + 1, self.depth(up) >= 1))),
                           patterns=[R.parent(q), self.depth(q)]))
        # sets of joints: those whose parent link is s, those that follow joint p, those without a parent joint
        self.PS = z3.Function("joints_below", Str, z3.ArraySort(IntS, BoolS))
        self.MS = z3.Function("followers_of", IntS, z3.ArraySort(IntS, BoolS))
        self.OS = z3.Const("orphans", z3.ArraySort(IntS, BoolS))
        s = z3.Const("ws", Str)
        x.assume(z3.ForAll([s, q], z3.And(self.PS(s)[q] == (R.parent(q) == s), cnt_f(self.PS(s), q) >= 0), patterns=[self.PS(s)[q], z3.MultiPattern(self.PS(s), R.parent(q))]))
        x.assume(z3.ForAll([p, q], self.MS(p)[q] == z3.And(self.mimics(q), self.nidx(self.followed(q)) == p), patterns=[self.MS(p)[q]]))
        x.assume(z3.ForAll([q], self.OS[q] == self.orphan(q), patterns=[self.OS[q]]))
        # one link is no joint's child
        self.b0 = z3.Int("base_link")
        x.assume(z3.ForAll([q], z3.Implies(z3.And(inl, self.base(q)), q == self.b0), patterns=[R.lname(q)]))

    def mimics(self, q):
        return self.R.joints[q].mimic.is_("Some")

    def followed(self, q):
        return self.R.joints[q].mimic.pl("Some").joint.v

    def is_link(self, s):
        j = self.lidx(s)
        return z3.And(0 <= j, j < self.R.l, self.R.lname(j) == s)

    def is_joint(self, s):
        j = self.nidx(s)
        return z3.And(0 <= j, j < self.R.n, self.R.jname(j) == s)

    def is_child(self, s):
        j = self.cidx(s)
        return z3.And(0 <= j, j < self.R.n, self.R.child(j) == s)

    def orphan(self, q):
        return z3.Not(self.is_child(self.R.parent(q)))

    def base(self, q):
        return z3.Not(self.is_child(self.R.lname(q)))

    def conv(self, ty, u):
        i = self.i
        return conv(i, ty, u.sh, u.v, i.reg.shape(ty))

    def joint(self, q):
        return self.conv("Joint", self.R.joints[q])

    def link(self, q):
        return self.conv("Link", self.R.links[q])

    def mimic(self, q):
        return self.conv("Mimic", self.R.joints[q].mimic.pl("Some"))


def by_conv(ty, uty):
    def contract(i, args):
        u = lib.rd(i, args[0])
        sh = i.reg.shape(ty)
        v = conv(i, ty, ushape(i, uty), u, sh)
        r = []
        tag_ranges(sh, v, r)
        for t, m in r:
            i.x.assume(z3.And(0 <= t, t < m))
        return v
    return contract


class At:
    """the nodes in some state, with the bound of a loop"""

    def __init__(self, i, S, base, H):
        self.i, self.S, self.base, self.H = i, S, base, H

    def id(self, q):
        return self.base + 1 + q

    def opt(self, w, c, e):
        """w is Some(e) if c, else None"""
        return z3.If(c, z3.And(w.is_("Some"), w.pl("Some").v.id == e), w.is_("None"))

    def parent(self, q, k2, k4):
        S = self.S
        pl = S.R.parent(q)
        w = self.H.raw(self.id(q)).parent
        return z3.If(S.orphan(q), self.opt(w, q < k4, self.base), self.opt(w, S.lidx(pl) < k2, self.id(S.cidx(pl))))

    def link(self, q, k2):
        S = self.S
        w = self.H.raw(self.id(q)).link
        m = S.lidx(S.R.child(q))
        return z3.If(m < k2, z3.And([w.is_("Some")] + ident(w.pl("Some").v, S.link(m))), w.is_("None"))

    def root_link(self, k2):
        w = self.H.raw(self.base).link
        b = self.S.b0
        return z3.If(z3.And(0 <= b, b < k2, self.S.base(b)), z3.And([w.is_("Some")] + ident(w.pl("Some").v, self.S.link(b))), w.is_("None"))

    def mimic(self, q, k3):
        S = self.S
        w = self.H.raw(self.id(q))
        c = z3.And(q < k3, S.mimics(q))
        return [("mimic parent", "mimic_parent", self.opt(w.mimic_parent, c, self.id(S.nidx(S.followed(q))))),
                ("mimic rule", "mimic", z3.If(c, z3.And([w.mimic.is_("Some")] + ident(w.mimic.pl("Some").v, S.mimic(q))), w.mimic.is_("None")))]

    def lst(self, m, f, K, n):
        """the list f of node m holds the joints of K among the first n, in order: length, (j, entry, term), (c, place, term)"""
        l = self.H.raw(m).get(f)
        return vec_facts(self, l.len, lambda j: nid(self.i, l[j].v), K, n)


def vec_facts(A, ln, at, K, n):
    j, c = z3.Ints("q!j q!c")
    e = at(j)
    r = e - A.base - 1
    entry = z3.Implies(z3.And(0 <= j, j < ln), z3.And(A.base < e, e <= A.base + n, lib.alive_f(e), K[r], cnt_f(K, r) == j))
    placed = z3.Implies(z3.And(0 <= c, c < n, K[c]), at(cnt_f(K, c)) == A.id(c))
    return ln == cnt_f(K, n), (j, entry, e), (c, placed, K[c])


class Hint:
    alone = True

    def __init__(self, i, S, base):
        self.S, self.base = S, base
        self.outer = None

    def __call__(self, i, an, view):
        out = []
        heap = {loc[1] for loc in an.mods if loc[0] == "heap"}
        making = ("alloc",) in an.mods
        if not heap and not making:
            return out
        C = lambda label, vs, body, pats=(): out.append(Cand(label, vs, body, pats, spec=True))
        cols = lambda f: [c for c in cols_of(i, "." + f) if c in heap]
        H = Snap(i)
        saved = i.x.st
        i.x.st = an.s0
        E = Snap(i)
        i.x.st = saved
        base, S, k = self.base, self.S, an.k
        R, n = S.R, S.R.n
        A = At(i, S, base, H)
        m, q = z3.Ints("q!m q!h")
        t = m - base - 1
        old = m < base
        if making:
            self.stage = 1
            for s in heap:
                C("nodes before stay: " + s, [m], z3.Implies(m <= base, H.cols[s][m] == E.cols[s][m]), [[H.cols[s][m]]])
            for loc, v in node_vecs(i, an):
                e = v.cols[0][q]
                C("the new nodes", [q], z3.Implies(z3.And(0 <= q, q < v.len), z3.And(e == A.id(q), lib.alive_f(e))), [[e]])
                C("as many as made", [], v.len == k)
            inn = z3.And(base < m, t < k)
            C("held nodes are alive", [m], z3.Implies(inn, lib.alive_f(m)), [[lib.alive_f(m)]])
            w = H.raw(m)
            J = W(i, i.reg.shape("Joint"), S.joint(t))
            for g in J.fields():
                C("joint " + g, [m], z3.Implies(inn, z3.And(ident(w.joint.get(g).v, J.get(g).v))), [[H.cols[c][m]] for c in cols("joint." + g)])
            for f in ("parent", "mimic_parent", "mimic", "link"):
                C("no %s yet" % f, [m], z3.Implies(inn, w.get(f).is_("None")), [[H.cols[c][m]] for c in cols(f)[:1]])
            for f in ("children", "mimic_children"):
                C("no %s yet" % f, [m], z3.Implies(inn, w.get(f).len == 0), [[H.cols[c][m]] for c in cols(f)])
            self.maps(i, an, A, C)
            return out
        inn = z3.And(base < m, t < n)
        for s in heap:
            C("old nodes stay: " + s, [m], z3.Implies(old, H.cols[s][m] == E.cols[s][m]), [[H.cols[s][m]]])

        def lists(f, K, ln, cond, mm=m):
            L = A.lst(mm, f, K, ln)
            length, (j, entry, e), (c, placed, p) = L
            vs = [mm] if mm is m else []
            C("length of " + f, vs, z3.Implies(cond, length), [[H.raw(mm).get(f).len]])
            C("entries of " + f, vs + [j], z3.Implies(cond, entry), [[e]])
            C("places in " + f, vs + [c], z3.Implies(cond, placed), [[p, H.raw(mm).get(f).len]] if vs else [[p]])
        if cols("link"):
            # the links, one after the other
            self.stage, self.outer = 2, k
            C("link", [m], z3.Implies(inn, A.link(t, k)), [[H.cols[c][m]] for c in cols("link")])
            C("link of the root", [], A.root_link(k))
            C("parent", [m], z3.Implies(inn, A.parent(t, k, I(0))), [[H.cols[c][m]] for c in cols("parent")])
            cl = R.child(t)
            lists("children", S.PS(cl), z3.If(S.lidx(cl) < k, n, 0), inn)
            C("no children of the root yet", [], H.raw(base).children.len == 0)
            for c in cols("parent"):
                C("the root has no parent", [], H.cols[c][base] == E.cols[c][base])
        elif cols("mimic"):
            self.stage, self.outer = 3, None
            for label, f, e in A.mimic(t, k):
                C(label, [m], z3.Implies(inn, e), [[H.cols[c][m]] for c in cols(f)])
            lists("mimic_children", S.MS(t), k, inn)
            for s in cols("mimic_children") + cols("mimic") + cols("mimic_parent"):
                C("the root stays: " + s, [], H.cols[s][base] == E.cols[s][base])
        elif cols("parent") and self.outer is not None:
            # the joints below one link
            s = R.lname(self.outer)
            K = S.PS(s)
            p = A.id(S.cidx(s))
            mine = z3.And(inn, K[t], cnt_f(K, t) < k)
            w = H.raw(m).parent
            C("parent of those so far", [m], z3.Implies(mine, z3.And(w.is_("Some"), w.pl("Some").v.id == p)), [[H.cols[c][m]] for c in cols("parent")])
            for c in cols("parent"):
                C("parents of the others", [m], z3.Implies(z3.Not(mine), H.cols[c][m] == E.cols[c][m]), [[H.cols[c][m]]])
            for c in cols("children"):
                C("children of others", [m], z3.Implies(m != p, H.cols[c][m] == E.cols[c][m]), [[H.cols[c][m]]])
            l = H.raw(p).children
            j, c = z3.Ints("q!j q!c")
            e = nid(i, l[j].v)
            r = e - base - 1
            C("as many children", [], l.len == k)
            C("entries of children", [j], z3.Implies(z3.And(0 <= j, j < l.len), z3.And(base < e, e <= base + n, lib.alive_f(e), K[r], cnt_f(K, r) == j)), [[e]])
            C("places in children", [c], z3.Implies(z3.And(0 <= c, c < n, K[c], cnt_f(K, c) < k), nid(i, l[cnt_f(K, c)].v) == A.id(c)), [[K[c]]])
        elif cols("parent"):
            # those without a parent
            w = H.raw(m).parent
            C("parent", [m], z3.Implies(inn, A.parent(t, R.l, k)), [[H.cols[c][m]] for c in cols("parent")])
            for c in cols("parent"):
                C("the root has no parent", [], H.cols[c][base] == E.cols[c][base])
            for c in cols("children"):
                C("children of others", [m], z3.Implies(m != base, H.cols[c][m] == E.cols[c][m]), [[H.cols[c][m]]])
            lists("children", S.OS, k, z3.BoolVal(True), base)
        return out

    def maps(self, i, an, A, C):
        S, k = self.S, an.k
        R = S.R
        s = z3.Const("s!h", Str)
        for loc, v in an.mods.items():
            if not isinstance(v, Map):
                continue
            if isinstance(v.vsh, VecSh):
                K = S.PS(s)
                w = W(i, v.vsh, v.vsh.build([c[s] for c in v.cols]))
                C("links with joints", [s], v.dom[s] == (cnt_f(K, k) > 0), [[v.dom[s]]])
                length, (j, entry, e), (c, placed, p) = vec_facts(A, w.len, lambda j: nid(i, w[j].v), K, k)
                C("joints of a link: how many", [s], z3.Implies(v.dom[s], length), [[w.len]])
                C("joints of a link: which", [s, j], z3.Implies(v.dom[s], entry), [[e]])
                C("joints of a link: all", [s, c], z3.Implies(v.dom[s], placed), [[p, w.len]])
                continue
            n = v.cols[0][s]
            for nm, ix, f in (("child links", S.cidx, R.child), ("joint names", S.nidx, R.jname)):
                # the map by which names
                if isinstance(v.ksh, RefSh) != (nm == "child links"):
                    continue
                j = ix(s)
                has = z3.And(0 <= j, j < k, f(j) == s)
                C("keys are the " + nm, [s], v.dom[s] == has, [[v.dom[s]]])
                C("nodes by " + nm, [s], z3.Implies(has, z3.And(n == A.id(j), lib.alive_f(n))), [[n], [v.dom[s]]])


def chain_from(i):
    x = i.x
    old = start(i)
    base = old.alloc
    x.assume(base >= 0)
    S = Source(i)
    R = S.R
    i.unroll = 0
    i.contracts["Joint::from(&Joint)"] = by_conv("Joint", "Joint")
    i.contracts["Link::from(Link)"] = by_conv("Link", "Link")
    i.contracts["Mimic::from(&Mimic)"] = by_conv("Mimic", "Mimic")
    i.templates.append(Hint(i, S, base))
    i.contracts["Chain::from_root"] = from_root_contract(lambda H, r: Built(i, S, base, H, r))
    c = chain_nodes(i, run(i, "Chain::from(&Robot)", [R.ref]))
    prove_no_guards(i)
    new = Snap(i)
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < base))
    for f, e in same_node(i, new, old, m):
        x.prove(e, "building a chain changes no other node's " + f)
    # the nodes of the chain
    q, j = x.fresh("q", IntS), x.fresh("j", IntS)
    at = lambda p: nid(i, c[p].v)
    A = At(i, S, base, new)
    inn = z3.And(0 <= q, q < R.n)
    inc = z3.And(0 <= j, j < c.len)
    x.prove(at(I(0)) == base, "the chain starts with the root node")
    x.prove(z3.Implies(inc, z3.And(base <= at(j), at(j) <= base + R.n)), "the chain has no nodes but the root and one for each joint")
    k = x.fresh("k", IntS)
    x.prove(z3.Implies(z3.And(inc, 0 <= k, k < j), at(j) != at(k)), "no node is in the chain twice")
    place = z3.Function("place_in_chain", IntS, IntS)
    x.prove(z3.Implies(inn, z3.And(0 <= place(A.id(q)), place(A.id(q)) < c.len, at(place(A.id(q))) == A.id(q))), "the node of every joint is in the chain")
    root = new.raw(base)
    x.prove(root.joint.get("name").eq(str_lit(ROOT)), "the root node has the root's name")
    x.prove(root.parent.is_("None"), "the root node has no parent")
    x.prove(root.joint.joint_type.is_("Fixed"), "the root node is fixed")
    x.prove(A.root_link(R.l), "the root node carries the base link")
    x.assume(inn)
    w = new.raw(A.id(q))
    J = W(i, i.reg.shape("Joint"), S.joint(q))
    for f in w.joint.fields():
        x.prove(z3.And(ident(w.joint.get(f).v, J.get(f).v)), "the node of a joint has the %s the joint is converted to" % f)
    pl = R.parent(q)
    x.prove(z3.If(S.is_child(pl), A.opt(w.parent, True, A.id(S.cidx(pl))), A.opt(w.parent, True, base)),
            "a joint's parent is the joint whose child link is its parent link, or the root")
    ch = R.child(q)
    x.prove(z3.And([w.link.is_("Some"), S.is_link(ch)] + ident(w.link.pl("Some").v, S.link(S.lidx(ch)))), "the node of a joint carries its child link")
    for label, f, e in A.mimic(q, R.n):
        x.prove(e, "the node of a joint has the %s of the joint" % label)
    for f, K, mm, label in (("children", S.PS(ch), A.id(q), "child"), ("mimic_children", S.MS(q), A.id(q), "follower"), ("children", S.OS, base, "child of the root")):
        length, (jj, entry, e), (cc, placed, p) = A.lst(mm, f, K, R.n)
        u = x.fresh("u", IntS)
        x.prove(length, "as many as there are: " + label)
        x.prove(z3.substitute(entry, (jj, u)), "every %s is the node of such a joint" % label)
        x.prove(z3.substitute(placed, (cc, u)), "the node of every such joint is a " + label)


class Built:
    """the tree that is built: the root, below it the joints"""

    def __init__(self, i, S, base, H, r):
        self.i, self.S, self.base, self.H, self.r = i, S, base, H, r

    def D(self, m):
        return z3.And(self.base <= m, m <= self.base + self.S.R.n)

    def depth(self, m):
        return z3.If(m == self.base, 0, self.S.depth(m - self.base - 1))

    def ci(self, m):
        q = m - self.base - 1
        return z3.If(self.S.orphan(q), cnt_f(self.S.OS, q), cnt_f(self.S.PS(self.S.R.parent(q)), q))

    def cases(self, x):
        """every node of the tree is one of these"""
        q, m = x.fresh("q", IntS), x.fresh("m", IntS)
        x.prove(z3.Implies(z3.And(self.D(m), m - self.base - 1 == q), z3.Or(m == self.base, z3.And(0 <= q, q < self.S.R.n, m == self.base + 1 + q))),
                "a node of the tree is the root or that of a joint")
        return [self.base, simp(self.base + 1 + q)]

    down, up = Tree.down, Tree.up


def by_value(i):
    """a robot given by value, or read from a file, is converted as the one by reference"""
    x = i.x
    old = start(i)
    R = Robot(i)
    made = []

    def inner(i, args):
        must_hold(i, same(i, lib.rd(i, args[0]), R.w.v), "the robot is the one given")
        made.append(x.fresh_of(i.reg.shape("Chain"), "chain"))
        return made[-1]
    i.contracts["Chain::from(&Robot)"] = inner
    r = run(i, "Chain::from(Robot)", [R.w.v])
    x.prove(z3.And(ident(r, made[-1])), "the chain is the one made from the robot")
    no_change(i, old, "passing a robot on")


def tasks():
    P = "C19"
    T = [("Chain::from(&Robot)", chain_from), ("Chain::from(Robot)", by_value)]
    return [dict(prop=P, name=f, body=b, fns=[f], budget=600) for f, b in T]
