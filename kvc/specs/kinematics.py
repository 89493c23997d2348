"""Forward kinematics (C04), velocities (C09), Jacobian (C10), center of mass (C11), link poses (C12)."""
from spec import *
import lib
from loops import Cand, occurs as loops_occurs
from specs.chain import AChain, start, no_change, has_parent, par, movable_at, cnt_f, unr_f

TF = ".joint.world_transform_cache"
VL = ".joint.world_velocity_cache"


# ---------------------------------------------------------------- vocabulary
class Iso:
    """a rigid motion as rotation and translation"""

    def __init__(self, r, t):
        self.r, self.t = r, list(t)

    def __mul__(self, o):
        return Iso(self.r * o.r, [a + b for a, b in zip(self.t, self.r.apply(o.t))])

    def same(self, o):
        return z3.And([self.r.z() == o.r.z()] + [a.z() == b.z() for a, b in zip(self.t, o.t)])


IDENT = Iso(Rot.ident(), [Poly.const(0)] * 3)


def iso_of(w):
    """of a view of a nalgebra isometry"""
    sh, v = w.sh, w.v
    return Iso(v.f[sh.names.index("rotation")], v.f[sh.names.index("translation")].f[0].e)


def cache(H, n):
    """(present, transform) of the world transform of node n"""
    c = H.raw(n).joint.get("world_transform_cache")
    c = c[0] if isinstance(c.sh, StructSh) else c
    return c.is_("Some"), iso_of(c.pl("Some"))


def axis(jw, kind):
    return list(jw.joint_type.pl(kind, "axis").v.f[0].e)


KINDS = ("Fixed", "Rotational", "Linear")


def motion(jw, kind):
    """what the joint does to its origin"""
    p = jw.position.v
    if kind == "Fixed":
        return IDENT
    a = axis(jw, kind)
    if kind == "Linear":
        return Iso(Rot.ident(), [x * p for x in a])
    return Iso(Rot.atom(raa_f(*[x.z() for x in a], p.z())), [Poly.const(0)] * 3)


def local(jw, kind):
    return iso_of(jw.origin) * motion(jw, kind)


def local_transform(i):
    x = i.x
    old = start(i)
    n, rn = a_node(i, "n")
    sh = i.reg.shape("Joint")
    jw = old.raw(n).joint
    r = run(i, "Joint::local_transform", [i.new_cell(jw.v)])
    w = W(i, sh.subs[sh.names.index("origin")], r)
    for k in KINDS:
        x.prove(z3.Implies(jw.joint_type.is_(k), iso_of(w).same(local(jw, k))), "the local transform of a %s joint is origin followed by motion" % k)


# ---------------------------------------------------------------- chains in a tree
def tree_chain(i, H, vel=False):
    """a chain with parents first; poses of nodes outside it are up to date"""
    x = i.x
    c = AChain(i)
    q = z3.Int("wq")
    e = c.at(q)
    p = par(H, e)
    have = cache(H, p)[0]
    if vel:
        have = z3.And(have, vcache(H, p)[0])
    c.inside = lambda n: z3.And(0 <= c.place(n), c.place(n) < c.n, c.at(c.place(n)) == n)
    x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.n, has_parent(H, e)), z3.If(c.inside(p), c.place(p) < q, have)), patterns=[e]))
    # a lemma of the above for the triggers: the place of a place
    return c


def vcache(H, n):
    c = H.raw(n).joint.get("world_velocity_cache")
    c = c[0] if isinstance(c.sh, StructSh) else c
    return c.is_("Some"), c.pl("Some")


def iso_vecs(i, an):
    """vectors of isometries the loop builds"""
    out = []
    for loc, t in an.mods.items():
        if isinstance(t, Vec) and getattr(t.sh, "name", "") == "Isometry":
            out.append(t)
    return out


def pose_law(H, n, jw, kind, up):
    """node n's pose in H is its parent's followed by the local one"""
    have, t = cache(H, n)
    pt = cache(H, par(H, n))[1] if up else IDENT
    cond = z3.And(jw.joint_type.is_(kind), has_parent(H, n) if up else z3.Not(has_parent(H, n)))
    return z3.Implies(cond, t.same(pt * local(jw, kind)))


def transforms_hint(c, old):
    def hint(i, an, view):
        out = []
        q = z3.Int("q!h")
        H = Snap(i)
        n = c.at(q)
        done = z3.And(0 <= q, q < an.k, q < c.n)
        have, t = cache(H, n)
        out.append(Cand("poses present so far", [q], z3.Implies(done, have), [[n]], spec=True))
        jw = old.raw(n).joint
        for kind in KINDS:
            for up in (False, True):
                out.append(Cand("poses so far (%s, %s)" % (kind, "child" if up else "root"), [q], z3.Implies(done, pose_law(H, n, jw, kind, up)), [[n]], spec=True))
        for v in iso_vecs(i, an):
            w = iso_of(W(i, v.sh, vec_at(v, q)))
            out.append(Cand("poses listed so far", [q], z3.Implies(done, w.same(t)), [[n]], spec=True))
        m = z3.Int("m!h")
        for col in cols_of(i, TF):
            out.append(Cand("poses of other nodes", [m], z3.Implies(z3.Not(z3.And(c.inside(m), c.place(m) < an.k)), H.cols[col][m] == old.cols[col][m]),
                            [[H.cols[col][m]]], spec=True))
        return out
    hint.alone = True
    return hint


def poses_hold(i, c, old, new, j):
    """what update_transforms leaves at place j"""
    n = c.at(j)
    jw = old.raw(n).joint
    return [("present", cache(new, n)[0])] + [("%s %s" % (kind, "with parent" if up else "without parent"), pose_law(new, n, jw, kind, up))
                                              for kind in KINDS for up in (True, False)]


def update_transforms(i):
    x = i.x
    old = start(i)
    c = tree_chain(i, old)
    i.templates.append(transforms_hint(c, old))
    r = run(i, "Chain::update_transforms", [c.ref])
    prove_no_guards(i)
    new = Snap(i)
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.n))
    for what, f in poses_hold(i, c, old, new, j):
        x.prove(f, "pose of a node: " + what)
    x.prove(r.len == c.n, "as many transforms as nodes")
    x.prove(iso_of(W(i, r.sh, vec_at(r, j))).same(cache(new, c.at(j))[1]), "the list holds the poses in chain order")
    only_caches(i, c, old, new, TF)


def only_caches(i, c, old, new, *fields):
    """nothing but the named caches of the chain's nodes changes"""
    x = i.x
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    for f, e in same_node(i, new, old, m, ("joint",)):
        x.prove(e, "the update changes no " + f)
    a, b = old.raw(m).joint, new.raw(m).joint
    for f in a.fields():
        e = b.get(f).eq(a.get(f))
        if ".joint." + f in fields:
            x.prove(z3.Implies(z3.Not(c.inside(m)), e), "no %s outside the chain changes" % f)
        else:
            x.prove(e, "the update changes no joint's " + f)


# ---------------------------------------------------------------- contract of update_transforms for its callers
def same_chain(i, c, v):
    """is the argument the chain the specification talks about?"""
    sh = i.reg.shape("Chain")
    v = lib.rd(i, v)
    while isinstance(v, Struct) and v.name != sh.name:
        v = lib.rd(i, v.f[0])
    w = W(i, sh, v)
    must_hold(i, z3.BoolVal(w.nodes.v.cols[0].eq(c.nodes.v.cols[0]) and w.nodes.len.eq(c.n)), "the callee works on the chain itself")


def parents_first(c, H, q, *have):
    """what the update needs of place q"""
    e = c.at(q)
    p = par(H, e)
    return z3.Implies(z3.And(0 <= q, q < c.n, has_parent(H, e)), z3.If(c.inside(p), c.place(p) < q, z3.And([f(H, p)[0] for f in have])))


def update_transforms_contract(c):
    def f(i, args):
        x = i.x
        no_guards(i, "no lock is held when transforms are updated")
        same_chain(i, c, args[0])
        old = Snap(i)
        q = x.fresh("q", IntS)
        must_hold(i, parents_first(c, old, q, cache), "parents stand before their children; poses outside the chain are up to date")
        havoc(i, TF)
        new = Snap(i)
        w = z3.Int("wq")
        e = c.at(w)
        for what, g in poses_hold(i, c, old, new, w):
            x.assume(z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < c.n), g), patterns=[e]))
        m = z3.Int("wm")
        unchanged_nodes(i, old, new, m, z3.Not(c.inside(m)), (TF,))
        r = x.fresh_of(ret_shape(i, "Chain::update_transforms"), "poses")
        t = iso_of(W(i, r.sh, vec_at(r, w)))
        x.assume(r.len == c.n)
        x.assume(z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < c.n), t.same(cache(new, e)[1])), patterns=[t.r.z()]))
        c.updated = new
        return r
    return f


# ---------------------------------------------------------------- the end of a serial chain
class Products:
    """P(q): the product of the local transforms of the first q nodes, by recursion"""

    def __init__(self, i, c, H):
        self.R = z3.Function("P_rot", IntS, RotS)
        self.T = [z3.Function("P_t%d" % k, IntS, RealS) for k in range(3)]
        self.i, self.c, self.H = i, c, H
        i.x.assume(z3.And(self.R(0) == r_id, *[f(0) == 0 for f in self.T]))

    def at(self, q):
        if as_int(q) == 0:
            return IDENT
        return Iso(rot(self.R(q)), [poly(f(q)) for f in self.T])

    def step(self, q):
        """the defining equation for place q"""
        jw = self.H.raw(self.c.at(q)).joint
        s = self.at(q)
        return z3.Implies(z3.And(0 <= q, q < self.c.n),
                          z3.And([z3.Implies(jw.joint_type.is_(k), self.at(simp(q + 1)).same(s * local(jw, k))) for k in KINDS]))


def isos(i, an):
    """rigid motions the loop carries along"""
    out = []

    def go(v):
        if isinstance(v, Struct) and v.name == "Isometry":
            out.append(v)
        elif isinstance(v, (Struct, It)):
            for y in v.f:
                go(y)
    for t in an.mods.values():
        if t is not None and not z3.is_expr(t):
            go(t)
    return out


def product_hint(P):
    def hint(i, an, view):
        i.x.assume(P.step(an.k))
        sh = i.reg.shape("Joint")
        sh = sh.subs[sh.names.index("origin")]
        return [Cand("the product so far", [], iso_of(W(i, sh, v)).same(P.at(an.k)), spec=True) for v in isos(i, an)]
    hint.alone = True
    return hint


def serial_ref(i, c):
    sh = i.reg.shape("SerialChain")
    return i.new_cell(Struct(sh.name, [c.w.v]))


def end_transform(i):
    x = i.x
    old = start(i)
    c = AChain(i)
    P = Products(i, c, old)
    i.templates.append(product_hint(P))
    r = run(i, "SerialChain::end_transform", [serial_ref(i, c)])
    prove_no_guards(i)
    no_change(i, old, "computing the end transform")
    sh = i.reg.shape("Joint")
    x.prove(iso_of(W(i, sh.subs[sh.names.index("origin")], r)).same(P.at(c.n)), "the end transform is the product of the local transforms in order")


def end_is_last(i):
    """lemma: on a serial chain from a root with updated poses, P(q+1) is the pose of node q (induction on q)"""
    x = i.x
    H = start(i)
    c = AChain(i)
    P = Products(i, c, H)
    q = x.fresh("q", IntS)
    x.assume(z3.And(0 <= q, q < c.n))
    n = c.at(q)
    jw = H.raw(n).joint
    for what, g in poses_hold(i, c, H, H, q):
        x.assume(g)
    x.assume(P.step(q))
    x.assume(z3.Or(*[jw.joint_type.is_(k) for k in KINDS]))
    prev = c.at(simp(q - 1))
    x.assume(z3.If(q == 0, z3.Not(has_parent(H, n)), z3.And(has_parent(H, n), par(H, n) == prev)))      # serial, from a root
    x.assume(z3.Implies(q > 0, cache(H, prev)[1].same(P.at(q))))                                        # induction hypothesis
    kind = [k for k in KINDS if x.choose(jw.joint_type.is_(k))]
    if len(kind) != 1:
        x.end()
    if x.choose(q == 0):
        x.assume(P.step(I(0)))
        x.prove(cache(H, n)[1].same(P.at(I(1))), "the first node's pose is the first product")
    else:
        x.prove(cache(H, n)[1].same(P.at(simp(q + 1))), "each node's pose is the product up to it")


# ---------------------------------------------------------------- C10
def end_contract(c, P):
    def f(i, args):
        no_guards(i, "no lock is held when the end transform is computed")
        same_chain(i, c, args[0])
        H = Snap(i)
        for col in cols_of(i, ".joint.position", ".joint.origin", ".joint.joint_type"):
            must_hold(i, z3.BoolVal(H.cols[col].eq(P.H.cols[col])), "the end transform is computed at the current positions")
        r = i.x.fresh_of(ret_shape(i, "SerialChain::end_transform"), "end")
        i.x.assume(iso_of(W(i, ret_shape(i, "SerialChain::end_transform"), r)).same(P.at(c.n)))
        return r
    return f


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def column_of(c, P, H, n, kind):
    """what the column of movable node n must be, with the poses of state H"""
    t = cache(H, n)[1]
    a = t.r.apply(axis(H.raw(n).joint, kind))
    if kind == "Linear":
        return a + [Poly.const(0)] * 3
    return cross(a, [p - q for p, q in zip(P.at(c.n).t, t.t)]) + a


def jacobian_hint(i0, c, P):
    """a loop that fills a matrix column by column"""
    def hint(i, an, view):
        out = []
        q = z3.Int("q!h")
        for loc, v in an.mods.items():
            if not isinstance(v, DMat):
                continue
            H = Snap(i)
            n = c.mat(q)
            for r in range(6):
                e = dm_at(v, I(r), q)
                for kind in ("Linear", "Rotational"):
                    out.append(Cand("row %d of the %s columns so far" % (r, kind), [q],
                                    z3.Implies(z3.And(0 <= q, q < an.k, q < c.m, H.raw(n).joint.joint_type.is_(kind)), e == column_of(c, P, H, n, kind)[r].z()), [[n], [e]], spec=True))
                out.append(Cand("row %d is zero from here" % r, [q], z3.Implies(q >= an.k, e == 0), [[e]], spec=True))
        return out
    return hint


def jacobian(i):
    x = i.x
    old = start(i)
    c = tree_chain(i, old)
    P = Products(i, c, old)
    i.contracts["Chain::update_transforms"] = update_transforms_contract(c)
    i.contracts["SerialChain::end_transform"] = end_contract(c, P)
    i.templates.append(jacobian_hint(i, c, P))
    r = run(i, "jacobian", [serial_ref(i, c)])
    prove_no_guards(i)
    new = Snap(i)
    x.prove(z3.And(r.r == 6, r.c == c.m), "six rows, one column per movable joint")
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.m))
    n = c.mat(j)
    jw = old.raw(n).joint
    kind = "Linear" if x.choose(jw.joint_type.is_("Linear")) else "Rotational"
    want = column_of(c, P, new, n, kind)
    for k in range(6):
        x.prove(dm_at(r, I(k), j) == want[k].z(), "row %d of the column of a %s joint" % (k, kind))
    q = x.fresh("q", IntS)
    x.assume(z3.And(0 <= q, q < c.n))
    for what, f in poses_hold(i, c, old, new, q):
        x.prove(f, "the poses used are up to date: " + what)
    only_caches(i, c, old, new, TF)


def dm_at(m, r, c):
    return m.arr[r][c]


# ---------------------------------------------------------------- C09
def vel_of(w):
    """(linear, angular) of a view of a velocity"""
    return list(w.translation.v.e), list(w.rotation.v.e)


ZERO3 = [Poly.const(0)] * 3


def vel_law(H, n, jw, kind, up):
    """node n's velocity in H is the rigid-body velocity"""
    lin, ang = vel_of(vcache(H, n)[1])
    t = cache(H, n)[1]
    p = par(H, n)
    pv, pw = vel_of(vcache(H, p)[1]) if up else (ZERO3, ZERO3)
    pt = cache(H, p)[1].t if up else ZERO3
    off = [a - b for a, b in zip(t.t, pt)]
    v = [a + b for a, b in zip(pv, cross(pw, off))]
    w = list(pw)
    if kind != "Fixed":
        qd = jw.velocity.v
        s = t.r.apply([a * qd for a in axis(jw, kind)])
        if kind == "Linear":
            v = [a + b for a, b in zip(v, s)]
        else:
            w = [a + b for a, b in zip(w, s)]
    cond = z3.And(jw.joint_type.is_(kind), has_parent(H, n) if up else z3.Not(has_parent(H, n)))
    return z3.Implies(cond, z3.And([a.z() == b.z() for a, b in zip(lin + ang, v + w)]))


def vel_vecs(i, an):
    return [t for t in an.mods.values() if isinstance(t, Vec) and getattr(t.sh, "name", "").endswith("Velocity")]


def velocities_hint(c, old):
    def hint(i, an, view):
        out = []
        q = z3.Int("q!h")
        H = Snap(i)
        n = c.at(q)
        done = z3.And(0 <= q, q < an.k, q < c.n)
        have, t = vcache(H, n)
        out.append(Cand("velocities present so far", [q], z3.Implies(done, have), [[n]], spec=True))
        jw = old.raw(n).joint
        for kind in KINDS:
            for up in (False, True):
                out.append(Cand("velocities so far (%s, %s)" % (kind, "child" if up else "root"), [q], z3.Implies(done, vel_law(H, n, jw, kind, up)), [[n]], spec=True))
        for v in vel_vecs(i, an):
            a, b = vel_of(W(i, v.sh, vec_at(v, q))), vel_of(t)
            out.append(Cand("velocities listed so far", [q], z3.Implies(done, z3.And([y.z() == z.z() for y, z in zip(a[0] + a[1], b[0] + b[1])])), [[n]], spec=True))
        m = z3.Int("m!h")
        for col in cols_of(i, VL):
            out.append(Cand("velocities of other nodes", [m], z3.Implies(z3.Not(z3.And(c.inside(m), c.place(m) < an.k)), H.cols[col][m] == old.cols[col][m]),
                            [[H.cols[col][m]]], spec=True))
        return out
    hint.alone = True
    return hint


def update_velocities(i):
    x = i.x
    old = start(i)
    c = tree_chain(i, old, True)
    i.contracts["Chain::update_transforms"] = update_transforms_contract(c)
    i.templates.append(velocities_hint(c, old))
    r = run(i, "Chain::update_velocities", [c.ref])
    prove_no_guards(i)
    new = Snap(i)
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.n))
    n = c.at(j)
    jw = old.raw(n).joint
    x.prove(vcache(new, n)[0], "velocity of a node: present")
    for kind in KINDS:
        for up in (True, False):
            x.prove(vel_law(new, n, jw, kind, up), "velocity of a node: %s %s" % (kind, "with parent" if up else "without parent"))
    for what, f in poses_hold(i, c, old, new, j):
        x.prove(f, "the poses used are up to date: " + what)
    x.prove(r.len == c.n, "as many velocities as nodes")
    a, b = vel_of(W(i, r.sh, vec_at(r, j))), vel_of(vcache(new, n)[1])
    x.prove(z3.And([y.z() == z.z() for y, z in zip(a[0] + a[1], b[0] + b[1])]), "the list holds the velocities in chain order")
    only_caches(i, c, old, new, TF, VL)


# ---------------------------------------------------------------- C11
class Sums:
    """prefix sums of mass and of mass times center, over the nodes that carry a link"""

    def __init__(self, i, c, H):
        self.M = z3.Function("S_mass", IntS, RealS)
        self.C = [z3.Function("S_com%d" % k, IntS, RealS) for k in range(3)]
        self.i, self.c, self.H = i, c, H
        i.x.assume(z3.And(self.M(0) == 0, *[f(0) == 0 for f in self.C]))

    def at(self, q):
        return poly(self.M(q)), [poly(f(q)) for f in self.C]

    def step(self, H, q):
        n = self.c.at(q)
        l = H.raw(n).link
        inr = l.pl("Some").inertial
        m = inr.mass.v
        p = (cache(H, n)[1] * iso_of(inr.origin)).t
        (a, b), (a1, b1) = self.at(q), self.at(simp(q + 1))
        return z3.Implies(z3.And(0 <= q, q < self.c.n),
                          z3.If(l.is_("Some"), z3.And([a1.z() == (a + m).z()] + [y.z() == (z + w * m).z() for y, z, w in zip(b1, b, p)]),
                                z3.And([a1.z() == a.z()] + [y.z() == z.z() for y, z in zip(b1, b)])))


def sums_hint(S):
    def hint(i, an, view):
        H = Snap(i)
        i.x.assume(S.step(H, an.k))
        out = []
        m, cs = S.at(an.k)

        def go(v):
            if isinstance(v, Poly):
                out.append(Cand("mass so far", [], v.z() == m.z(), spec=True))
            elif isinstance(v, Mat) and v.r == 3 and v.c == 1:
                for k in range(3):
                    out.append(Cand("weighted center so far", [], v.e[k].z() == cs[k].z(), spec=True))
            elif isinstance(v, (Struct, It)):
                for y in v.f:
                    go(y)
        for t in an.mods.values():
            if t is not None and not z3.is_expr(t):
                go(t)
        return out
    hint.alone = True
    return hint


def center_of_mass(i):
    x = i.x
    old = start(i)
    c = tree_chain(i, old)
    i.contracts["Chain::update_transforms"] = update_transforms_contract(c)
    S = Sums(i, c, old)
    i.templates.append(sums_hint(S))
    r = run(i, "center_of_mass", [c.ref])
    prove_no_guards(i)
    new = Snap(i)
    m, cs = S.at(c.n)
    for k in range(3):
        x.prove(r.e[k].z() == n_div(cs[k], m).z(), "coordinate %d is the weighted sum over the nodes with a link, divided by the sum of the masses" % k)
    q = x.fresh("q", IntS)
    x.assume(z3.And(0 <= q, q < c.n))
    for what, f in poses_hold(i, c, old, new, q):
        x.prove(f, "the poses used are up to date: " + what)
    only_caches(i, c, old, new, TF)


# ---------------------------------------------------------------- C12
LINK = ".link"
ELEMS = ("collisions", "visuals")


def placed(w, pose):
    """a link element's cached pose is the given one followed by its own origin"""
    cc = w.get("world_transform_cache")
    return z3.And(cc.is_("Some"), iso_of(cc.pl("Some")).same(pose * iso_of(w.origin)))


def link_cache_cols(i):
    return [n for n in i.nodeleaves if n.startswith(LINK) and ".world_transform_cache" in n]


def link_of(H, n):
    l = H.raw(n).link
    return l.is_("Some"), l.pl("Some")


def links_hint(c, old):
    def hint(i, an, view):
        H = Snap(i)
        if not any(loc[0] == "heap" and ".inertial." in loc[1] for loc in an.mods):
            return []
        out = []
        q, j = z3.Ints("q!h j!h")
        n = c.at(q)
        have, l = link_of(H, n)
        pose = cache(H, n)[1]
        done = z3.And(0 <= q, q < an.k, q < c.n, have)
        out.append(Cand("inertials placed so far", [q], z3.Implies(done, placed(l.inertial, pose)), [[n]], spec=True))
        for f in ELEMS:
            v = l.get(f)
            e = placed(v[j], pose)
            tag = v[j].get("world_transform_cache").v.tag
            out.append(Cand("%s placed so far" % f, [q, j], z3.Implies(z3.And(done, 0 <= j, j < v.len), e), [[tag]], spec=True))
        m = z3.Int("m!h")
        for col in link_cache_cols(i):
            out.append(Cand("poses of other links", [m], z3.Implies(z3.Not(z3.And(c.inside(m), c.place(m) < an.k, link_of(old, m)[0])), H.cols[col][m] == old.cols[col][m]),
                            [[H.cols[col][m]]], spec=True))
        return out
    hint.alone = True
    return hint


def update_links(i):
    x = i.x
    old = start(i)
    c = tree_chain(i, old)
    i.contracts["Chain::update_transforms"] = update_transforms_contract(c)
    i.templates.append(links_hint(c, old))
    run(i, "Chain::update_link_transforms", [c.ref])
    prove_no_guards(i)
    new = Snap(i)
    q, j, m = x.fresh("q", IntS), x.fresh("j", IntS), x.fresh("m", IntS)
    x.assume(z3.And(0 <= q, q < c.n))
    n = c.at(q)
    for what, f in poses_hold(i, c, old, new, q):
        x.prove(f, "the poses used are up to date: " + what)
    have, l = link_of(new, n)
    pose = cache(new, n)[1]
    x.prove(z3.Implies(have, placed(l.inertial, pose)), "the inertial of a link is placed")
    for f in ELEMS:
        v = l.get(f)
        x.prove(z3.Implies(z3.And(have, 0 <= j, j < v.len), placed(v[j], pose)), "each of the %s of a link is placed" % f)
    x.assume(z3.And(0 <= m, m < old.alloc))
    a, b = old.raw(m), new.raw(m)
    for f in a.fields():
        if f not in ("joint", "link"):
            x.prove(b.get(f).eq(a.get(f)), "the update changes no " + f)
    for f in a.joint.fields():
        e = b.joint.get(f).eq(a.joint.get(f))
        x.prove(z3.Implies(z3.Not(c.inside(m)), e) if ".joint." + f == TF else e, "the update changes no joint's " + f)
    for col in cols_of(i, LINK):
        e = new.cols[col][m] == old.cols[col][m]
        if col in link_cache_cols(i):
            x.prove(z3.Implies(z3.Or(z3.Not(c.inside(m)), z3.Not(link_of(old, m)[0])), e), "links outside the chain keep their poses")
        else:
            x.prove(e, "nothing else about a link changes")


def tasks():
    return [dict(prop="C04", name="Joint::local_transform", body=local_transform, fns=["Joint::local_transform"]),
            dict(prop="C04", name="Chain::update_transforms", body=update_transforms,
                 fns=["Chain::update_transforms", "Joint::local_transform", "Node::parent_world_transform", "Node::world_transform"], budget=400),
            dict(prop="C04", name="SerialChain::end_transform", body=end_transform, fns=["SerialChain::end_transform", "Joint::local_transform"]),
            dict(prop="C04", name="end transform and last pose (lemma)", body=end_is_last, fns=[]),
            dict(prop="C10", name="jacobian", body=jacobian, fns=["jacobian"]),
            dict(prop="C09", name="Chain::update_velocities", body=update_velocities, fns=["Chain::update_velocities", "Node::parent_world_velocity"], budget=400),
            dict(prop="C12", name="Chain::update_link_transforms", body=update_links, fns=["Chain::update_link_transforms"], budget=400),
            dict(prop="C11", name="center_of_mass", body=center_of_mass, fns=["center_of_mass"]),
            ]
