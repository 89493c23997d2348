"""C18: conversion of URDF elements; C20: name maps; C19: building the chain."""
from spec import *
import lib
from loops import Cand


def usub(i, ty):
    for n, t in enumerate(i.crate.types):
        if t["k"] == "adt" and t["def"].startswith("urdf_rs::") and t["def"].split("::")[-1] == ty:
            return i.sh.of(n)
    raise Lost("type urdf_rs::" + ty)


def ushape(i, ty):
    return usub(i, ty)


def eqs(i, cs, what):
    for n, c in cs:
        i.x.prove(c, "%s: %s" % (what, n))


def f3(w):
    return [w[k].v for k in range(3)]


def c_color(w, u):
    return [("channel " + f, n_eqv(w.get(f).v, u.rgba[k].v)) for k, f in enumerate("rgba")]


def default_color(w):
    # urdf_rs::Color::default() is the derived one: all channels zero
    return [("default channel " + f, n_eqv(w.get(f).v, n_const(0))) for f in "rgba"]


def under(c, cs):
    return [(n, z3.Implies(c, e)) for n, e in cs]


def c_texture(w, u):
    return [("texture file", w.filename.eq(u.filename))]


def c_material(w, u):
    cs = [("material name", w.get("name").eq(u.get("name")))]
    cs += under(u.color.is_("Some"), c_color(w.color, u.color.pl("Some")))
    cs += under(u.color.is_("None"), default_color(w.color))
    cs += under(u.texture.is_("Some"), c_texture(w.texture, u.texture.pl("Some")))
    cs += under(u.texture.is_("None"), [("no texture file", w.texture.filename.eq(str_lit("")))])
    return cs


def c_pose(w, p):
    """w: an isometry, p: a urdf pose"""
    r = reuler_f(*[nz(e) for e in f3(p.rpy)])
    cs = [("rotation from roll, pitch, yaw", w.rotation.v.z() == r)]
    t = w.translation.vector.v
    return cs + [("translation " + "xyz"[k], n_eqv(t.e[k], p.xyz[k].v)) for k in range(3)]


def c_inertial(w, u):
    cs = [("origin, " + n, c) for n, c in c_pose(w.origin, u.origin)]
    cs.append(("mass", n_eqv(w.mass.v, u.mass.value.v)))
    names = ["ixx", "ixy", "ixz", "ixy", "iyy", "iyz", "ixz", "iyz", "izz"]
    for k, n in enumerate(names):
        cs.append(("inertia " + n, n_eqv(w.inertia.v.e[k], u.inertia.get(n).v)))
    return cs


def c_geometry(w, u):
    cs = []
    G = [("Box", [("depth", lambda s: s.size[0]), ("width", lambda s: s.size[1]), ("height", lambda s: s.size[2])]),
         ("Cylinder", [("radius", "radius"), ("length", "length")]), ("Capsule", [("radius", "radius"), ("length", "length")]),
         ("Sphere", [("radius", "radius")])]
    for v, fs in G:
        cs.append(("a %s stays one" % v, w.is_(v) == u.is_(v)))
        for f, g in fs:
            if v == "Box":
                k = ("depth", "width", "height").index(f)
                src = u.pl(v, "size")[k]
            else:
                src = u.pl(v, g)
            cs.append(("%s %s" % (v, f), z3.Implies(u.is_(v), n_eqv(w.pl(v, f).v, src.v))))
    cs.append(("a Mesh stays one", w.is_("Mesh") == u.is_("Mesh")))
    cs.append(("mesh file", z3.Implies(u.is_("Mesh"), w.pl("Mesh", "filename").eq(u.pl("Mesh", "filename")))))
    sc = u.pl("Mesh", "scale")
    t = w.pl("Mesh", "scale").v
    for k in range(3):
        cs.append(("mesh scale", z3.Implies(z3.And(u.is_("Mesh"), sc.is_("Some")), n_eqv(t.e[k], sc.pl("Some")[k].v))))
        cs.append(("missing mesh scale is one", z3.Implies(z3.And(u.is_("Mesh"), sc.is_("None")), n_eqv(t.e[k], n_const(1)))))
    return cs


def c_name(w, u):
    return [("name", z3.Implies(u.get("name").is_("Some"), w.get("name").eq(u.get("name").pl("Some")))),
            ("missing name", z3.Implies(u.get("name").is_("None"), w.get("name").eq(str_lit(""))))]


def c_visual(w, u):
    cs = c_name(w, u) + c_pose(w.origin, u.origin) + c_geometry(w.geometry, u.geometry)
    m = u.material
    cs += under(m.is_("Some"), c_material(w.material, m.pl("Some")))
    cs += under(m.is_("None"), default_color(w.material.color) +
                [("no material name", w.material.get("name").eq(str_lit(""))), ("no texture", w.material.texture.filename.eq(str_lit("")))])
    return cs


def c_collision(w, u):
    return c_name(w, u) + c_pose(w.origin, u.origin) + c_geometry(w.geometry, u.geometry)


SIMPLE = {"Color": ("Color::from(Color)", "Color", c_color), "&Color": ("Color::from(&Color)", "Color", c_color),
          "Texture": ("Texture::from(Texture)", "Texture", c_texture), "Material": ("Material::from(Material)", "Material", c_material),
          "Inertial": ("Inertial::from(Inertial)", "Inertial", c_inertial), "Visual": ("Visual::from(Visual)", "Visual", c_visual),
          "Collision": ("Collision::from(Collision)", "Collision", c_collision), "Geometry": ("Geometry::from(Geometry)", "Geometry", c_geometry)}


def kshape(i, ty):
    return i.reg.shape(ty) if ty != "Texture" else texture_sh(i)


def texture_sh(i):
    for n, t in enumerate(i.crate.types):
        if t["k"] == "adt" and t["def"] == "k::link::Texture":
            return i.sh.of(n)
    raise Lost("type Texture")


def simple(i, kind):
    key, ty, spec = SIMPLE[kind]
    ush = ushape(i, ty)
    v = i.x.fresh_of(ush, "u")
    arg = i.new_cell(v) if kind.startswith("&") else v
    r = W(i, kshape(i, ty), run(i, key, [arg]))
    eqs(i, spec(r, W(i, ush, v)), ty)
    if ty in ("Inertial", "Visual", "Collision"):
        q = i.lib.rd(i, run(i, ty + "::world_transform", [i.new_cell(r.v)]))
        i.x.prove(opt_is_none(q), ty + ": nothing is cached")


def link(i, key="Link::from(Link)"):
    x = i.x
    ush = ushape(i, "Link")
    v = x.fresh_of(ush, "u")
    u = W(i, ush, v)
    w = W(i, i.reg.shape("Link"), run(i, key, [v]))
    x.prove(w.get("name").eq(u.get("name")), "Link: name")
    eqs(i, c_inertial(w.inertial, u.inertial), "Link inertial")
    for f, g, spec in (("visuals", "visual", c_visual), ("collisions", "collision", c_collision)):
        a, b = w.get(f), u.get(g)
        x.prove(a.len == b.len, "Link: as many " + f)
        j = x.fresh("j", IntS)
        rng = z3.And(0 <= j, j < b.len)
        x.assume(rng)
        for c in wf_of(b.sh.elem, b[j].v):
            x.assume(c)
        eqs(i, spec(a[j], b[j]), "Link %s, element j" % f)


def mimic(i):
    ush = ushape(i, "Mimic")
    u = W(i, ush, i.x.fresh_of(ush, "u"))
    w = W(i, i.reg.shape("Mimic"), run(i, "Mimic::from(&Mimic)", [i.new_cell(u.v)]))
    x = i.x
    for f, g, d in (("multiplier", "multiplier", 1), ("origin", "offset", 0)):
        o = u.get(g)
        x.prove(z3.Implies(o.is_("Some"), n_eqv(w.get(f).v, o.pl("Some").v)), "mimic " + g)
        x.prove(z3.Implies(o.is_("None"), n_eqv(w.get(f).v, n_const(d))), "missing mimic %s is %d" % (g, d))
    p = fresh_T(i, "p")
    q = run(i, "Mimic::mimic_position", [i.new_cell(w.v), p])
    x.prove(n_eqv(q, p * w.multiplier.v + w.origin.v), "the mimicked position is multiplier times position plus offset")


def joint(i):
    x = i.x
    ush = ushape(i, "Joint")
    u = W(i, ush, x.fresh_of(ush, "u"))
    lo, hi = u.limit.lower.v, u.limit.upper.v
    # a limit with upper below lower is no range: outside the property
    x.assume(le(lo, hi))
    sh = i.reg.shape("Joint")
    v = run(i, "Joint::from(&Joint)", [i.new_cell(u.v)])
    w = W(i, sh, v)
    c = i.new_cell(v)
    x.prove(w.get("name").eq(u.get("name")), "joint name")
    jt = u.joint_type
    rot = z3.Or(jt.is_("Revolute"), jt.is_("Continuous"))
    x.prove(w.joint_type.is_("Rotational") == rot, "revolute and continuous joints are rotational")
    x.prove(w.joint_type.is_("Linear") == jt.is_("Prismatic"), "prismatic joints are linear")
    ax = [f(*[nz(e) for e in f3(u.axis.xyz)]) for f in lib.unit_f]
    for vn, cond in (("Rotational", rot), ("Linear", jt.is_("Prismatic"))):
        a = w.joint_type.pl(vn, "axis").value.v
        for k in range(3):
            x.prove(z3.Implies(cond, nz(a.e[k]) == ax[k]), "%s axis is the normalised one" % vn)
    osh = sh.subs[sh.names.index("origin")]
    o = W(i, osh, lib.rd(i, run(i, "Joint::origin", [c])))
    eqs(i, c_pose(o, u.origin), "joint origin")
    same_l = n_cmp("eq", lo, hi)
    x.prove(w.limits.is_("None") == same_l, "limits are absent exactly when upper equals lower")
    r = w.limits.pl("Some")
    x.prove(z3.Implies(z3.Not(same_l), z3.And(n_eqv(r.get("min").v, lo), n_eqv(r.get("max").v, hi))), "limits are lower and upper")
    for f in ("joint_position", "joint_velocity"):
        q = run(i, "Joint::" + f, [c])
        if x.choose(opt_is_some(q)):
            x.prove(n_eqv(payload(i, q, "Some"), n_const(0)), f + " starts at zero")


def parts(i):
    x = i.x
    ush = ushape(i, "Pose")
    u = W(i, ush, x.fresh_of(ush, "u"))
    sh = i.reg.shape("Joint")
    osh = sh.subs[sh.names.index("origin")]
    o = W(i, osh, run(i, "isometry_from", [i.new_cell(u.v)]))
    eqs(i, c_pose(o, u), "isometry_from")


# ---------------------------------------------------------------- C20: name maps
class Robot:
    """a parsed robot"""

    def __init__(self, i):
        x = i.x
        sh = ushape(i, "Robot")
        self.w = W(i, sh, x.fresh_of(sh, "robot"))
        self.ref = i.new_cell(self.w.v)
        self.joints, self.links = self.w.joints, self.w.links
        self.n, self.l = self.joints.len, self.links.len

    def jname(self, q):
        return self.joints[q].get("name").v

    def child(self, q):
        return self.joints[q].child.link.v

    def parent(self, q):
        return self.joints[q].parent.link.v

    def lname(self, q):
        return self.links[q].get("name").v


ROOT = "root"


def last_of(i, name, val, extra=None):
    """last(k, s): the greatest index below k whose value is s (and that meets extra), or -1; by recursion on k"""
    x = i.x
    f = z3.Function(name, IntS, Str, IntS)
    k, s = z3.Int("wk"), z3.Const("ws", Str)
    hit = val(k) == s if extra is None else z3.And(extra(k), val(k) == s)
    x.assume(z3.ForAll([s], f(I(0), s) == -1, patterns=[f(I(0), s)]))
    x.assume(z3.ForAll([k, s], z3.Implies(k >= 0, f(k + 1, s) == z3.If(hit, k, f(k, s))), patterns=[f(k + 1, s)]))
    # a lemma of that (see last_lemma)
    x.assume(z3.ForAll([k, s], z3.Implies(k >= 0, found(f, val, extra, k, s)), patterns=[f(k, s)]))
    return f


def found(f, val, extra, k, s):
    e = f(k, s)
    c = [e < k, val(e) == s]
    if extra is not None:
        c.append(extra(e))
    return z3.And(e >= -1, z3.Implies(e >= 0, z3.And(c)))


def not_after(f, val, extra, k, s, q):
    """whatever stands before k with that value is not after the last one"""
    hit = val(q) == s if extra is None else z3.And(extra(q), val(q) == s)
    return z3.Implies(z3.And(0 <= q, q < k, hit), q <= f(k, s))


def last_lemma(i):
    """the last index with a value is one with that value, and no other is after it; induction on the bound"""
    x = i.x
    A = x.fresh("vals", z3.ArraySort(IntS, Str))
    B = x.fresh("meets", z3.ArraySort(IntS, BoolS))
    for extra in (None, lambda q: B[q]):
        f = z3.Function("last" + ("" if extra is None else "x"), IntS, Str, IntS)
        k, s = z3.Int("wk"), z3.Const("ws", Str)
        val = lambda q: A[q]
        hit = val(k) == s if extra is None else z3.And(extra(k), val(k) == s)
        x.assume(z3.ForAll([s], f(I(0), s) == -1, patterns=[f(I(0), s)]))
        x.assume(z3.ForAll([k, s], z3.Implies(k >= 0, f(k + 1, s) == z3.If(hit, k, f(k, s))), patterns=[f(k + 1, s)]))
        b, q, t = x.fresh("b", IntS), x.fresh("q", IntS), x.fresh("s", Str)
        x.assume(b >= 0)
        for law in (lambda k: found(f, val, extra, k, t), lambda k: not_after(f, val, extra, k, t, q)):
            x.prove(law(I(0)), "nothing stands before the first")
            x.prove(z3.Implies(law(b), law(simp(b + 1))), "one further")


def assume_not_after(i, f, val, extra=None):
    k, q = z3.Ints("wk wq")
    i.x.assume(z3.ForAll([k, q], not_after(f, val, extra, k, val(q), q), patterns=[z3.MultiPattern(f(k, val(q)), val(q))]))


def str_maps(i, an):
    return [v for loc, v in an.mods.items() if isinstance(v, Map)]


def map_hint(law):
    def hint(i, an, view):
        s = z3.Const("s!h", Str)
        out = []
        for m in str_maps(i, an):
            for n, (dom, val) in enumerate(law(an.k, s)):
                out.append(Cand("keys so far (%d)" % n, [s], m.dom[s] == dom, [[m.dom[s]]], spec=True))
                out.append(Cand("entries so far (%d)" % n, [s], z3.Implies(m.dom[s], m.cols[0][s] == val), [[m.dom[s]], [m.cols[0][s]]], spec=True))
        return out
    hint.alone = True
    return hint


def link_to_joint(i):
    x = i.x
    R = Robot(i)
    F = last_of(i, "last_child", R.child)
    L = last_of(i, "last_link", R.lname)
    root = str_lit(ROOT)
    val = lambda k, s: z3.If(F(k, s) >= 0, R.jname(F(k, s)), root)
    i.unroll = 0
    i.templates.append(map_hint(lambda k, s: [(F(k, s) >= 0, val(k, s)), (z3.Or(F(R.n, s) >= 0, L(k, s) >= 0), val(R.n, s))]))
    r = run(i, "link_to_joint_map", [R.ref])
    assume_not_after(i, F, R.child)
    assume_not_after(i, L, R.lname)
    s, j = x.fresh("s", Str), x.fresh("j", IntS)
    dom, v = r.dom[s], r.cols[0][s]
    t = z3.Int("wt")
    isj = z3.And(0 <= j, j < R.n, R.child(j) == s)
    x.prove(z3.Implies(isj, z3.And(dom, z3.Exists([t], z3.And(j <= t, t < R.n, R.child(t) == s, v == R.jname(t))))),
            "a link that is a joint's child is sent to that joint (the last of them)")
    x.prove(z3.Implies(z3.And(0 <= j, j < R.l, R.lname(j) == s), dom), "every link is a key")
    x.prove(z3.Implies(dom, z3.Or(F(R.n, s) >= 0, L(R.l, s) >= 0)), "no other key")
    x.prove(z3.Implies(z3.And(dom, F(R.n, s) < 0), v == root), "a link that is no joint's child is sent to the root joint")


def joint_to_link(i):
    x = i.x
    R = Robot(i)
    F = last_of(i, "last_child", R.child)
    assume_not_after(i, F, R.child)
    N = last_of(i, "last_name", R.jname)
    base = lambda q: F(R.n, R.lname(q)) < 0
    root = str_lit(ROOT)
    # bl(k): the last link before k that is no joint's child, or -1
    bl = z3.Function("last_base", IntS, IntS)
    k = z3.Int("wk")
    x.assume(bl(0) == -1)
    x.assume(z3.ForAll([k], z3.Implies(k >= 0, bl(k + 1) == z3.If(base(k), k, bl(k))), patterns=[bl(k + 1)]))
    i.unroll = 0
    here = lambda k, s: z3.And(s == root, bl(k) >= 0)
    val = lambda k, s: R.child(N(k, s))
    i.templates.append(map_hint(lambda k, s: [(N(k, s) >= 0, val(k, s)),
                                              (z3.Or(N(R.n, s) >= 0, here(k, s)), z3.If(here(k, s), R.lname(bl(k)), val(R.n, s)))]))
    r = run(i, "joint_to_link_map", [R.ref])
    assume_not_after(i, N, R.jname)
    s, j, q = x.fresh("s", Str), x.fresh("j", IntS), x.fresh("q", IntS)
    dom, v = r.dom[s], r.cols[0][s]
    t = z3.Int("wt")
    x.prove(z3.Implies(z3.And(0 <= j, j < R.n, R.jname(j) == s), dom), "every joint is a key")
    x.prove(z3.Implies(z3.And(0 <= j, j < R.n, R.jname(j) == s, s != root), z3.Exists([t], z3.And(j <= t, t < R.n, R.jname(t) == s, v == R.child(t)))),
            "a joint is sent to its child link (of joints of the same name: the last)")
    # bl by induction: a link, not before any other base link
    law = lambda k: z3.And(bl(k) >= -1, bl(k) < k, z3.Implies(bl(k) >= 0, base(bl(k))), z3.Implies(z3.And(0 <= q, q < k, base(q)), q <= bl(k)))
    b = x.fresh("b", IntS)
    x.prove(law(I(0)), "base link, at the start")
    x.prove(z3.Implies(z3.And(b >= 0, law(b)), law(simp(b + 1))), "base link, one further")
    x.assume(law(R.l))
    x.prove(z3.Implies(z3.And(0 <= q, q < R.l, base(q), s == root), z3.And(dom, v == R.lname(bl(R.l)), base(bl(R.l)))),
            "if some link is no joint's child, the root joint is sent to such a link")
    x.prove(z3.Implies(dom, z3.Or(N(R.n, s) >= 0, z3.And(s == root, bl(R.l) >= 0))), "no other key")


def tasks():
    P = "C18"
    T = [dict(prop=P, name=SIMPLE[k][0], body=lambda i, k=k: simple(i, k), fns=[SIMPLE[k][0]]) for k in SIMPLE]
    T += [dict(prop=P, name="Link::from(Link)", body=link, fns=["Link::from(Link)"]),
          dict(prop=P, name="Mimic::from(&Mimic)", body=mimic, fns=["Mimic::from(&Mimic)", "Mimic::mimic_position"]),
          dict(prop=P, name="Joint::from(&Joint)", body=joint, fns=["Joint::from(&Joint)"]),
          dict(prop=P, name="isometry_from", body=parts, fns=["isometry_from", "quaternion_from", "translation_from"])]
    P = "C20"
    T += [dict(prop=P, name="link_to_joint_map", body=link_to_joint, fns=["link_to_joint_map"]),
          dict(prop=P, name="joint_to_link_map", body=joint_to_link, fns=["joint_to_link_map"]),
          dict(prop=P, name="the last index with a value (lemma)", body=last_lemma, fns=[])]
    return T
