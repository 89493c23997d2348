"""C22: builders of joints, nodes and links; constructors of link elements."""
from spec import *
import lib


def jsub(i, f):
    sh = i.reg.shape("Joint")
    return sh.subs[sh.names.index(f)]


def check_joint(i, v, name, jt, limits, origin, what):
    """v is a fresh joint with exactly these parts: judged through the readers"""
    x = i.x
    sh = i.reg.shape("Joint")
    c = i.new_cell(v)
    w = W(i, sh, v)
    x.prove(w.get("name").eq(name), what + " has the name")
    x.prove(w.joint_type.eq(jt), what + " has the type")
    x.prove(w.limits.eq(limits), what + " has the limits")
    x.prove(jsub(i, "origin").eq(lib.rd(i, run(i, "Joint::origin", [c])), origin), what + " has the origin")
    mov = jt.tag != w.joint_type.var("Fixed")
    zero = n_const(0)
    for f in ("joint_position", "joint_velocity"):
        q = run(i, "Joint::" + f, [c])
        x.prove(opt_is_some(q) == mov, what + ": %s is present when movable" % f)
        if x.choose(mov):
            x.prove(n_eqv(payload(i, q, "Some"), zero), what + ": %s is zero" % f)
    x.prove(opt_is_none(run(i, "Joint::world_transform", [c])), what + " has no cached transform")
    x.prove(opt_is_none(run(i, "Joint::world_velocity", [c])), what + " has no cached velocity")


def joint_new(i):
    x = i.x
    name = x.fresh("name", Str)
    jt = x.fresh_of(jsub(i, "joint_type"), "jt")
    v = run(i, "Joint::new", [i.new_cell(name), jt])
    none = lib.none()
    check_joint(i, v, name, jt, none, lib.iso_id(), "a new joint")


PARTS = ("name", "joint_type", "limits", "origin")


def builder_state(i, b):
    """what the builder would finish into, read from its fields by name"""
    return {f: b.get(f) for f in PARTS}


def builder_steps(i):
    """every builder step sets its own part and leaves the others alone"""
    x = i.x
    sh = i.reg.shape("NodeBuilder")
    old = W(i, sh, x.fresh_of(sh, "b"))
    osh = jsub(i, "origin")
    vals = dict(name=x.fresh("n", Str), joint_type=x.fresh_of(jsub(i, "joint_type"), "jt"),
                limits=x.fresh_of(jsub(i, "limits"), "li"), origin=x.fresh_of(osh, "o"))
    for f in PARTS:
        arg = i.new_cell(vals[f]) if f == "name" else vals[f]
        new = W(i, sh, run(i, "NodeBuilder::" + f, [old.v, arg]))
        x.prove(new.get(f).eq(vals[f]), "the builder takes the " + f)
        for g, e in frame_except(new, old, (f,)):
            x.prove(e, "setting the %s leaves the builder's %s alone" % (f, g))
    r, t = osh.names.index("rotation"), osh.names.index("translation")
    for f, k in (("translation", t), ("rotation", r)):
        v = vals["origin"].f[k]
        new = W(i, sh, run(i, "NodeBuilder::" + f, [old.v, v]))
        no, oo = new.origin.v, old.origin.v
        x.prove(osh.subs[k].eq(no.f[k], v), "the builder takes the " + f)
        x.prove(osh.subs[1 - k].eq(no.f[1 - k], oo.f[1 - k]), "setting the %s keeps the other part of the origin" % f)
        for g, e in frame_except(new, old, ("origin",)):
            x.prove(e, "setting the %s leaves the builder's %s alone" % (f, g))


def builder_finish(i, into):
    x = i.x
    sh = i.reg.shape("NodeBuilder")
    b = W(i, sh, x.fresh_of(sh, "b"))
    d = builder_state(i, b)
    a = [d[f].v for f in PARTS]
    if into:
        old = Snap(i)
        i.st.alloc = old.alloc
        n = nid(i, run(i, "NodeBuilder::into_node", [b.v]))
        new = Snap(i)
        w = new.node(n)
        x.prove(n >= old.alloc, "the node is new")
        for f in ("parent", "mimic_parent", "mimic", "link"):
            x.prove(w.get(f).is_("None"), "a built node has no " + f)
        for f in ("children", "mimic_children"):
            x.prove(w.get(f).len == 0, "a built node has no " + f)
        others_untouched(i, old, new, (), "building a node")
        check_joint(i, w.joint.v, *a, "a built node's joint")
    else:
        v = run(i, "NodeBuilder::finalize", [b.v])
        check_joint(i, v, *a, "a built joint")


def builder_new(i, fn):
    x = i.x
    b = W(i, i.reg.shape("NodeBuilder"), run(i, fn, []))
    x.prove(b.get("name").eq(str_lit("")), "an unnamed builder")
    x.prove(b.joint_type.is_("Fixed"), "a builder starts fixed")
    x.prove(b.limits.is_("None"), "a builder starts without limits")
    x.prove(b.origin.eq(lib.iso_id()), "a builder starts at the identity origin")


# ---------------------------------------------------------------- links
LP = ("name", "inertial", "visuals", "collisions")


def link_new(i, fn):
    x = i.x
    ty = fn.split("::")[0]
    sh = i.reg.shape(ty)
    b = W(i, sh, run(i, fn, []))
    x.prove(b.get("name").eq(str_lit("")), "starts unnamed")
    x.prove(b.visuals.len == 0, "starts without visuals")
    x.prove(b.collisions.len == 0, "starts without collisions")
    ish = i.reg.shape("Inertial")
    n = W(i, ish, b.inertial.v)
    x.prove(n.origin.eq(lib.iso_id()), "the default inertial is at the identity")
    x.prove(n_eqv(n.mass.v, n_const(0)), "the default mass is zero")
    x.prove(n.world_transform_cache.is_("None"), "nothing is cached")
    for k in range(9):
        x.prove(n_eqv(n.inertia.v.e[k], n_const(1 if k in (0, 4, 8) else 0)), "the default inertia is the identity")


def link_steps(i):
    x = i.x
    sh = i.reg.shape("LinkBuilder")
    old = W(i, sh, x.fresh_of(sh, "b"))
    n = x.fresh("n", Str)
    new = W(i, sh, run(i, "LinkBuilder::name", [old.v, i.new_cell(n)]))
    x.prove(new.get("name").eq(n), "the builder takes the name")
    for g, e in frame_except(new, old, ("name",)):
        x.prove(e, "naming leaves the %s alone" % g)
    ish = i.reg.shape("Inertial")
    v = x.fresh_of(ish, "in")
    new = W(i, sh, run(i, "LinkBuilder::inertial", [old.v, v]))
    x.prove(new.inertial.eq(v), "the builder takes the inertial")
    for g, e in frame_except(new, old, ("inertial",)):
        x.prove(e, "setting the inertial leaves the %s alone" % g)
    for f, fld, ty in (("add_visual", "visuals", "Visual"), ("add_collision", "collisions", "Collision")):
        esh = i.reg.shape(ty)
        v = x.fresh_of(esh, "el")
        new = W(i, sh, run(i, "LinkBuilder::" + f, [old.v, v]))
        o, m = old.get(fld), new.get(fld)
        x.prove(m.len == o.len + 1, "%s adds one" % f)
        x.prove(m[o.len].eq(v), "%s adds at the end" % f)
        j = x.fresh("j", IntS)
        x.prove(z3.Implies(z3.And(0 <= j, j < o.len), m[j].eq(o[j])), "%s keeps the earlier ones in order" % f)
        for g, e in frame_except(new, old, (fld,)):
            x.prove(e, "%s leaves the %s alone" % (f, g))


def link_finish(i):
    x = i.x
    sh = i.reg.shape("LinkBuilder")
    b = W(i, sh, x.fresh_of(sh, "b"))
    l = W(i, i.reg.shape("Link"), run(i, "LinkBuilder::finalize", [b.v]))
    for f in LP:
        x.prove(l.get(f).eq(b.get(f)), "the built link has the builder's " + f)


def elem_new(i, ty):
    x = i.x
    sh = i.reg.shape(ty)
    fs = {"Inertial": ("origin", "mass", "inertia"), "Visual": ("name", "origin", "geometry", "material"),
          "Collision": ("name", "origin", "geometry")}[ty]
    vals = [x.fresh_of(sh.subs[sh.names.index(f)], f) for f in fs]
    c = i.new_cell(run(i, ty + "::new", vals))
    w = W(i, sh, i.read(c))
    for f, v in zip(fs, vals):
        if f == "origin":
            x.prove(sh.subs[sh.names.index(f)].eq(lib.rd(i, run(i, ty + "::origin", [c])), v), "the element has the origin")
        else:
            x.prove(w.get(f).eq(v), "the element has the " + f)
    x.prove(opt_is_none(lib.rd(i, run(i, ty + "::world_transform", [c]))), "nothing is cached")


def from_mass(i):
    x = i.x
    sh = i.reg.shape("Inertial")
    m = fresh_T(i, "m")
    w = W(i, sh, run(i, "Inertial::from_mass", [m]))
    x.prove(n_eqv(w.mass.v, m), "the mass is the given one")
    x.prove(w.origin.eq(lib.iso_id()), "at the identity")
    x.prove(w.world_transform_cache.is_("None"), "nothing is cached")
    for k in range(9):
        x.prove(n_eqv(w.inertia.v.e[k], n_const(1 if k in (0, 4, 8) else 0)), "the inertia is the identity")


def tasks():
    P = "C22"
    T = [dict(prop=P, name="Joint::new", body=joint_new, fns=["Joint::new"]),
         dict(prop=P, name="NodeBuilder steps", body=builder_steps, fns=["NodeBuilder::" + f for f in PARTS + ("translation", "rotation")]),
         dict(prop=P, name="NodeBuilder::finalize", body=lambda i: builder_finish(i, False), fns=["NodeBuilder::finalize"]),
         dict(prop=P, name="NodeBuilder::into_node", body=lambda i: builder_finish(i, True), fns=["NodeBuilder::into_node"]),
         dict(prop=P, name="LinkBuilder steps", body=link_steps, fns=["LinkBuilder::" + f for f in ("name", "inertial", "add_visual", "add_collision")]),
         dict(prop=P, name="LinkBuilder::finalize", body=link_finish, fns=["LinkBuilder::finalize"]),
         dict(prop=P, name="Inertial::from_mass", body=from_mass, fns=["Inertial::from_mass"])]
    for f in ("NodeBuilder::new", "NodeBuilder::default"):
        T.append(dict(prop=P, name=f, body=lambda i, f=f: builder_new(i, f), fns=[f]))
    for f in ("LinkBuilder::new", "LinkBuilder::default", "Link::default"):
        T.append(dict(prop=P, name=f, body=lambda i, f=f: link_new(i, f), fns=[f]))
    for ty in ("Inertial", "Visual", "Collision"):
        T.append(dict(prop=P, name=ty + "::new", body=lambda i, ty=ty: elem_new(i, ty), fns=[ty + "::new"]))
    return T
