"""C21, C05 and C22 (nodes): contracts of Node."""
from spec import *
import lib


def set_parent(i):
    x = i.x
    a, ra = a_node(i, "a")
    b, rb = a_node(i, "b")
    x.assume(a != b)
    old = Snap(i)
    run(i, "Node::set_parent", [ra, rb])
    prove_no_guards(i)
    new = Snap(i)
    p = run(i, "Node::parent", [ra])
    x.prove(opt_is_some(p), "an attached node has a parent")
    x.prove(nid(i, payload(i, p, "Some")) == b, "the parent is the node it was attached to")
    x.prove(z3.Not(run(i, "Node::is_root", [ra])), "an attached node is no root")
    oc, nc = old.node(b).children, new.node(b).children
    x.prove(nc.len == oc.len + 1, "the parent has one more child")
    x.prove(nid(i, nc[oc.len].v) == a, "the attached node is the last child")
    j = x.fresh("j", IntS)
    x.prove(z3.Implies(z3.And(0 <= j, j < oc.len), nc[j].eq(oc[j])), "the other children are kept in order")
    for f, e in same_node(i, new, old, b, ("children",)):
        x.prove(e, "attaching leaves the parent's %s alone" % f)
    for f, e in same_node(i, new, old, a, ("parent",)):
        x.prove(e, "attaching leaves the child's %s alone" % f)
    others_untouched(i, old, new, (a, b), "attaching")


def remove_parent(i):
    x = i.x
    a, ra = a_node(i, "a")
    b, rb = a_node(i, "b")
    x.assume(a != b)
    old = Snap(i)
    po = old.node(a).parent
    x.assume(z3.And(po.is_("Some"), po.pl("Some").v.id == b))
    run(i, "Node::remove_parent", [ra, rb])
    prove_no_guards(i)
    new = Snap(i)
    x.prove(opt_is_none(run(i, "Node::parent", [ra])), "a detached node has no parent")
    x.prove(run(i, "Node::is_root", [ra]), "a detached node is a root")
    oc, nc = old.node(b).children, new.node(b).children
    K = x.fresh("others", lib.BArr)
    j = z3.Int("oj")
    oid = oc.v.cols[0]
    x.assume(z3.ForAll([j], K[j] == (oid[j] != a), patterns=[K[j]]))
    x.prove(nc.len == lib.cnt_f(K, oc.len), "the children left are as many as there were others")
    q = x.fresh("q", IntS)
    x.prove(z3.Implies(z3.And(0 <= q, q < nc.len), nid(i, nc[q].v) != a), "a detached node is not among the children")
    q = x.fresh("q", IntS)
    x.prove(z3.Implies(z3.And(0 <= q, q < oc.len, K[q]), nid(i, nc[lib.cnt_f(K, q)].v) == oid[q]), "the other children are kept in order")
    for f, e in same_node(i, new, old, b, ("children",)):
        x.prove(e, "detaching leaves the former parent's %s alone" % f)
    for f, e in same_node(i, new, old, a, ("parent",)):
        x.prove(e, "detaching leaves the child's %s alone" % f)
    others_untouched(i, old, new, (a, b), "detaching")


def queries(i):
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    w = old.node(a)
    p = run(i, "Node::parent", [ra])
    has = z3.And(w.parent.is_("Some"), lib.alive_f(w.parent.pl("Some").v.id))
    x.prove(opt_is_some(p) == has, "the parent is present exactly when one was attached and still exists")
    if x.choose(has):
        x.prove(nid(i, payload(i, p, "Some")) == w.parent.pl("Some").v.id, "the parent is the attached one")
    x.prove(run(i, "Node::is_root", [ra]) == z3.Not(has), "a root is a node without parent")
    x.prove(run(i, "Node::is_end", [ra]) == (w.children.len == 0), "an end is a node without children")
    prove_no_guards(i)
    new = Snap(i)
    others_untouched(i, old, new, (), "asking")


# ---------------------------------------------------------------- C05 on nodes
def node_stale(i, fn):
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    jo = old.node(a).joint
    if "clamped" in fn:
        lim = jo.limits.pl("Some")
        x.assume(z3.Or(jo.limits.is_("None"), le(lim.get("min").v, lim.get("max").v)))
    js = i.reg.shape("Joint")
    arg = x.fresh_of(js.subs[js.names.index("origin")], "o") if fn.endswith("set_origin") else fresh_T(i, "p")
    run(i, fn, [ra, arg])
    prove_no_guards(i)
    new = Snap(i)
    jn = new.node(a).joint
    pose = z3.Or(z3.Not(jn.position.eq(jo.position)), z3.Not(jn.origin.eq(jo.origin)))
    vel = z3.Or(pose, z3.Not(jn.velocity.eq(jo.velocity)))
    t, v = run(i, "Node::world_transform", [ra]), run(i, "Node::world_velocity", [ra])
    x.prove(z3.Implies(pose, opt_is_none(t)), "the node's world transform is absent after a change")
    x.prove(z3.Implies(vel, opt_is_none(v)), "the node's world velocity is absent after a change")
    prove_no_guards(i)
    others_untouched(i, new, Snap(i), (), "reading")
    others_untouched(i, old, new, (a,), fn)


def node_reads(i):
    """Node readers report what the joint reports"""
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    j = old.node(a).joint
    c = i.new_cell(j.v)
    for f, sh in (("world_transform", None), ("world_velocity", None), ("joint_position", None)):
        q, r = run(i, "Node::" + f, [ra]), run(i, "Joint::" + f, [c])
        x.prove(opt_is_some(q) == opt_is_some(r), "Node::%s is present exactly when the joint's is" % f)
        if x.choose(opt_is_some(q)):
            x.prove(same(i, payload(i, q, "Some"), payload(i, r, "Some")), "Node::%s is the joint's" % f)
    o = run(i, "Node::origin", [ra])
    x.prove(same(i, o, j.origin.v), "Node::origin is the joint's")
    prove_no_guards(i)
    others_untouched(i, old, Snap(i), (), "reading")


# ---------------------------------------------------------------- C22 on nodes
def node_new(i, fn):
    x = i.x
    js = i.reg.shape("Joint")
    jv = x.fresh_of(js, "j")
    old = Snap(i)
    i.st.alloc = old.alloc
    n = nid(i, run(i, fn, [jv]))
    new = Snap(i)
    w = new.node(n)
    x.prove(n >= old.alloc, "the node is new")
    x.prove(w.joint.eq(jv), "the node's joint is the given one")
    for f in ("parent", "mimic_parent", "mimic", "link"):
        x.prove(w.get(f).is_("None"), "a new node has no " + f)
    for f in ("children", "mimic_children"):
        x.prove(w.get(f).len == 0, "a new node has no " + f)
    others_untouched(i, old, new, (), "making a node")


def set_link(i):
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    sh = i.nodesh.subs[i.nodesh.names.index("link")]
    l = x.fresh_of(sh, "l")
    run(i, "Node::set_link", [ra, l])
    prove_no_guards(i)
    new = Snap(i)
    x.prove(new.node(a).link.eq(l), "the node carries the given link")
    for f, e in same_node(i, new, old, a, ("link",)):
        x.prove(e, "setting the link leaves the node's %s alone" % f)
    others_untouched(i, old, new, (a,), "setting the link")


# ---------------------------------------------------------------- C03
def well_formed(i, H):
    """every handle in a node refers to an existing node; followers are other nodes and have their rule"""
    x = i.x
    n, j = z3.Ints("wn wj")
    raw = H.raw(n)
    lim = H.alloc
    for f in ("children", "mimic_children"):
        w = raw.get(f)
        e = nid(i, w[j].v)
        x.assume(forall([n], z3.Implies(z3.And(0 <= n, n < lim), w.len >= 0), [[w.len]]))
        c = [0 <= e, e < lim, lib.alive_f(e)]
        if f == "mimic_children":
            c += [e != n, H.raw(e).mimic.is_("Some")]
        x.assume(forall([n, j], z3.Implies(z3.And(0 <= n, n < lim, 0 <= j, j < w.len), z3.And(c)), [[e]]))
    for f in ("parent", "mimic_parent"):
        w = raw.get(f)
        e = w.pl("Some").v.id
        x.assume(forall([n], z3.Implies(z3.And(0 <= n, n < lim, w.is_("Some")), z3.And(0 <= e, e < lim, e != n)), [[e], [w.v.tag]]))


def set_position(i):
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    well_formed(i, old)
    p = fresh_T(i, "p")
    r = run(i, "Node::set_joint_position", [ra, p])
    prove_no_guards(i)
    new = Snap(i)
    ok = res_is_ok(r)
    w = old.node(a)
    mim = w.mimic_parent.is_("Some")
    x.prove(z3.Implies(mim, ok), "a set on a mimicking joint succeeds")
    m = x.fresh("m", IntS)
    exists = z3.And(0 <= m, m < old.alloc)
    for f, e in same_node(i, new, old, m):
        x.prove(z3.Implies(z3.And(mim, exists), e), "a set on a mimicking joint leaves every %s alone" % f)
    if x.choose(mim):
        return
    jo = w.joint
    can = z3.And(movable(jo), legal(jo, p))
    x.prove(z3.Implies(ok, can), "only a legal value is accepted")
    x.prove(z3.Implies(ok, n_eqv(new.node(a).joint.position.v, p)), "the joint itself stands at the value set")
    fol = old.node(a).mimic_children
    # what a follower has to take
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < fol.len))
    c = nid(i, fol[j].v)
    oj = old.raw(c)
    rule = oj.mimic.pl("Some")
    want = p * rule.multiplier.v + rule.origin.v
    x.prove(z3.Implies(ok, new.raw(c).joint.position.v.z() == want.z()), "after success every follower stands at multiplier times position plus offset")
    x.prove(z3.Implies(ok, z3.And(movable(oj.joint), legal(oj.joint, want))), "a follower that cannot take its value makes the call fail")


def set_position_frame(i):
    """whatever the outcome: nothing but positions and caches of the joint and its followers changes"""
    x = i.x
    a, ra = a_node(i, "a")
    old = Snap(i)
    well_formed(i, old)
    p = fresh_T(i, "p")
    run(i, "Node::set_joint_position", [ra, p])
    new = Snap(i)
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    fol = old.node(a).mimic_children
    q = z3.Int("fq")
    nofol = forall([q], z3.Implies(z3.And(0 <= q, q < fol.len), nid(i, fol[q].v) != m), [[nid(i, fol[q].v)]])
    for f, e in same_node(i, new, old, m):
        x.prove(z3.Implies(z3.And(m != a, nofol), e), "a set leaves the %s of a node that is no follower alone" % f)
    on, nn = old.raw(m), new.raw(m)
    for f in on.fields():
        if f != "joint":
            x.prove(nn.get(f).eq(on.get(f)), "a set changes no " + f)
    for f in on.joint.fields():
        if f not in ("position", "world_transform_cache", "world_velocity_cache"):
            x.prove(nn.joint.get(f).eq(on.joint.get(f)), "a set changes no joint's " + f)
    pose = z3.Not(nn.joint.position.eq(on.joint.position))
    c = i.new_cell(nn.joint.v)
    t, v = run(i, "Joint::world_transform", [c]), run(i, "Joint::world_velocity", [c])
    x.prove(z3.Implies(pose, z3.And(opt_is_none(t), opt_is_none(v))), "a joint that moved, follower or not, has no cached pose", "post")


def set_mimic(i):
    x = i.x
    a, ra = a_node(i, "a")
    b, rb = a_node(i, "b")
    x.assume(a != b)
    old = Snap(i)
    sh = i.reg.shape("Mimic")
    m = x.fresh_of(sh, "m")
    run(i, "Node::set_mimic_parent", [ra, rb, m])
    prove_no_guards(i)
    new = Snap(i)
    na, nb, ob = new.node(a), new.node(b), old.node(b)
    x.prove(z3.And(na.mimic_parent.is_("Some"), na.mimic_parent.pl("Some").v.id == b), "the follower knows the joint it mimics")
    q = run(i, "Node::mimic_parent", [ra])
    x.prove(z3.And(opt_is_some(q), nid(i, payload(i, q, "Some")) == b), "and reports it")
    x.prove(z3.And(na.mimic.is_("Some"), na.mimic.pl("Some").eq(m)), "the follower has the rule")
    x.prove(z3.And(nb.mimic_children.len == ob.mimic_children.len + 1, nid(i, nb.mimic_children[ob.mimic_children.len].v) == a), "the mimicked joint knows its follower")
    j = x.fresh("j", IntS)
    x.prove(z3.Implies(z3.And(0 <= j, j < ob.mimic_children.len), nb.mimic_children[j].eq(ob.mimic_children[j])), "earlier followers are kept")
    for f, e in same_node(i, new, old, a, ("mimic_parent", "mimic")):
        x.prove(e, "making a follower leaves its %s alone" % f)
    for f, e in same_node(i, new, old, b, ("mimic_children",)):
        x.prove(e, "making a follower leaves the other's %s alone" % f)
    others_untouched(i, old, new, (a, b), "making a follower")


def tasks():
    T = [dict(prop="C03", name="Node::set_joint_position", body=set_position, fns=["Node::set_joint_position", "Joint::set_joint_position"]),
         dict(prop="C03", name="Node::set_joint_position frame", body=set_position_frame, fns=["Node::set_joint_position"]),
         dict(prop="C05", name="Node::set_joint_position caches", body=set_position_frame, fns=["Node::set_joint_position"]),
         dict(prop="C03", name="Node::set_mimic_parent", body=set_mimic, fns=["Node::set_mimic_parent", "Node::mimic_parent"]),
         dict(prop="C21", name="Node::set_parent", body=set_parent, fns=["Node::set_parent", "Node::parent", "Node::is_root"]),
         dict(prop="C21", name="Node::remove_parent", body=remove_parent, fns=["Node::remove_parent"]),
         dict(prop="C21", name="Node::parent, is_root, is_end", body=queries, fns=["Node::parent", "Node::is_root", "Node::is_end"]),
         dict(prop="C05", name="Node readers", body=node_reads, fns=["Node::world_transform", "Node::world_velocity", "Node::joint_position", "Node::origin"]),
         dict(prop="C22", name="Node::new", body=lambda i: node_new(i, "Node::new"), fns=["Node::new"]),
         dict(prop="C22", name="Node from Joint", body=lambda i: node_new(i, "Node::from(Joint)"), fns=["Node::from(Joint)"]),
         dict(prop="C22", name="Node::set_link", body=set_link, fns=["Node::set_link"])]
    for f in ("Node::set_origin", "Node::set_joint_position_clamped", "Node::set_joint_position_unchecked"):
        T.append(dict(prop="C05", name=f + " caches", body=lambda i, f=f: node_stale(i, f), fns=[f, "Node::world_transform", "Node::world_velocity"]))
    return T
