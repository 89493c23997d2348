"""C26: several threads in one tree.

What a node holds may change whenever its lock is not held, so every acquisition gives an arbitrary node that satisfies the
invariant of the lock; every release has to re-establish it.

Invariant of the lock of n: every joint listed as a follower has been given a joint to follow (follows_), a node that has been given
one keeps one, and has its rule along with it.  While a node h is held, another node may be waited for only if h follows no joint and the other one does: then no
circle of threads can wait for each other (every node waited for by a holder follows a joint, no node held meanwhile does).
follows_(n) means: n follows a joint by the end of the operation.  It is only ever learnt, from a release or from a list."""
from spec import *
import lib
from loops import Cand
import loops
from specs.chain import AChain, node_vec, node_vecs
from specs.clone import copied
from specs.locks import formatter, serial
from specs.kinematics import serial_ref

follows = z3.Function("follows_", IntS, BoolS)
KINDS = ("wait", "once", "kept", "atomic", "pre", "lock")


def start(i, single=None, also=()):
    """the heap is arbitrary, and changes under us"""
    x = i.x
    x.only = KINDS
    if i.st.alloc is None:
        i.st.alloc = z3.Int("alloc0")
    alloc0 = i.st.alloc
    x.assume(alloc0 >= 0)
    i.single, i.taken = single, []
    i.released = None

    def onlock(i, n, g):
        if g is None:
            for h in i.st.guards.values():
                if h.kind != "mutex":
                    continue
                x.prove(simp(h.target != n), "a thread does not wait for a lock it holds", "wait")
                now = Snap(i).raw(h.target)
                fine = z3.And(h.note["free"], now.mimic_parent.is_("None"), follows(n))
                x.prove(z3.Or(n >= alloc0, fine),
                        "while a node is held, only a follower of a joint that follows none is waited for, or a node no other thread knows", "wait")
            if i.single is not None:
                for m in i.taken:
                    x.prove(simp(n != m), "a node is taken once in one operation on it", "once")
                i.taken.append(n)
            return
        sh = i.nodesh
        i.heap_write(n, (), x.fresh_of(sh, "shared"))
        w = Snap(i).raw(n)
        alloc = i.st.alloc
        j = z3.Int("wj")
        for f in ("children", "mimic_children"):
            l = w.get(f)
            e = nid(i, l[j].v)
            ok = [0 <= e, e < alloc, lib.alive_f(e)]
            if f == "mimic_children":
                ok += [follows(e), z3.Implies(e == n, w.mimic_parent.is_("Some"))]
            x.assume(l.len >= 0)
            x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.len), z3.And(ok)), patterns=[e]))
        for f in ("parent", "mimic_parent"):
            p = w.get(f).pl("Some").v.id
            x.assume(z3.And(0 <= p, p < alloc))
        x.assume(z3.Implies(w.mimic_parent.is_("Some"), w.mimic.is_("Some")))
        for m, some in i.released or ():
            x.assume(z3.Implies(z3.And(m == n, some), w.mimic_parent.is_("Some")))
        g.note = dict(free=w.mimic_parent.is_("None"), some=w.mimic_parent.is_("Some"))

    def onunlock(i, g):
        n = g.target
        w = Snap(i).raw(n)
        some = w.mimic_parent.is_("Some")
        x.prove(z3.Implies(g.note["some"], some), "a joint that follows another one keeps following one", "kept")
        x.prove(z3.Implies(some, w.mimic.is_("Some")), "a joint has its rule from the moment it follows another one", "kept")
        l = w.mimic_children
        j = x.fresh("j", IntS)
        e = nid(i, l[j].v)
        x.prove(z3.Implies(z3.And(0 <= j, j < l.len), z3.And(follows(e), z3.Implies(e == n, some))),
                "a joint is listed as a follower once it follows", "kept")
        x.assume(z3.Implies(some, follows(n)))
        if i.released is not None:
            i.released.append((n, some))
        i.atrelease and i.atrelease(i, g, w)
    i.onlock, i.onunlock, i.atrelease = onlock, onunlock, None
    # nothing that stood anywhere before is known to stand there still: loops keep nothing but what a hint says
    nothing = lambda i, an, view: [Cand("whatever stands there", [], z3.BoolVal(True), spec=True)]
    nothing.alone = True
    i.templates.append(nothing)


def finish(i):
    prove_no_guards(i)


def node_op(i, fn, args=()):
    """an operation on one node"""
    x = i.x
    start(i, single=True)
    a, ra = a_node(i, "a")
    r = run(i, "Node::" + fn, [ra] + [f(i) for f in args])
    i.drop(r)
    finish(i)


def two_nodes(i, fn, rule=False):
    x = i.x
    start(i, single=True)
    a, ra = a_node(i, "a")
    b, rb = a_node(i, "b")
    if rule:
        i.released = []
        # a joint may follow itself: then it is taken twice, as the two nodes that it is
        if x.choose(a == b):
            i.single = None
    else:
        x.assume(a != b)
    more = [x.fresh_of(i.reg.shape("Mimic"), "m")] if rule else []
    run(i, "Node::" + fn, [ra, rb] + more)
    finish(i)


def joint_field(f):
    def make(i):
        js = i.reg.shape("Joint")
        return i.x.fresh_of(js.subs[js.names.index(f)], f)
    return make


def node_field(f):
    return lambda i: i.x.fresh_of(i.nodesh.subs[i.nodesh.names.index(f)], f)


def a_number(i):
    return fresh_T(i, "p")


def set_position(i):
    """the joint is held until its followers are set"""
    x = i.x
    start(i)
    a, ra = a_node(i, "a")
    state = dict(held=None)

    def atrelease(i, g, w):
        hold = [h for h in i.st.guards.values() if h.kind == "mutex" and h.gid != g.gid]
        if not hold:
            x.prove(simp(g.target == a), "the joint set is held while its followers are", "atomic")
    i.atrelease = atrelease

    def hint(i, an, view):
        H = Snap(i)
        old = an.s0
        r = []
        for c in i.nodeleaves:
            if c.startswith((".mimic_parent", ".mimic_children", ".mimic#")) and c in old.heap:
                r.append(Cand("the joint held is as it was (%s)" % c, [], H.cols[c][a] == old.heap[c][a], spec=True))
        return r
    hint.alone = True
    i.templates[:] = [hint]
    run(i, "Node::set_joint_position", [ra, fresh_T(i, "p")])
    finish(i)


def chain_op(i, fn, args=(), serial=False, contracts=()):
    x = i.x
    start(i)
    c = AChain(i)
    x.assume(c.n > 0)
    ref = serial_ref(i, c) if serial else c.ref
    for f in contracts:
        i.contracts[f] = lambda i, a, f=f: takes_none(i, f)
    r = run(i, fn, [ref] + [f(i, c) for f in args])
    i.drop(r)
    finish(i)


def takes_none(i, f):
    """a callee under contract itself: it may be called while no node is held, and gives some value"""
    no_guards(i, "no node is held when %s is called" % f)
    return i.x.fresh_of(ret_shape(i, f), "got")


def by_contract(i, *fns):
    """operations on nodes, checked by themselves: they lock the nodes given, one after the other, and give some value"""
    base = i.st.alloc

    def op(i, args, f):
        locked = [nid(i, a) for a in args[:2] if is_node(i, a)]
        for g in i.st.guards.values():
            if g.kind == "mutex":
                for n in locked:
                    must_hold(i, z3.Or(n >= base), "%s: while a node is held, only nodes that no other thread knows are taken" % f)
        sh = ret_shape(i, f)
        r = i.x.fresh_of(sh, "got")
        if isinstance(r, Enum) and f in ("Node::parent", "Node::mimic_parent"):
            n = nid(i, payload(i, r, "Some"))
            i.x.assume(z3.And(0 <= n, n < base, lib.alive_f(n)))
        return r
    for f in fns:
        i.contracts[f] = lambda i, a, f=f: op(i, a, f)


def is_node(i, a):
    v = lib.rd(i, a)
    while isinstance(v, Struct) and len(v.f) == 1:
        v = lib.rd(i, v.f[0])
    return isinstance(v, Arc)


def clone(i):
    """while a node of the original is held, only nodes of the copy are taken"""
    x = i.x
    start(i)
    base = i.st.alloc
    c = AChain(i)
    by_contract(i, "Node::parent", "Node::mimic_parent", "Node::is_root", "Node::set_parent", "Node::set_mimic_parent", "Node::set_link")
    for f in ("Joint", "Link", "Mimic"):
        i.contracts[f + "::clone"] = copied
    i.contracts["Chain::from_nodes"] = lambda i, a: takes_none(i, "Chain::from_nodes")

    def hint(i, an, view):
        out = []
        if ("alloc",) in an.mods:
            for loc, v in node_vecs(i, an):
                q = z3.Int("q!h")
                out.append(Cand("the new nodes", [q], z3.Implies(z3.And(0 <= q, q < v.len), v.cols[0][q] >= base), [[v.cols[0][q]]], spec=True))
        return out
    hint.alone = True
    i.templates[:] = [hint]
    i.unroll = 0
    i.drop(run(i, "Chain::clone", [c.ref]))
    finish(i)


def climb(i, fn, to_root):
    x = i.x
    start(i)
    a, ra = a_node(i, "a")
    args = [ra]
    if to_root:
        args.append(a_node(i, "b")[1])
    i.contracts["Chain::from_nodes"] = lambda i, a: takes_none(i, "Chain::from_nodes")
    i.drop(run(i, fn, args))
    finish(i)


def from_root(i):
    start(i)
    a, ra = a_node(i, "a")
    i.contracts["Chain::from_nodes"] = lambda i, a: takes_none(i, "Chain::from_nodes")
    i.drop(run(i, "Chain::from_root", [i.reg.shape("Node").build([a])]))
    finish(i)


def from_nodes(i):
    start(i)
    w = node_vec(i, "nodes", Snap(i))
    i.drop(run(i, "Chain::from_nodes", [w.v]))
    finish(i)


def try_new(i):
    start(i)
    c = AChain(i)
    i.drop(run(i, "SerialChain::try_new", [c.w.v]))
    finish(i)


def printing(i, ty):
    x = i.x
    start(i)
    if ty in ("Chain", "SerialChain"):
        c = AChain(i)
        x.assume(c.n > 0)
        arg = c.ref if ty == "Chain" else serial(i, c)
        i.contracts["Chain::fmt_with_indent_level"] = lambda i, a: takes_none(i, "Chain::fmt_with_indent_level")
    else:
        n, arg = a_node(i, "n")
    i.verifying = "%s (Display)" % ty
    i.drop(i.call_fn(i.reg.display(ty), [arg, formatter(i)]))
    i.verifying = None
    finish(i)


def show_tree(i):
    x = i.x
    start(i)
    sh = i.reg.shape("Chain")
    c = AChain(i)
    n, rn = a_node(i, "n")

    def takes(i, f):
        no_guards(i, "no node is held when %s is called" % f)
        return i.x.fresh_of(i.sh.of(i.reg.display("Node")["body"]["locals"][0]["ty"]), "printed")
    i.contracts["Chain::fmt_with_indent_level"] = lambda i, a: takes_none(i, "Chain::fmt_with_indent_level")
    i.contracts["Node::fmt"] = lambda i, a: takes(i, "printing a node")
    # inlined once, the calls below it go by the contract
    run(i, "Chain::fmt_with_indent_level", [c.ref, rn, x.fresh("level", IntS), formatter(i)])
    finish(i)


def links(i):
    """going through them one by one, and letting each go"""
    start(i)
    c = AChain(i)

    def let_go(y):
        held = [g for g in i.st.guards.values() if g.kind == "mutex"]
        i.x.prove(z3.And([z3.BoolVal(len(held) == 1)] + [Snap(i).raw(g.target).link.is_("Some") for g in held]), "the link that was there is handed out", "kept")
        i.drop(y)
    it = run(i, "Chain::iter_links", [c.ref])
    loops.run_lib(i, i.new_cell(lib.into_iter(i, it)), let_go, "reading")
    finish(i)


def joints(i):
    """going through them one by one, and letting each go"""
    start(i)
    c = AChain(i)
    it = run(i, "Chain::iter_joints", [c.ref])
    loops.run_lib(i, i.new_cell(lib.into_iter(i, it)), i.drop, "reading")
    finish(i)


def numbers(i, c):
    return i.new_cell(i.x.fresh_of(VecSh(LeafSh("T", sort_T())), "v"))


def tasks():
    P = "C26"
    T = []
    for f in ("joint", "joint_position", "parent", "children", "is_root", "is_end", "origin", "world_transform", "world_velocity", "mimic_parent", "link"):
        T.append(dict(name="Node::" + f, body=lambda i, f=f: node_op(i, f), fns=["Node::" + f]))
    for f, a in (("set_origin", joint_field("origin")), ("set_link", node_field("link")), ("set_joint_position_clamped", a_number),
                 ("set_joint_position_unchecked", a_number)):
        T.append(dict(name="Node::" + f, body=lambda i, f=f, a=a: node_op(i, f, [a]), fns=["Node::" + f]))
    for f in ("set_parent", "remove_parent"):
        T.append(dict(name="Node::" + f, body=lambda i, f=f: two_nodes(i, f), fns=["Node::" + f]))
    T.append(dict(name="Node::set_mimic_parent", body=lambda i: two_nodes(i, "set_mimic_parent", True), fns=["Node::set_mimic_parent"]))
    T.append(dict(name="Node::set_joint_position", body=set_position, fns=["Node::set_joint_position"]))
    T.append(dict(name="Chain::from_nodes", body=from_nodes, fns=["Chain::from_nodes"]))
    for f, r in (("Chain::from_end", False), ("Chain::from_end_to_root", True), ("SerialChain::from_end", False), ("SerialChain::from_end_to_root", True)):
        T.append(dict(name=f, body=lambda i, f=f, r=r: climb(i, f, r), fns=[f]))
    T.append(dict(name="Chain::from_root", body=from_root, fns=["Chain::from_root"]))
    T.append(dict(name="SerialChain::try_new", body=try_new, fns=["SerialChain::try_new"]))
    for f in ("dof", "joint_positions", "update_transforms", "origin"):
        T.append(dict(name="Chain::" + f, body=lambda i, f=f: chain_op(i, "Chain::" + f), fns=["Chain::" + f], budget=400))
    for f in ("update_velocities", "update_link_transforms"):
        T.append(dict(name="Chain::" + f, body=lambda i, f=f: chain_op(i, "Chain::" + f, contracts=["Chain::update_transforms"]), fns=["Chain::" + f], budget=400))
    T.append(dict(name="Chain::clone", body=clone, fns=["Chain::clone"]))
    T.append(dict(name="Chain::find", body=lambda i: chain_op(i, "Chain::find", [lambda i, c: i.x.fresh("name", Str)]), fns=["Chain::find"]))
    T.append(dict(name="Chain::set_origin", body=lambda i: chain_op(i, "Chain::set_origin", [lambda i, c: joint_field("origin")(i)]), fns=["Chain::set_origin"]))
    for f in ("set_joint_positions", "set_joint_positions_clamped", "set_joint_positions_unchecked"):
        T.append(dict(name="Chain::" + f, fns=["Chain::" + f],
                      body=lambda i, f=f: chain_op(i, "Chain::" + f, [numbers], contracts=["Node::" + f[:-1] if f.endswith("s") else "Node::" + f.replace("positions", "position")])))
    T.append(dict(name="SerialChain::end_transform", body=lambda i: chain_op(i, "SerialChain::end_transform", serial=True), fns=["SerialChain::end_transform"]))
    T.append(dict(name="jacobian", body=lambda i: chain_op(i, "jacobian", serial=True, contracts=["Chain::update_transforms", "SerialChain::end_transform"]), fns=["jacobian"]))
    T.append(dict(name="center_of_mass", body=lambda i: chain_op(i, "center_of_mass", contracts=["Chain::update_transforms"]), fns=["center_of_mass"]))
    T.append(dict(name="Chain::iter_links", body=links, fns=["Chain::iter_links"]))
    T.append(dict(name="Chain::iter_joints", body=joints, fns=["Chain::iter_joints"]))
    T.append(dict(name="Chain::fmt_with_indent_level", body=show_tree, fns=["Chain::fmt_with_indent_level"]))
    T += [dict(name="printing a " + t, body=lambda i, t=t: printing(i, t), fns=[]) for t in ("Chain", "SerialChain", "Node")]
    return [dict(t, prop=P) for t in T]
