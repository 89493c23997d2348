"""C24: no operation panics or locks a node it already holds.

Every function under contract carries these obligations along; the tasks of the other specifications are repeated here for their sake,
and the operations that have no other property are added."""
from spec import *
import lib
import loops
from specs.chain import AChain, start, no_change, chain_nodes


def outer(i, depth, n):
    """some node that the caller may hold: any one less deep than n"""
    h = i.x.fresh("held", IntS)
    i.x.assume(depth(h) < depth(n))
    g = Guard(lib.new_gid(i), "mutex", h)
    i.st.guards[g.gid] = g
    return g


def depths(i, H):
    """a tree has no cycles: children are deeper than their parent"""
    depth = z3.Function("depth", IntS, IntS)
    n, j = z3.Ints("wn wj")
    w = H.raw(n).children
    e = nid(i, w[j].v)
    i.x.assume(forall([n, j], z3.Implies(z3.And(0 <= n, n < H.alloc, 0 <= j, j < w.len), depth(e) == depth(n) + 1), [[e]]))
    return depth


def formatter(i):
    return i.new_cell(Opaque("formatter"))


def show_tree(i):
    """printing below a node, while nodes above it are held"""
    x = i.x
    old = start(i)
    depth = depths(i, old)
    sh = i.reg.shape("Chain")
    chain = x.fresh_of(sh, "c")
    w = W(i, sh, chain)
    j = z3.Int("wj")
    e = nid(i, w.nodes[j].v)
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.nodes.len), z3.And(0 <= e, e < old.alloc, lib.alive_f(e))), patterns=[e]))
    n, rn = a_node(i, "n")
    outer(i, depth, n)
    before = set(i.st.guards)

    def again(i, args):
        m = nid(i, args[1])
        for g in i.st.guards.values():
            must_hold(i, depth(g.target) < depth(m), "only nodes above are held while a node is printed")
        return x_result(i)

    def x_result(i):
        return i.x.fresh_of(ret_shape(i, "Chain::fmt_with_indent_level"), "printed")
    i.contracts["Chain::fmt_with_indent_level"] = again
    i.contracts["Node::fmt"] = lambda i, args: takes(i, args, "Node::fmt")
    run(i, "Chain::fmt_with_indent_level", [i.new_cell(chain), rn, x.fresh("level", IntS), formatter(i)])
    x.prove(z3.BoolVal(set(i.st.guards) == before), "every guard taken is released", "lock")
    no_change(i, old, "printing")


def takes(i, args, fn):
    """locks its node for a while, and nothing else (see: printing a Node)"""
    n = nid(i, args[0])
    for g in i.st.guards.values():
        must_hold(i, g.target != n, "a node is not locked again while it is held")
    return i.x.fresh_of(i.sh.of(i.reg.display(fn.split("::")[0])["body"]["locals"][0]["ty"]), "printed")


def show(i, ty):
    """Display of a chain, node or joint"""
    x = i.x
    old = start(i)
    if ty in ("Chain", "SerialChain"):
        depth = depths(i, old)
        c = AChain(i)
        x.assume(c.n > 0)
        arg = c.ref if ty == "Chain" else serial(i, c)

        def tree(i, args):
            no_guards(i, "no node is held")
            return i.x.fresh_of(ret_shape(i, "Chain::fmt_with_indent_level"), "printed")
        i.contracts["Chain::fmt_with_indent_level"] = tree
    elif ty == "Node":
        n, arg = a_node(i, "n")
    else:
        sh = i.reg.shape(ty)
        arg = i.new_cell(x.fresh_of(sh, "v"))
    fn = i.reg.display(ty)
    i.verifying = "%s (Display)" % ty
    i.call_fn(fn, [arg, formatter(i)])
    i.verifying = None
    prove_no_guards(i)
    no_change(i, old, "printing")


def serial(i, c):
    sh = i.reg.shape("SerialChain")
    return i.new_cell(sh.build(i.sh.of(i.reg.type_of_adt("Chain")).flat(c.w.v)))


def links(i):
    """going through the links of a chain"""
    x = i.x
    old = start(i)
    c = AChain(i)
    it = run(i, "Chain::iter_links", [c.ref])
    prove_no_guards(i)
    q = x.fresh("n", IntS)
    loops.lib_iter_fn(i, "count", lib.into_iter(i, it), [], None, it)
    prove_no_guards(i)
    no_change(i, old, "reading links")


def origins(i):
    x = i.x
    old = start(i)
    c = AChain(i)
    x.assume(c.n > 0)
    o = run(i, "Chain::origin", [c.ref])
    first = c.at(I(0))
    x.prove(same(i, o, old.raw(first).joint.origin.v), "the origin of a chain is that of its first node")
    no_change(i, old, "reading the origin")
    sh = i.reg.shape("Joint")
    p = x.fresh_of(sh.subs[sh.names.index("origin")], "o")
    run(i, "Chain::set_origin", [c.ref, p])
    prove_no_guards(i)
    new = Snap(i)
    x.prove(same(i, new.node(first).joint.origin.v, p), "the first node has the origin set")
    others_untouched(i, old, new, (first,), "setting the origin")


def guards(i):
    """the references that keep a node locked give it back when dropped"""
    old = start(i)
    for f in ("joint", "link", "children", "mimic_parent"):
        n, rn = a_node(i, "n" + f)
        r = run(i, "Node::" + f, [rn])
        i.drop(r)
        prove_no_guards(i)
    no_change(i, old, "taking and dropping guards")


def tasks():
    import importlib
    P = "C24"
    T = [dict(prop=P, name="Chain::fmt_with_indent_level", body=show_tree, fns=["Chain::fmt_with_indent_level"])]
    T += [dict(prop=P, name="printing a " + t, body=lambda i, t=t: show(i, t), fns=[]) for t in ("Chain", "SerialChain", "Node", "Joint", "JointType")]
    T += [dict(prop=P, name="Chain::iter_links", body=links, fns=["Chain::iter_links"]),
          dict(prop=P, name="Chain::origin, set_origin", body=origins, fns=["Chain::origin", "Chain::set_origin"]),
          dict(prop=P, name="guards", body=guards, fns=["Node::joint", "Node::link", "Node::children"])]
    have = set()
    for m in ("clone", "kinematics", "chain", "node", "joint"):
        for t in importlib.import_module("specs." + m).tasks():
            if t.get("mode", "real") == "real" and t["fns"] and t["name"] not in have:
                have.add(t["name"])
                T.append(dict(t, prop=P))
    # what the functions compute is another property's business: only these kinds of obligations speak of panics and locks
    T.sort(key=lambda t: "update_" not in t["name"] and t["name"] != "Chain::clone")      # the long ones first
    return [dict(t, about=("panic", "pre", "lock")) for t in T]
