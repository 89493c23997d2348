"""Chains: which nodes they hold (C06), position vectors and lookup (C07), serial chains (C23)."""
from spec import *
import lib
from loops import Cand, occurs as loops_occurs
from lib import cnt_f, unr_f
from specs.node import well_formed


# ---------------------------------------------------------------- chains
def movable_at(H, n):
    return z3.Not(H.raw(n).joint.joint_type.is_("Fixed"))


def movable_ids(i, H, ids, name="mov"):
    """array of booleans: is the node at place j movable (joint types never change)"""
    x = i.x
    K = x.fresh(name, z3.ArraySort(IntS, BoolS))
    j = z3.Int("wq")
    n = ids(j)
    x.assume(z3.ForAll([j], K[j] == movable_at(H, n), patterns=[K[j]]))
    return K


class AChain:
    """a chain as from_nodes makes it: the parts and what is known of them"""

    def __init__(self, i, name="c", H=None, distinct=True):
        x = i.x
        self.i = i
        H = H or Snap(i)
        sh = i.reg.shape("Chain")
        self.w = W(i, sh, x.fresh_of(sh, name))
        self.ref = i.new_cell(self.w.v)
        self.nodes, self.mov = self.w.nodes, self.w.movable_nodes
        self.n, self.m = self.nodes.len, self.mov.len
        j, k = z3.Ints("wj wk")
        e, f = self.at(j), self.mat(j)
        x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.And(0 <= e, e < H.alloc, lib.alive_f(e))), patterns=[e]))
        K = self.K = movable_ids(i, H, self.at)
        # movable_nodes is the selection of the movable ones, in order
        x.assume(self.m == cnt_f(K, self.n))
        x.assume(self.w.dof.v == self.m)
        u = unr_f(K, j)
        x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.m), z3.And(0 <= u, u < self.n, K[u], f == self.at(u), cnt_f(K, u) == j,
                                                                             0 <= f, f < H.alloc, lib.alive_f(f), movable_at(H, f))), patterns=[f]))
        x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n, K[j]), z3.And(self.mat(cnt_f(K, j)) == e, cnt_f(K, j) < self.m)), patterns=[e]))
        if distinct:
            # no node twice; place(n) is where n stands
            self.place = z3.Function("place_" + name, IntS, IntS)
            x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.place(e) == j), patterns=[e]))
            self.mplace = z3.Function("mplace_" + name, IntS, IntS)
            x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.m), self.mplace(f) == j), patterns=[f]))

    def at(self, j):
        return nid(self.i, self.nodes[j].v)

    def mat(self, j):
        return nid(self.i, self.mov[j].v)


def node_vec(i, name, H):
    """a vector of existing nodes"""
    x = i.x
    ch = W(i, i.reg.shape("Chain"), i.reg.shape("Chain").named("pattern"))
    v = x.fresh_of(ch.nodes.sh, name)
    w = W(i, ch.nodes.sh, v)
    j = z3.Int("wj")
    e = nid(i, w[j].v)
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.len), z3.And(0 <= e, e < H.alloc, lib.alive_f(e))), patterns=[e]))
    return w


def no_change(i, old, label):
    """the whole heap is as it was"""
    new = Snap(i)
    m = i.x.fresh("m", IntS)
    i.x.assume(z3.And(0 <= m, m < old.alloc))
    for f, e in same_node(i, new, old, m):
        i.x.prove(e, "%s changes no node's %s" % (label, f))


def start(i):
    if i.st.alloc is None:
        i.st.alloc = z3.Int("alloc0")
    old = Snap(i)
    heap_types(i, old)
    well_formed(i, old)
    return old


# ---------------------------------------------------------------- C06, C07
def select_hint(K, n, at):
    """what a loop over n places that collects the nodes of the chosen ones (K) keeps"""
    def hint(i, an, view):
        out = []
        k = an.k
        q = z3.Int("q!h")
        i.x.assume(z3.Implies(k >= 0, cnt_f(K, simp(k + 1)) == cnt_f(K, k) + z3.If(K[k], 1, 0)))    # the definition of cnt
        for loc, v in node_vecs(i, an):
            A, m = v.cols[0], v.len
            out.append(Cand("as many as chosen so far", [], z3.Implies(k <= n, m == cnt_f(K, k)), spec=True))
            for pat in ([K[q]], [cnt_f(K, q)]):
                out.append(Cand("the chosen ones so far", [q], z3.Implies(z3.And(0 <= q, q < k, q < n, K[q]), A[cnt_f(K, q)] == at(q)), [pat], spec=True))
        for c in counters(an):
            out.append(Cand("a count of the chosen ones so far", [], z3.Implies(k <= n, c == cnt_f(K, k)), spec=True))
        return out
    return hint


def from_nodes(i):
    x = i.x
    old = start(i)
    w = node_vec(i, "v", old)
    at = lambda q: nid(i, w[q].v)
    K = movable_ids(i, old, at)
    i.templates.append(select_hint(K, w.len, at))
    r = W(i, i.reg.shape("Chain"), run(i, "Chain::from_nodes", [w.v]))
    prove_no_guards(i)
    no_change(i, old, "building a chain")
    j = x.fresh("j", IntS)
    inn = z3.And(0 <= j, j < w.len)
    m = simp(r.movable_nodes.len)
    if z3.is_app(m) and m.decl().eq(cnt_f):
        # the library's filter was used: what K says where the two selections differ (instances of its definition)
        for d in (lib.dif_f(K, m.arg(0), w.len), lib.dif_f(m.arg(0), K, w.len)):
            x.assume(K[d] == movable_at(old, at(d)))
    x.prove(r.nodes.len == w.len, "the chain keeps the length of the list")
    x.prove(z3.Implies(inn, nid(i, r.nodes[j].v) == at(j)), "the chain keeps the list")
    x.prove(r.dof.v == cnt_f(K, w.len), "the degree of freedom is the number of movable nodes")
    x.prove(r.movable_nodes.len == cnt_f(K, w.len), "as many movable nodes as there are")
    x.prove(z3.Implies(z3.And(inn, K[j]), nid(i, r.movable_nodes[cnt_f(K, j)].v) == at(j)), "movable nodes are listed in chain order")


def dof(i):
    old = start(i)
    c = AChain(i)
    r = run(i, "Chain::dof", [c.ref])
    i.x.prove(r == cnt_f(c.K, c.n), "the degree of freedom is the number of movable nodes")
    no_change(i, old, "reading the degree of freedom")


def joint_positions(i):
    x = i.x
    old = start(i)
    c = AChain(i)
    r = run(i, "Chain::joint_positions", [c.ref])
    prove_no_guards(i)
    no_change(i, old, "reading positions")
    x.prove(r.len == cnt_f(c.K, c.n), "as many positions as movable nodes")
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.m))
    n = c.mat(j)
    x.prove(vec_at(r, j).z() == old.raw(n).joint.position.v.z(), "entry j is the position of movable node j")


def find(i):
    x = i.x
    old = start(i)
    c = AChain(i)
    s = x.fresh("s", Str)
    r = run(i, "Chain::find", [c.ref, s])
    prove_no_guards(i)
    no_change(i, old, "looking a name up")
    j = x.fresh("j", IntS)
    inn = z3.And(0 <= j, j < c.n)
    name = lambda q: old.raw(c.at(q)).joint.name.v
    if x.choose(opt_is_some(r)):
        n = nid(i, payload(i, r, "Some"))
        x.prove(old.raw(n).joint.name.v == s, "the node found has the name")
        x.prove(z3.And(0 <= c.place(n), c.place(n) < c.n, c.at(c.place(n)) == n), "the node found is in the chain")
        x.prove(z3.Implies(z3.And(inn, name(j) == s), c.place(n) <= j), "it is the first of that name")
    else:
        x.prove(z3.Implies(inn, name(j) != s), "nothing found means there is none")


# ---------------------------------------------------------------- setting vectors
POS = (".joint.position", ".joint.world_transform_cache", ".joint.world_velocity_cache")


def free(H, n):
    """mimics no other joint"""
    return H.raw(n).mimic_parent.is_("None")


def followers_are_marked(i, H):
    """a follower of a joint knows that it mimics"""
    n, j = z3.Ints("wn wj")
    w = H.raw(n).mimic_children
    e = nid(i, w[j].v)
    i.x.assume(forall([n, j], z3.Implies(z3.And(0 <= n, n < H.alloc, 0 <= j, j < w.len), z3.Not(free(H, e))), [[e]]))


def set_position_contract(i, args):
    """Node::set_joint_position for its callers; proved from the body in node.py and by set_position_meets below"""
    x = i.x
    no_guards(i, "no lock is held when a position is set")
    a, p = nid(i, args[0]), args[1]
    old = Snap(i)
    havoc(i, *POS)
    new = Snap(i)
    r = x.fresh_of(ret_shape(i, "Node::set_joint_position"), "r")
    x.assume(z3.Implies(z3.And(res_is_ok(r), free(old, a)), new.raw(a).joint.position.v.z() == p.z()))
    x.assume(z3.Implies(z3.Not(free(old, a)), res_is_ok(r)))
    n = z3.Int("wm")
    unchanged_nodes(i, old, new, n, z3.And(n != a, free(old, n)), POS)
    unchanged_nodes(i, old, new, n, z3.Not(free(old, a)), POS)
    return r


def set_position_meets(i):
    """Node::set_joint_position does what its callers rely on"""
    x = i.x
    a, ra = a_node(i, "a")
    old = start(i)
    followers_are_marked(i, old)
    p = fresh_T(i, "p")
    r = run(i, "Node::set_joint_position", [ra, p])
    prove_no_guards(i)
    new = Snap(i)
    x.prove(z3.Implies(z3.And(res_is_ok(r), free(old, a)), new.raw(a).joint.position.v.z() == p.z()), "a free joint set successfully stands at the value")
    x.prove(z3.Implies(z3.Not(free(old, a)), res_is_ok(r)), "setting a mimicking joint succeeds")
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    for f, e in same_node(i, new, old, m, ("joint",)):
        x.prove(e, "a set changes no " + f)
    jo, jn = old.raw(m).joint, new.raw(m).joint
    for f in jo.fields():
        e = jn.get(f).eq(jo.get(f))
        if "." + "joint." + f in POS:
            x.prove(z3.Implies(z3.And(m != a, free(old, m)), e), "a set leaves the %s of free joints alone" % f)
            x.prove(z3.Implies(z3.Not(free(old, a)), e), "a set on a mimicking joint leaves %s alone" % f)
        else:
            x.prove(e, "a set changes no joint's " + f)


def set_positions(i):
    x = i.x
    old = start(i)
    followers_are_marked(i, old)
    c = AChain(i)
    v = x.fresh_of(VecSh(LeafSh("T", sort_T())), "v")
    i.contracts["Node::set_joint_position"] = set_position_contract

    def hint(i, an, view):
        q = z3.Int("q!h")
        n = c.mat(q)
        return [Cand("positions set so far", [q], z3.Implies(z3.And(0 <= q, q < an.k, q < c.m, free(old, n)),
                                                            Snap(i).raw(n).joint.position.v.z() == vec_at(v, q).z()), [[n]], spec=True)]
    i.templates.append(hint)
    r = run(i, "Chain::set_joint_positions", [c.ref, i.new_cell(v)])
    prove_no_guards(i)
    new = Snap(i)
    if x.choose(v.len != c.m):
        x.prove(z3.Not(res_is_ok(r)), "a vector of another length is refused")
        er = payload(i, r, "Err")
        k, names = variant_index(i, er.name, "SizeMismatchError")
        x.prove(er.tag == k, "with a size-mismatch error")
        x.prove(z3.And(payload(i, er, "SizeMismatchError", "input") == v.len, payload(i, er, "SizeMismatchError", "required") == c.m), "that has both sizes")
        no_change(i, old, "a refused vector")
        return
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.m))
    n = c.mat(j)
    x.prove(z3.Implies(z3.And(res_is_ok(r), free(old, n)), new.raw(n).joint.position.v.z() == vec_at(v, j).z()),
            "after success a movable joint that mimics no other stands at its entry")
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    for f, e in same_node(i, new, old, m, ("joint",)):
        x.prove(e, "setting positions changes no " + f)


def clamp_of(jw, p):
    """what a clamped set makes of p"""
    r = jw.limits.pl("Some")
    lo, hi = r.get("min").v.z(), r.get("max").v.z()
    return z3.If(jw.limits.is_("Some"), z3.If(p.z() < lo, lo, z3.If(p.z() > hi, hi, p.z())), p.z())


def ranges_ordered(i, H):
    """limits can only be built with the minimum not above the maximum"""
    n = z3.Int("wn")
    l = H.raw(n).joint.limits
    lo, hi = l.pl("Some").get("min").v.z(), l.pl("Some").get("max").v.z()
    i.x.assume(z3.ForAll([n], z3.Implies(l.is_("Some"), lo <= hi), patterns=[lo, hi]))


def set_all(i, fn, clamped):
    x = i.x
    old = start(i)
    ranges_ordered(i, old)
    c = AChain(i)
    v = x.fresh_of(VecSh(LeafSh("T", sort_T())), "v")
    run(i, fn, [c.ref, i.new_cell(v)])
    prove_no_guards(i)
    new = Snap(i)
    j = x.fresh("j", IntS)
    x.assume(z3.And(0 <= j, j < c.m))
    n = c.mat(j)
    on, nn = old.raw(n).joint, new.raw(n).joint
    want = clamp_of(on, vec_at(v, j)) if clamped else vec_at(v, j).z()
    x.prove(z3.Implies(j < v.len, nn.position.v.z() == want), "movable joint j takes entry j")
    x.prove(z3.Implies(j >= v.len, nn.position.eq(on.position)), "a joint without entry stays")
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    q = c.mplace(m)
    inside = z3.And(0 <= q, q < c.m, c.mat(q) == m)
    for f, e in same_node(i, new, old, m, ("joint",)):
        x.prove(e, "setting positions changes no " + f)
    om, nm = old.raw(m).joint, new.raw(m).joint
    for f in om.fields():
        e = nm.get(f).eq(om.get(f))
        x.prove(z3.Implies(z3.Not(inside), e), "no other joint's %s changes" % f)
        if ".joint." + f not in POS:
            x.prove(e, "setting positions changes no joint's " + f)


# ---------------------------------------------------------------- C06: from an end
def has_parent(H, n):
    p = H.raw(n).parent
    return z3.And(p.is_("Some"), lib.alive_f(p.pl("Some").v.id))


def par(H, n):
    return H.raw(n).parent.pl("Some").v.id


def node_vecs(i, an):
    """vectors of nodes the loop works on, as arrays of ids, with the places they are at"""
    out = []

    def go(v, what):
        if isinstance(v, Vec) and len(v.cols) == 1 and getattr(v.sh, "name", "") == "k::node::Node":
            out.append((what, v))
        elif isinstance(v, Struct):
            for y in v.f:
                go(y, what)
        elif isinstance(v, It):
            for y in v.f:
                go(y, what)
    for loc, t in an.mods.items():
        if t is not None and not z3.is_expr(t):
            go(t, loc)
    return out


def counters(an):
    """integers the loop changes by no fixed step"""
    return [c for c in an.fresh.values() if c.sort() == IntS]


def opt_nodes(i, an):
    """optional nodes the loop works on (the state of an ancestor iterator)"""
    out = []

    def go(v):
        if isinstance(v, Enum) and v.name == lib.OPT and 1 in v.pl and len(v.pl[1]) == 1:
            y = v.pl[1][0]
            while isinstance(y, Struct) and len(y.f) == 1:
                y = y.f[0]
            if isinstance(y, Arc):
                out.append((v, y.id))
        elif isinstance(v, (Struct, It)):
            for y in v.f:
                go(y)
    for t in an.mods.values():
        if t is not None and not z3.is_expr(t):
            go(t)
    return out


def up_hint(old, a, stop=None):
    """what a loop that climbs from node a and collects the nodes keeps"""
    def hint(i, an, view):
        out = []
        q = z3.Int("q!h")
        for loc, v in node_vecs(i, an):
            A, k = v.cols[0], v.len
            inn = z3.And(0 <= q, q + 1 < k)
            out.append(Cand("starts at the end", [], z3.Implies(k > 0, A[0] == a), spec=True))
            out.append(Cand("each next one is the parent", [q], z3.Implies(inn, z3.And(has_parent(old, A[q]), par(old, A[q]) == A[simp(q + 1)])), [[A[simp(q + 1)]]], spec=True))
            out.append(Cand("each next one is the parent", [q], z3.Implies(inn, z3.And(has_parent(old, A[q]), par(old, A[q]) == A[simp(q + 1)])), [[A[q]]], spec=True))
            if stop is not None:
                out.append(Cand("not at the named node yet", [q], z3.Implies(z3.And(0 <= q, q < k), A[q] != stop), [[A[q]]], spec=True))
            for o, n in opt_nodes(i, an):
                some = o.tag == 1
                last = A[simp(k - 1)]
                out.append(Cand("first the end", [], z3.Implies(k == 0, z3.And(some, n == a)), spec=True))
                out.append(Cand("then the parent of the last", [], z3.Implies(z3.And(k > 0, some), z3.And(has_parent(old, last), par(old, last) == n)), spec=True))
                out.append(Cand("until there is none", [], z3.Implies(z3.And(k > 0, z3.Not(some)), z3.Not(has_parent(old, last))), spec=True))
                out.append(Cand("an existing node", [], z3.Implies(some, z3.And(0 <= n, n < old.alloc, lib.alive_f(n))), spec=True))
            out.append(Cand("existing nodes", [q], z3.Implies(z3.And(0 <= q, q < k), z3.And(0 <= A[q], A[q] < old.alloc, lib.alive_f(A[q]))), [[A[q]]], spec=True))
        return out
    return hint


def from_nodes_contract(i, args):
    """Chain::from_nodes for its callers: proved in from_nodes above"""
    x = i.x
    no_guards(i, "no lock is held when a chain is built")
    H = Snap(i)
    v = args[0]
    j = x.fresh("j", IntS)
    sh = i.reg.shape("Chain")
    w = W(i, sh.subs[sh.names.index("nodes")], v)
    e = nid(i, w[j].v)
    must_hold(i, z3.Implies(z3.And(0 <= j, j < w.len), z3.And(0 <= e, e < H.alloc, lib.alive_f(e))), "a chain is built of existing nodes")
    r = W(i, sh, x.fresh_of(sh, "chain"))
    fs = list(r.v.f)
    fs[sh.names.index("nodes")] = v
    r = W(i, sh, Struct(r.v.name, fs))
    K = movable_ids(i, H, lambda q: nid(i, w[q].v))
    q = z3.Int("wq")
    u = unr_f(K, q)
    m = r.movable_nodes
    f = nid(i, m[q].v)
    x.assume(z3.And(m.len == cnt_f(K, w.len), r.dof.v == m.len))
    x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m.len), z3.And(0 <= u, u < w.len, K[u], f == nid(i, w[u].v), cnt_f(K, u) == q)), patterns=[f]))
    return r.v


def chain_nodes(i, v):
    """the nodes of a Chain, or of a SerialChain"""
    sh = i.reg.shape("Chain")
    while isinstance(v, Struct) and v.name != sh.name:
        v = v.f[0]
    return W(i, sh, v).nodes


def climb(i, fn, to_root):
    x = i.x
    old = start(i)
    a, ra = a_node(i, "a")
    args = [ra]
    b = None
    if to_root:
        b, rb = a_node(i, "b")
        args.append(rb)
    i.contracts["Chain::from_nodes"] = from_nodes_contract
    i.templates.append(up_hint(old, a, b))
    r = chain_nodes(i, run(i, fn, args))
    prove_no_guards(i)
    no_change(i, old, "building a chain")
    n = r.len
    at = lambda q: nid(i, r[q].v)
    x.prove(n >= 1, "the chain has a node")
    x.prove(at(simp(n - 1)) == a, "the last node is the end")
    j = x.fresh("j", IntS)
    inn = z3.And(0 <= j, j + 1 < n)
    x.prove(z3.Implies(inn, z3.And(has_parent(old, at(simp(j + 1))), par(old, at(simp(j + 1))) == at(j))), "each node's parent stands before it")
    if to_root:
        x.prove(z3.Or(at(I(0)) == b, z3.Not(has_parent(old, at(I(0))))), "the first node is the named one or has no parent")
        x.prove(z3.Implies(inn, at(simp(j + 1)) != b), "the path ends at the named node")
    else:
        x.prove(z3.Not(has_parent(old, at(I(0)))), "the first node has no parent")


# ---------------------------------------------------------------- C06: from a root
class Tree:
    """the nodes below r: children and parents in step, no cycles; D(n): n is r or has a parent in D"""

    def __init__(self, i, H, r):
        x = i.x
        self.D = D = z3.Function("desc", IntS, BoolS)
        depth = z3.Function("depth", IntS, IntS)
        ci = z3.Function("cindex", IntS, IntS)
        n, j = z3.Ints("wn wj")
        w = H.raw(n).children
        c = nid(i, w[j].v)
        self.depth, self.ci = depth, ci
        self.H, self.i, self.r = H, i, r
        x.assume(D(r))
        x.assume(forall([n, j], self.down(n, j), [[nid(i, w[j].v)]]))
        x.assume(z3.ForAll([n], self.up(n), patterns=[D(n)]))

    def down(self, n, j):
        """the children of a node below r are below r; attaching made both sides; a node is listed once"""
        w = self.H.raw(n).children
        c = nid(self.i, w[j].v)
        return z3.Implies(z3.And(self.D(n), 0 <= j, j < w.len),
                          z3.And(self.D(c), has_parent(self.H, c), par(self.H, c) == n, self.ci(c) == j, self.depth(c) == self.depth(n) + 1))

    def up(self, n):
        """a node below r is a child of another such, one deeper"""
        p = par(self.H, n)
        wp = self.H.raw(p).children
        c = self.ci(n)
        return z3.Implies(self.D(n), z3.And(0 <= n, n < self.H.alloc,
                          z3.Implies(n != self.r, z3.And(has_parent(self.H, n), self.D(p), 0 <= c, c < wp.len, nid(self.i, wp[c].v) == n,
                                                         self.depth(n) > self.depth(self.r)))))

    def kids(self, n):
        return self.H.raw(n).children

    def kid(self, n, j):
        return nid(self.i, self.kids(n)[j].v)


AI = z3.ArraySort(IntS, IntS)
among = z3.Function("among", AI, IntS, IntS, BoolS)      # n is one of the first k entries of A
where_f = z3.Function("where", AI, IntS, IntS, IntS)


def among_axioms():
    """the definition of among, and its step over one write (both are theorems of the definition)"""
    A = z3.Const("wA", AI)
    k, n, j, v, q = z3.Ints("wk wn wj wv wq")
    w = where_f(A, k, n)
    B = z3.Store(A, k, v)
    return [z3.ForAll([A, k, n], z3.Implies(among(A, k, n), z3.And(0 <= w, w < k, A[w] == n)), patterns=[among(A, k, n)]),
            z3.ForAll([A, k, n, j], z3.Implies(z3.And(0 <= j, j < k, A[j] == n), among(A, k, n)), patterns=[z3.MultiPattern(among(A, k, n), A[j])]),
            z3.ForAll([A, k, v, q, n], z3.Implies(q <= k, among(B, q, n) == among(A, q, n)), patterns=[among(B, q, n)]),
            z3.ForAll([A, k, v, q, n], z3.Implies(z3.And(0 <= k, q == k + 1), among(B, q, n) == z3.Or(among(A, k, n), n == v)), patterns=[among(B, q, n)])]


def down_hint(i0, old, tree, r):
    def hint(i, an, view):
        out = []
        q, u = z3.Ints("q!h q!u")
        vs = node_vecs(i, an)
        for la, A in vs:
            if not loops_occurs(A.len, an.k):
                continue
            a, k = A.cols[0], A.len
            if len(vs) == 1:
                # a loop that puts the children of one node on the stack
                a0, k0 = z3.substitute(a, *an.sub0), simp(z3.substitute(k, *an.sub0))
                out.append(Cand("what waited still waits", [q], z3.Implies(among(a0, k0, q), among(a, k, q)), [[among(a, k, q)]], spec=True))
                out.append(Cand("the children so far wait", [q], z3.Implies(z3.And(k > k0, tree.D(q), q != r, par(old, q) == par(old, a[k0]), tree.ci(q) < k - k0),
                                                                            among(a, k, q)), [[among(a, k, q)]], spec=True))
                out.append(Cand("they are below the root", [q], z3.Implies(z3.And(k0 <= q, q < k), z3.And(tree.D(a[q]), a[q] != r, par(old, a[q]) == par(old, a[k0]))), [[a[q]]], spec=True))
            for ls, S in vs:
                if ls == la:
                    continue
                s, m = S.cols[0], S.len
                inA = lambda t: z3.And(0 <= t, t < k)
                inS = lambda t: z3.And(0 <= t, t < m)
                ok = lambda e: z3.And(0 <= e, e < old.alloc, lib.alive_f(e), tree.D(e))
                C = lambda label, vs, body, pats: out.append(Cand(label, vs, body, pats, spec=True))
                C("taken nodes are below the root", [q], z3.Implies(inA(q), ok(a[q])), [[a[q]]])
                C("waiting nodes are below the root", [q], z3.Implies(inS(q), ok(s[q])), [[s[q]]])
                C("no node is taken twice", [q], z3.Implies(inA(q), z3.Not(among(a, q, a[q]))), [[a[q]]])
                C("no node waits twice", [q], z3.Implies(inS(q), z3.Not(among(s, q, s[q]))), [[s[q]]])
                C("a waiting node is not taken", [q], z3.Implies(inS(q), z3.Not(among(a, k, s[q]))), [[s[q]]])
                C("the root is first", [], z3.If(k == 0, z3.And(m == 1, s[0] == r), a[0] == r), [])
                C("a taken node is the root or its parent was taken before", [q],
                  z3.Implies(z3.And(inA(q), q > 0), z3.And(a[q] != r, has_parent(old, a[q]), among(a, q, par(old, a[q])))), [[a[q]]])
                C("the parent of a waiting node was taken", [q],
                  z3.Implies(z3.And(inS(q), k > 0), z3.And(s[q] != r, has_parent(old, s[q]), among(a, k, par(old, s[q])))), [[s[q]]])
                kid = tree.kid(a[q], u)
                C("a child of a taken node was taken or waits", [q, u],
                  z3.Implies(z3.And(inA(q), 0 <= u, u < tree.kids(a[q]).len), z3.Or(among(a, k, kid), among(s, m, kid))), [[kid]])
        return out
    return hint


def from_root(i):
    x = i.x
    old = start(i)
    r, rr = a_node(i, "r")
    tree = Tree(i, old, r)
    i.contracts["Chain::from_nodes"] = from_nodes_contract
    i.templates.append(down_hint(i, old, tree, r))
    c = chain_nodes(i, run(i, "Chain::from_root", [i.reg.shape("Node").build([r])]))
    prove_no_guards(i)
    no_change(i, old, "building a chain")
    at = lambda q: nid(i, c[q].v)
    x.prove(z3.And(c.len >= 1, at(I(0)) == r), "the chain starts with the root")
    j, k = x.fresh("j", IntS), x.fresh("k", IntS)
    inn = z3.And(0 <= j, j < c.len)
    x.prove(z3.Implies(inn, tree.D(at(j))), "only descendants of the root are in the chain")
    x.prove(z3.Implies(z3.And(inn, 0 <= k, k < j), at(j) != at(k)), "no node is in the chain twice")
    u = z3.Int("wu")
    A = c.v.cols[0]
    x.prove(z3.Implies(z3.And(inn, j > 0), z3.And(has_parent(old, at(j)), among(A, j, par(old, at(j))))),
            "each node stands after its parent")
    # every descendant is in the chain: by induction on the depth below the root
    n = x.fresh("n", IntS)
    inc = lambda e: among(A, c.len, e)
    d = tree.depth
    m = z3.Int("wm")
    ih = z3.ForAll([m], z3.Implies(z3.And(tree.D(m), d(m) < d(n)), inc(m)), patterns=[tree.D(m)])
    x.prove(z3.Implies(z3.And(ih, tree.D(n)), inc(n)), "every descendant of the root is in the chain")


def from_root_contract(tree_of):
    """Chain::from_root for its callers, proved in from_root above; tree_of(H, r) gives the tree below r in state H"""
    def contract(i, args):
        x = i.x
        no_guards(i, "no lock is held when a chain is built")
        H = Snap(i)
        r = nid(i, args[0])
        t = tree_of(H, r)
        n, j = x.fresh("n", IntS), x.fresh("j", IntS)
        must_hold(i, t.D(r), "a chain is built from the root of a tree")
        for n in t.cases(x) if hasattr(t, "cases") else [n]:
            must_hold(i, t.down(n, j), "the children of a node of the tree are in the tree, and it is their parent")
            must_hold(i, t.up(n), "a node of the tree is a child of another, one deeper")
        sh = i.reg.shape("Chain")
        v = x.fresh_of(sh, "chain")
        c = chain_nodes(i, v)
        q = z3.Int("wq")
        e = nid(i, c[q].v)
        inn = z3.And(0 <= q, q < c.len)
        place = z3.Function("place_in_chain", IntS, IntS)
        x.assume(z3.And(c.len >= 1, nid(i, c[I(0)].v) == r))
        up = place(par(H, e))
        x.assume(z3.ForAll([q], z3.Implies(inn, z3.And(t.D(e), place(e) == q, z3.Implies(q > 0, z3.And(has_parent(H, e), 0 <= up, up < q)))), patterns=[e]))
        x.assume(z3.ForAll([q], z3.Implies(t.D(q), z3.And(0 <= place(q), place(q) < c.len, nid(i, c[place(q)].v) == q)), patterns=[place(q)]))
        return v
    return contract


# ---------------------------------------------------------------- C23
def try_new(i):
    x = i.x
    old = start(i)
    c = AChain(i, distinct=False)
    x.assume(c.n >= 1)
    kids = lambda q: old.raw(c.at(q)).children.len

    def hint(i, an, view):
        q = z3.Int("q!h")
        return [Cand("one child each so far", [q], z3.Implies(z3.And(0 <= q, q < an.k, q + 1 < c.n), kids(q) == 1), [[c.at(q)]], spec=True)]
    i.templates.append(hint)
    if x.choose(x.fresh("serial", BoolS)):
        q = z3.Int("wq")
        x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q + 1 < c.n), kids(q) == 1), patterns=[c.at(q)]))
        serial = True
    else:
        bad = x.fresh("bad", IntS)
        x.assume(z3.And(0 <= bad, bad + 1 < c.n, kids(bad) != 1))
        serial = False
    r = run(i, "SerialChain::try_new", [c.w.v])
    prove_no_guards(i)
    no_change(i, old, "converting a chain")
    if not serial:
        x.prove(opt_is_none(r), "a chain where some node but the last has not exactly one child is refused")
        return
    x.prove(opt_is_some(r), "a chain where every node but the last has exactly one child is accepted")
    v = payload(i, r, "Some")
    sh = i.reg.shape("Chain")
    while isinstance(v, Struct) and v.name != sh.name:
        v = v.f[0]
    x.prove(same(i, v, c.w.v), "the chain is kept unchanged")


def new_unchecked(i):
    """the unchecked conversion and the way back keep the chain"""
    x = i.x
    old = start(i)
    c = AChain(i, distinct=False)
    s = run(i, "SerialChain::new_unchecked", [c.w.v])
    no_change(i, old, "wrapping a chain")
    v = run(i, "SerialChain::unwrap", [s])
    x.prove(same(i, v, c.w.v), "the chain is kept unchanged")
    no_change(i, old, "unwrapping a chain")


def serial_tree(i):
    """lemma: in a chain from a root where every node but the last has one child, each node is the only child of the one before"""
    x = i.x
    old = start(i)
    r, rr = a_node(i, "r")
    t = Tree(i, old, r)
    A = x.fresh("A", AI)
    n = x.fresh("n", IntS)
    j, k = z3.Ints("wj wk")
    # what from_root ensures
    x.assume(z3.And(n >= 1, A[0] == r))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), t.D(A[j])), patterns=[A[j]]))
    x.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), A[j] != A[k]), patterns=[z3.MultiPattern(A[j], A[k])]))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 < j, j < n), z3.And(has_parent(old, A[j]), among(A, j, par(old, A[j])))), patterns=[A[j]]))
    # what try_new has found
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j + 1 < n), t.kids(A[j]).len == 1), patterns=[A[j]]))
    q = x.fresh("q", IntS)
    x.assume(z3.And(0 <= q, q + 1 < n))
    # induction hypothesis
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q), t.kid(A[j], I(0)) == A[j + 1]), patterns=[A[j]]))
    nx = A[simp(q + 1)]
    p = par(old, nx)
    w = where_f(A, simp(q + 1), p)
    x.prove(z3.Implies(nx != r, z3.And(0 <= w, w <= q, A[w] == p)), "the parent stands before")
    x.prove(nx != r, "only the first node is the root")
    x.prove(t.kid(p, I(0)) == nx, "the node is its parent's only child")
    x.prove(z3.Implies(w < q, A[simp(w + 1)] == nx), "it would be the one after its parent")
    x.prove(w == q, "its parent is the node before")
    x.prove(z3.And(p == A[q], t.kids(A[q]).len == 1, t.kid(A[q], I(0)) == nx), "each node is the only child of the node before it")


def tasks():
    return [dict(prop="C07", name="Chain::from_nodes", body=from_nodes, fns=["Chain::from_nodes"]),
            dict(prop="C06", name="Chain::from_nodes", body=from_nodes, fns=["Chain::from_nodes"]),
            dict(prop="C07", name="Chain::dof", body=dof, fns=["Chain::dof"]),
            dict(prop="C07", name="Chain::joint_positions", body=joint_positions, fns=["Chain::joint_positions", "Chain::iter_joints"]),
            dict(prop="C07", name="Chain::find", body=find, fns=["Chain::find"]),
            dict(prop="C07", name="Node::set_joint_position for its callers", body=set_position_meets, fns=["Node::set_joint_position"]),
            dict(prop="C07", name="Chain::set_joint_positions", body=set_positions, fns=["Chain::set_joint_positions"]),
            dict(prop="C07", name="Chain::set_joint_positions_clamped", body=lambda i: set_all(i, "Chain::set_joint_positions_clamped", True),
                 fns=["Chain::set_joint_positions_clamped", "Node::set_joint_position_clamped"]),
            dict(prop="C07", name="Chain::set_joint_positions_unchecked", body=lambda i: set_all(i, "Chain::set_joint_positions_unchecked", False),
                 fns=["Chain::set_joint_positions_unchecked", "Node::set_joint_position_unchecked"]),
            dict(prop="C06", name="Chain::from_end", body=lambda i: climb(i, "Chain::from_end", False), fns=["Chain::from_end", "Node::iter_ancestors", "Ancestors::next"]),
            dict(prop="C06", name="Chain::from_end_to_root", body=lambda i: climb(i, "Chain::from_end_to_root", True), fns=["Chain::from_end_to_root"]),
            dict(prop="C06", name="SerialChain::from_end", body=lambda i: climb(i, "SerialChain::from_end", False), fns=["SerialChain::from_end"]),
            dict(prop="C06", name="SerialChain::from_end_to_root", body=lambda i: climb(i, "SerialChain::from_end_to_root", True), fns=["SerialChain::from_end_to_root"]),
            dict(prop="C06", name="Chain::from_root", body=from_root, fns=["Chain::from_root", "Node::iter_descendants", "Descendants::next"], budget=400, axioms=among_axioms()),
            dict(prop="C23", name="SerialChain::try_new", body=try_new, fns=["SerialChain::try_new"]),
            dict(prop="C23", name="SerialChain::new_unchecked", body=new_unchecked, fns=["SerialChain::new_unchecked", "SerialChain::unwrap"]),
            dict(prop="C23", name="chains from a root (lemma)", body=serial_tree, fns=[], axioms=among_axioms()),
            dict(prop="C23", name="Chain::from_root", body=from_root, fns=["Chain::from_root"], budget=400, axioms=among_axioms()),
            ]
