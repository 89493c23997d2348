"""The inverse kinematics solver (C13-C16)."""
from spec import *
import lib
import loops
from loops import Cand
from lib import cnt_f, unr_f, BArr
from specs.chain import AChain, start, POS, clamp_of, ranges_ordered, no_change, set_all, joint_positions, dof
from specs.kinematics import (tree_chain, parents_first, same_chain, cache, vcache, serial_ref, iso_of, TF, VL, end_transform, jacobian)
from specs.misc import flags, rank, full_diff, iso_sh, con_sh, AX, selected, split, space, default

OWN_ERRORS = ("InvalidJointNameError", "PreconditionError")        # errors of the solve itself, not of a step
AR = z3.ArraySort(IntS, RealS)
touch2 = z3.Function("touch2", Str, BoolS)
touch = z3.Function("touch", IntS, BoolS)      # puts a term before the solver, for its triggers
EPr = z3.Function("end_rot", AR, RotS)
EPt = [z3.Function("end_t%d" % k, AR, RealS) for k in range(3)]
POSCOL = ".joint.position"


# ---------------------------------------------------------------- vocabulary
class Arm:
    """a serial chain in a tree, with the data the solver works on"""

    def __init__(self, i):
        x = i.x
        self.i = i
        self.old = old = start(i)
        ranges_ordered(i, old)
        self.c = c = tree_chain(i, old)
        self.ref = serial_ref(i, c)
        sh = i.reg.shape("JacobianIkSolver")
        self.s = W(i, sh, x.fresh_of(sh, "solver"))
        self.sref = i.new_cell(self.s.v)
        self.target = x.fresh_of(iso_sh(i), "target")
        self.tref = i.new_cell(self.target)
        # steps computed on this path
        self.steps, self.sets = [], []
        i.dyncall = nullspace_contract(self)

    def movable(self, n):
        """is node n one of the movable nodes of the arm"""
        q = self.c.mplace(n)
        return z3.And(0 <= q, q < self.c.m, self.c.mat(q) == n)

    def pos(self, H, n):
        return H.raw(n).joint.position.v.z()

    def legal(self, H, n):
        """within its limits (if it has any)"""
        jw = self.old.raw(n).joint
        r = jw.limits.pl("Some")
        return z3.Or(jw.limits.is_("None"), z3.And(r.get("min").v.z() <= self.pos(H, n), self.pos(H, n) <= r.get("max").v.z()))

    def end(self, H):
        """pose of the end at the positions of H, which all that the products depend on determines"""
        p = H.cols[POSCOL]
        return rot(EPr(p)), [poly(f(p)) for f in EPt]

    def diff(self, H):
        """the six coordinates from the end pose to the target"""
        sh = iso_sh(self.i)
        r = self.target.f[sh.names.index("rotation")]
        t = self.target.f[sh.names.index("translation")].f[0]
        er, et = self.end(H)
        return full_diff(r, t, er, Mat(3, 1, et))


def T_vec(i, name, kind=None):
    return i.x.fresh_of(VecSh(LeafSh("T", sort_T()), kind) if kind else VecSh(LeafSh("T", sort_T())), name)


def nullspace_contract(A):
    """the user's function: any vector with an entry per movable joint; it does not touch the tree"""
    def f(i, fn, args):
        i.x.assumptions.add("a null-space function returns one number per movable joint and leaves the tree alone")
        r = T_vec(i, "subtask")
        i.x.assume(r.len == A.c.m)
        return r
    return f


# ---------------------------------------------------------------- contracts of the callees
def positions_contract(A):
    """Chain::joint_positions, proved in chain.py"""
    def f(i, args):
        no_guards(i, "no lock is held when positions are read")
        same_chain(i, A.c, args[0])
        H = Snap(i)
        r = T_vec(i, "positions")
        q = z3.Int("wq")
        e = vec_at(r, q).z()
        i.x.assume(r.len == A.c.m)
        i.x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < A.c.m), e == A.pos(H, A.c.mat(q))), patterns=[e]))
        return r
    return f


def set_contract(A, clamped):
    """Chain::set_joint_positions_clamped and _unchecked, proved in chain.py"""
    def f(i, args):
        x, c = i.x, A.c
        no_guards(i, "no lock is held when positions are set")
        same_chain(i, c, args[0])
        v = lib.rd(i, args[1])
        A.sets.append(v)
        old = Snap(i)
        havoc(i, *POS)
        new = Snap(i)
        n = z3.Int("wm")
        q = c.mplace(n)
        e = vec_at(v, q)
        to = clamp_of(old.raw(n).joint, e) if clamped else e.z()
        now = new.cols[POSCOL][n]
        x.assume(z3.ForAll([n], now == z3.If(z3.And(A.movable(n), q < v.len), to, old.cols[POSCOL][n]), patterns=[now]))
        unchanged_nodes(i, old, new, n, z3.Not(A.movable(n)), POS[1:])
        return UNIT
    return f


def end_contract(A):
    """SerialChain::end_transform, proved in kinematics.py: a function of the positions (all else it reads is as at the start)"""
    def f(i, args):
        no_guards(i, "no lock is held when the end transform is computed")
        same_chain(i, A.c, args[0])
        H = Snap(i)
        for col in cols_of(i, ".joint.origin", ".joint.joint_type"):
            must_hold(i, z3.BoolVal(H.cols[col].eq(A.old.cols[col])), "origins and joint types are as at the start")
        sh = ret_shape(i, "SerialChain::end_transform")
        r = i.x.fresh_of(sh, "end")
        t = iso_of(W(i, sh, r))
        er, et = A.end(H)
        i.x.assume(z3.And([t.r.z() == er.z()] + [a.z() == b.z() for a, b in zip(t.t, et)]))
        return r
    return f


def jacobian_contract(A):
    """jacobian, proved in kinematics.py"""
    def f(i, args):
        x, c = i.x, A.c
        no_guards(i, "no lock is held when the Jacobian is computed")
        same_chain(i, c, args[0])
        old = Snap(i)
        q = x.fresh("q", IntS)
        must_hold(i, parents_first(c, old, q, cache), "parents stand before their children; poses outside the arm are up to date")
        havoc(i, TF)
        new = Snap(i)
        w = z3.Int("wq")
        x.assume(z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < c.n), cache(new, c.at(w))[0]), patterns=[c.at(w)]))
        unchanged_nodes(i, old, new, z3.Int("wm"), z3.Not(c.inside(z3.Int("wm"))), (TF,))
        r = x.fresh_of(ret_shape(i, "jacobian"), "jacobian")
        x.assume(z3.And(r.r == 6, r.c == c.m))
        A.J = r
        return r
    return f


def diff_contract(i, args):
    """calc_pose_diff_with_constraints, proved in misc.py"""
    sh = iso_sh(i)
    a, b, sp = lib.rd(i, args[0]), lib.rd(i, args[1]), lib.rd(i, args[2])
    k, t = sh.names.index("rotation"), sh.names.index("translation")
    full = full_diff(a.f[k], a.f[t].f[0], b.f[k], b.f[t].f[0])
    r = T_vec(i, "diff", "dvec")
    i.x.assume(r.len == rank(sp.f, 6))
    for k in range(6):
        i.x.assume(z3.Implies(sp.f[k], vec_at(r, rank(sp.f, k)).z() == full[k].z()))
    return r


def split_contract(i, args):
    """target_diff_to_len_rot_diff, proved in misc.py"""
    v, sp = lib.rd(i, args[0]), lib.rd(i, args[1])
    must_hold(i, v.len == rank(sp.f, 6), "a value for every coordinate that is switched on")
    es = [num(i.x.fresh("part%d" % k, RealS)) for k in range(6)]
    for k in range(6):
        i.x.assume(es[k].z() == z3.If(sp.f[k], vec_at(v, rank(sp.f, k)).z(), z3.RealVal(0)))
    return Struct("tuple", [Mat(3, 1, es[:3]), Mat(3, 1, es[3:])])


def callees(A):
    i = A.i
    i.contracts.update({
        "Chain::joint_positions": positions_contract(A),
        "Chain::set_joint_positions_clamped": set_contract(A, True),
        "Chain::set_joint_positions_unchecked": set_contract(A, False),
        "SerialChain::end_transform": end_contract(A),
        "jacobian": jacobian_contract(A),
        "calc_pose_diff_with_constraints": diff_contract,
        "target_diff_to_len_rot_diff": split_contract})


# ---------------------------------------------------------------- strictly increasing lists of indices
def increasing(ig, m, j):
    """entry j: below the next one, and an index of a movable joint"""
    a = ig.cols[0]
    return z3.And(z3.Implies(z3.And(0 <= j, j + 1 < ig.len), a[j] < a[j + 1]), z3.Implies(z3.And(0 <= j, j < ig.len), z3.And(0 <= a[j], a[j] < m)))


def gaps(a, n, j, k):
    return z3.Implies(z3.And(0 <= j, j <= k, k < n), a[k] - a[j] >= k - j)


def assume_increasing(i, ig, m):
    x = i.x
    a = ig.cols[0]
    j, k = z3.Ints("wj wk")
    x.assume(z3.ForAll([j], increasing(ig, m, j), patterns=[a[j]]))
    # lemmas of that (see strict below)
    x.assume(z3.ForAll([j, k], gaps(a, ig.len, j, k), patterns=[z3.MultiPattern(a[j], a[k])]))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ig.len), z3.And(j <= a[j], a[j] <= m - ig.len + j)), patterns=[a[j]]))
    x.assume(ig.len <= m)


def strict(i):
    """lemma: a list in which every entry is below the next one has gaps; by induction on the later index"""
    x = i.x
    ig = x.fresh_of(VecSh(LeafSh("int", IntS)), "ig")
    m, b, a0 = x.fresh("m", IntS), x.fresh("b", IntS), x.fresh("a", IntS)
    a = ig.cols[0]
    j = z3.Int("wj")
    x.assume(z3.And(ig.len >= 0, m >= 0))
    x.assume(z3.ForAll([j], increasing(ig, m, j), patterns=[a[j]]))
    x.prove(gaps(a, ig.len, b, b), "an entry and itself")
    x.prove(z3.Implies(z3.And(gaps(a, ig.len, a0, b), a0 <= b), gaps(a, ig.len, a0, simp(b + 1))), "the gap grows with the distance")
    # the bounds, from the gaps
    k = z3.Int("wk")
    x.assume(z3.ForAll([j, k], gaps(a, ig.len, j, k), patterns=[z3.MultiPattern(a[j], a[k])]))
    inn = z3.And(0 <= b, b < ig.len)
    x.prove(z3.Implies(inn, z3.And(a[0] >= 0, b <= a[b])), "an entry is not below its place")
    x.prove(z3.Implies(inn, z3.And(a[ig.len - 1] < m, a[b] <= m - ig.len + b)), "an entry leaves room for those behind it")
    x.prove(z3.Implies(ig.len > 0, z3.And(a[ig.len - 1] < m, ig.len <= m)), "there are not more entries than values")


# ---------------------------------------------------------------- one step
def mat_vals(an, cls):
    """matrices or vectors of numbers the loop changes, with what they were before it"""
    return [(loc, t) for loc, t in an.mods.items() if isinstance(t, cls)]


def equal(a, b):
    return as_int(simp(a - b)) == 0


def step_hint(A, fl, ig, before):
    a = ig.cols[0]

    def hint(i, an, view):
        out = []
        k = an.k
        R = z3.Sum([z3.If(z3.And(f, k > n), 1, 0) for n, f in enumerate(fl)])
        r, q, t = z3.Ints("r!h q!h t!h")
        between = lambda p: z3.And(0 <= t, t <= k, z3.Or(t == 0, before[t] < p), z3.Or(t == k, p < a[t]))
        C = lambda label, vs, body, pats=(), splits=None: out.append(Cand(label, vs, body, pats, spec=True, splits=splits))
        # numbers of rows taken out
        for c in list(an.fresh.values()):
            if c.sort() == IntS:
                C("rows taken out so far", [], c == k - R)
        for loc, m in mat_vals(an, DMat):
            m0 = loops.get_loc(i, an.s0, loc)
            if not isinstance(m0, DMat):
                continue
            if equal(m.c, m0.c):
                C("rows left", [], m.r == 6 - (k - R))
                for n in range(6):
                    C("a row that stays moves up", [], z3.Implies(z3.And(k > n, fl[n]), m.arr[simp(rank(fl, n))] == m0.arr[n]))
                    C("a row not looked at yet", [], z3.Implies(k <= n, m.arr[simp(n - (k - R))] == m0.arr[n]))
                # from the last row down
                gone = lambda n: z3.Sum([z3.IntVal(0)] + [z3.If(z3.And(z3.Not(fl[y]), k > 5 - y), 1, 0) for y in range(n)])
                C("rows left, from the end", [], m.r == 6 - gone(6))
                for n in range(6):
                    C("a row not looked at yet, from the end", [], z3.Implies(z3.And(k <= 5 - n), m.arr[I(n)] == m0.arr[n]))
                    C("a row that stays, from the end", [], z3.Implies(z3.And(k > 5 - n, fl[n]), m.arr[simp(n - gone(n))] == m0.arr[n]))
            else:
                C("one column less each time", [], m.c == m0.c - k)
                C("columns that stay keep their order", [r, q, t], z3.Implies(z3.And(0 <= q, q < m.c, between(q + t)), m.arr[r][q] == m0.arr[r][q + t]),
                  [[m.arr[r][q], a[t]]], [t == k, t == k + 1])
                # from the last entry down
                L = ig.len
                u = simp(t - (L - k))
                i.x.assume(z3.And(touch(a[simp(L - k)]), touch(a[simp(L - k - 1)])))
                within = z3.And(L - k <= t, t <= L, z3.Or(t == L - k, before[t] < q + u), z3.Or(t == L, q + u < a[t]))
                C("columns that stay keep their order, from the end", [r, q, t], z3.Implies(z3.And(0 <= q, q < m.c, within), m.arr[r][q] == m0.arr[r][simp(q + u)]),
                  [[m.arr[r][q], a[t]]], [t == L - k, t == L - k - 1, touch(a[simp(t - 1)])])
        for loc, v in mat_vals(an, Vec):
            v0 = loops.get_loc(i, an.s0, loc)
            if v.kind != "dvec" or not isinstance(v0, Vec):
                continue
            if equal(v.len, v0.len + k):
                e, e0 = vec_at(v, q).z(), vec_at(v0, simp(q - t)).z()
                C("ignored joints get zero", [q], z3.Implies(z3.And(0 <= q, q < k), vec_at(v, a[q]).z() == 0), [[a[q]]])
                C("other joints keep their component", [q, t], z3.Implies(z3.And(0 <= q, q < v.len, between(q)), e == e0), [[e, a[t]]], [t == k, t == k + 1])
            elif not equal(v.len, v0.len - k):
                C("one entry less each time", [], v.len == v0.len - k)
        return out
    hint.alone = True
    return hint


def solve_one_loop(i):
    x = i.x
    A = Arm(i)
    c, old = A.c, A.old
    fl = flags(i)
    ig = x.fresh_of(VecSh(LeafSh("int", IntS)), "ig")
    assume_increasing(i, ig, c.m)
    x.assume(rank(fl, 6) <= c.m - ig.len)
    callees(A)
    i.unroll = 0
    a = ig.cols[0]
    # before[t]: the entry before entry t (a name of its own, so that no trigger runs down the list)
    before = x.fresh("before", a.sort())
    j = z3.Int("wj")
    x.assume(z3.ForAll([j], z3.And(before[j + 1] == a[j], z3.Implies(z3.And(0 < j, j < ig.len), before[j] < a[j])), patterns=[a[j]]))
    i.templates.append(step_hint(A, fl, ig, before))
    # an arbitrary joint of the arm, with the number of ignored ones before it
    p, t = x.fresh("p", IntS), x.fresh("t", IntS)
    x.assume(z3.And(0 <= p, p < c.m))
    free = z3.And(0 <= t, t <= ig.len, z3.Or(t == 0, before[t] < p), z3.Or(t == ig.len, p < a[t]))
    x.assume(z3.And(touch(a[t]), touch(a[t - 1])))

    def solved(m, b, r):
        """the system solved is the constrained one, without the columns of ignored joints"""
        if r is not None:
            A.steps.append(r)
        if m is None:
            return
        x.prove(z3.And(m.r == rank(fl, 6), m.c == c.m - ig.len), "one equation per constrained coordinate, one unknown per joint that may move")
        now = A.diff(Snap(i))
        for n in range(6):
            b and x.prove(z3.Implies(fl[n], vec_at(b, rank(fl, n)).z() == now[n].z()), "right side %d is the pose difference" % n)
            x.prove(z3.Implies(z3.And(free, fl[n]), m.arr[simp(rank(fl, n))][simp(p - t)] == A.J.arr[n][p]), "column of a joint in equation %d" % n)
    i.onsolve = solved
    r = run(i, "JacobianIkSolver::solve_one_loop_with_constraints",
            [A.sref, A.ref, A.tref, i.new_cell(Struct("array", fl)), i.new_cell(ig)])
    prove_no_guards(i)
    new = Snap(i)
    n = c.mat(p)
    mult = A.s.jacobian_multiplier.v
    if x.choose(res_is_ok(r)):
        d = payload(i, r, "Ok")
        x.prove(d.len == rank(fl, 6), "a difference for every constrained coordinate")
        at_end = A.diff(new)
        for k in range(6):
            x.prove(z3.Implies(fl[k], vec_at(d, rank(fl, k)).z() == at_end[k].z()), "difference %d is that from the end pose now to the target" % k)
        x.prove(A.legal(new, n), "every joint of the arm is within its limits")
        jw, was = old.raw(n).joint, num(A.pos(old, n))
        # the vector the positions were set to, as steps of the argument
        v = vec_at(A.sets[0], p) if len(A.sets) == 1 else None
        if A.steps and x.choose(free):
            moved = [was + mult * vec_at(s, simp(p - t)) for s in A.steps]
            if v is not None:
                x.prove(z3.Or(*[v.z() == y.z() for y in moved]), "a joint's new position is the old one and the multiplier times its own component of the step")
            x.prove(z3.Or(*[A.pos(new, n) == clamp_of(jw, y) for y in moved]), "a joint moves by the multiplier times its own component of the step, within its limits")
        g = x.fresh("g", IntS)
        if x.choose(z3.And(0 <= g, g < ig.len, a[g] == p)):
            if v is not None:
                x.prove(v.z() == was.z(), "an ignored joint's new position is the old one")
            x.prove(A.pos(new, n) == clamp_of(jw, was), "an ignored joint is only brought within its limits")
    else:
        x.prove(A.pos(new, n) == A.pos(old, n), "a failed step moves no joint")
        for v in OWN_ERRORS:
            x.prove(z3.Not(has_variant(i, payload(i, r, "Err"), v)), "a step never fails with " + v)
    frame(A, old, new)


def frame(A, old, new):
    """only positions and caches of the arm's movable joints, and poses of its nodes, may change"""
    i, x, c = A.i, A.i.x, A.c
    m = x.fresh("m", IntS)
    x.assume(z3.And(0 <= m, m < old.alloc))
    for f, e in same_node(i, new, old, m, ("joint",)):
        x.prove(e, "the solver changes no " + f)
    om, nm = old.raw(m).joint, new.raw(m).joint
    for f in om.fields():
        e = nm.get(f).eq(om.get(f))
        if ".joint." + f == TF:
            x.prove(z3.Implies(z3.Not(c.inside(m)), e), "poses outside the arm stay")
        elif ".joint." + f in POS:
            x.prove(z3.Implies(z3.Not(A.movable(m)), e), "the %s of other joints stays" % f)
        else:
            x.prove(e, "the solver changes no joint's " + f)


# ---------------------------------------------------------------- the whole solve
def one_loop_contract(A):
    """JacobianIkSolver::solve_one_loop_with_constraints, proved above"""
    def f(i, args):
        x, c = i.x, A.c
        no_guards(i, "no lock is held when a step is made")
        same_chain(i, c, args[1])
        must_hold(i, A.s.eq(lib.rd(i, args[0])), "a step of this solver")
        must_hold(i, same(i, lib.rd(i, args[2]), A.target), "a step towards the target")
        sp, ig = lib.rd(i, args[3]), lib.rd(i, args[4])
        must_hold(i, z3.And([g == e for g, e in zip(sp.f, A.space)]), "a step with the constraints of the request")
        must_hold(i, increasing(ig, c.m, x.fresh("j", IntS)), "ignored joints are listed once each, in order, by their index")
        must_hold(i, rank(sp.f, 6) <= c.m - ig.len, "enough joints are left")
        old = Snap(i)
        for col in cols_of(i, ".joint.origin", ".joint.joint_type", ".joint.limits"):
            must_hold(i, z3.BoolVal(old.cols[col].eq(A.old.cols[col])), "only positions and caches have changed so far")
        must_hold(i, parents_first(c, old, x.fresh("q", IntS), cache), "parents stand before their children; poses outside the arm are up to date")
        havoc(i, *POS)
        new = Snap(i)
        n, j, w = z3.Ints("wm wj wq")
        unchanged_nodes(i, old, new, n, z3.Not(A.movable(n)), (".joint.position", VL))
        unchanged_nodes(i, old, new, n, z3.Not(c.inside(n)), (TF,))
        r = x.fresh_of(ret_shape(i, "JacobianIkSolver::solve_one_loop_with_constraints"), "step")
        ok = res_is_ok(r)
        p = new.cols[POSCOL][n]
        x.assume(z3.ForAll([n], z3.Implies(z3.And(ok, A.movable(n)), A.legal(new, n)), patterns=[p]))
        x.assume(z3.ForAll([n], z3.Implies(z3.And(z3.Not(ok), A.movable(n)), p == old.cols[POSCOL][n]), patterns=[p]))
        m = c.mat(ig.cols[0][j])
        x.assume(z3.ForAll([j], z3.Implies(z3.And(ok, 0 <= j, j < ig.len), A.pos(new, m) == clamp_of(A.old.raw(m).joint, num(A.pos(old, m)))), patterns=[ig.cols[0][j]]))
        for v in OWN_ERRORS:
            x.assume(z3.Implies(z3.Not(ok), z3.Not(has_variant(i, payload(i, r, "Err"), v))))
        A.stepped = new.cols[POSCOL]
        d = payload(i, r, "Ok")
        x.assume(z3.Implies(ok, d.len == rank(sp.f, 6)))
        at_end = A.diff(new)
        for k in range(6):
            x.assume(z3.Implies(z3.And(ok, sp.f[k]), vec_at(d, rank(sp.f, k)).z() == at_end[k].z()))
        return r
    return f


def request(i, A):
    """the constraints of a request, with what its ignored names mean"""
    x, c = i.x, A.c
    A.con = W(i, con_sh(i), x.fresh_of(con_sh(i), "con"))
    A.space = [A.con.get(f).v for f in AX]
    A.names = A.con.ignored_joint_names
    A.jname = jname = lambda q: A.old.raw(c.mat(q)).joint.name.v
    # first(s): index of the first movable joint of that name, or m if there is none
    first = A.first = z3.Function("first_named", Str, IntS)
    s, q = z3.Const("ws", Str), z3.Int("wq")
    x.assume(z3.ForAll([s], z3.And(0 <= first(s), first(s) <= c.m, z3.Implies(first(s) < c.m, jname(first(s)) == s)), patterns=[first(s)]))
    x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.m), first(jname(q)) <= q), patterns=[jname(q)]))
    # ignored[q]: is joint q named; by is the name that does it
    A.ign = x.fresh("ignored", BArr)
    A.by = x.fresh("by", z3.ArraySort(IntS, IntS))
    nm = lambda j: A.names[j].v
    x.assume(z3.ForAll([q], z3.Implies(A.ign[q], z3.And(0 <= A.by[q], A.by[q] < A.names.len, first(nm(A.by[q])) == q)), patterns=[A.ign[q]]))
    x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < A.names.len), A.ign[first(nm(q))]), patterns=[nm(q)]))
    A.left = c.m - cnt_f(A.ign, c.m)
    A.cref = i.new_cell(A.con.v)


def list_hint(A):
    """names looked up so far, and what a step leaves alone"""
    def hint(i, an, view):
        out = []
        k = an.k
        j, n = z3.Ints("j!h n!h")
        for loc, v in an.mods.items():
            if isinstance(v, Vec) and len(v.cols) == 1 and v.cols[0].sort().range() == IntS:
                e = v.cols[0][j]
                out.append(Cand("as many indices as names looked up", [], v.len == k, spec=True))
                out.append(Cand("indices are those of the first joints of the names", [j],
                                z3.Implies(z3.And(0 <= j, j < k), z3.And(e == A.first(A.names[j].v), 0 <= e, e < A.c.m)), [[e], [A.names[j].v]], spec=True))
        H = Snap(i)
        for col in cols_of(i, *POS):
            if H.cols[col].eq(A.old.cols[col]):
                continue
            now, was = H.cols[col][n], A.old.cols[col][n]
            there = A.c.inside(n) if col.startswith(TF) else A.movable(n)
            out.append(Cand("steps leave other joints alone", [n], z3.Implies(z3.Not(there), now == was), [[now]], spec=True))
            if col == POSCOL and A.ig is not None:
                m = A.c.mat(A.ig.cols[0][j])
                out.append(Cand("steps leave ignored joints alone", [j], z3.Implies(z3.And(0 <= j, j < A.ig.len, A.legal(A.old, m)), A.pos(H, m) == A.pos(A.old, m)),
                                [[A.ig.cols[0][j]]], spec=True))
        return out
    return hint


def ignored_list(A):
    """the list of ignored joints once it is sorted and each stands in it once"""
    def f(i, ig):
        x, c = i.x, A.c
        A.ig = ig
        j, q = x.fresh("j", IntS), z3.Int("wq")
        x.prove(increasing(ig, c.m, j), "ignored joints are listed once each, in order")
        assume_increasing(i, ig, c.m)
        a = ig.cols[0]
        inn = z3.And(0 <= j, j < ig.len)
        x.prove(z3.Implies(inn, A.ign[a[j]]), "a joint in the list is named")
        x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < ig.len), A.ign[a[q]]), patterns=[a[q]]))
        b = x.fresh("q", IntS)
        t = z3.Int("wt")
        x.assume(z3.And(touch(A.by[b]), touch2(A.names[A.by[b]].v)))
        x.prove(z3.Implies(z3.And(0 <= b, b < c.m, A.ign[b]), z3.Exists([t], z3.And(0 <= t, t < ig.len, a[t] == b))), "a named joint is in the list")
        at = x.fresh("at", a.sort())
        x.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.m, A.ign[q]), z3.And(0 <= at[q], at[q] < ig.len, a[at[q]] == q)), patterns=[A.ign[q]]))
        # lemma (see counted)
        x.assume(cnt_f(A.ign, c.m) == ig.len)
    return f


def counted(i):
    """lemma: a strictly increasing list of just the true places of an array has as many entries as there are true places"""
    x = i.x
    ig = x.fresh_of(VecSh(LeafSh("int", IntS)), "ig")
    m, b, j = x.fresh("m", IntS), x.fresh("b", IntS), z3.Int("wj")
    K = x.fresh("K", BArr)
    x.assume(z3.And(ig.len >= 0, m >= 0))
    a = ig.cols[0]
    assume_increasing(i, ig, m)
    at, lo = x.fresh("at", a.sort()), x.fresh("lo", a.sort())
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ig.len), K[a[j]]), patterns=[a[j]]))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, K[j]), z3.And(0 <= at[j], at[j] < ig.len, a[at[j]] == j)), patterns=[K[j]]))
    # lo[q]: how many entries are below q
    x.assume(z3.ForAll([j], z3.And(0 <= lo[j], lo[j] <= ig.len, z3.Implies(lo[j] > 0, a[lo[j] - 1] < j), z3.Implies(lo[j] < ig.len, a[lo[j]] >= j)), patterns=[lo[j]]))
    law = lambda q: cnt_f(K, q) == lo[q]
    x.prove(law(I(0)), "no entry is below zero")
    x.prove(z3.Implies(z3.And(0 <= b, b < m, law(b), touch(a[at[b]])), law(simp(b + 1))), "each place counts once")
    x.prove(z3.Implies(law(m), cnt_f(K, m) == ig.len), "all entries are counted")


def solve(what):
    """SerialChain to target with constraints, from the public entry on; what: the property"""
    def body(i):
        x = i.x
        A = Arm(i)
        c, old = A.c, A.old
        request(i, A)
        A.ig = None
        callees(A)
        i.contracts["JacobianIkSolver::solve_one_loop_with_constraints"] = one_loop_contract(A)
        i.onlist = ignored_list(A)
        i.templates.append(list_hint(A))
        r = run(i, "JacobianIkSolver::solve_with_constraints", [A.sref, A.ref, A.tref, A.cref])
        prove_no_guards(i)
        new = Snap(i)
        p, w = x.fresh("p", IntS), x.fresh("w", IntS)
        x.assume(z3.And(0 <= p, p < c.m))
        n = c.mat(p)
        name = A.names[w].v
        named = z3.And(0 <= w, w < A.names.len)
        need = rank(A.space, 6)
        if x.choose(res_is_ok(r)):
            if what == "C13":
                x.prove(new.cols[POSCOL] == A.stepped, "clamping once more changes nothing")
                d = [num(z3.If(f, e.z(), z3.RealVal(0))) for f, e in zip(A.space, A.diff(new))]
                far = lib.norm3_f(*[e.z() for e in d[:3]])
                turn = lib.norm3_f(*[e.z() for e in d[3:]])
                x.prove(far < A.s.allowable_target_distance.v.z(), "the end is within the allowed distance")
                x.prove(turn < A.s.allowable_target_angle.v.z(), "the end is within the allowed angle")
                x.prove(A.legal(new, n), "every joint of the arm is within its limits")
                frame(A, old, new)
            if what == "C15":
                x.prove(z3.Implies(z3.And(A.ign[p], A.legal(old, n)), A.pos(new, n) == A.pos(old, n)), "an ignored joint stays where it was")
            if what == "C16":
                x.prove(z3.Implies(named, A.first(name) < c.m), "no success when a name is unknown")
                x.prove(A.left >= need, "no success when too few joints are left")
            return
        if what == "C14":
            x.prove(A.pos(new, n) == A.pos(old, n), "after an error every joint of the arm is where it was")
            frame(A, old, new)
        if what == "C15":
            x.prove(A.pos(new, n) == A.pos(old, n), "after an error an ignored joint is where it was")
        if what == "C16":
            er = payload(i, r, "Err")
            unknown = has_variant(i, er, "InvalidJointNameError")
            bad = payload(i, er, "InvalidJointNameError", "joint_name")
            if bad is not None and x.choose(unknown):
                t = z3.Int("wt")
                x.prove(A.first(bad) == c.m, "the name in the error is not that of a movable joint of the arm")
                x.prove(z3.Exists([t], z3.And(0 <= t, t < A.names.len, A.names[t].v == bad)), "the name in the error is one of those given")
                return
            x.prove(z3.Implies(named, A.first(name) < c.m), "an unknown name is reported as such")
            few = has_variant(i, er, "PreconditionError")
            x.prove(few == (A.left < need), "too few joints give the precondition error, and nothing else does")
            if payload(i, er, "PreconditionError", "dof") is not None and x.choose(few):
                x.prove(payload(i, er, "PreconditionError", "dof") == A.left, "the error has the number of joints left")
                x.prove(payload(i, er, "PreconditionError", "necessary_dof") == need, "the error has the number of constrained coordinates")
    return body


def defaults(i):
    """solve is solve_with_constraints without ignored joints and with all coordinates"""
    x = i.x
    A = Arm(i)
    seen = []

    def f(i, args):
        same_chain(i, A.c, args[1])
        must_hold(i, A.s.eq(lib.rd(i, args[0])), "by this solver")
        must_hold(i, same(i, lib.rd(i, args[2]), A.target), "towards the target")
        con = W(i, con_sh(i), lib.rd(i, args[3]))
        for g in AX:
            must_hold(i, con.get(g).v, "%s is constrained" % g)
        must_hold(i, con.ignored_joint_names.len == 0, "no joint is ignored")
        no_guards(i, "no lock is held")
        seen.append(x.fresh_of(ret_shape(i, "JacobianIkSolver::solve_with_constraints"), "r"))
        return seen[-1]
    i.contracts["JacobianIkSolver::solve_with_constraints"] = f
    r = run(i, "JacobianIkSolver::solve", [A.sref, A.ref, A.tref])
    no_change(i, A.old, "handing the request on")
    x.prove(z3.BoolVal(len(seen) == 1), "solved once")
    x.prove(same(i, r, seen[0]), "the result is handed back")


def tasks():
    from specs.chain import tasks as chain_tasks
    from specs.kinematics import tasks as kin_tasks
    from specs.misc import tasks as misc_tasks
    mine = [t for p in ("C13", "C14", "C15", "C16") for t in own_tasks(p)]
    used = [t for t in chain_tasks() + kin_tasks() + misc_tasks() if set(t["fns"][:1]) & CALLEES]
    return mine + [dict(t, prop=p) for p in ("C13", "C14", "C15", "C16") for t in used]


CALLEES = {"Chain::joint_positions", "Chain::set_joint_positions_clamped", "Chain::set_joint_positions_unchecked", "SerialChain::end_transform", "jacobian",
           "calc_pose_diff_with_constraints", "target_diff_to_len_rot_diff"}


def own_tasks(p):
    """what property p rests on in this file"""
    ts = [dict(name="JacobianIkSolver::solve_with_constraints", body=solve(p), budget=400,
               fns=["JacobianIkSolver::solve_with_constraints", "JacobianIkSolver::solve_with_constraints_internal", "define_operational_space"]),
          dict(name="JacobianIkSolver::solve_one_loop_with_constraints", body=solve_one_loop, budget=400,
               fns=["JacobianIkSolver::solve_one_loop_with_constraints", "JacobianIkSolver::add_positions_with_multiplier"]),
          dict(name="JacobianIkSolver::solve", body=defaults, fns=["JacobianIkSolver::solve", "Constraints::default"]),
          dict(name="strictly increasing indices (lemma)", body=strict, fns=[]),
          dict(name="a list of the true places (lemma)", body=counted, fns=[])]
    return [dict(t, prop=p) for t in ts]
