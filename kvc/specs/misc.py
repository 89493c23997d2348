"""C17: pose differences and constraint selection; C25: the reference null-space function."""
from spec import *
import lib


def iso_sh(i):
    sh = i.reg.shape("Joint")
    return sh.subs[sh.names.index("origin")]


def pose(i, name):
    sh = iso_sh(i)
    v = i.x.fresh_of(sh, name)
    rot = v.f[sh.names.index("rotation")]
    t = v.f[sh.names.index("translation")].f[0]
    return i.new_cell(v), rot, t


def full_diff(ra, ta, rb, tb):
    """the six coordinates, by definition: position difference, then the rotation vector from b to a"""
    d = (ra * rb.inv()).z()
    return [ta.e[k] - tb.e[k] for k in range(3)] + [num(sa_f[k](d)) for k in range(3)]


def pose_diff(i):
    a, ra, ta = pose(i, "a")
    b, rb, tb = pose(i, "b")
    r = run(i, "calc_pose_diff", [a, b])
    for k, d in enumerate(full_diff(ra, ta, rb, tb)):
        i.x.prove(n_eqv(r.e[k], d), "coordinate %d of the difference" % k)


def flags(i):
    return [i.x.fresh("use%d" % k, BoolS) for k in range(6)]


def rank(fl, k):
    return z3.Sum([z3.If(f, 1, 0) for f in fl[:k]]) if k else I(0)


def selected(i):
    a, ra, ta = pose(i, "a")
    b, rb, tb = pose(i, "b")
    fl = flags(i)
    r = run(i, "calc_pose_diff_with_constraints", [a, b, Struct("array", fl)])
    full = full_diff(ra, ta, rb, tb)
    i.x.prove(r.len == rank(fl, 6), "as many coordinates as are switched on")
    for k in range(6):
        i.x.prove(z3.Implies(fl[k], vec_at(r, rank(fl, k)).z() == full[k].z()), "coordinate %d keeps its place in the order" % k)


def split(i):
    fl = flags(i)
    n = rank(fl, 6)
    v = i.x.fresh_of(VecSh(LeafSh("T", sort_T()), "dvec"), "d")
    i.x.assume(v.len == n)
    r = run(i, "target_diff_to_len_rot_diff", [i.new_cell(v), Struct("array", fl)])
    for k in range(6):
        e = r.f[k // 3].e[k % 3]
        i.x.prove(z3.Implies(fl[k], e.z() == vec_at(v, rank(fl, k)).z()), "coordinate %d gets its value back" % k)
        i.x.prove(z3.Implies(z3.Not(fl[k]), e.z() == 0), "coordinate %d is zero when switched off" % k)


AX = ("position_x", "position_y", "position_z", "rotation_x", "rotation_y", "rotation_z")


def space(i):
    sh = con_sh(i)
    c = W(i, sh, i.x.fresh_of(sh, "c"))
    r = run(i, "define_operational_space", [i.new_cell(c.v)])
    for k, f in enumerate(AX):
        i.x.prove(r.f[k] == c.get(f).v, "coordinate %d is %s" % (k, f))


def con_sh(i):
    for n, t in enumerate(i.crate.types):
        if t["k"] == "adt" and t["def"].endswith("::Constraints"):
            return i.sh.of(n)
    raise Lost("type Constraints")


def default(i):
    c = W(i, con_sh(i), run(i, "Constraints::default", []))
    for f in AX:
        i.x.prove(c.get(f).v, "%s is on by default" % f)
    i.x.prove(c.ignored_joint_names.len == 0, "no joint is ignored by default")


def nullspace(i):
    x = i.x
    vs = VecSh(LeafSh("T", sort_T()))
    r, w, p = x.fresh_of(vs, "ref"), x.fresh_of(vs, "weight"), x.fresh_of(vs, "pos")
    x.assume(r.len == w.len)
    x.assume(p.len == r.len)
    f = run(i, "create_reference_positions_nullspace_function", [r, w])
    o = i.call_value(i.new_cell(f), [i.new_cell(p)])
    x.prove(o.len == r.len, "the result has the length of the reference")
    j = x.fresh("j", IntS)
    at = lambda v: vec_at(v, j)
    x.prove(z3.Implies(z3.And(0 <= j, j < r.len), at(o).z() == (at(w) * (at(p) - at(r))).z()),
            "entry j is weight j times the difference of position j and reference j")




def tasks():
    P = "C17"
    return [dict(prop=P, name="calc_pose_diff", body=pose_diff, fns=["calc_pose_diff"]),
            dict(prop=P, name="calc_pose_diff_with_constraints", body=selected, fns=["calc_pose_diff_with_constraints", "calc_pose_diff"]),
            dict(prop=P, name="target_diff_to_len_rot_diff", body=split, fns=["target_diff_to_len_rot_diff"]),
            dict(prop=P, name="define_operational_space", body=space, fns=["define_operational_space"]),
            dict(prop=P, name="Constraints::default", body=default, fns=["Constraints::default"]),
            dict(prop="C25", name="create_reference_positions_nullspace_function", body=nullspace,
                 fns=["create_reference_positions_nullspace_function"])]
