"""C01, C02, C05 (joint part), C22 (joint part): contracts of Joint and Range."""
from spec import *
import lib


def joint(i, name="j"):
    sh = i.reg.shape("Joint")
    v = i.x.fresh_of(sh, name)
    c = i.new_cell(v)
    return c, W(i, sh, v)


def now(i, c):
    return W(i, i.reg.shape("Joint"), i.read(c))


def conv(i, v):
    """na::try_convert::<T, f64>"""
    return v if Mode.t == "real" or v.sort() == z3.Float64() else z3.fpToFP(RNE, v, z3.Float64())


def set_joint_position(i):
    c, old = joint(i)
    p = fresh_T(i, "p")
    r = run(i, "Joint::set_joint_position", [c, p])
    new = now(i, c)
    x = i.x
    good = z3.And(movable(old), legal(old, p))
    x.prove(res_is_ok(r) == good, "accepted exactly when movable and within the limits")
    if x.choose(good):
        x.prove(n_eqv(new.position.v, p), "the position is exactly the value set")
        for n, e in frame_except(new, old, ("position", "world_transform_cache", "world_velocity_cache")):
            x.prove(e, "an accepted set leaves %s alone" % n)
        q = run(i, "Joint::joint_position", [c])
        x.prove(z3.And(opt_is_some(q), n_eqv(payload(i, q, "Some"), p)), "the joint then reports that value")
    else:
        for n, e in frame_except(new, old, ()):
            x.prove(e, "a refused set leaves %s alone" % n)
        e = payload(i, r, "Err")
        if e is None:
            return
        if x.choose(movable(old)):
            x.prove(has_variant(i, e, "OutOfLimitError"), "out of limits is reported as such")
            x.prove(payload(i, e, "OutOfLimitError", "joint_name") == old.get("name").v, "the error carries the joint's name")
            lim = old.limits.pl("Some")
            for f, t in (("position", p), ("max_limit", lim.get("max").v), ("min_limit", lim.get("min").v)):
                x.prove(n_eqv(payload(i, e, "OutOfLimitError", f), conv(i, t)), "the error carries the " + f)
        else:
            x.prove(has_variant(i, e, "SetToFixedError"), "a fixed joint is reported as such")
            x.prove(payload(i, e, "SetToFixedError", "joint_name") == old.get("name").v, "the error carries the joint's name")


def nan_refused(i):
    c, old = joint(i)
    p = fresh_T(i, "p")
    i.x.assume(z3.fpIsNaN(p))
    i.x.assume(old.limits.is_("Some"))
    r = run(i, "Joint::set_joint_position", [c, p])
    i.x.prove(z3.Not(res_is_ok(r)), "not-a-number is never accepted by a limited joint")


def queries(i):
    c, old = joint(i)
    x = i.x
    x.prove(run(i, "Joint::is_movable", [c]) == movable(old), "movable means not fixed")
    for f, n in (("joint_position", "position"), ("joint_velocity", "velocity")):
        q = run(i, "Joint::" + f, [c])
        x.prove(opt_is_some(q) == movable(old), f + " is present exactly on movable joints")
        if x.choose(movable(old)):
            x.prove(n_eqv(payload(i, q, "Some"), old.get(n).v), f + " is the stored value")
    for n, e in frame_except(now(i, c), old, ()):
        x.prove(e, "reading leaves %s alone" % n)


def rng(i):
    sh = i.reg.shape("Range", "k::joint::range::Range")
    v = i.x.fresh_of(sh, "range")
    return i.new_cell(v), W(i, sh, v)


def member(r, p):
    return z3.And(le(r.get("min").v, p), le(p, r.get("max").v))


def range_ops(i):
    c, r = rng(i)
    p = fresh_T(i, "p")
    x = i.x
    x.assume(le(r.get("min").v, r.get("max").v))
    x.prove(run(i, "Range::is_valid", [c, p]) == member(r, p), "is_valid means between minimum and maximum, both included")
    q = run(i, "Range::clamp", [c, p])
    isnan = z3.BoolVal(False) if Mode.t == "real" else z3.fpIsNaN(p)
    x.prove(z3.Implies(z3.Not(isnan), member(r, q)), "a clamped number is in the range")
    x.prove(z3.Implies(member(r, p), n_eqv(q, p)), "clamping leaves a member of the range alone")
    x.prove(z3.Implies(n_cmp("lt", p, r.get("min").v), n_cmp("eq", q, r.get("min").v)), "below the range the minimum is taken")
    x.prove(z3.Implies(n_cmp("gt", p, r.get("max").v), n_cmp("eq", q, r.get("max").v)), "above the range the maximum is taken")


def range_new(i):
    """Range::new panics exactly when not min <= max, and stores what it was given"""
    a, b = fresh_T(i, "min"), fresh_T(i, "max")
    x = i.x
    x.assume(le(a, b))
    sh = i.reg.shape("Range", "k::joint::range::Range")
    v = W(i, sh, run(i, "Range::new", [a, b]))
    x.prove(z3.And(n_eqv(v.get("min").v, a), n_eqv(v.get("max").v, b)), "a range has the given minimum and maximum")
    ri = Struct(lib.RANGEI, [a, b, z3.BoolVal(False)])
    v = W(i, sh, run(i, "Range::from(RangeInclusive)", [ri]))
    x.prove(z3.And(n_eqv(v.get("min").v, a), n_eqv(v.get("max").v, b)), "a range made from an inclusive range has its ends")


def range_new_refuses(i, fn):
    a, b = fresh_T(i, "min"), fresh_T(i, "max")
    x = i.x
    x.assume(z3.Not(le(a, b)))
    x.quiet += 1
    try:
        args = [a, b] if fn == "Range::new" else [Struct(lib.RANGEI, [a, b, z3.BoolVal(False)])]
        try:
            run(i, fn, args)
        except PathEnd:
            i.covered.add(1)
            i.x.quiet -= 1
            try:
                x.note_proved("a range with minimum above maximum is refused: this path panics")
            finally:
                i.x.quiet += 1
            raise
    finally:
        x.quiet -= 1
    x.prove(z3.BoolVal(False), "a range with minimum above maximum is refused")


def clamped(i):
    c, old = joint(i)
    p = fresh_T(i, "p")
    x = i.x
    lim = old.limits.pl("Some")
    lo, hi = lim.get("min").v, lim.get("max").v
    # a limit range can only be built with minimum not above maximum
    x.assume(z3.Or(old.limits.is_("None"), le(lo, hi)))
    run(i, "Joint::set_joint_position_clamped", [c, p])
    new = now(i, c)
    q = new.position.v
    if x.choose(movable(old)):
        lt = n_cmp("lt", p, lo)
        gt = n_cmp("gt", p, hi)
        has = old.limits.is_("Some")
        x.prove(z3.Implies(legal(old, p), n_eqv(q, p)), "a legal request is taken exactly")
        x.prove(z3.Implies(z3.And(has, lt), n_cmp("eq", q, lo)), "below the limits the lower limit is taken")
        x.prove(z3.Implies(z3.And(has, gt), n_cmp("eq", q, hi)), "above the limits the upper limit is taken")
        for n, e in frame_except(new, old, ("position", "world_transform_cache", "world_velocity_cache")):
            x.prove(e, "a clamped set leaves %s alone" % n)
    else:
        for n, e in frame_except(new, old, ()):
            x.prove(e, "a clamped set on a fixed joint leaves %s alone" % n)


# ---------------------------------------------------------------- C05
MUT = ["Joint::set_joint_position", "Joint::set_joint_position_clamped", "Joint::set_joint_position_unchecked",
       "Joint::set_joint_velocity", "Joint::set_origin"]


def reads(i, c):
    """(world transform, world velocity) as the joint reports them, and the frame of the reads"""
    before = now(i, c)
    t = run(i, "Joint::world_transform", [c])
    v = run(i, "Joint::world_velocity", [c])
    for n, e in frame_except(now(i, c), before, ()):
        i.x.prove(e, "reading the caches leaves %s alone" % n)
    return t, v


def iso(i, name):
    return i.x.fresh_of(i.reg.shape("Joint").subs[i.reg.shape("Joint").names.index("origin")], name)


def stale(i, fn):
    c, old = joint(i)
    x = i.x
    if fn == "Joint::set_joint_position_clamped":
        lim = old.limits.pl("Some")
        x.assume(z3.Or(old.limits.is_("None"), le(lim.get("min").v, lim.get("max").v)))
    arg = iso(i, "o") if fn == "Joint::set_origin" else fresh_T(i, "p")
    run(i, fn, [c, arg])
    new = now(i, c)
    pose = z3.Or(z3.Not(new.position.eq(old.position)), z3.Not(new.origin.eq(old.origin)))
    vel = z3.Or(pose, z3.Not(new.velocity.eq(old.velocity)))
    t, v = reads(i, c)
    x.prove(z3.Implies(pose, opt_is_none(t)), "the world transform is absent after a change of position or origin")
    x.prove(z3.Implies(vel, opt_is_none(v)), "the world velocity is absent after a change of position, origin or velocity")


def store_reads(i, what):
    c, old = joint(i)
    x = i.x
    f = "world_transform" if what == "transform" else "world_velocity"
    sh = i.reg.shape("Joint")
    sub = sh.subs[sh.names.index(f + "_cache")].subs[0].variants[1][2][0]
    val = x.fresh_of(sub, "w")
    run(i, "Joint::set_" + f, [c, val])
    q = run(i, "Joint::" + f, [c])
    x.prove(opt_is_some(q), "a stored %s is present" % f)
    x.prove(sub.eq(payload(i, q, "Some"), val), "the %s read is exactly the one stored" % f)
    for n, e in frame_except(now(i, c), old, (f + "_cache",)):
        x.prove(e, "storing the %s leaves %s alone" % (f, n))


def element(i, ty):
    sh = i.reg.shape(ty)
    v = i.x.fresh_of(sh, ty.lower())
    return i.new_cell(v), W(i, sh, v), sh


def elem_stale(i, ty):
    x = i.x
    c, old, sh = element(i, ty)
    o = iso(i, "o")
    run(i, ty + "::set_origin", [c, o])
    new = W(i, sh, i.read(c))
    q = i.lib.rd(i, run(i, ty + "::world_transform", [c]))
    osh = sh.subs[sh.names.index("origin")]
    x.prove(osh.eq(i.lib.rd(i, run(i, ty + "::origin", [c])), o), "the origin is the one set")
    x.prove(z3.Implies(z3.Not(old.origin.eq(new.origin)), opt_is_none(q)), "the world transform is absent after a change of origin")
    for n, e in frame_except(new, old, ("origin", "world_transform_cache")):
        x.prove(e, "setting the origin leaves %s alone" % n)


def elem_store(i, ty):
    x = i.x
    c, old, sh = element(i, ty)
    w = iso(i, "w")
    osh = sh.subs[sh.names.index("origin")]
    run(i, ty + "::set_world_transform", [c, w])
    q = i.lib.rd(i, run(i, ty + "::world_transform", [c]))
    x.prove(opt_is_some(q), "a stored transform is present")
    x.prove(osh.eq(payload(i, q, "Some"), w), "the transform read is exactly the one stored")
    for n, e in frame_except(W(i, sh, i.read(c)), old, ("world_transform_cache",)):
        x.prove(e, "storing the transform leaves %s alone" % n)
    run(i, ty + "::clear_world_transform", [c])
    q = i.lib.rd(i, run(i, ty + "::world_transform", [c]))
    x.prove(opt_is_none(q), "a cleared transform is absent")
    for n, e in frame_except(W(i, sh, i.read(c)), old, ("world_transform_cache",)):
        x.prove(e, "clearing the transform leaves %s alone" % n)


def tasks():
    T = []
    for f in MUT:
        T.append(dict(prop="C05", name=f + " caches", body=lambda i, f=f: stale(i, f), fns=[f, "Joint::world_transform", "Joint::world_velocity"]))
    for w in ("transform", "velocity"):
        T.append(dict(prop="C05", name="Joint::set_world_" + w, body=lambda i, w=w: store_reads(i, w),
                      fns=["Joint::set_world_" + w, "Joint::world_" + w]))
    for ty in ("Inertial", "Visual", "Collision"):
        T.append(dict(prop="C05", name=ty + "::set_origin", body=lambda i, ty=ty: elem_stale(i, ty),
                      fns=[ty + "::set_origin", ty + "::world_transform", ty + "::origin"]))
        T.append(dict(prop="C05", name=ty + "::set_world_transform", body=lambda i, ty=ty: elem_store(i, ty),
                      fns=[ty + "::set_world_transform", ty + "::clear_world_transform", ty + "::world_transform"]))
    J = "Joint::set_joint_position"
    for m in ("real", "f64", "f32"):
        T.append(dict(prop="C01", name=J, body=set_joint_position, mode=m, fns=[J, "Joint::is_movable", "Joint::joint_position", "Range::is_valid"]))
        T.append(dict(prop="C01", name="Joint readers", body=queries, mode=m, fns=["Joint::is_movable", "Joint::joint_position", "Joint::joint_velocity"]))
        T.append(dict(prop="C02", name="Range::is_valid, Range::clamp", body=range_ops, mode=m, fns=["Range::is_valid", "Range::clamp"]))
        T.append(dict(prop="C02", name="Range::new", body=range_new, mode=m, fns=["Range::new", "Range::from(RangeInclusive)"]))
        for f in ("Range::new", "Range::from(RangeInclusive)"):
            T.append(dict(prop="C02", name=f + " refuses", body=lambda i, f=f: range_new_refuses(i, f), mode=m, fns=[f]))
        T.append(dict(prop="C02", name="Joint::set_joint_position_clamped", body=clamped, mode=m,
                      fns=["Joint::set_joint_position_clamped", "Joint::set_joint_position_unchecked", "Range::clamp", "Joint::is_movable"]))
        if m != "real":
            T.append(dict(prop="C01", name=J + " not a number", body=nan_refused, mode=m, fns=[J]))
    return T
