use crate::util::*;
use crate::{ck, R};
use k::*;
use nalgebra::{DMatrix, DVector};

struct Arm {
    t: Tree,
    s: SerialChain<f64>,
    ix: Vec<usize>,
    mov: Vec<usize>,
}

fn gen_arm(r: &mut Rng, max: usize, mimics: f64, limits: bool, outside: bool) -> Arm {
    let t = gen_tree(r, &Opt { max, fixed: 0.1, serial: 0.85, links: 0.0, mimics, limits, unique: true, ..Default::default() });
    let e = if r.chance(0.8) { t.n.len() - 1 } else { r.below(t.n.len()) };
    let p = path(&t, e);
    let from = if r.chance(0.15) { r.below(p.len()) } else { 0 };
    let s = if from > 0 { SerialChain::from_end_to_root(&t.n[e], &t.n[p[from]]) } else { SerialChain::from_end(&t.n[e]) };
    let ix: Vec<usize> = p[from..].to_vec();
    if from > 0 {
        Chain::from_nodes(t.n.clone()).update_transforms();
    }
    let mov: Vec<usize> = ix.iter().cloned().filter(|i| t.n[*i].joint_position().is_some()).collect();
    if outside && r.chance(0.4) {
        for i in &mov {
            if r.chance(0.4) {
                t.n[*i].set_joint_position_unchecked(r.range(-6.0, 6.0));
            }
        }
    }
    Arm { t, s, ix, mov }
}

fn arm_pose(a: &Arm) -> Pose {
    let mut p = pid();
    for i in &a.ix {
        p = pm(&p, &local(&a.t.n[*i]));
    }
    p
}

fn constraints(r: &mut Rng, a: &Arm, all: bool) -> Constraints {
    let mut c = Constraints::default();
    if !all {
        let p = [0.0, 0.3, 0.6][r.below(3)];
        c.position_x = !r.chance(p);
        c.position_y = !r.chance(p);
        c.position_z = !r.chance(p);
        c.rotation_x = !r.chance(p);
        c.rotation_y = !r.chance(p);
        c.rotation_z = !r.chance(p);
    }
    let k = [0, 0, 1, 2, 3][r.below(5)];
    for _ in 0..k {
        if !a.mov.is_empty() {
            let n = a.t.n[a.mov[r.below(a.mov.len())]].joint().name.clone();
            c.ignored_joint_names.push(n);
        }
    }
    c
}
fn flags(c: &Constraints) -> [bool; 6] {
    [c.position_x, c.position_y, c.position_z, c.rotation_x, c.rotation_y, c.rotation_z]
}

fn target(r: &mut Rng, a: &Arm) -> Isometry3<f64> {
    let before: Vec<f64> = a.mov.iter().map(|i| a.t.n[*i].joint_position().unwrap_or(0.0)).collect();
    if r.chance(0.7) {
        let d = [0.05, 0.3, 1.0][r.below(3)];
        for i in &a.mov {
            let p = a.t.n[*i].joint_position().unwrap_or(0.0);
            a.t.n[*i].set_joint_position_clamped(p + r.range(-d, d));
        }
        let e = a.s.end_transform();
        for (i, b) in a.mov.iter().zip(before) {
            a.t.n[*i].set_joint_position_unchecked(b);
        }
        e
    } else {
        rand_iso(r)
    }
}

fn diff(target: &Isometry3<f64>, cur: &Pose) -> [f64; 6] {
    let t = pose(target);
    let d = sub(&t.t, &cur.t);
    let w = log(&mm(&t.r, &mt(&cur.r)));
    [d[0], d[1], d[2], w[0], w[1], w[2]]
}

fn solver(r: &mut Rng) -> JacobianIkSolver<f64> {
    let d = [0.001, 0.05, 0.5][r.below(3)];
    let g = [0.005, 0.05, 1.0][r.below(3)];
    let m = [0.5, 1.0, 0.1][r.below(3)];
    let n = [10, 30, 1, 3][r.below(4)];
    JacobianIkSolver::new(d, g, m, n)
}

fn setup(r: &mut Rng, outside: bool) -> (Arm, JacobianIkSolver<f64>, Constraints, Isometry3<f64>, String) {
    let lim = r.chance(0.6);
    let a = gen_arm(r, 10, if r.0 % 3 == 0 { 0.2 } else { 0.0 }, lim, outside);
    let mut s = solver(r);
    let all = r.chance(0.2);
    let mut c = constraints(r, &a, all);
    // usually make the request possible
    let free = a.mov.len().saturating_sub({
        let mut v = c.ignored_joint_names.clone();
        v.sort();
        v.dedup();
        v.len()
    });
    if r.chance(0.9) {
        let mut f = flags(&c);
        while f.iter().filter(|x| **x).count() > free {
            let k = r.below(6);
            f[k] = false;
        }
        c.position_x = f[0];
        c.position_y = f[1];
        c.position_z = f[2];
        c.rotation_x = f[3];
        c.rotation_y = f[4];
        c.rotation_z = f[5];
    }
    if r.chance(0.3) {
        let refp: Vec<f64> = a.mov.iter().map(|_| r.num()).collect();
        let w: Vec<f64> = a.mov.iter().map(|_| r.range(0.0, 0.3)).collect();
        s.set_nullspace_function(Box::new(create_reference_positions_nullspace_function(refp, w)));
    }
    let tg = target(r, &a);
    let desc = format!("{:?}\nconstraints {:?}\ntarget {:?}\narm {:?}\n{}", s, c, tg, a.ix, describe(&a.t));
    (a, s, c, tg, desc)
}

fn others_unmoved(a: &Arm, before: &[Snap], desc: &str) -> R {
    for i in 0..a.t.n.len() {
        if !a.ix.contains(&i) {
            ck!(oeq(before[i].pos, a.t.n[i].joint_position()), "joint {} outside the arm moved; {}", i, desc);
        }
    }
    Ok(())
}

pub fn c13(r: &mut Rng) -> R {
    let (a, s, c, tg, desc) = setup(r, true);
    let before = snaps(&a.t);
    let plain = c.ignored_joint_names.is_empty() && flags(&c) == [true; 6] && r.chance(0.5);
    let res = if plain { s.solve(&a.s, &tg) } else { s.solve_with_constraints(&a.s, &tg, &c) };
    others_unmoved(&a, &before, &desc)?;
    if res.is_ok() {
        for &i in &a.mov {
            let j = a.t.n[i].joint();
            let p = j.joint_position().unwrap_or(0.0);
            if let Some(l) = &j.limits {
                ck!(l.min <= p && p <= l.max, "joint {} stands at {} after a success; {}", i, p, desc);
            }
        }
        let f = flags(&c);
        // far away positions lose the digits the comparison needs
        if a.mov.iter().any(|i| a.t.n[*i].joint_position().map_or(false, |p| !(p.abs() < 1e5))) {
            return Ok(());
        }
        let d = diff(&tg, &arm_pose(&a));
        let (mut p, mut w) = (0.0, 0.0);
        for k in 0..3 {
            if f[k] {
                p += d[k] * d[k];
            }
            if f[k + 3] {
                w += d[k + 3] * d[k + 3];
            }
        }
        ck!(p.sqrt() < s.allowable_target_distance + 1e-7, "success at distance {} (difference {:?}); {}", p.sqrt(), d, desc);
        let full = norm(&[d[3], d[4], d[5]]);
        if full < 3.0 {
            ck!(w.sqrt() < s.allowable_target_angle + 1e-6, "success at angle {} (difference {:?}); {}", w.sqrt(), d, desc);
        }
    }
    Ok(())
}

pub fn c14(r: &mut Rng) -> R {
    let (a, s, mut c, tg, desc) = setup(r, true);
    if r.chance(0.1) {
        let k = r.below(c.ignored_joint_names.len() + 1);
        c.ignored_joint_names.insert(k, "no such joint".to_string());
    }
    let before = snaps(&a.t);
    let res = s.solve_with_constraints(&a.s, &tg, &c);
    if let Err(e) = res {
        for &i in &a.ix {
            ck!(oeq(before[i].pos, a.t.n[i].joint_position()), "joint {} moved from {:?} to {:?} in a failed solve ({:?}); {}", i, before[i].pos, a.t.n[i].joint_position(), e, desc);
        }
        others_unmoved(&a, &before, &desc)?;
    }
    Ok(())
}

fn jac(a: &Arm) -> Vec<[f64; 6]> {
    let mut ws = vec![];
    let mut p = match a.t.n[a.ix[0]].parent() {
        Some(q) => q.world_transform().map(|x| pose(&x)).unwrap_or_else(pid),
        None => pid(),
    };
    for i in &a.ix {
        p = pm(&p, &local(&a.t.n[*i]));
        ws.push(p);
    }
    let pe = p.t;
    let mut cols = vec![];
    for (k, i) in a.ix.iter().enumerate() {
        match &a.t.n[*i].joint().joint_type {
            JointType::Rotational { axis } => {
                let x = mv(&ws[k].r, &vec3(axis));
                let d = cross(&x, &sub(&pe, &ws[k].t));
                cols.push([d[0], d[1], d[2], x[0], x[1], x[2]]);
            }
            JointType::Linear { axis } => {
                let x = mv(&ws[k].r, &vec3(axis));
                cols.push([x[0], x[1], x[2], 0.0, 0.0, 0.0]);
            }
            JointType::Fixed => {}
        }
    }
    cols
}

pub fn c15(r: &mut Rng) -> R {
    // ignored joints stay
    let (a, s, mut c, tg, desc) = setup(r, false);
    if c.ignored_joint_names.is_empty() && !a.mov.is_empty() {
        c.ignored_joint_names.push(a.t.n[a.mov[r.below(a.mov.len())]].joint().name.clone());
    }
    let before = snaps(&a.t);
    let res = s.solve_with_constraints(&a.s, &tg, &c);
    for &i in &a.mov {
        let name = a.t.n[i].joint().name.clone();
        if c.ignored_joint_names.contains(&name) {
            let inside = match (&a.t.n[i].joint().limits, before[i].pos) {
                (Some(l), Some(p)) => l.min <= p && p <= l.max,
                _ => true,
            };
            if inside {
                ck!(oeq(before[i].pos, a.t.n[i].joint_position()), "ignored joint {} moved from {:?} to {:?} ({:?}, ignored {:?}); {}", i, before[i].pos, a.t.n[i].joint_position(), res, c.ignored_joint_names, desc);
            }
        }
    }
    // one step of an arm that starts at the root, without limits
    let t = gen_tree(r, &Opt { max: 10, fixed: 0.1, serial: 1.0, links: 0.0, unique: true, ..Default::default() });
    let e = t.n.len() - 1;
    let arm = SerialChain::from_end(&t.n[e]);
    let ix = path(&t, e);
    let mov: Vec<usize> = ix.iter().cloned().filter(|i| t.n[*i].joint_position().is_some()).collect();
    let a = Arm { t, s: arm, ix, mov };
    let mut c = constraints(r, &a, false);
    let mut f = flags(&c);
    let ign: Vec<bool> = a.mov.iter().map(|i| c.ignored_joint_names.contains(&a.t.n[*i].joint().name)).collect();
    let free = ign.iter().filter(|x| !**x).count();
    while f.iter().filter(|x| **x).count() > free {
        let k = r.below(6);
        f[k] = false;
    }
    c.position_x = f[0];
    c.position_y = f[1];
    c.position_z = f[2];
    c.rotation_x = f[3];
    c.rotation_y = f[4];
    c.rotation_z = f[5];
    let m = f.iter().filter(|x| **x).count();
    if m == 0 {
        return Ok(());
    }
    let mult = [0.5, 1.0, 0.2][r.below(3)];
    let mut s = JacobianIkSolver::new(1e9, 1e9, mult, 1);
    let mut sub_task = None;
    if r.chance(0.4) {
        let q: Vec<f64> = a.mov.iter().map(|_| r.num()).collect();
        let w: Vec<f64> = a.mov.iter().map(|_| r.range(0.0, 0.3)).collect();
        let old: Vec<f64> = a.mov.iter().map(|i| a.t.n[*i].joint_position().unwrap_or(0.0)).collect();
        sub_task = Some((0..q.len()).map(|i| w[i] * (old[i] - q[i])).collect::<Vec<f64>>());
        s.set_nullspace_function(Box::new(create_reference_positions_nullspace_function(q, w)));
    }
    let tg = target(r, &a);
    let old: Vec<f64> = a.mov.iter().map(|i| a.t.n[*i].joint_position().unwrap_or(0.0)).collect();
    let cols = jac(&a);
    let d = diff(&tg, &arm_pose(&a));
    if norm(&[d[3], d[4], d[5]]) > 3.0 || d.iter().any(|x| x.is_nan()) {
        return Ok(());
    }
    let rows: Vec<usize> = (0..6).filter(|k| f[*k]).collect();
    let act: Vec<usize> = (0..a.mov.len()).filter(|k| !ign[*k]).collect();
    let j = DMatrix::from_fn(m, act.len(), |p, q| cols[act[q]][rows[p]]);
    let sv = j.clone().svd(false, false).singular_values;
    if sv.iter().any(|x| *x < 0.02) {
        return Ok(());
    }
    // nalgebra's decomposition is itself inexact on some matrices: those say nothing about k
    let inv = match j.clone().pseudo_inverse(1e-4) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    if (&j * &inv - DMatrix::<f64>::identity(m, m)).amax() > 1e-11 {
        return Ok(());
    }
    {
        let kj = k::jacobian(&a.s);
        if kj.nrows() == 6 && kj.ncols() == a.mov.len() {
            let kj = DMatrix::from_fn(m, act.len(), |p, q| kj[(rows[p], act[q])]);
            let err = DVector::from_iterator(m, rows.iter().map(|k| d[*k]));
            let x = if act.len() > m { kj.clone().svd(true, true).solve(&err, 1e-4).ok() } else { kj.clone().lu().solve(&err) };
            match x {
                Some(x) => {
                    if (&kj * &x - &err).norm() > 1e-9 * (1.0 + err.norm()) {
                        return Ok(());
                    }
                }
                None => return Ok(()),
            }
            if act.len() > m {
                match kj.clone().pseudo_inverse(1e-4) {
                    Ok(p) => {
                        if (&kj * &p - DMatrix::<f64>::identity(m, m)).amax() > 1e-11 {
                            return Ok(());
                        }
                    }
                    Err(_) => return Ok(()),
                }
            }
        }
    }
    let desc = format!("one step of {:?}, constraints {:?}\ntarget {:?}\n{}", s, c, tg, describe(&a.t));
    if s.solve_with_constraints(&a.s, &tg, &c).is_err() {
        return Ok(());
    }
    let new: Vec<f64> = a.mov.iter().map(|i| a.t.n[*i].joint_position().unwrap_or(0.0)).collect();
    for k in 0..new.len() {
        if ign[k] {
            ck!(new[k] == old[k], "ignored joint {} moved from {} to {}; {}", k, old[k], new[k], desc);
        }
    }
    let st = DVector::from_iterator(act.len(), act.iter().map(|k| (new[*k] - old[*k]) / mult));
    let err = DVector::from_iterator(m, rows.iter().map(|k| d[*k]));
    let tol = 1e-5 * (1.0 + err.norm() + st.norm());
    let res = (&j * &st - &err).norm();
    ck!(res <= tol, "the step does not solve the linearised problem (residual {}), positions {:?} -> {:?}; {}", res, old, new, desc);
    if act.len() > m {
        {
            let n = DMatrix::identity(act.len(), act.len()) - &inv * &j;
            let want = match &sub_task {
                Some(t) => DVector::from_iterator(act.len(), act.iter().map(|k| t[*k])),
                None => DVector::from_element(act.len(), 0.0),
            };
            let res = (&n * (&st - &want)).norm();
            ck!(res <= 1e-5 * (1.0 + st.norm() + want.norm()), "the null space part of the step is off by {}, positions {:?} -> {:?}; {}", res, old, new, desc);
        }
    }
    Ok(())
}

pub fn c16(r: &mut Rng) -> R {
    let a = gen_arm(r, 9, 0.1, true, false);
    let mut c = constraints(r, &a, false);
    match r.below(6) {
        0 => {
            c.position_x = false;
            c.position_y = false;
            c.position_z = false;
            c.rotation_x = false;
            c.rotation_y = false;
            c.rotation_z = false;
        }
        1 => {
            for _ in 0..r.below(12) {
                if !a.mov.is_empty() {
                    let n = a.t.n[a.mov[r.below(a.mov.len())]].joint().name.clone();
                    c.ignored_joint_names.push(n);
                }
            }
        }
        2 => {
            for i in &a.mov {
                c.ignored_joint_names.push(a.t.n[*i].joint().name.clone());
            }
            if r.chance(0.5) {
                let v = c.ignored_joint_names.clone();
                c.ignored_joint_names.extend(v);
            }
        }
        _ => {}
    }
    let mut bad = None;
    if r.chance(0.25) {
        let k = r.below(c.ignored_joint_names.len() + 1);
        let n = format!("missing{}", r.below(10));
        c.ignored_joint_names.insert(k, n.clone());
        bad = Some(n);
    }
    let tries = [0, 0, 1, 2, 10][r.below(5)];
    let mut s = JacobianIkSolver::new(0.001, 0.005, 0.5, tries);
    if r.chance(0.3) {
        let q: Vec<f64> = a.mov.iter().map(|_| r.num()).collect();
        let w: Vec<f64> = a.mov.iter().map(|_| r.range(0.0, 0.3)).collect();
        s.set_nullspace_function(Box::new(create_reference_positions_nullspace_function(q, w)));
    }
    let tg = target(r, &a);
    let need = flags(&c).iter().filter(|x| **x).count();
    let ign = a.mov.iter().filter(|i| c.ignored_joint_names.contains(&a.t.n[**i].joint().name)).count();
    let left = a.mov.len() - ign;
    let desc = format!("{} tries, constraints {:?}, target {:?}, arm {:?}\n{}", tries, c, tg, a.ix, describe(&a.t));
    match s.solve_with_constraints(&a.s, &tg, &c) {
        Err(Error::InvalidJointNameError { joint_name }) => ck!(bad == Some(joint_name.clone()), "invalid joint name {:?}; {}", joint_name, desc),
        Err(Error::PreconditionError { dof, necessary_dof }) => ck!(left < need && dof == left && necessary_dof == need, "precondition error {} {}; {}", dof, necessary_dof, desc),
        x => {
            ck!(bad.is_none(), "{:?} for a joint name the arm does not have; {}", x, desc);
            ck!(left >= need, "{:?} although only {} joints are left for {} coordinates; {}", x, left, need, desc);
        }
    }
    Ok(())
}

pub fn c17(r: &mut Rng) -> R {
    let c = Constraints::default();
    ck!(flags(&c) == [true; 6] && c.ignored_joint_names.is_empty(), "default constraints {:?}", c);
    let t = gen_tree(r, &Opt { max: 6, fixed: 0.0, serial: 1.0, links: 0.0, unique: true, ..Default::default() });
    // enough joints for every selection
    let mut t = t;
    while t.n.len() < 6 {
        let mut j = Joint::new(&format!("x{}", t.n.len()), rand_type(r, 0.0));
        j.set_origin(rand_iso(r));
        let n = Node::new(j);
        n.set_parent(&t.n[t.n.len() - 1]);
        t.parent.push(Some(t.n.len() - 1));
        t.mimic.push(None);
        t.n.push(n);
    }
    let e = t.n.len() - 1;
    let ix = path(&t, e);
    let arm = SerialChain::from_end(&t.n[e]);
    let a = Arm { mov: ix.clone(), ix, t, s: arm };
    let tg = rand_iso(r);
    let mut c = Constraints::default();
    let mask = r.below(64);
    let on = |k: usize| mask >> k & 1 == 0;
    c.position_x = on(0);
    c.position_y = on(1);
    c.position_z = on(2);
    c.rotation_x = on(3);
    c.rotation_y = on(4);
    c.rotation_z = on(5);
    // no step is made: the reported difference is that of the current pose
    let s = JacobianIkSolver::new(-1.0, -1.0, 0.0, r.below(3));
    let d = diff(&tg, &arm_pose(&a));
    if norm(&[d[3], d[4], d[5]]) > 3.0 || d.iter().any(|x| x.is_nan()) {
        return Ok(());
    }
    let desc = format!("constraints {:?} target {:?}\n{}", c, tg, describe(&a.t));
    let res = if mask == 0 && r.chance(0.5) { s.solve(&a.s, &tg) } else { s.solve_with_constraints(&a.s, &tg, &c) };
    if let Err(Error::NotConvergedError { position_diff, rotation_diff, .. }) = res {
        for k in 0..3 {
            let w = if on(k) { d[k] } else { 0.0 };
            ck!((position_diff[k] - w).abs() <= 1e-7 * (1.0 + norm(&[d[0], d[1], d[2]])), "position difference {:?}, coordinate {} should be {}; {}", position_diff, k, w, desc);
            let w = if on(k + 3) { d[k + 3] } else { 0.0 };
            ck!((rotation_diff[k] - w).abs() <= 1e-5, "rotation difference {:?}, coordinate {} should be {}; {}", rotation_diff, k, w, desc);
        }
    }
    Ok(())
}

pub fn c25(r: &mut Rng) -> R {
    let n = r.below(9);
    let q: Vec<f64> = (0..n).map(|_| r.num()).collect();
    let w: Vec<f64> = (0..n).map(|_| r.num()).collect();
    let f = create_reference_positions_nullspace_function(q.clone(), w.clone());
    for _ in 0..3 {
        let p: Vec<f64> = (0..n).map(|_| r.num()).collect();
        let v = f(&p);
        ck!(v.len() == n, "{} entries for {} joints", v.len(), n);
        for i in 0..n {
            ck!(close(v[i], w[i] * (p[i] - q[i]), 1e-12), "entry {} is {} for position {}, reference {}, weight {}", i, v[i], p[i], q[i], w[i]);
        }
    }
    Ok(())
}
