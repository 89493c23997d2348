use crate::util::*;
use crate::{ck, R};
use k::joint::{Mimic, Range};
use k::*;

fn limits_of(j: &Joint<f64>) -> Option<(f64, f64)> {
    j.limits.as_ref().map(|l| (l.min, l.max))
}
fn movable(j: &Joint<f64>) -> bool {
    match j.joint_type {
        JointType::Fixed => false,
        _ => true,
    }
}
/// a request that often is at or next to a limit
fn request(r: &mut Rng, l: Option<(f64, f64)>) -> f64 {
    let next = |x: f64, up: bool| {
        if x == 0.0 {
            if up { f64::MIN_POSITIVE } else { -f64::MIN_POSITIVE }
        } else {
            let b = x.to_bits();
            f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
        }
    };
    if let Some((a, b)) = l {
        match r.below(10) {
            0 => return a,
            1 => return b,
            2 => return next(a, false),
            3 => return next(b, true),
            4 => return next(a, true),
            5 => return next(b, false),
            6 => return a + (b - a) * r.unit(),
            _ => {}
        }
    }
    r.wild()
}
fn wild_limits(r: &mut Rng) -> Option<Range<f64>> {
    if r.chance(0.3) {
        let (a, b) = (r.wild(), r.wild());
        if a <= b {
            return Some(Range { min: a, max: b });
        }
    }
    rand_limits(r)
}
fn one(r: &mut Rng) -> Node<f64> {
    let t = rand_type(r, 0.2);
    let name = format!("n{}", r.below(100));
    let mut j = Joint::new(&name, t);
    j.limits = wild_limits(r);
    j.set_origin(rand_iso(r));
    if r.chance(0.7) {
        j.set_joint_position_unchecked(r.num());
    }
    if r.chance(0.7) {
        let _ = j.set_joint_velocity(r.num());
    }
    let n = Node::new(j);
    if r.chance(0.7) {
        let p = Node::new(Joint::new("p", JointType::Fixed));
        if r.chance(0.5) {
            n.set_parent(&p);
            let c = Chain::from_root(p);
            c.update_transforms();
            if r.chance(0.5) {
                c.update_velocities();
            }
            std::mem::forget(c);
        } else {
            let c = Chain::from_root(n.clone());
            c.update_transforms();
            if r.chance(0.5) {
                c.update_velocities();
            }
        }
    }
    n
}

pub fn c01(r: &mut Rng) -> R {
    let n = one(r);
    for _ in 0..3 {
        let before = snap(&n);
        let (l, mv, name, jt) = {
            let j = n.joint();
            (limits_of(&j), movable(&j), j.name.clone(), format!("{:?}", j.joint_type))
        };
        let x = request(r, l);
        let in_limits = l.map(|(a, b)| a <= x && x <= b).unwrap_or(true);
        let mut detached = n.joint().clone();
        let direct = r.chance(0.5);
        let res = if direct { detached.set_joint_position(x) } else { n.set_joint_position(x) };
        let d = if direct { Node::new(detached.clone()) } else { n.clone() };
        let after = snap(&d);
        let desc = format!("joint {} type {} limits {:?} request {:?} result {:?}", name, jt, l, x, res);
        match res {
            Ok(()) => {
                ck!(mv, "a fixed joint accepted a position: {}", desc);
                ck!(in_limits, "a position outside the limits was accepted: {}", desc);
                ck!(oeq(after.pos, Some(x)), "position after a successful set is {:?}: {}", after.pos, desc);
            }
            Err(e) => {
                ck!(!(mv && in_limits), "a legal position was refused: {}", desc);
                match e {
                    Error::SetToFixedError { joint_name } => ck!(!mv && joint_name == name, "wrong error: {}", desc),
                    Error::OutOfLimitError { joint_name, position, max_limit, min_limit } => {
                        let (a, b) = l.unwrap_or((0.0, 0.0));
                        ck!(mv && joint_name == name && same(position, x) && same(max_limit, b) && same(min_limit, a), "wrong error: {}", desc)
                    }
                    _ => return Err(format!("wrong error: {}", desc)),
                }
                let mut skip = vec![];
                if direct {
                    skip = vec!["parent", "children", "link", "mimic_parent"];
                }
                if let Some(d) = before.diff(&after, &skip) {
                    return Err(format!("refused set changed the joint: {}; {}", d, desc));
                }
                // the position of a fixed joint shows when it is made movable
                if !mv && direct {
                    let mut a = detached.clone();
                    let mut b = n.joint().clone();
                    a.joint_type = JointType::Linear { axis: Vector3::x_axis() };
                    b.joint_type = JointType::Linear { axis: Vector3::x_axis() };
                    ck!(oeq(a.joint_position(), b.joint_position()) && oeq(a.joint_velocity(), b.joint_velocity()), "refused set changed the hidden position: {}", desc);
                }
            }
        }
    }
    // single precision
    let lim = wild_limits(r);
    let mut j = Joint::<f32>::new("f", JointType::Linear { axis: Vector3::x_axis() });
    j.limits = lim.map(|l| Range { min: l.min as f32, max: l.max as f32 });
    let l = j.limits.as_ref().map(|l| (l.min, l.max));
    let x = request(r, l.map(|(a, b)| (a as f64, b as f64))) as f32;
    let ok = l.map(|(a, b)| a <= x && x <= b).unwrap_or(true);
    let res = j.set_joint_position(x);
    ck!(res.is_ok() == ok, "f32: limits {:?} request {:?} result {:?}", l, x, res);
    if ok {
        let p = j.joint_position().unwrap_or(7.0);
        ck!(p == x || (p.is_nan() && x.is_nan()), "f32: position {:?} after setting {:?}", p, x);
    }
    Ok(())
}

pub fn c02(r: &mut Rng) -> R {
    let n = one(r);
    let before = snap(&n);
    let (l, mv) = {
        let j = n.joint();
        (limits_of(&j), movable(&j))
    };
    let x = request(r, l);
    let mut j = n.joint().clone();
    if r.chance(0.5) {
        j.set_joint_position_clamped(x);
    } else {
        n.set_joint_position_clamped(x);
        j = n.joint().clone();
    }
    let desc = format!("type {:?} limits {:?} request {:?}", j.joint_type, l, x);
    if !mv {
        let after = snap(&Node::new(j.clone()));
        if let Some(d) = before.diff(&after, &["parent", "children", "link", "mimic_parent"]) {
            return Err(format!("clamped set touched a fixed joint: {}; {}", d, desc));
        }
    } else if !x.is_nan() {
        let want = match l {
            None => x,
            Some((a, b)) => {
                if x < a {
                    a
                } else if x > b {
                    b
                } else {
                    x
                }
            }
        };
        ck!(j.joint_position() == Some(want), "clamped set gave {:?}, wanted {:?}: {}", j.joint_position(), want, desc);
    }
    let (a, b) = (r.wild(), r.wild());
    let (a, b) = if r.chance(0.1) { (a, a) } else { (a, b) };
    let made = std::panic::catch_unwind(|| if a == a { Range::new(a, b) } else { (a..=b).into() }).ok();
    if let Some(g) = &made {
        ck!(!(g.min > g.max), "a range with minimum {:?} above maximum {:?} was built", g.min, g.max);
        ck!(same(g.min, a) && same(g.max, b), "range of {:?} {:?} is {:?}", a, b, g);
    } else {
        ck!(!(a <= b), "no range could be built from {:?} and {:?}", a, b);
    }
    if let (Some(g), true) = (made, a <= b) {
        let y = request(r, Some((a, b)));
        if !y.is_nan() {
            let c = g.clamp(y);
            ck!(a <= c && c <= b, "clamp of {:?} to {:?} is {:?}", y, g, c);
            ck!((c == y) == (a <= y && y <= b), "clamp of {:?} to {:?} is {:?}", y, g, c);
            ck!(g.is_valid(y) == (a <= y && y <= b), "is_valid of {:?} in {:?}", y, g);
        }
    }
    let f = Range::<f32>::new(-1.5, 2.5);
    let y = r.num() as f32;
    let w = if y < -1.5 { -1.5 } else if y > 2.5 { 2.5 } else { y };
    ck!(f.clamp(y) == w, "f32 clamp of {:?} is {:?}", y, f.clamp(y));
    Ok(())
}

pub fn c03(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 7, fixed: 0.1, mimics: 0.6, limits: r.0 % 3 != 0, links: 0.1, ..Default::default() });
    if r.chance(0.5) {
        for n in &t.n {
            if n.parent().is_none() {
                let c = Chain::from_root(n.clone());
                c.update_transforms();
                c.update_velocities();
            }
        }
    }
    let target = {
        // prefer joints that have followers
        let with: Vec<usize> = (0..t.n.len()).filter(|i| t.mimic.iter().any(|m| m.map(|m| m.0) == Some(*i))).collect();
        if !with.is_empty() && r.chance(0.8) { with[r.below(with.len())] } else { r.below(t.n.len()) }
    };
    let before = snaps(&t);
    let l = limits_of(&t.n[target].joint());
    let x = if r.chance(0.7) {
        match l {
            Some((a, b)) => a + (b - a) * r.unit(),
            None => r.num(),
        }
    } else {
        r.num()
    };
    let res = t.n[target].set_joint_position(x);
    let after = snaps(&t);
    let desc = format!("set joint {} to {:?} gives {:?}\n{}", target, x, res, t.desc);
    let changed = |i: usize| before[i].diff(&after[i], &[]);
    if t.mimic[target].is_some() {
        ck!(res.is_ok(), "setting a mimicking joint failed: {}", desc);
        for i in 0..t.n.len() {
            if let Some(d) = changed(i) {
                return Err(format!("setting a mimicking joint changed something: {}; {}", d, desc));
            }
        }
        return Ok(());
    }
    let followers: Vec<usize> = (0..t.n.len()).filter(|i| t.mimic[*i].map(|m| m.0) == Some(target)).collect();
    for i in 0..t.n.len() {
        if i != target && !followers.contains(&i) {
            if let Some(d) = changed(i) {
                return Err(format!("another joint changed: {}; {}", d, desc));
            }
        }
        if let Some(d) = before[i].diff(&after[i], &["position", "world_transform", "world_velocity"]) {
            return Err(format!("something else changed: {}; {}", d, desc));
        }
    }
    for &f in &followers {
        let (_, m, o) = t.mimic[f].unwrap_or((0, 0.0, 0.0));
        let want = x * m + o;
        let j = t.n[f].joint();
        let legal = movable(&j) && limits_of(&j).map(|(a, b)| a <= want && want <= b).unwrap_or(true);
        let far = movable(&j) && limits_of(&j).map(|(a, b)| (want - a).abs() > 1e-9 && (want - b).abs() > 1e-9).unwrap_or(true);
        if res.is_ok() {
            ck!(legal || (far == false && movable(&j)), "success although follower {} cannot stand at {:?}: {}", f, want, desc);
            ck!(j.joint_position().map(|p| close(p, want, 1e-12)).unwrap_or(false), "follower {} stands at {:?}, wanted {:?}: {}", f, j.joint_position(), want, desc);
        }
    }
    let own = movable(&t.n[target].joint()) && l.map(|(a, b)| a <= x && x <= b).unwrap_or(true);
    if res.is_ok() {
        ck!(own && oeq(after[target].pos, Some(x)), "the joint itself: {}", desc);
    } else if own {
        let all = followers.iter().all(|&f| {
            let (_, m, o) = t.mimic[f].unwrap_or((0, 0.0, 0.0));
            let want = x * m + o;
            let j = t.n[f].joint();
            movable(&j) && limits_of(&j).map(|(a, b)| a + 1e-9 <= want && want <= b - 1e-9).unwrap_or(true)
        });
        ck!(!all, "refused although every joint involved can take its value: {}", desc);
    }
    Ok(())
}

fn viso(a: &Option<Isometry3<f64>>) -> bool {
    a.is_none()
}

pub fn c05(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 6, velocities: true, mimics: 0.2, ..Default::default() });
    let c = Chain::from_root(t.n[0].clone());
    for _ in 0..4 {
        let ret = c.update_transforms();
        let nodes: Vec<_> = c.iter().cloned().collect();
        for (n, w) in nodes.iter().zip(ret.iter()) {
            for _ in 0..2 {
                ck!(same_oiso(&n.world_transform(), &Some(*w)), "world transform read differs from the one stored\n{}", t.desc);
                ck!(same_oiso(&n.joint().world_transform(), &Some(*w)), "world transform read differs from the one stored\n{}", t.desc);
            }
        }
        if r.chance(0.8) {
            let ret = c.update_velocities();
            for (n, w) in nodes.iter().zip(ret.iter()) {
                for _ in 0..2 {
                    let v = n.world_velocity();
                    ck!(v.map(|v| v.translation == w.translation && v.rotation == w.rotation).unwrap_or(false) || w.translation != w.translation || w.rotation != w.rotation, "world velocity read differs from the one stored\n{}", t.desc);
                }
            }
        }
        let n = &t.n[r.below(t.n.len())];
        let before = snap(n);
        let x = r.num();
        let iso = rand_iso(r);
        let what = r.below(7);
        match what {
            0 => {
                let changed = n.set_joint_position(x).is_ok() && n.mimic_parent().is_none();
                if changed {
                    ck!(n.world_transform().is_none() && n.world_velocity().is_none(), "set_joint_position left a cached pose or velocity\n{}", t.desc);
                }
            }
            1 => {
                n.set_joint_position_clamped(x);
                if before.pos.is_some() {
                    ck!(n.world_transform().is_none() && n.world_velocity().is_none(), "set_joint_position_clamped left a cached pose or velocity\n{}", t.desc);
                }
            }
            2 => {
                n.set_joint_position_unchecked(x);
                if before.pos.is_some() {
                    ck!(n.world_transform().is_none() && n.world_velocity().is_none(), "set_joint_position_unchecked left a cached pose or velocity\n{}", t.desc);
                }
            }
            3 => {
                n.set_origin(iso);
                ck!(same_iso(&n.origin(), &iso), "origin after set_origin\n{}", t.desc);
                ck!(n.world_transform().is_none() && n.world_velocity().is_none(), "set_origin left a cached pose or velocity\n{}", t.desc);
            }
            4 => {
                let mut j = n.joint().clone();
                ck!(same_oiso(&j.world_transform(), &before.wt), "a cloned joint differs\n{}", t.desc);
                match r.below(5) {
                    0 => {
                        let ok = j.set_joint_velocity(x).is_ok();
                        ck!(ok == before.pos.is_some(), "set_joint_velocity result\n{}", t.desc);
                        if ok {
                            ck!(j.world_velocity().is_none() && j.joint_velocity() == Some(x), "set_joint_velocity left a cached velocity\n{}", t.desc);
                        }
                    }
                    1 => {
                        let ok = j.set_joint_position(x).is_ok();
                        if ok {
                            ck!(j.world_velocity().is_none() && j.world_transform().is_none(), "Joint::set_joint_position left a cache\n{}", t.desc);
                        }
                    }
                    2 => {
                        j.set_joint_position_unchecked(x);
                        if before.pos.is_some() {
                            ck!(j.world_velocity().is_none() && j.world_transform().is_none(), "Joint::set_joint_position_unchecked left a cache\n{}", t.desc);
                        }
                    }
                    3 => {
                        j.set_joint_position_clamped(x);
                        if before.pos.is_some() {
                            ck!(j.world_velocity().is_none() && j.world_transform().is_none(), "Joint::set_joint_position_clamped left a cache\n{}", t.desc);
                        }
                    }
                    _ => {
                        j.set_origin(iso);
                        ck!(j.world_velocity().is_none() && j.world_transform().is_none() && same_iso(j.origin(), &iso), "Joint::set_origin left a cache\n{}", t.desc);
                    }
                }
            }
            5 => {
                let p: Vec<f64> = (0..c.dof()).map(|_| r.num()).collect();
                match r.below(3) {
                    0 => {
                        c.set_joint_positions_clamped(&p);
                    }
                    1 => c.set_joint_positions_unchecked(&p),
                    _ => c.set_origin(iso),
                }
                for n in &nodes {
                    let _ = n;
                }
                ck!(true, "");
            }
            _ => {
                // reading changes nothing
                let s = snaps(&t);
                for n in &nodes {
                    let _ = (n.joint_position(), n.origin(), n.is_root(), n.is_end());
                    let _ = n.joint().local_transform();
                    let _ = n.joint().joint_velocity();
                    let _ = n.link().is_some();
                }
                let _ = (c.joint_positions(), c.dof(), c.find("j0"), c.origin(), format!("{}", c));
                for (a, b) in s.iter().zip(snaps(&t).iter()) {
                    if let Some(d) = a.diff(b, &[]) {
                        return Err(format!("reading changed something: {}\n{}", d, t.desc));
                    }
                }
            }
        }
    }
    let (o1, o2) = (rand_iso(r), rand_iso(r));
    let mut i = rand_inertial(r);
    ck!(viso(i.world_transform()), "a new inertial has a cached pose");
    i.set_world_transform(o1);
    ck!(same_oiso(i.world_transform(), &Some(o1)), "inertial pose stored");
    let k = r.below(2);
    if k == 0 { i.set_origin(o2) } else { i.clear_world_transform() }
    ck!(viso(i.world_transform()) && (k == 1 || same_iso(i.origin(), &o2)), "inertial: cached pose after set_origin/clear");
    let mut i = rand_visual(r);
    ck!(viso(i.world_transform()), "a new visual has a cached pose");
    i.set_world_transform(o1);
    ck!(same_oiso(i.world_transform(), &Some(o1)), "visual pose stored");
    if k == 0 { i.set_origin(o2) } else { i.clear_world_transform() }
    ck!(viso(i.world_transform()) && (k == 1 || same_iso(i.origin(), &o2)), "visual: cached pose after set_origin/clear");
    let mut i = rand_collision(r);
    ck!(viso(i.world_transform()), "a new collision has a cached pose");
    i.set_world_transform(o1);
    ck!(same_oiso(i.world_transform(), &Some(o1)), "collision pose stored");
    if k == 0 { i.set_origin(o2) } else { i.clear_world_transform() }
    ck!(viso(i.world_transform()) && (k == 1 || same_iso(i.origin(), &o2)), "collision: cached pose after set_origin/clear");
    Ok(())
}

pub fn c21(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 8, mimics: 0.2, ..Default::default() });
    let n = t.n.len();
    let mut parent = t.parent.clone();
    let mut children: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| parent[*j] == Some(i)).collect()).collect();
    for _ in 0..6 {
        let before = snaps(&t);
        let i = r.below(n);
        let what;
        let touched;
        match parent[i] {
            Some(p) => {
                t.n[i].remove_parent(&t.n[p]);
                parent[i] = None;
                children[p].retain(|x| *x != i);
                what = format!("remove_parent of {} from {}", i, p);
                touched = p;
            }
            None => {
                // no cycles
                let cand: Vec<usize> = (0..n)
                    .filter(|&p| {
                        let mut q = p;
                        loop {
                            if q == i {
                                return false;
                            }
                            match parent[q] {
                                Some(x) => q = x,
                                None => return true,
                            }
                        }
                    })
                    .collect();
                if cand.is_empty() {
                    continue;
                }
                let p = cand[r.below(cand.len())];
                t.n[i].set_parent(&t.n[p]);
                parent[i] = Some(p);
                children[p].push(i);
                what = format!("set_parent of {} to {}", i, p);
                touched = p;
            }
        }
        for j in 0..n {
            let s = snap(&t.n[j]);
            let desc = format!("after {} at node {}\n{}", what, j, t.desc);
            ck!(s.parent.as_ref().map(|p| index(&t, p)) == parent[j].map(Some), "wrong parent {}", desc);
            let c: Vec<Option<usize>> = s.children.iter().map(|c| index(&t, c)).collect();
            ck!(c == children[j].iter().map(|x| Some(*x)).collect::<Vec<_>>(), "wrong children {:?}, wanted {:?} {}", c, children[j], desc);
            ck!(t.n[j].is_root() == parent[j].is_none(), "is_root {}", desc);
            ck!(t.n[j].is_end() == children[j].is_empty(), "is_end {}", desc);
            let mut skip = vec![];
            if j == i {
                skip.push("parent");
            }
            if j == touched {
                skip.push("children");
            }
            if let Some(d) = before[j].diff(&s, &skip) {
                return Err(format!("{} {}", d, desc));
            }
        }
    }
    // a parent that is gone
    let c = Node::<f64>::new(Joint::new("c", JointType::Fixed));
    {
        let p = Node::new(Joint::new("p", JointType::Fixed));
        c.set_parent(&p);
        ck!(c.parent() == Some(p.clone()) && !c.is_root() && p.children().len() == 1 && p.children()[0] == c, "small tree");
    }
    ck!(c.parent().is_none() && c.is_root(), "a node whose parent is gone has no parent but is no root");
    Ok(())
}

pub fn c22(r: &mut Rng) -> R {
    let mut b = NodeBuilder::<f64>::new();
    let mut name = String::new();
    let mut jt = JointType::Fixed;
    let mut lim: Option<Range<f64>> = None;
    let mut o = Isometry3::identity();
    let mut steps = String::new();
    for _ in 0..r.below(8) {
        match r.below(6) {
            0 => {
                name = format!("n{}", r.below(50));
                b = b.name(&name);
                steps += "name ";
            }
            1 => {
                jt = rand_type(r, 0.2);
                b = b.joint_type(jt);
                steps += "joint_type ";
            }
            2 => {
                lim = rand_limits(r);
                b = b.limits(lim.clone());
                steps += "limits ";
            }
            3 => {
                o = rand_iso(r);
                b = b.origin(o);
                steps += "origin ";
            }
            4 => {
                o.translation = rand_iso(r).translation;
                b = b.translation(o.translation);
                steps += "translation ";
            }
            _ => {
                o.rotation = rand_iso(r).rotation;
                b = b.rotation(o.rotation);
                steps += "rotation ";
            }
        }
    }
    let node = r.chance(0.5);
    let n = if node { b.into_node() } else { Node::new(b.finalize()) };
    let s = snap(&n);
    let desc = format!("steps: {} result {:?}", steps, n);
    ck!(s.name == name, "name {}", desc);
    ck!(s.jt == format!("{:?}", jt), "type {}", desc);
    ck!(s.limits == format!("{:?}", lim), "limits {}", desc);
    ck!(same_iso(&s.origin, &o), "origin {}", desc);
    ck!(s.wt.is_none() && s.wv.is_none(), "cached poses {}", desc);
    ck!(s.parent.is_none() && s.children.is_empty() && s.mimic_parent.is_none() && s.link.is_empty(), "relations {}", desc);
    let mut j = n.joint().clone();
    if let JointType::Fixed = j.joint_type {
        j.joint_type = JointType::Linear { axis: Vector3::x_axis() };
    }
    ck!(j.joint_position() == Some(0.0) && j.joint_velocity() == Some(0.0), "position or velocity {}", desc);
    let mut lb = k::link::LinkBuilder::<f64>::new();
    if r.chance(0.2) {
        lb = Default::default();
    }
    let (mut nm, mut i) = (String::new(), None);
    let (mut vs, mut cs) = (vec![], vec![]);
    for _ in 0..r.below(8) {
        match r.below(4) {
            0 => {
                nm = format!("l{}", r.below(50));
                lb = lb.name(&nm);
            }
            1 => {
                let x = rand_inertial(r);
                i = Some(x.clone());
                lb = lb.inertial(x);
            }
            2 => {
                let x = rand_visual(r);
                vs.push(x.clone());
                lb = lb.add_visual(x);
            }
            _ => {
                let x = rand_collision(r);
                cs.push(x.clone());
                lb = lb.add_collision(x);
            }
        }
    }
    let l = lb.finalize();
    ck!(l.name == nm, "link name {:?}", l);
    if let Some(i) = i {
        ck!(format!("{:?}", l.inertial) == format!("{:?}", i), "link inertial {:?} wanted {:?}", l.inertial, i);
    }
    ck!(format!("{:?}", l.visuals) == format!("{:?}", vs), "link visuals {:?} wanted {:?}", l.visuals, vs);
    ck!(format!("{:?}", l.collisions) == format!("{:?}", cs), "link collisions {:?} wanted {:?}", l.collisions, cs);
    let m = Mimic::new(2.0, 1.0);
    let _: &Mimic<f64> = &m;
    Ok(())
}
