use crate::util::*;
use crate::{ck, R};
use k::*;

fn names(v: &[usize]) -> String {
    format!("{:?}", v)
}

/// a chain over the tree and the indices of its nodes in chain order
pub fn some_chain(r: &mut Rng, t: &Tree) -> (Chain<f64>, Vec<usize>, &'static str) {
    let n = t.n.len();
    let (c, how) = match r.below(6) {
        0 | 1 => (Chain::from_root(t.n[0].clone()), "from_root"),
        2 => (Chain::from_end(&t.n[r.below(n)]), "from_end"),
        3 => {
            let e = r.below(n);
            let p = path(t, e);
            (Chain::from_end_to_root(&t.n[e], &t.n[p[r.below(p.len())]]), "from_end_to_root")
        }
        4 => (Chain::from_root(t.n[r.below(n)].clone()), "from_root of an inner node"),
        _ => (Chain::from_nodes(t.n.clone()), "from_nodes"),
    };
    let ix = c.iter().map(|x| index(t, x).unwrap_or(usize::MAX)).collect();
    (c, ix, how)
}

pub fn c04(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { mimics: 0.1, ..Default::default() });
    let all = Chain::from_nodes(t.n.clone());
    if r.chance(0.5) {
        // stale caches
        all.update_transforms();
        for n in &t.n {
            if r.chance(0.5) {
                n.set_joint_position_clamped(r.num());
            }
        }
        all.update_transforms();
    } else {
        all.update_transforms();
    }
    let (c, ix, how) = some_chain(r, &t);
    for (i, n) in t.n.iter().enumerate() {
        if ix.contains(&i) && r.chance(0.5) {
            n.set_joint_position_clamped(r.num());
        }
    }
    stir(r, &t, &ix, false);
    ck!(ix.iter().all(|i| *i < t.n.len()), "foreign node in the chain");
    // what is above the chain has up to date caches only when nothing above changed
    let desc = format!("chain {} {}\n{}", how, names(&ix), describe(&t));
    let ret = c.update_transforms();
    ck!(ret.len() == ix.len(), "{} transforms for {} nodes: {}", ret.len(), ix.len(), desc);
    for (k, &i) in ix.iter().enumerate() {
        let w = t.n[i].world_transform();
        ck!(same_oiso(&w, &Some(ret[k])), "entry {} of the returned list is not the stored transform {:?}: {}", k, w, desc);
        let up = match t.n[i].parent() {
            Some(p) => match p.world_transform() {
                Some(w) => pose(&w),
                None => return Err(format!("parent of node {} has no transform: {}", i, desc)),
            },
            None => pid(),
        };
        let want = pm(&up, &local(&t.n[i]));
        ck!(pclose(&pose(&ret[k]), &want, 1e-9), "node {}: world transform {:?}, wanted {:?}: {}", i, ret[k], want, desc);
        let glob = world(&t, i);
        ck!(pclose(&pose(&ret[k]), &glob, 1e-7), "node {}: world transform {:?}, wanted {:?}: {}", i, ret[k], glob, desc);
    }
    // the end of a serial chain
    let e = r.below(t.n.len());
    let s = SerialChain::from_end(&t.n[e]);
    let mut want = pid();
    for n in s.iter() {
        want = pm(&want, &local(n));
    }
    let d2 = format!("serial chain to {}: {}", e, desc);
    let stale = s.end_transform();
    ck!(pclose(&pose(&stale), &want, 1e-8), "end transform {:?}, wanted {:?}; {}", stale, want, d2);
    for n in s.iter() {
        n.set_joint_position_clamped(r.num());
    }
    let end = s.end_transform();
    s.update_transforms();
    match t.n[e].world_transform() {
        Some(w) => ck!(pclose(&pose(&end), &pose(&w), 1e-8), "end transform {:?} but the last node's world transform is {:?}; {}", end, w, d2),
        None => return Err(format!("no transform after update; {}", d2)),
    }
    let q = SerialChain::new_unchecked(Chain::from_nodes(t.n.clone()));
    let mut want = pid();
    for n in t.n.iter() {
        want = pm(&want, &local(n));
    }
    ck!(pclose(&pose(&q.end_transform()), &want, 1e-8), "end transform of a list; {}", desc);
    Ok(())
}

pub fn c06(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 12, links: 0.0, serial: 0.15, ..Default::default() });
    let n = t.n.len();
    let desc = t.desc.clone();
    let a = r.below(n);
    let ixs = |v: &mut dyn Iterator<Item = Node<f64>>| -> Vec<usize> { v.map(|x| index(&t, &x).unwrap_or(usize::MAX)).collect() };
    let c = Chain::from_root(t.n[a].clone());
    let got = ixs(&mut c.iter().cloned());
    let it = ixs(&mut t.n[a].iter_descendants());
    for (what, got) in [("from_root", &got), ("iter_descendants", &it)].iter() {
        let want: Vec<usize> = (0..n).filter(|i| is_desc(&t, *i, a)).collect();
        let mut s = got.to_vec();
        s.sort();
        ck!(s == want, "{} of {} holds {:?}, wanted {:?} in some order\n{}", what, a, got, want, desc);
        for (k, &i) in got.iter().enumerate() {
            if i != a {
                let p = t.parent[i].unwrap_or(usize::MAX);
                ck!(got[..k].contains(&p), "{} of {}: node {} before its parent in {:?}\n{}", what, a, i, got, desc);
            }
        }
    }
    let e = r.below(n);
    let want = path(&t, e);
    let got = ixs(&mut Chain::from_end(&t.n[e]).iter().cloned());
    ck!(got == want, "from_end of {} holds {:?}, wanted {:?}\n{}", e, got, want, desc);
    let got = ixs(&mut SerialChain::from_end(&t.n[e]).iter().cloned());
    ck!(got == want, "SerialChain::from_end of {} holds {:?}, wanted {:?}\n{}", e, got, want, desc);
    let mut got = ixs(&mut t.n[e].iter_ancestors());
    got.reverse();
    ck!(got == want, "iter_ancestors of {} holds {:?}, wanted {:?} backwards\n{}", e, got, want, desc);
    let b = r.below(n);
    let part = match want.iter().position(|x| *x == b) {
        Some(k) => want[k..].to_vec(),
        None => want.clone(),
    };
    let got = ixs(&mut Chain::from_end_to_root(&t.n[e], &t.n[b]).iter().cloned());
    ck!(got == part, "from_end_to_root of {} to {} holds {:?}, wanted {:?}\n{}", e, b, got, part, desc);
    let got = ixs(&mut SerialChain::from_end_to_root(&t.n[e], &t.n[b]).iter().cloned());
    ck!(got == part, "SerialChain::from_end_to_root of {} to {} holds {:?}, wanted {:?}\n{}", e, b, got, part, desc);
    let list: Vec<usize> = (0..r.below(6)).map(|_| r.below(n)).collect();
    let c = Chain::from_nodes(list.iter().map(|i| t.n[*i].clone()).collect());
    let got = ixs(&mut c.iter().cloned());
    ck!(got == list, "from_nodes of {:?} holds {:?}\n{}", list, got, desc);
    let u = SerialChain::new_unchecked(c).unwrap();
    let got = ixs(&mut u.iter().cloned());
    ck!(got == list, "new_unchecked and unwrap of {:?} holds {:?}\n{}", list, got, desc);
    Ok(())
}

pub fn c07(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { fixed: 0.35, mimics: 0.15, limits: r.0 % 2 == 0, dup_names: true, links: 0.1, ..Default::default() });
    let (c, ix, how) = some_chain(r, &t);
    let mov: Vec<usize> = ix.iter().cloned().filter(|i| t.n[*i].joint_position().is_some()).collect();
    let desc = format!("chain {} {:?}\n{}", how, ix, t.desc);
    ck!(c.dof() == mov.len(), "dof {} for {} movable nodes; {}", c.dof(), mov.len(), desc);
    let pos = |i: usize| t.n[i].joint_position();
    let listed = |c: &Chain<f64>| -> bool {
        let p = c.joint_positions();
        p.len() == mov.len() && p.iter().zip(mov.iter()).all(|(p, i)| oeq(Some(*p), pos(*i)))
    };
    ck!(listed(&c), "joint_positions {:?}; {}", c.joint_positions(), desc);
    let joints: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
    let want: Vec<String> = mov.iter().map(|i| t.n[*i].joint().name.clone()).collect();
    ck!(joints == want, "iter_joints {:?}, wanted {:?}; {}", joints, want, desc);
    let links = c.iter_links().count();
    ck!(links == ix.iter().filter(|i| t.n[**i].link().is_some()).count(), "iter_links; {}", desc);
    let nm = format!("j{}", r.below(6));
    let nm = some_name(r, nm);
    let f = c.find(&nm).map(|n| index(&t, n).unwrap_or(usize::MAX));
    let w = ix.iter().cloned().find(|i| t.n[*i].joint().name == nm);
    ck!(f == w, "find {:?} gives node {:?}, wanted {:?}; {}", nm, f, w, desc);
    // wrong lengths
    let wrong = if r.chance(0.5) { mov.len() + 1 + r.below(3) } else if mov.is_empty() { 1 } else { r.below(mov.len()) };
    let before = snaps(&t);
    let v: Vec<f64> = (0..wrong).map(|_| r.num()).collect();
    match c.set_joint_positions(&v) {
        Err(Error::SizeMismatchError { input, required }) => ck!(input == wrong && required == mov.len(), "size mismatch error {} {}; {}", input, required, desc),
        x => return Err(format!("{} positions for {} joints: {:?}; {}", wrong, mov.len(), x, desc)),
    }
    for (a, b) in before.iter().zip(snaps(&t).iter()) {
        if let Some(d) = a.diff(b, &[]) {
            return Err(format!("refused vector changed something: {}; {}", d, desc));
        }
    }
    // the right length
    let v: Vec<f64> = mov
        .iter()
        .map(|i| match &t.n[*i].joint().limits {
            Some(l) if r.chance(0.9) => l.min + (l.max - l.min) * r.unit(),
            _ => r.num(),
        })
        .collect();
    let res = c.set_joint_positions(&v);
    if res.is_ok() {
        for (k, &i) in mov.iter().enumerate() {
            if t.mimic[i].is_none() {
                ck!(oeq(pos(i), Some(v[k])), "entry {} is {:?} after setting {:?}; {}", k, pos(i), v, desc);
            }
        }
    } else if t.mimic.iter().all(|m| m.is_none()) {
        let legal = mov.iter().zip(v.iter()).all(|(i, x)| t.n[*i].joint().limits.as_ref().map(|l| l.min <= *x && *x <= l.max).unwrap_or(true));
        ck!(!legal, "{:?} for legal positions {:?}; {}", res, v, desc);
    }
    ck!(listed(&c), "joint_positions {:?} after a set; {}", c.joint_positions(), desc);
    for i in 0..t.n.len() {
        if !ix.contains(&i) && t.mimic[i].is_none() {
            if let Some(d) = before[i].diff(&snap(&t.n[i]), &[]) {
                return Err(format!("a joint outside the chain changed: {}; {}", d, desc));
            }
        }
    }
    for clamped in [true, false].iter() {
        let before = snaps(&t);
        let v: Vec<f64> = (0..mov.len()).map(|_| 2.0 * r.num()).collect();
        if *clamped {
            c.set_joint_positions_clamped(&v);
        } else {
            c.set_joint_positions_unchecked(&v);
        }
        for i in 0..t.n.len() {
            match mov.iter().rposition(|x| *x == i) {
                Some(k) => {
                    let w = match (&t.n[i].joint().limits, clamped) {
                        (Some(l), true) => v[k].max(l.min).min(l.max),
                        _ => v[k],
                    };
                    ck!(pos(i) == Some(w), "joint {} stands at {:?}, wanted {:?} (clamped: {}, vector {:?}); {}", i, pos(i), w, clamped, v, desc);
                    if let Some(d) = before[i].diff(&snap(&t.n[i]), &["position", "world_transform", "world_velocity"]) {
                        return Err(format!("something else changed: {}; {}", d, desc));
                    }
                }
                None => {
                    if let Some(d) = before[i].diff(&snap(&t.n[i]), &[]) {
                        return Err(format!("a node that is no movable joint of the chain changed (clamped: {}): {}; {}", clamped, d, desc));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c08(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { mimics: 0.3, limits: r.0 % 2 == 0, velocities: true, links: 0.4, ..Default::default() });
    let (c, ix, how) = match r.below(3) {
        0 => {
            let e = r.below(t.n.len());
            let c = Chain::from_end(&t.n[e]);
            let ix = c.iter().map(|x| index(&t, x).unwrap_or(usize::MAX)).collect::<Vec<_>>();
            (c, ix, "from_end")
        }
        1 => (Chain::from_nodes(t.n.clone()), (0..t.n.len()).collect(), "from_nodes"),
        _ => {
            let c = Chain::from_root(t.n[0].clone());
            let ix = c.iter().map(|x| index(&t, x).unwrap_or(usize::MAX)).collect::<Vec<_>>();
            (c, ix, "from_root")
        }
    };
    let desc = format!("chain {} {:?}\n{}", how, ix, t.desc);
    if r.chance(0.5) {
        c.update_transforms();
    }
    let before = snaps(&t);
    let serial = r.chance(0.2);
    let (d, c2);
    if serial {
        let s = SerialChain::new_unchecked(c);
        d = s.clone().unwrap();
        c2 = s.unwrap();
    } else {
        d = c.clone();
        c2 = c;
    }
    let c = c2;
    for (a, b) in before.iter().zip(snaps(&t).iter()) {
        if let Some(d) = a.diff(b, &[]) {
            return Err(format!("cloning changed the original: {}; {}", d, desc));
        }
    }
    let dn: Vec<Node<f64>> = d.iter().cloned().collect();
    ck!(dn.len() == ix.len(), "the copy has {} nodes; {}", dn.len(), desc);
    ck!(d.dof() == c.dof(), "the copy has dof {}; {}", d.dof(), desc);
    for (k, n) in dn.iter().enumerate() {
        ck!(index(&t, n).is_none(), "node {} is shared; {}", k, desc);
        ck!(dn[..k].iter().all(|m| m != n), "node {} appears twice; {}", k, desc);
        let s = snap(n);
        if let Some(d) = before[ix[k]].diff(&s, &["parent", "children", "mimic_parent", "world_transform", "world_velocity"]) {
            return Err(format!("node {} of the copy differs: {}; {}", k, d, desc));
        }
        let inside = |p: Option<usize>| p.and_then(|p| ix.iter().position(|x| *x == p));
        let at = |p: &Option<Node<f64>>| p.as_ref().map(|p| dn.iter().position(|x| x == p));
        ck!(at(&s.parent) == inside(t.parent[ix[k]]).map(Some), "parent of node {} of the copy is {:?}; {}", k, at(&s.parent), desc);
        ck!(at(&s.mimic_parent) == inside(t.mimic[ix[k]].map(|m| m.0)).map(Some), "mimic parent of node {} of the copy is {:?}; {}", k, at(&s.mimic_parent), desc);
        let ch: Vec<Option<usize>> = s.children.iter().map(|x| dn.iter().position(|y| y == x)).collect();
        let mut want: Vec<Option<usize>> = (0..ix.len()).filter(|j| t.parent[ix[*j]] == Some(ix[k])).map(Some).collect();
        let mut got = ch.clone();
        got.sort();
        want.sort();
        ck!(got == want, "children of node {} of the copy are {:?}; {}", k, ch, desc);
    }
    let joints: Vec<String> = d.iter_joints().map(|j| j.name.clone()).collect();
    let want: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
    ck!(joints == want, "movable joints of the copy {:?}, wanted {:?}; {}", joints, want, desc);
    // independence and the mimic rule
    let k = r.below(dn.len());
    let x = match &dn[k].joint().limits {
        Some(l) => l.min + (l.max - l.min) * r.unit(),
        None => r.num(),
    };
    let before = snaps(&t);
    let was_ok = dn[k].set_joint_position(x).is_ok();
    if was_ok && t.mimic[ix[k]].is_none() && dn[k].joint_position().is_some() {
        for (j, &i) in ix.iter().enumerate() {
            if let Some((p, m, o)) = t.mimic[i] {
                if p == ix[k] {
                    let got = dn[j].joint_position().unwrap_or(f64::NAN);
                    ck!(close(got, m * x + o, 1e-12), "follower {} in the copy stands at {}, wanted {}; {}", j, got, m * x + o, desc);
                }
            }
        }
    }
    for n in &dn {
        n.set_joint_position_unchecked(9.5);
        n.set_origin(rand_iso(r));
        n.set_link(None);
    }
    d.update_transforms();
    for (a, b) in before.iter().zip(snaps(&t).iter()) {
        if let Some(d) = a.diff(b, &[]) {
            return Err(format!("a change of the copy changed the original: {}; {}", d, desc));
        }
    }
    Ok(())
}

pub fn c09(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 9, velocities: true, ..Default::default() });
    let all = Chain::from_nodes(t.n.clone());
    let warm = r.chance(0.5);
    if warm {
        all.update_velocities();
        for n in &t.n {
            if r.chance(0.4) {
                n.set_joint_position_clamped(r.num());
            }
        }
        all.update_velocities();
    }
    let (c, ix, how) = if warm { some_chain(r, &t) } else {
        let c = Chain::from_root(t.n[0].clone());
        let ix = c.iter().map(|x| index(&t, x).unwrap_or(usize::MAX)).collect::<Vec<_>>();
        (c, ix, "from_root")
    };
    for i in ix.iter() {
        if r.chance(0.4) {
            t.n[*i].set_joint_position_clamped(r.num());
        }
    }
    stir(r, &t, &ix, true);
    let desc = format!("chain {} {:?}\n{}", how, ix, describe(&t));
    let ret = c.update_velocities();
    ck!(ret.len() == ix.len(), "{} velocities; {}", ret.len(), desc);
    for (k, &i) in ix.iter().enumerate() {
        let n = &t.n[i];
        let (pt, pl, pw) = match n.parent() {
            Some(p) => match (p.world_transform(), p.world_velocity()) {
                (Some(w), Some(v)) => (pose(&w).t, vec3(&v.translation), vec3(&v.rotation)),
                _ => return Err(format!("parent of {} has no cached values; {}", i, desc)),
            },
            None => ([0.0; 3], [0.0; 3], [0.0; 3]),
        };
        let w = world(&t, i);
        let got = match n.world_transform() {
            Some(x) => pose(&x),
            None => return Err(format!("node {} has no transform after update_velocities; {}", i, desc)),
        };
        ck!(pclose(&got, &w, 1e-7), "node {}: world transform {:?}, wanted {:?}; {}", i, got, w, desc);
        let qd = n.joint().joint_velocity().unwrap_or(0.0);
        let mut lin = add(&pl, &cross(&pw, &sub(&w.t, &pt)));
        let mut ang = pw;
        match &n.joint().joint_type {
            JointType::Fixed => {}
            JointType::Rotational { axis } => ang = add(&ang, &scale(&mv(&w.r, &vec3(axis)), qd)),
            JointType::Linear { axis } => lin = add(&lin, &scale(&mv(&w.r, &vec3(axis)), qd)),
        }
        let v = &ret[k];
        let sc = 1e-8 * (1.0 + norm(&lin) + norm(&ang));
        ck!(norm(&sub(&vec3(&v.translation), &lin)) <= sc && norm(&sub(&vec3(&v.rotation), &ang)) <= sc, "node {}: velocity {:?}, wanted {:?} {:?}; {}", i, v, lin, ang, desc);
        match n.world_velocity() {
            Some(s) => ck!(vec3(&s.translation) == vec3(&v.translation) && vec3(&s.rotation) == vec3(&v.rotation), "stored velocity of {} is {:?}, returned {:?}; {}", i, s, v, desc),
            None => return Err(format!("node {} has no velocity after update_velocities; {}", i, desc)),
        }
    }
    Ok(())
}

pub fn c10(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 9, links: 0.0, ..Default::default() });
    let e = r.below(t.n.len());
    let s = SerialChain::from_end(&t.n[e]);
    if r.chance(0.5) {
        s.update_transforms();
    }
    for n in s.iter() {
        n.set_joint_position_clamped(r.num());
    }
    if r.chance(0.3) {
        if let Some(p) = t.n[e].parent() {
            Chain::from_end(&p).update_transforms();
        }
    }
    let ix = path(&t, e);
    stir(r, &t, &ix, false);
    let desc = format!("arm to {}\n{}", e, describe(&t));
    let j = jacobian(&s);
    let mov: Vec<usize> = path(&t, e).into_iter().filter(|i| t.n[*i].joint_position().is_some()).collect();
    ck!(j.nrows() == 6 && j.ncols() == mov.len(), "jacobian is {} x {}; {}", j.nrows(), j.ncols(), desc);
    let pe = world(&t, e).t;
    for (c, &i) in mov.iter().enumerate() {
        let w = world(&t, i);
        let col: [f64; 6] = match &t.n[i].joint().joint_type {
            JointType::Rotational { axis } => {
                let a = mv(&w.r, &vec3(axis));
                let d = cross(&a, &sub(&pe, &w.t));
                [d[0], d[1], d[2], a[0], a[1], a[2]]
            }
            JointType::Linear { axis } => {
                let a = mv(&w.r, &vec3(axis));
                [a[0], a[1], a[2], 0.0, 0.0, 0.0]
            }
            JointType::Fixed => [0.0; 6],
        };
        for q in 0..6 {
            ck!((j[(q, c)] - col[q]).abs() <= 1e-8 * (1.0 + norm(&pe) + norm(&w.t)), "entry ({}, {}) is {}, wanted {}; {}", q, c, j[(q, c)], col[q], desc);
        }
    }
    Ok(())
}

pub fn c11(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { links: 0.6, ..Default::default() });
    let all = Chain::from_nodes(t.n.clone());
    all.update_transforms();
    all.update_link_transforms();
    let (c, ix, how) = some_chain(r, &t);
    for i in ix.iter() {
        if r.chance(0.5) {
            t.n[*i].set_joint_position_clamped(r.num());
        }
    }
    stir(r, &t, &ix, false);
    let desc = format!("chain {} {:?}\n{}", how, ix, describe(&t));
    let com = center_of_mass(&c);
    let (mut m, mut s) = (0.0, [0.0; 3]);
    for &i in ix.iter() {
        if let Some(l) = &*t.n[i].link() {
            m += l.inertial.mass;
        }
    }
    for &i in ix.iter() {
        let l = t.n[i].link().clone();
        if let Some(l) = l {
            let p = pm(&world(&t, i), &pose(l.inertial.origin())).t;
            s = add(&s, &scale(&p, l.inertial.mass));
        }
    }
    if m > 0.0 {
        let want = scale(&s, 1.0 / m);
        ck!(norm(&sub(&vec3(&com), &want)) <= 1e-7 * (1.0 + norm(&want)), "center of mass {:?}, wanted {:?}; {}", com, want, desc);
    }
    Ok(())
}

pub fn c12(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { links: 0.7, ..Default::default() });
    let all = Chain::from_nodes(t.n.clone());
    all.update_transforms();
    if r.chance(0.5) {
        all.update_link_transforms();
    }
    let (c, ix, how) = some_chain(r, &t);
    for i in ix.iter() {
        if r.chance(0.5) {
            t.n[*i].set_joint_position_clamped(r.num());
        }
    }
    stir(r, &t, &ix, false);
    let desc = format!("chain {} {:?}\n{}", how, ix, describe(&t));
    let before = snaps(&t);
    let strip = |l: &Link<f64>| {
        let mut l = l.clone();
        l.inertial.clear_world_transform();
        for v in l.visuals.iter_mut() {
            v.clear_world_transform();
        }
        for v in l.collisions.iter_mut() {
            v.clear_world_transform();
        }
        format!("{:?}", l)
    };
    let stripped: Vec<_> = t.n.iter().map(|n| n.link().as_ref().map(|l| strip(l))).collect();
    c.update_link_transforms();
    for i in 0..t.n.len() {
        let after = snap(&t.n[i]);
        if !ix.contains(&i) {
            if let Some(d) = before[i].diff(&after, &[]) {
                return Err(format!("a node outside the chain changed: {}; {}", d, desc));
            }
            continue;
        }
        if let Some(d) = before[i].diff(&after, &["link", "world_transform"]) {
            return Err(format!("update_link_transforms changed something else: {}; {}", d, desc));
        }
        let s = t.n[i].link().as_ref().map(|l| strip(l));
        ck!(s == stripped[i], "the link of node {} changed: {:?} -> {:?}; {}", i, stripped[i], s, desc);
        let w = world(&t, i);
        let own = t.n[i].world_transform().map(|x| pose(&x));
        if let Some(l) = t.n[i].link().as_ref() {
            let chk = |what: String, o: &Isometry3<f64>, x: &Option<Isometry3<f64>>| -> R {
                let want = pm(&w, &pose(o));
                match x {
                    Some(x) => {
                        ck!(pclose(&pose(x), &want, 1e-7), "{} of node {} is at {:?}, wanted {:?} (node at {:?}); {}", what, i, x, want, own, desc);
                        Ok(())
                    }
                    None => Err(format!("{} of node {} has no pose; {}", what, i, desc)),
                }
            };
            chk("inertial".into(), l.inertial.origin(), l.inertial.world_transform())?;
            for (k, v) in l.visuals.iter().enumerate() {
                chk(format!("visual {}", k), v.origin(), v.world_transform())?;
            }
            for (k, v) in l.collisions.iter().enumerate() {
                chk(format!("collision {}", k), v.origin(), v.world_transform())?;
            }
        }
    }
    Ok(())
}

pub fn c23(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { max: 7, serial: 0.4, links: 0.0, ..Default::default() });
    let (c, ix, how) = if r.chance(0.2) {
        let v: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(t.n.len())).collect();
        (Chain::from_nodes(v.iter().map(|i| t.n[*i].clone()).collect()), v, "list")
    } else {
        some_chain(r, &t)
    };
    let desc = format!("chain {} {:?}\n{}", how, ix, t.desc);
    let want = ix[..ix.len() - 1].iter().all(|i| (0..t.n.len()).filter(|j| t.parent[*j] == Some(*i)).count() == 1);
    let before = snaps(&t);
    match SerialChain::try_new(c) {
        Some(s) => {
            ck!(want, "a branching chain was accepted; {}", desc);
            let got: Vec<usize> = s.iter().map(|x| index(&t, x).unwrap_or(usize::MAX)).collect();
            ck!(got == ix, "the chain changed to {:?}; {}", got, desc);
            ck!(s.dof() == s.iter().filter(|n| n.joint_position().is_some()).count(), "dof; {}", desc);
            let inner = s.unwrap();
            let got: Vec<usize> = inner.iter().map(|x| index(&t, x).unwrap_or(usize::MAX)).collect();
            ck!(got == ix, "the chain changed to {:?}; {}", got, desc);
            if how.starts_with("from_root") {
                for k in 1..ix.len() {
                    let p = t.n[ix[k - 1]].children();
                    ck!(p.len() == 1 && p[0] == t.n[ix[k]], "node {} is not the only child of the one before; {}", k, desc);
                }
            }
        }
        None => ck!(!want, "a chain without branches was refused; {}", desc),
    }
    for (a, b) in before.iter().zip(snaps(&t).iter()) {
        if let Some(d) = a.diff(b, &[]) {
            return Err(format!("try_new changed something: {}; {}", d, desc));
        }
    }
    Ok(())
}

pub fn c24(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { mimics: 0.3, limits: r.0 % 2 == 0, velocities: true, links: 0.5, ..Default::default() });
    let all = Chain::from_nodes(t.n.clone());
    for i in 0..2 {
        all.update_transforms();
        all.update_velocities();
        let (c, ix, _) = some_chain(r, &t);
        for n in c.iter() {
            let _ = n.set_joint_position(r.num());
            n.set_joint_position_clamped(r.num());
            n.set_joint_position_unchecked(r.num());
            let _ = (n.joint_position(), n.parent(), n.is_root(), n.is_end(), n.origin(), n.world_transform(), n.world_velocity(), n.mimic_parent());
            let _ = n.children().len();
            let _ = n.link().is_some();
            let _ = format!("{}", n);
            let _ = (n.iter_ancestors().count(), n.iter_descendants().count());
        }
        all.update_transforms();
        all.update_velocities();
        c.update_transforms();
        c.update_velocities();
        c.update_link_transforms();
        let v: Vec<f64> = (0..c.dof()).map(|_| r.num()).collect();
        let _ = c.set_joint_positions(&v);
        c.set_joint_positions_clamped(&v);
        c.set_joint_positions_unchecked(&v);
        all.update_transforms();
        all.update_velocities();
        let _ = (c.joint_positions(), c.dof(), c.find("j1").is_some(), c.iter_links().count(), c.iter_joints().count());
        let _ = center_of_mass(&c);
        if !ix.is_empty() {
            let _ = format!("{}", c);
            let _ = c.origin();
            if i == 1 {
                c.set_origin(rand_iso(r));
            }
        }
        all.update_transforms();
        all.update_velocities();
        let whole = Chain::from_root(t.n[0].clone());
        let copy = whole.clone();
        copy.update_velocities();
        let e = r.below(t.n.len());
        let s = SerialChain::from_end(&t.n[e]);
        let _ = s.end_transform();
        let _ = jacobian(&s);
        let _ = s.clone();
        let _ = SerialChain::try_new(c).is_some();
        let b = r.below(t.n.len());
        let sub = SerialChain::from_end_to_root(&t.n[e], &t.n[b]);
        let _ = (jacobian(&sub), sub.end_transform());
    }
    // set_parent, remove_parent
    if t.n.len() > 1 {
        let last = &t.n[t.n.len() - 1];
        if let Some(p) = last.parent() {
            last.remove_parent(&p);
            last.set_parent(&p);
        }
    }
    Ok(())
}
