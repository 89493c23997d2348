//! C26: several threads in one tree
use crate::util::*;
use crate::{ck, R};
use k::joint::Mimic;
use k::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn c26(r: &mut Rng) -> R {
    if r.chance(0.4) {
        one_joint(r)
    } else {
        tree(r)
    }
}

/// many calls at once on any nodes: all return (a watchdog waits for them)
fn tree(r: &mut Rng) -> R {
    let t = gen_tree(r, &Opt { mimics: 0.5, limits: false, links: 0.5, fixed: 0.05, max: 6, ..Default::default() });
    let nodes = Arc::new(t.n.clone());
    let chain = Arc::new(Chain::from_nodes(t.n.clone()));
    let whole = Arc::new(Chain::from_root(t.n[0].clone()));
    let arm = Arc::new(SerialChain::from_end(&t.n[t.n.len() - 1]));
    let last = t.n.len() - 1;
    let up = t.n[last].parent();
    let few = r.chance(0.5);
    let kinds: Vec<usize> = (0..3).map(|_| r.below(OPS)).collect();
    let hs: Vec<_> = (0..4u64)
        .map(|k| {
            let (nodes, chain, whole, arm, up) = (nodes.clone(), chain.clone(), whole.clone(), arm.clone(), up.clone());
            let mut r = Rng::new(r.u64(), k);
            let kinds = kinds.clone();
            std::thread::spawn(move || {
                for _ in 0..120 {
                    let op = if few { kinds[r.below(3)] } else { r.below(OPS) };
                    let a = &nodes[r.below(nodes.len())];
                    let b = &nodes[r.below(nodes.len())];
                    let x = r.num();
                    // a cache that another thread clears makes an update stop: not the concern here
                    let _ = catch_unwind(AssertUnwindSafe(|| one(op, k, a, b, x, &chain, &whole, &arm, &up, &nodes[last])));
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    Ok(())
}

const OPS: usize = 20;

#[allow(clippy::too_many_arguments)]
fn one(op: usize, k: u64, a: &Node<f64>, b: &Node<f64>, x: f64, chain: &Chain<f64>, whole: &Chain<f64>, arm: &SerialChain<f64>, up: &Option<Node<f64>>, last: &Node<f64>) {
    match op {
        0 | 1 => {
            let _ = a.set_joint_position(x);
        }
        2 => a.set_joint_position_clamped(x),
        3 => {
            let n = chain.dof();
            let _ = chain.set_joint_positions(&vec![x; n]);
        }
        4 => {
            let n = whole.dof();
            whole.set_joint_positions_clamped(&vec![x; n]);
        }
        5 => {
            let _ = chain.joint_positions();
        }
        6 => {
            chain.update_transforms();
        }
        7 => {
            chain.update_velocities();
        }
        8 => chain.update_link_transforms(),
        9 => {
            let _ = format!("{}", whole);
        }
        10 => {
            let _ = format!("{}", a);
        }
        11 => {
            let _ = (a.parent().is_some(), a.is_root(), a.is_end(), a.mimic_parent().is_some(), a.origin(), a.world_transform(), a.joint_position());
        }
        12 => {
            if !same(a, b) {
                a.set_mimic_parent(b, Mimic::new(1.0, x));
            }
        }
        13 => {
            let _ = whole.clone();
        }
        14 => {
            let _ = (a.iter_ancestors().count(), a.iter_descendants().count());
        }
        15 => {
            let _ = arm.end_transform();
            let _ = jacobian(arm);
        }
        16 => {
            let _ = chain.iter_links().map(|l| l.name.len()).sum::<usize>();
            let _ = chain.iter_joints().map(|j| j.name.len()).sum::<usize>();
            let _ = chain.find("j1").is_some();
        }
        17 => {
            let _ = Chain::from_end_to_root(a, b).dof();
            let _ = center_of_mass(chain);
        }
        18 => a.set_link(if x > 0.0 { None } else { Some(k::link::LinkBuilder::new().name("l").finalize()) }),
        _ => {
            // one thread takes the last node off and puts it back
            if let (0, Some(p)) = (k, up) {
                last.remove_parent(p);
                last.set_parent(p);
            }
        }
    }
}

fn same(a: &Node<f64>, b: &Node<f64>) -> bool {
    a == b
}

/// what is read stood there between two calls that write, and a follower ends where its joint does
fn one_joint(r: &mut Rng) -> R {
    let mk = |n: &str| {
        let mut j = Joint::new(n, JointType::Linear { axis: nalgebra::Vector3::x_axis() });
        j.set_origin(nalgebra::Isometry3::identity());
        Node::new(j)
    };
    let (a, b, c) = (mk("a"), mk("b"), mk("c"));
    b.set_parent(&a);
    c.set_parent(&b);
    let (m1, m2) = (r.num(), r.num());
    let follow = r.chance(0.5);
    let rule = |m: f64| Mimic::new(m, 0.5);
    if !follow {
        b.set_mimic_parent(&a, rule(m1));
        c.set_mimic_parent(&a, rule(m2));
    }
    let chain = Arc::new(Chain::from_root(a.clone()));
    let hs: Vec<_> = (0..4u64)
        .map(|k| {
            let (a, b, c, chain) = (a.clone(), b.clone(), c.clone(), chain.clone());
            let mut r = Rng::new(r.u64(), k);
            std::thread::spawn(move || -> R {
                for q in 0..150 {
                    if follow && k == 0 && q == 75 {
                        b.set_mimic_parent(&a, Mimic::new(m1, 0.5));
                        c.set_mimic_parent(&a, Mimic::new(m2, 0.5));
                    }
                    let v = r.range(-3.0, 3.0);
                    ck!(a.set_joint_position(v).is_ok(), "setting a free joint fails while another thread makes followers");
                    if k == 1 {
                        a.set_origin(nalgebra::Isometry3::from_parts(nalgebra::Translation3::new(v, v, v), nalgebra::UnitQuaternion::from_euler_angles(0.0, 0.0, v / 3.0)));
                        c.set_link(if v > 0.0 { Some(k::link::LinkBuilder::new().name("l").finalize()) } else { None });
                    }
                    if k == 2 {
                        let w = a.origin();
                        let o = w.translation.vector;
                        ck!(o.x == o.y && o.y == o.z && (w.rotation.euler_angles().2 - o.x / 3.0).abs() < 1e-9, "half an origin was read: {:?}", w);
                        let n: usize = chain.iter_links().map(|l| l.name.len()).sum();
                        ck!(n <= 1, "a link was read that is not there");
                    }
                }
                Ok(())
            })
        })
        .collect();
    let mut out = Ok(());
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(e) => out = e,
            Err(_) => out = Err("a call panicked while others were running".to_string()),
        }
    }
    out?;
    if !follow {
        let p = a.joint_position().unwrap();
        for (n, m) in &[(&b, m1), (&c, m2)] {
            let want = rule(*m).mimic_position(p);
            let got = n.joint_position().unwrap();
            ck!(got == want, "all calls have returned, the joint is at {} but its follower at {} instead of {}", p, got, want);
        }
    }
    Ok(())
}
