use crate::util::*;
use crate::{ck, R};
use k::joint::Mimic;
use k::link::*;
use k::*;

fn p3(r: &mut Rng) -> [f64; 3] {
    [r.num(), r.num(), r.num()]
}
fn upose(r: &mut Rng) -> urdf_rs::Pose {
    if r.chance(0.2) {
        return Default::default();
    }
    urdf_rs::Pose { xyz: p3(r), rpy: p3(r) }
}
fn opt<T>(r: &mut Rng, x: T) -> Option<T> {
    if r.chance(0.7) {
        Some(x)
    } else {
        None
    }
}
fn ugeom(r: &mut Rng) -> urdf_rs::Geometry {
    match r.below(5) {
        0 => urdf_rs::Geometry::Box { size: p3(r) },
        1 => urdf_rs::Geometry::Cylinder { radius: r.num(), length: r.num() },
        2 => urdf_rs::Geometry::Capsule { radius: r.num(), length: r.num() },
        3 => urdf_rs::Geometry::Sphere { radius: r.num() },
        _ => {
            let s = p3(r);
            urdf_rs::Geometry::Mesh { filename: format!("m{}.stl", r.below(20)), scale: opt(r, s) }
        }
    }
}
fn umat(r: &mut Rng) -> urdf_rs::Material {
    let c = urdf_rs::Color { rgba: [r.unit(), r.unit(), r.unit(), r.unit()] };
    let t = urdf_rs::Texture { filename: format!("t{}", r.below(9)) };
    urdf_rs::Material { name: format!("mat{}", r.below(9)), color: opt(r, c), texture: opt(r, t) }
}
fn ulink(r: &mut Rng, name: &str) -> urdf_rs::Link {
    let mut l = urdf_rs::Link {
        name: name.to_string(),
        inertial: urdf_rs::Inertial {
            origin: upose(r),
            mass: urdf_rs::Mass { value: r.range(0.0, 9.0) },
            inertia: urdf_rs::Inertia { ixx: r.num(), ixy: r.num(), ixz: r.num(), iyy: r.num(), iyz: r.num(), izz: r.num() },
        },
        visual: vec![],
        collision: vec![],
    };
    for i in 0..r.below(4) {
        let n = format!("v{}", i);
        let m = umat(r);
        let v = urdf_rs::Visual { name: opt(r, n), origin: upose(r), geometry: ugeom(r), material: opt(r, m) };
        l.visual.push(v);
    }
    for i in 0..r.below(4) {
        let n = format!("c{}", i);
        let v = urdf_rs::Collision { name: opt(r, n), origin: upose(r), geometry: ugeom(r) };
        l.collision.push(v);
    }
    l
}
fn ujoint(r: &mut Rng, name: &str, parent: &str, child: &str) -> urdf_rs::Joint {
    use urdf_rs::JointType::*;
    let t = match r.below(9) {
        0 | 1 => Revolute,
        2 => Continuous,
        3 | 4 => Prismatic,
        5 => Fixed,
        6 => Floating,
        7 => Planar,
        _ => Spherical,
    };
    let (a, b) = match r.below(4) {
        0 => (0.0, 0.0),
        1 => {
            let x = r.num();
            (x, x)
        }
        _ => (r.range(-3.0, 0.5), r.range(0.5, 3.0)),
    };
    let mut ax = p3(r);
    if norm(&ax) < 0.1 {
        ax = [0.0, 0.0, 2.0];
    }
    let mut axis = urdf_rs::Axis::default();
    if r.chance(0.8) {
        axis.xyz = ax;
    }
    urdf_rs::Joint {
        name: name.to_string(),
        joint_type: t,
        origin: upose(r),
        parent: urdf_rs::LinkName { link: parent.to_string() },
        child: urdf_rs::LinkName { link: child.to_string() },
        axis,
        limit: urdf_rs::JointLimit { lower: a, upper: b, effort: r.num(), velocity: r.num() },
        dynamics: None,
        mimic: None,
        safety_controller: None,
    }
}

fn check_origin(i: &Isometry3<f64>, p: &urdf_rs::Pose) -> bool {
    pclose(&pose(i), &Pose { r: euler(&p.rpy), t: p.xyz }, 1e-9)
}

fn check_joint(j: &Joint<f64>, u: &urdf_rs::Joint) -> R {
    let desc = format!("{:?} from {:?}", j, u);
    ck!(j.name == u.name, "name: {}", desc);
    let axis_ok = |a: &Vector3<f64>| {
        let n = norm(&u.axis.xyz);
        vclose(&vec3(a), &scale(&u.axis.xyz, 1.0 / n), 1e-9)
    };
    let ok = match (&u.joint_type, &j.joint_type) {
        (urdf_rs::JointType::Revolute, JointType::Rotational { axis }) => axis_ok(axis),
        (urdf_rs::JointType::Continuous, JointType::Rotational { axis }) => axis_ok(axis),
        (urdf_rs::JointType::Prismatic, JointType::Linear { axis }) => axis_ok(axis),
        (urdf_rs::JointType::Revolute, _) | (urdf_rs::JointType::Continuous, _) | (urdf_rs::JointType::Prismatic, _) => false,
        (_, JointType::Fixed) => true,
        _ => false,
    };
    ck!(ok, "joint type: {}", desc);
    match &j.limits {
        None => ck!(u.limit.lower == u.limit.upper, "limits: {}", desc),
        Some(l) => ck!(u.limit.lower != u.limit.upper && l.min == u.limit.lower && l.max == u.limit.upper, "limits: {}", desc),
    }
    ck!(check_origin(j.origin(), &u.origin), "origin: {}", desc);
    ck!(j.joint_position().unwrap_or(0.0) == 0.0 && j.joint_velocity().unwrap_or(0.0) == 0.0, "position: {}", desc);
    Ok(())
}

fn geom_ok(g: &Geometry<f64>, u: &urdf_rs::Geometry) -> bool {
    match (g, u) {
        (Geometry::Box { depth, width, height }, urdf_rs::Geometry::Box { size }) => *depth == size[0] && *width == size[1] && *height == size[2],
        (Geometry::Cylinder { radius, length }, urdf_rs::Geometry::Cylinder { radius: r, length: l }) => radius == r && length == l,
        (Geometry::Capsule { radius, length }, urdf_rs::Geometry::Capsule { radius: r, length: l }) => radius == r && length == l,
        (Geometry::Sphere { radius }, urdf_rs::Geometry::Sphere { radius: r }) => radius == r,
        (Geometry::Mesh { filename, scale }, urdf_rs::Geometry::Mesh { filename: f, scale: s }) => filename == f && vec3(scale) == s.unwrap_or([1.0; 3]),
        _ => false,
    }
}
fn mat_ok(m: &Material<f64>, u: &Option<urdf_rs::Material>) -> bool {
    let d = Default::default();
    let u = u.as_ref().unwrap_or(&d);
    let c = u.color.clone().unwrap_or_default().rgba;
    let t = u.texture.clone().map(|t| t.filename).unwrap_or_default();
    m.name == u.name && [m.color.r, m.color.g, m.color.b, m.color.a] == c && m.texture.filename == t
}
fn check_link(l: &Link<f64>, u: &urdf_rs::Link) -> R {
    let desc = format!("{:?}\nfrom {:?}", l, u);
    ck!(l.name == u.name, "link name: {}", desc);
    ck!(l.inertial.mass == u.inertial.mass.value, "mass: {}", desc);
    let i = &u.inertial.inertia;
    let want = [[i.ixx, i.ixy, i.ixz], [i.ixy, i.iyy, i.iyz], [i.ixz, i.iyz, i.izz]];
    for a in 0..3 {
        for b in 0..3 {
            ck!(l.inertial.inertia[(a, b)] == want[a][b], "inertia: {}", desc);
        }
    }
    ck!(check_origin(l.inertial.origin(), &u.inertial.origin), "inertial origin: {}", desc);
    ck!(l.inertial.world_transform().is_none(), "cached pose: {}", desc);
    ck!(l.visuals.len() == u.visual.len() && l.collisions.len() == u.collision.len(), "number of elements: {}", desc);
    for (v, w) in l.visuals.iter().zip(u.visual.iter()) {
        ck!(v.name == w.name.clone().unwrap_or_default() && check_origin(v.origin(), &w.origin) && geom_ok(&v.geometry, &w.geometry) && mat_ok(&v.material, &w.material), "visual {:?}: {}", v, desc);
    }
    for (v, w) in l.collisions.iter().zip(u.collision.iter()) {
        ck!(v.name == w.name.clone().unwrap_or_default() && check_origin(v.origin(), &w.origin) && geom_ok(&v.geometry, &w.geometry), "collision {:?}: {}", v, desc);
    }
    Ok(())
}

pub fn c18(r: &mut Rng) -> R {
    let u = ujoint(r, "joint a", "p", "c");
    check_joint(&Joint::from(&u), &u)?;
    let f = Joint::<f32>::from(&u);
    ck!(f.name == u.name && f.limits.as_ref().map(|l| (l.min, l.max)) == (if u.limit.lower == u.limit.upper { None } else { Some((u.limit.lower as f32, u.limit.upper as f32)) }), "f32 joint {:?} from {:?}", f, u);
    let l = ulink(r, "link a");
    check_link(&Link::from(l.clone()), &l)?;
    let m = urdf_rs::Mimic { joint: "x".into(), multiplier: { let x = r.num(); opt(r, x) }, offset: { let x = r.num(); opt(r, x) } };
    let g = Mimic::<f64>::from(&m);
    ck!(g.multiplier == m.multiplier.unwrap_or(1.0) && g.origin == m.offset.unwrap_or(0.0), "mimic {:?} from {:?}", g, m);
    let p = upose(r);
    let i: Isometry3<f64> = k::urdf::isometry_from(&p);
    ck!(check_origin(&i, &p), "isometry {:?} from {:?}", i, p);
    Ok(())
}

struct Rob {
    u: urdf_rs::Robot,
    base: String,
}

fn robot(r: &mut Rng) -> Rob {
    let n = 1 + r.below(8);
    let mut names: Vec<String> = (0..n).map(|i| format!("link{}", i)).collect();
    let mut jn: Vec<String> = (0..n).map(|i| format!("joint{}", i)).collect();
    if r.chance(0.3) {
        // links and joints may share names
        jn = (0..n).map(|i| if i % 2 == 0 { format!("link{}", (i + 1) % n) } else { format!("joint{}", i) }).collect();
    }
    if r.chance(0.2) {
        names[0] = "root".to_string();
    }
    if r.chance(0.2) {
        jn[n - 1] = "root".to_string();
    }
    if r.chance(0.2) {
        let k = r.below(ODD.len());
        for i in 1..n {
            names[i] = ODD[(i + k) % ODD.len()].to_string();
        }
    }
    if r.chance(0.2) {
        let k = r.below(ODD.len());
        for i in 1..n {
            jn[i] = ODD[(i + k) % ODD.len()].to_string();
        }
    }
    let mut joints = vec![];
    for i in 1..n {
        let p = r.below(i);
        joints.push(ujoint(r, &jn[i], &names[p], &names[i]));
    }
    let cnt = joints.len();
    for i in 0..cnt {
        if cnt > 1 && r.chance(0.3) {
            let k = r.below(cnt);
            if k != i {
                let (a, b) = (r.num(), r.num());
                joints[i].mimic = Some(urdf_rs::Mimic { joint: joints[k].name.clone(), multiplier: opt(r, a), offset: opt(r, b) });
            }
        }
    }
    let mut links: Vec<urdf_rs::Link> = names.iter().map(|s| ulink(r, s)).collect();
    for i in (1..joints.len()).rev() {
        let k = r.below(i + 1);
        joints.swap(i, k);
    }
    for i in (1..links.len()).rev() {
        let k = r.below(i + 1);
        links.swap(i, k);
    }
    Rob { u: urdf_rs::Robot { name: "rob".into(), links, joints, materials: vec![] }, base: names[0].clone() }
}

pub fn c19(r: &mut Rng) -> R {
    let rob = robot(r);
    let u = &rob.u;
    let short: Vec<String> = u.joints.iter().map(|j| format!("{}: {} -> {} mimic {:?}", j.name, j.parent.link, j.child.link, j.mimic)).collect();
    let desc = format!("links {:?} joints {:?}", u.links.iter().map(|l| l.name.clone()).collect::<Vec<_>>(), short);
    let c: Chain<f64> = if r.chance(0.5) { Chain::from(u) } else { Chain::from(u.clone()) };
    let nodes: Vec<Node<f64>> = c.iter().cloned().collect();
    ck!(nodes.len() == u.joints.len() + 1, "{} nodes; {}", nodes.len(), desc);
    let root = &nodes[0];
    ck!(root.joint().name == "root" && root.parent().is_none(), "first node is {:?}; {}", root.joint().name, desc);
    let by = |n: &str| nodes.iter().skip(1).filter(|x| x.joint().name == n).collect::<Vec<_>>();
    let link = |n: &Node<f64>| n.link().clone();
    match link(root) {
        Some(l) => check_link(&l, u.links.iter().find(|l| l.name == rob.base).ok_or("base")?)?,
        None => return Err(format!("the root node has no link; {}", desc)),
    }
    for j in &u.joints {
        let v = by(&j.name);
        ck!(v.len() == 1, "{} nodes for joint {}; {}", v.len(), j.name, desc);
        let n = v[0];
        check_joint(&n.joint(), j)?;
        match link(n) {
            Some(l) => check_link(&l, u.links.iter().find(|l| l.name == j.child.link).ok_or("link")?)?,
            None => return Err(format!("joint {} has no link; {}", j.name, desc)),
        }
        let want = match u.joints.iter().find(|k| k.child.link == j.parent.link) {
            Some(k) => by(&k.name)[0].clone(),
            None => root.clone(),
        };
        let p = n.parent();
        ck!(p == Some(want.clone()), "parent of {} is {:?}; {}", j.name, p.map(|p| p.joint().name.clone()), desc);
        ck!(want.children().iter().filter(|x| *x == n).count() == 1, "{} is not exactly once a child of its parent; {}", j.name, desc);
        let m = n.mimic_parent();
        let want = j.mimic.as_ref().map(|m| by(&m.joint)[0].clone());
        ck!(m == want, "mimic parent of {} is {:?}; {}", j.name, m.map(|p| p.joint().name.clone()), desc);
    }
    ck!(root.mimic_parent().is_none(), "the root mimics; {}", desc);
    // the rule
    for j in &u.joints {
        if let Some(m) = &j.mimic {
            let p = by(&m.joint)[0];
            let f = by(&j.name)[0];
            if p.mimic_parent().is_none() && p.joint_position().is_some() && f.joint_position().is_some() {
                let x = match &p.joint().limits {
                    Some(l) => l.min + (l.max - l.min) * r.unit(),
                    None => r.num(),
                };
                if p.set_joint_position(x).is_ok() {
                    let want = x * m.multiplier.unwrap_or(1.0) + m.offset.unwrap_or(0.0);
                    ck!(close(f.joint_position().unwrap_or(f64::NAN), want, 1e-12), "follower {} stands at {:?}, wanted {}; {}", j.name, f.joint_position(), want, desc);
                }
            }
        }
    }
    Ok(())
}

pub fn c20(r: &mut Rng) -> R {
    let mut rob = robot(r);
    if r.chance(0.2) && !rob.u.joints.is_empty() {
        // a robot in pieces: more than one link is no joint's child
        let k = r.below(rob.u.joints.len());
        rob.u.joints.remove(k);
    }
    let u = &rob.u;
    let short: Vec<String> = u.joints.iter().map(|j| format!("{}: {} -> {}", j.name, j.parent.link, j.child.link)).collect();
    let desc = format!("links {:?} joints {:?}", u.links.iter().map(|l| l.name.clone()).collect::<Vec<_>>(), short);
    if u.joints.iter().any(|j| j.name == "root") {
        return Ok(());
    }
    let m = k::urdf::link_to_joint_map(u);
    ck!(m.len() == u.links.len(), "link_to_joint_map has {} entries; {}", m.len(), desc);
    for l in &u.links {
        let want = u.joints.iter().find(|j| j.child.link == l.name).map(|j| j.name.as_str()).unwrap_or("root");
        ck!(m.get(&l.name).map(|s| s.as_str()) == Some(want), "link {} goes to {:?}, wanted {}; {}", l.name, m.get(&l.name), want, desc);
    }
    let m = k::urdf::joint_to_link_map(u);
    let roots: Vec<&str> = u.links.iter().map(|l| l.name.as_str()).filter(|l| u.joints.iter().all(|j| j.child.link != *l)).collect();
    ck!(m.len() == u.joints.len() + if roots.is_empty() { 0 } else { 1 }, "joint_to_link_map has {} entries; {}", m.len(), desc);
    for j in &u.joints {
        ck!(m.get(&j.name) == Some(&j.child.link), "joint {} goes to {:?}; {}", j.name, m.get(&j.name), desc);
    }
    if !roots.is_empty() {
        let g = m.get("root").map(|s| s.as_str());
        ck!(g.map(|g| roots.contains(&g)).unwrap_or(false), "the root joint goes to {:?}, wanted one of {:?}; {}", g, roots, desc);
    }
    Ok(())
}
