//! Random numbers, plain 3x3 geometry (independent of nalgebra) and tree generation.
use k::joint::{Mimic, Range};
use k::link::*;
use k::*;
use std::fmt::Write;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, trial: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ trial.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// a number as a user might give it: round values are frequent
    pub fn num(&mut self) -> f64 {
        match self.below(40) {
            0 => return self.range(-1.0, 1.0) * 10f64.powi(-(self.below(9) as i32)),
            1 => {
                let x = lits(self);
                return if x.abs() < 100.0 { x } else { 10.0 };
            }
            2 => return self.range(-20.0, 20.0),
            _ => {}
        }
        match self.below(8) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 0.5 * (self.below(9) as f64 - 4.0),
            4 => [std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2, 2.0 * std::f64::consts::PI][self.below(5)],
            _ => self.range(-3.0, 3.0),
        }
    }
    pub fn wild(&mut self) -> f64 {
        match self.below(16) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => -0.0,
            4 => f64::MAX,
            5 => f64::MIN_POSITIVE,
            6 => -f64::MIN_POSITIVE,
            7 => f64::EPSILON,
            8 => self.range(-10.0, 10.0) * 10f64.powi(self.below(30) as i32 - 15),
            9 => lits(self),
            _ => self.num(),
        }
    }
}

pub static mut LITS: Vec<f64> = Vec::new();
#[allow(static_mut_refs)]
fn lits(r: &mut Rng) -> f64 {
    // constants of the code under test, set once before any thread starts
    let n = unsafe { LITS.len() };
    if n == 0 {
        return 0.25;
    }
    let x = unsafe { LITS[r.below(n)] };
    match r.below(4) {
        0 => -x,
        1 => x + 1.0,
        _ => x,
    }
}

pub type V = [f64; 3];
pub type M = [[f64; 3]; 3];
#[derive(Clone, Copy, Debug)]
pub struct Pose {
    pub r: M,
    pub t: V,
}
pub const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub fn pid() -> Pose {
    Pose { r: ID, t: [0.0; 3] }
}
pub fn mm(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
pub fn mv(a: &M, v: &V) -> V {
    [0usize, 1, 2].map(|i| a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2])
}
pub fn mt(a: &M) -> M {
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: &V) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
pub fn rodrigues(ax: &V, th: f64) -> M {
    let (s, c) = (th.sin(), th.cos());
    let k = [[0.0, -ax[2], ax[1]], [ax[2], 0.0, -ax[0]], [-ax[1], ax[0], 0.0]];
    let k2 = mm(&k, &k);
    let mut r = ID;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] += s * k[i][j] + (1.0 - c) * k2[i][j];
        }
    }
    r
}
pub fn euler(rpy: &V) -> M {
    let x = rodrigues(&[1.0, 0.0, 0.0], rpy[0]);
    let y = rodrigues(&[0.0, 1.0, 0.0], rpy[1]);
    let z = rodrigues(&[0.0, 0.0, 1.0], rpy[2]);
    mm(&z, &mm(&y, &x))
}
pub fn qmat(q: &UnitQuaternion<f64>) -> M {
    let (w, x, y, z) = (q.w, q.i, q.j, q.k);
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
pub fn pose(i: &Isometry3<f64>) -> Pose {
    let v = i.translation.vector;
    Pose { r: qmat(&i.rotation), t: [v[0], v[1], v[2]] }
}
pub fn pm(a: &Pose, b: &Pose) -> Pose {
    Pose { r: mm(&a.r, &b.r), t: add(&a.t, &mv(&a.r, &b.t)) }
}
/// rotation vector of a rotation matrix
pub fn log(r: &M) -> V {
    let w = [0.5 * (r[2][1] - r[1][2]), 0.5 * (r[0][2] - r[2][0]), 0.5 * (r[1][0] - r[0][1])];
    let s = norm(&w);
    let c = 0.5 * (r[0][0] + r[1][1] + r[2][2] - 1.0);
    let th = s.atan2(c);
    if s > 1e-9 {
        scale(&w, th / s)
    } else if c > 0.0 {
        w
    } else {
        [f64::NAN; 3]
    }
}
pub fn vclose(a: &V, b: &V, tol: f64) -> bool {
    (0..3).all(|i| close(a[i], b[i], tol))
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn pclose(a: &Pose, b: &Pose, tol: f64) -> bool {
    let n = 1.0 + norm(&a.t) + norm(&b.t);
    (0..3).all(|i| (a.t[i] - b.t[i]).abs() <= tol * n) && (0..3).all(|i| (0..3).all(|j| (a.r[i][j] - b.r[i][j]).abs() <= tol))
}
pub fn vec3(v: &Vector3<f64>) -> V {
    [v[0], v[1], v[2]]
}
/// same bits, or both not-a-number
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_iso(a: &Isometry3<f64>, b: &Isometry3<f64>) -> bool {
    let (x, y) = (a.translation.vector, b.translation.vector);
    let (p, q) = (a.rotation.coords, b.rotation.coords);
    (0..3).all(|i| same(x[i], y[i])) && (0..4).all(|i| same(p[i], q[i]))
}
pub fn same_oiso(a: &Option<Isometry3<f64>>, b: &Option<Isometry3<f64>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_iso(a, b),
        (None, None) => true,
        _ => false,
    }
}

pub fn rand_iso(r: &mut Rng) -> Isometry3<f64> {
    let t = Translation3::new(r.num(), r.num(), r.num());
    let q = match r.below(4) {
        0 => UnitQuaternion::identity(),
        _ => UnitQuaternion::from_euler_angles(r.num(), r.num(), r.num()),
    };
    Isometry3::from_parts(t, q)
}
pub fn rand_axis(r: &mut Rng) -> nalgebra::Unit<Vector3<f64>> {
    match r.below(6) {
        0 => Vector3::x_axis(),
        1 => Vector3::y_axis(),
        2 => Vector3::z_axis(),
        3 => -Vector3::y_axis(),
        _ => nalgebra::Unit::new_normalize(Vector3::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(0.1, 1.0))),
    }
}
pub fn rand_type(r: &mut Rng, fixed: f64) -> JointType<f64> {
    if r.chance(fixed) {
        JointType::Fixed
    } else if r.chance(0.6) {
        JointType::Rotational { axis: rand_axis(r) }
    } else {
        JointType::Linear { axis: rand_axis(r) }
    }
}
pub fn rand_limits(r: &mut Rng) -> Option<Range<f64>> {
    match r.below(5) {
        0 | 1 => None,
        2 => {
            let a = r.num();
            Some(Range { min: a, max: a + if r.chance(0.2) { 0.0 } else { r.range(0.0, 4.0) } })
        }
        _ => Some(Range { min: r.range(-4.0, 0.0), max: r.range(0.0, 4.0) }),
    }
}
pub fn rand_inertial(r: &mut Rng) -> Inertial<f64> {
    let m = nalgebra::Matrix3::new(r.num(), r.num(), r.num(), r.num(), r.num(), r.num(), r.num(), r.num(), r.num());
    Inertial::new(rand_iso(r), r.range(0.1, 5.0), m)
}
pub fn rand_geometry(r: &mut Rng) -> Geometry<f64> {
    match r.below(5) {
        0 => Geometry::Box { depth: r.num(), width: r.num(), height: r.num() },
        1 => Geometry::Cylinder { radius: r.num(), length: r.num() },
        2 => Geometry::Capsule { radius: r.num(), length: r.num() },
        3 => Geometry::Sphere { radius: r.num() },
        _ => Geometry::Mesh { filename: format!("f{}", r.below(9)), scale: Vector3::new(r.num(), r.num(), r.num()) },
    }
}
pub fn rand_material(r: &mut Rng) -> Material<f64> {
    Material { name: format!("m{}", r.below(9)), color: Color { r: r.num(), g: r.num(), b: r.num(), a: r.num() }, texture: Texture { filename: format!("t{}", r.below(9)) } }
}
/// names that are easily taken for one another
pub const ODD: [&str; 14] = ["", " ", "j1", "j1 ", " j1", "J1", "j01", "j10", "j1_", "Root", "root_", "\u{e9}t\u{e9}", "a/b", "j"];
pub fn some_name(r: &mut Rng, plain: String) -> String {
    if r.chance(0.12) {
        ODD[r.below(ODD.len())].to_string()
    } else {
        plain
    }
}
pub fn rand_visual(r: &mut Rng) -> Visual<f64> {
    let n = format!("v{}", r.below(99));
    Visual::new(some_name(r, n), rand_iso(r), rand_geometry(r), rand_material(r))
}
pub fn rand_collision(r: &mut Rng) -> Collision<f64> {
    let n = format!("c{}", r.below(99));
    Collision::new(some_name(r, n), rand_iso(r), rand_geometry(r))
}
pub fn rand_link(r: &mut Rng) -> Link<f64> {
    let n = format!("l{}", r.below(99));
    let mut l = Link { name: some_name(r, n), inertial: rand_inertial(r), visuals: vec![], collisions: vec![] };
    for _ in 0..r.below(4) {
        l.visuals.push(rand_visual(r));
    }
    for _ in 0..r.below(4) {
        l.collisions.push(rand_collision(r));
    }
    l
}

pub struct Tree {
    pub n: Vec<Node<f64>>,
    pub parent: Vec<Option<usize>>,
    pub mimic: Vec<Option<(usize, f64, f64)>>,
    pub desc: String,
}

pub struct Opt {
    pub max: usize,
    pub fixed: f64,
    pub serial: f64,
    pub links: f64,
    pub mimics: f64,
    pub limits: bool,
    pub velocities: bool,
    pub dup_names: bool,
    pub unique: bool,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { max: 10, fixed: 0.25, serial: 0.3, links: 0.4, mimics: 0.0, limits: false, velocities: false, dup_names: false, unique: false }
    }
}

pub fn gen_tree(r: &mut Rng, o: &Opt) -> Tree {
    let big = o.max >= 9 && r.chance(0.02);
    let cnt = 1 + r.below(if big { o.max * 4 } else { o.max });
    let odd = if r.chance(0.2) { Some(r.below(ODD.len())) } else { None };
    let serial = r.chance(o.serial);
    // names may be used twice
    let dup = o.dup_names || !o.unique && r.chance(0.12);
    let mut t = Tree { n: vec![], parent: vec![], mimic: vec![], desc: String::new() };
    for i in 0..cnt {
        let jt = rand_type(r, o.fixed);
        let name = if dup && r.chance(0.5) { format!("j{}", r.below(4)) } else {
            match odd {
                Some(k) if i < ODD.len() => ODD[(i + k) % ODD.len()].to_string(),
                Some(_) => format!("odd{}", i),
                None => format!("j{}", i),
            }
        };
        let mut j = Joint::new(&name, jt);
        j.set_origin(rand_iso(r));
        let p = r.num();
        if o.limits {
            j.limits = rand_limits(r);
        }
        if r.chance(0.8) {
            let p = match &j.limits {
                Some(l) => l.min + (l.max - l.min) * r.unit(),
                None => p,
            };
            j.set_joint_position_unchecked(p);
        }
        let v = r.num();
        if o.velocities {
            let _ = j.set_joint_velocity(v);
        }
        let node = Node::new(j);
        if r.chance(o.links) {
            node.set_link(Some(rand_link(r)));
        }
        let p = if i == 0 {
            None
        } else if serial {
            Some(i - 1)
        } else {
            Some(if r.chance(0.5) { i - 1 } else { r.below(i) })
        };
        if let Some(p) = p {
            node.set_parent(&t.n[p]);
        }
        t.n.push(node);
        t.parent.push(p);
        t.mimic.push(None);
    }
    for i in 0..cnt {
        if cnt > 1 && r.chance(o.mimics) {
            let p = r.below(cnt);
            if p != i {
                let (m, q) = (r.num(), r.num());
                t.n[i].set_mimic_parent(&t.n[p], Mimic::new(m, q));
                t.mimic[i] = Some((p, m, q));
            }
        }
    }
    t.desc = describe(&t);
    t
}

pub fn describe(t: &Tree) -> String {
    let mut s = String::new();
    for (i, n) in t.n.iter().enumerate() {
        let j = n.joint();
        let _ = writeln!(
            s,
            "node {}: name={:?} type={:?} parent={:?} mimic={:?} limits={:?} origin={:?} position={:?} velocity={:?}",
            i, j.name, j.joint_type, t.parent[i], t.mimic[i], j.limits, j.origin(), j.joint_position(), j.joint_velocity()
        );
    }
    s
}

/// oracle: local transform from what the joint reports
pub fn local(n: &Node<f64>) -> Pose {
    let j = n.joint();
    let o = pose(j.origin());
    let p = j.joint_position().unwrap_or(0.0);
    let m = match &j.joint_type {
        JointType::Fixed => pid(),
        JointType::Rotational { axis } => Pose { r: rodrigues(&vec3(axis), p), t: [0.0; 3] },
        JointType::Linear { axis } => Pose { r: ID, t: scale(&vec3(axis), p) },
    };
    pm(&o, &m)
}
/// oracle: world transform through the generated parent relation
pub fn world(t: &Tree, i: usize) -> Pose {
    let l = local(&t.n[i]);
    match t.parent[i] {
        Some(p) => pm(&world(t, p), &l),
        None => l,
    }
}
pub fn index(t: &Tree, n: &Node<f64>) -> Option<usize> {
    t.n.iter().position(|x| x == n)
}
/// depth-first descendants are not assumed: this is the plain set
pub fn is_desc(t: &Tree, mut i: usize, a: usize) -> bool {
    loop {
        if i == a {
            return true;
        }
        match t.parent[i] {
            Some(p) => i = p,
            None => return false,
        }
    }
}
pub fn path(t: &Tree, end: usize) -> Vec<usize> {
    let mut v = vec![end];
    let mut i = end;
    while let Some(p) = t.parent[i] {
        v.push(p);
        i = p;
    }
    v.reverse();
    v
}

#[derive(Debug, Clone)]
pub struct Snap {
    pub name: String,
    pub jt: String,
    pub limits: String,
    pub pos: Option<f64>,
    pub vel: Option<f64>,
    pub origin: Isometry3<f64>,
    pub wt: Option<Isometry3<f64>>,
    pub wv: Option<(V, V)>,
    pub link: String,
    pub parent: Option<Node<f64>>,
    pub children: Vec<Node<f64>>,
    pub mimic_parent: Option<Node<f64>>,
}
pub fn snap(n: &Node<f64>) -> Snap {
    let parent = n.parent();
    let children: Vec<_> = n.children().iter().cloned().collect();
    let link = match &*n.link() {
        Some(l) => format!("{:?}", l),
        None => String::new(),
    };
    let mp = n.mimic_parent();
    let j = n.joint();
    Snap {
        name: j.name.clone(),
        jt: format!("{:?}", j.joint_type),
        limits: format!("{:?}", j.limits),
        pos: j.joint_position(),
        vel: j.joint_velocity(),
        origin: *j.origin(),
        wt: j.world_transform(),
        wv: j.world_velocity().map(|v| (vec3(&v.translation), vec3(&v.rotation))),
        link,
        parent,
        children,
        mimic_parent: mp,
    }
}
pub fn oeq(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    }
}
impl Snap {
    /// what changed, apart from the names in skip
    pub fn diff(&self, o: &Snap, skip: &[&str]) -> Option<String> {
        let wv = match (&self.wv, &o.wv) {
            (Some(a), Some(b)) => (0..3).all(|i| same(a.0[i], b.0[i]) && same(a.1[i], b.1[i])),
            (None, None) => true,
            _ => false,
        };
        let checks = [
            ("name", self.name == o.name),
            ("type", self.jt == o.jt),
            ("limits", self.limits == o.limits),
            ("position", oeq(self.pos, o.pos)),
            ("velocity", oeq(self.vel, o.vel)),
            ("origin", same_iso(&self.origin, &o.origin)),
            ("world_transform", same_oiso(&self.wt, &o.wt)),
            ("world_velocity", wv),
            ("link", self.link == o.link),
            ("parent", self.parent == o.parent),
            ("children", self.children == o.children),
            ("mimic_parent", self.mimic_parent == o.mimic_parent),
        ];
        for (n, ok) in checks.iter() {
            if !ok && !skip.contains(n) {
                return Some(format!("{} of joint {:?} changed: {:?} -> {:?}", n, self.name, self.short(n), o.short(n)));
            }
        }
        None
    }
    fn short(&self, n: &str) -> String {
        match n {
            "position" => format!("{:?}", self.pos),
            "velocity" => format!("{:?}", self.vel),
            "world_transform" => format!("{:?}", self.wt),
            "world_velocity" => format!("{:?}", self.wv),
            "origin" => format!("{:?}", self.origin),
            "limits" => self.limits.clone(),
            "link" => self.link.clone(),
            "parent" => format!("{:?}", self.parent.as_ref().map(|p| p.joint().name.clone())),
            "children" => format!("{:?}", self.children.iter().map(|p| p.joint().name.clone()).collect::<Vec<_>>()),
            _ => String::new(),
        }
    }
}
pub fn snaps(t: &Tree) -> Vec<Snap> {
    t.n.iter().map(snap).collect()
}

/// things a user may have done before: only the nodes at ix move, and updates start at the root of the tree
pub fn stir(r: &mut Rng, t: &Tree, ix: &[usize], vel: bool) {
    if ix.is_empty() {
        return;
    }
    for _ in 0..r.below(5) {
        let n = &t.n[ix[r.below(ix.len())]];
        match r.below(9) {
            0 => n.set_joint_position_clamped(r.num()),
            1 => n.set_joint_position_unchecked(r.num()),
            2 => {
                let o = n.origin();
                n.set_origin(if r.chance(0.3) { o } else { rand_iso(r) });
            }
            3 => {
                SerialChain::from_end(&t.n[r.below(t.n.len())]).update_transforms();
            }
            4 => {
                let c = SerialChain::from_end(&t.n[r.below(t.n.len())]);
                if vel {
                    c.update_velocities();
                }
                c.update_link_transforms();
            }
            5 => Chain::from_root(t.n[0].clone()).update_link_transforms(),
            6 => {
                let _ = jacobian(&SerialChain::from_end(&t.n[r.below(t.n.len())]));
            }
            7 => {
                let _ = center_of_mass(&Chain::from_end(n));
            }
            _ => {
                if vel {
                    Chain::from_root(t.n[0].clone()).update_velocities();
                } else {
                    let p = n.joint_position();
                    if let Some(p) = p {
                        n.set_joint_position_unchecked(p);
                    }
                }
            }
        }
    }
}
