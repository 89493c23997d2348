// Dumps the MIR of the crate named in KVC_CRATE as JSON into KVC_OUT.
// Used as RUSTC_WORKSPACE_WRAPPER; behaves exactly like rustc otherwise.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    adts: BTreeMap<String, String>,
    adt_queue: Vec<DefId>,
    adt_seen: BTreeSet<String>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }
    fn uid(&self, d: DefId) -> String {
        // unique and stable within one compilation
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", esc(&format!("{}", c)))),
                _ => {}
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let idx = self.ty_json.len();
        self.tys.insert(t, idx);
        self.ty_json.push(String::new());
        let s = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)));
        let j = match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Int(_) => format!("{{\"k\":\"int\",\"s\":{s}}}"),
            ty::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{s}}}"),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            ty::Adt(def, a) => {
                if self.adt_seen.insert(self.uid(def.did())) {
                    self.adt_queue.push(def.did());
                }
                let p = esc(&self.uid(def.did()));
                let a = self.args(a);
                format!("{{\"k\":\"adt\",\"def\":{p},\"args\":{a},\"s\":{s}}}")
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"elem\":{e},\"len\":{n},\"s\":{s}}}")
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"elem\":{e},\"s\":{s}}}")
            }
            ty::RawPtr(e, _) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"rawptr\",\"elem\":{e},\"s\":{s}}}")
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ref\",\"elem\":{e},\"mut\":{},\"s\":{s}}}", m.is_mut())
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"args\":{},\"s\":{s}}}", arr(v))
            }
            ty::FnDef(d, a) => {
                let p = esc(&self.uid(*d));
                let a = a.no_bound_vars().map(|a| self.args(a)).unwrap_or("[]".into());
                format!("{{\"k\":\"fndef\",\"def\":{p},\"args\":{a},\"s\":{s}}}")
            }
            ty::Closure(d, a) => {
                let p = esc(&self.uid(*d));
                let up: Vec<String> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                let k = format!("{:?}", a.as_closure().kind());
                format!(
                    "{{\"k\":\"closure\",\"def\":{p},\"upvars\":{},\"kind\":{},\"s\":{s}}}",
                    arr(up),
                    esc(&k)
                )
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{},\"idx\":{},\"s\":{s}}}", esc(p.name.as_str()), p.index),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.ty_json[idx] = j;
        idx
    }
    fn dump_adt(&mut self, did: DefId) {
        let def = self.tcx.adt_def(did);
        let uid = self.uid(did);
        let args = ty::GenericArgs::identity_for_item(self.tcx, did);
        let expand = did.is_local()
            || {
                let c = self.tcx.crate_name(did.krate);
                let c = c.as_str();
                c == "urdf_rs" || uid.starts_with("core::option") || uid.starts_with("core::result") || uid.starts_with("core::ops::range") || uid.starts_with("core::ops::control_flow")
            };
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if expand {
                    let t = f.ty(self.tcx, args).skip_norm_wip();
                    self.ty(t).to_string()
                } else {
                    "null".into()
                };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
            }
            vs.push(format!("{{\"name\":{},\"fields\":{}}}", esc(v.name.as_str()), arr(fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let gens: Vec<String> = args
            .iter()
            .filter_map(|g| match g.kind() {
                GenericArgKind::Type(t) => Some(esc(&format!("{}", t))),
                GenericArgKind::Const(t) => Some(esc(&format!("{}", t))),
                _ => None,
            })
            .collect();
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec![]
        };
        self.adts.insert(
            uid.clone(),
            format!(
                "{{\"kind\":\"{kind}\",\"path\":{},\"generics\":{},\"variants\":{},\"discrs\":{}}}",
                esc(&self.path(did)),
                arr(gens),
                arr(vs),
                arr(discrs)
            ),
        );
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"field\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(t) => format!("[\"cast\",{}]", self.ty(t)),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(v))
    }
    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let tj = self.ty(t);
        let s = esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c)));
        // functions
        if let ty::FnDef(d, a) = t.kind() {
            if let Some(a) = a.no_bound_vars() {
                let f = self.callee(*d, a, env);
                return format!("{{\"c\":\"fn\",\"f\":{f},\"ty\":{tj}}}");
            }
        }
        // items / promoteds
        if let Const::Unevaluated(u, _) = c {
            let simple = t.is_integral() || t.is_bool() || t.is_floating_point() || t.is_char();
            if !simple || c.has_param() {
                let p = u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into());
                // a &str const can still be evaluated to its text
                let text = self.str_of(c, env);
                let resolved = if u.promoted.is_none() {
                    match Instance::try_resolve(self.tcx, env, u.def, u.args) {
                        Ok(Some(i)) => esc(&self.uid(i.def_id())),
                        _ => "null".into(),
                    }
                } else {
                    "null".into()
                };
                return format!(
                    "{{\"c\":\"item\",\"def\":{},\"resolved\":{resolved},\"promoted\":{p},\"args\":{},\"text\":{text},\"ty\":{tj},\"s\":{s}}}",
                    esc(&self.uid(u.def)),
                    self.args(u.args)
                );
            }
        }
        if t.is_integral() || t.is_bool() || t.is_floating_point() || t.is_char() {
            if let Some(si) = c.try_eval_scalar_int(self.tcx, env) {
                let bits = si.to_bits(si.size());
                let size = si.size().bytes();
                return format!("{{\"c\":\"scalar\",\"bits\":\"{bits}\",\"size\":{size},\"ty\":{tj},\"s\":{s}}}");
            }
        }
        let text = self.str_of(c, env);
        if text != "null" {
            return format!("{{\"c\":\"str\",\"text\":{text},\"ty\":{tj}}}");
        }
        format!("{{\"c\":\"other\",\"ty\":{tj},\"s\":{s}}}")
    }
    fn str_of(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let ty::Ref(_, e, _) = c.ty().kind() {
            if e.is_str() && !c.has_param() {
                if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        return esc(&String::from_utf8_lossy(b));
                    }
                }
            }
        }
        "null".into()
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let ea = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, ea) {
            let k = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Shim(_) => "shim",
                _ => "other",
            };
            let did = i.def_id();
            res = format!(
                "{{\"kind\":\"{k}\",\"def\":{},\"path\":{},\"args\":{},\"local\":{}}}",
                esc(&self.uid(did)),
                esc(&self.path(did)),
                self.args(i.args),
                did.is_local()
            );
        }
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.path(t)),
            None => "null".into(),
        };
        let imp = match tcx.impl_of_assoc(d) {
            Some(t) => {
                let st = tcx.type_of(t).instantiate_identity().skip_norm_wip();
                self.ty(st).to_string()
            }
            None => "null".into(),
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, a));
        // the types of the result and the arguments, for a function used as a value
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip());
        let mut tys = vec![];
        for t in [sig.output()].iter().chain(sig.inputs().iter()) {
            let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(*t)).unwrap_or(*t);
            tys.push(self.ty(t).to_string());
        }
        let out = format!("[{}]", tys.join(","));
        format!(
            "{{\"def\":{},\"path\":{},\"name\":{},\"trait\":{tr},\"impl\":{imp},\"args\":{},\"resolved\":{res},\"sig\":{out},\"local\":{},\"s\":{}}}",
            esc(&self.uid(d)),
            esc(&self.path(d)),
            esc(&name),
            self.args(a),
            d.is_local(),
            esc(&s)
        )
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.constant(&c.const_, env)),
            o => format!("{{\"o\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{n}}}", self.operand(o, env))
            }
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{t}}}", esc(&format!("{:?}", k)), self.operand(o, env))
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(&b.0, env),
                self.operand(&b.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(a, env)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"reborrow\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("{{\"a\":\"array\",\"ty\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        if self.adt_seen.insert(self.uid(*d)) {
                            self.adt_queue.push(*d);
                        }
                        let f = f.map(|f| f.as_usize().to_string()).unwrap_or("null".into());
                        format!("{{\"a\":\"adt\",\"def\":{},\"v\":{},\"args\":{},\"f\":{f}}}", esc(&self.uid(*d)), v.as_usize(), self.args(a))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        format!("{{\"a\":\"closure\",\"def\":{},\"ty\":{}}}", esc(&self.uid(*d)), self.ty(t))
                    }
                    o => format!("{{\"a\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
                };
                format!("{{\"r\":\"agg\",\"k\":{kk},\"ops\":{}}}", arr(o))
            }
            o => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, did: DefId) -> String {
        let env = TypingEnv::post_analysis(self.tcx, did);
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
                format!("{{\"ty\":{},\"name\":{n}}}", self.ty(d.ty))
            })
            .collect();
        let sm = tcx.sess.source_map();
        let line = |sp: rustc_span::Span| -> usize { sm.lookup_char_pos(sp.source_callsite().lo()).line };
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        st.push(format!("{{\"s\":\"assign\",\"p\":{},\"r\":{},\"ln\":{ln}}}", self.place(&a.0), self.rvalue(&a.1, env)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{},\"ln\":{ln}}}",
                        self.place(place),
                        variant_index.as_usize()
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(i) => st.push(format!("{{\"s\":\"intrinsic\",\"d\":{},\"ln\":{ln}}}", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    let dt = discr.ty(b, tcx);
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"ts\":{},\"else\":{},\"ln\":{ln}}}",
                        self.operand(discr, env),
                        self.ty(dt),
                        arr(ts),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"unwind\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b, tcx).ty;
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"ln\":{ln}}}", self.place(place), self.ty(ty), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(b, tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(b, tcx).ty;
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":{},\"argtys\":{},\"dest\":{},\"dty\":{},\"to\":{},\"ln\":{ln}}}",
                        self.operand(func, env),
                        arr(a),
                        arr(at),
                        self.place(destination),
                        self.ty(dt),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        m => format!("{:?}", std::mem::discriminant(m)),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{expected},\"msg\":{},\"to\":{},\"ln\":{ln}}}",
                        self.operand(cond, env),
                        esc(&k),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                o => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"st\":{},\"t\":{},\"cleanup\":{}}}", arr(st), tj, bb.is_cleanup));
        }
        format!("{{\"argc\":{},\"locals\":{},\"blocks\":{}}}", b.arg_count, arr(locals), arr(blocks))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("KVC_CRATE").unwrap_or("k".into());
        let out = match std::env::var("KVC_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut d = D { tcx, tys: HashMap::new(), ty_json: vec![], adts: BTreeMap::new(), adt_queue: vec![], adt_seen: BTreeSet::new() };
        let mut fns = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()).0.to_smaller_hash());
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            if !is_fn && !is_const {
                continue;
            }
            let b = if is_fn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
            let body = d.body(b, did);
            let proms: Vec<String> = tcx.promoted_mir(did).iter().map(|p| d.body(p, did)).collect();
            let sp = tcx.def_span(did);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let file = format!("{}", loc.file.name.prefer_local_unconditionally());
            let imp = match tcx.impl_of_assoc(did) {
                Some(t) => { let st = tcx.type_of(t).instantiate_identity().skip_norm_wip(); d.ty(st).to_string() }
                None => "null".into(),
            };
            let tr = match tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)) {
                Some(t) => esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t.instantiate_identity().skip_norm_wip().print_only_trait_path()))),
                None => "null".into(),
            };
            let gens: Vec<String> = {
                let a = ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id(did));
                a.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(esc(&format!("{}", t))), GenericArgKind::Const(t) => Some(esc(&format!("{}", t))), _ => None }).collect()
            };
            let derived = tcx.impl_of_assoc(did).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            let vis = format!("{:?}", tcx.visibility(did));
            fns.push(format!(
                "{{\"def\":{},\"path\":{},\"name\":{},\"kind\":{},\"impl\":{imp},\"trait\":{tr},\"generics\":{},\"file\":{},\"line\":{},\"derived\":{derived},\"vis\":{},\"body\":{body},\"promoted\":{}}}",
                esc(&d.uid(did)),
                esc(&d.path(did)),
                esc(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()),
                esc(&format!("{:?}", kind)),
                arr(gens),
                esc(&file),
                loc.line,
                esc(&vis),
                arr(proms)
            ));
        }
        while let Some(a) = d.adt_queue.pop() {
            d.dump_adt(a);
        }
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let js = format!(
            "{{\"fns\":[\n{}\n],\n\"adts\":{{\n{}\n}},\n\"types\":[\n{}\n]}}",
            fns.join(",\n"),
            adts.join(",\n"),
            d.ty_json.join(",\n")
        );
        let tmp = format!("{out}.tmp");
        std::fs::write(&tmp, js).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
