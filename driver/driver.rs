// MIR exporter: a rustc driver that dumps the type-checked, resolved program as JSON.
// It never runs the crate. Output file: $VERIF_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, DefId)>,
    bodies: Vec<(usize, String)>,
    names: Vec<String>,
    models: HashMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn env(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }

    fn ty(&mut self, t: Ty<'tcx>, root: DefId) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let s = with_no_trimmed_paths!(t.to_string());
        let env = self.env(root);
        let mut j = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            ty::Bool => j.push_str(",\"k\":\"bool\""),
            ty::Char => j.push_str(",\"k\":\"char\""),
            ty::Int(_) => j.push_str(",\"k\":\"int\""),
            ty::Uint(_) => j.push_str(",\"k\":\"uint\""),
            ty::Float(_) => j.push_str(",\"k\":\"float\""),
            ty::Str => j.push_str(",\"k\":\"str\""),
            ty::Never => j.push_str(",\"k\":\"never\""),
            ty::Param(_) => j.push_str(",\"k\":\"param\""),
            ty::Adt(def, args) => {
                let did = def.did();
                let k = self.krate(did);
                let _ = write!(
                    j,
                    ",\"k\":\"adt\",\"path\":{},\"crate\":{},\"adt\":\"{}\"",
                    esc(&self.path(did)),
                    esc(&k),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }
                );
                let targs: Vec<String> =
                    args.types().map(|a| self.ty(a, root).to_string()).collect();
                let _ = write!(j, ",\"args\":{}", list(targs));
                let expand = did.is_local()
                    || k == "core"
                    || k == "robust"
                    || self.path(did) == "std::vec::Vec";
                if expand && !def.is_union() && self.path(did) != "std::vec::Vec" {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(self.tcx, args).skip_norm_wip();
                            let fty = self
                                .tcx
                                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty))
                                .unwrap_or(fty);
                            let n = self.ty(fty, root);
                            let vis = if f.vis.is_public() { "pub" } else { "" };
                            fs.push(format!(
                                "{{\"name\":{},\"ty\":{},\"vis\":\"{}\"}}",
                                esc(f.name.as_str()),
                                n,
                                vis
                            ));
                        }
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val as i128
                        } else {
                            0
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            esc(v.name.as_str()),
                            discr,
                            list(fs)
                        ));
                    }
                    let _ = write!(j, ",\"variants\":{}", list(vs));
                }
            }
            ty::Array(e, n) => {
                let e = self.ty(*e, root);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let _ = write!(j, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(*e, root);
                let _ = write!(j, ",\"k\":\"slice\",\"elem\":{}", e);
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e, root);
                let _ = write!(j, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e, root);
                let _ = write!(j, ",\"k\":\"ptr\",\"elem\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|e| self.ty(e, root).to_string()).collect();
                let _ = write!(j, ",\"k\":\"tuple\",\"elems\":{}", list(v));
            }
            ty::FnDef(d, _) => {
                let d: DefId = (*d).into();
                let _ = write!(j, ",\"k\":\"fndef\",\"path\":{}", esc(&self.path(d)));
            }
            ty::FnPtr(..) => j.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => j.push_str(",\"k\":\"dyn\""),
            ty::Closure(d, args) => {
                let d: DefId = (*d).into();
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups.iter().map(|e| self.ty(*e, root).to_string()).collect();
                let kind = args.as_closure().kind_ty().to_string();
                let _ = write!(
                    j,
                    ",\"k\":\"closure\",\"path\":{},\"upvars\":{},\"ckind\":{}",
                    esc(&self.path(d)),
                    list(v),
                    esc(&kind)
                );
                // resolve the closure body so that models can call it
                if !args.has_infer() {
                    let inst = Instance::new_raw(d, args);
                    let id = self.inst(inst, root);
                    let _ = write!(j, ",\"body\":{}", id);
                }
            }
            _ => j.push_str(",\"k\":\"other\""),
        }
        // facts used by the checks
        let freeze = if t.has_param() || t.has_aliases() { None } else { Some(t.is_freeze(self.tcx, env)) };
        if let Some(f) = freeze {
            let _ = write!(j, ",\"freeze\":{}", f);
        }
        let copy = self.tcx.type_is_copy_modulo_regions(env, t);
        let _ = write!(j, ",\"copy\":{}", copy);
        j.push('}');
        self.ty_json[i] = j;
        i
    }

    fn inst(&mut self, inst: Instance<'tcx>, root: DefId) -> usize {
        let key = (inst, if inst.args.has_param() { Some(root) } else { None });
        if let Some(i) = self.insts.get(&key) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.insert(key, i);
        self.names.push(with_no_trimmed_paths!(inst.to_string()));
        self.queue.push_back((i, inst, root));
        i
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!(
            "[{},{},{}]",
            esc(&lo.file.name.prefer_local_unconditionally().to_string()),
            lo.line,
            lo.col.0 + 1
        )
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId) -> String {
        let ti = self.ty(t, root);
        match v {
            ConstValue::Scalar(s) => match s {
                mir::interpret::Scalar::Int(i) => {
                    format!("{{\"c\":\"int\",\"v\":\"{}\",\"ty\":{}}}", i.to_bits_unchecked(), ti)
                }
                mir::interpret::Scalar::Ptr(..) => {
                    format!("{{\"c\":\"ptr\",\"d\":{},\"ty\":{}}}", esc(&format!("{:?}", v)), ti)
                }
            },
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"ty\":{}}}", ti),
            ConstValue::Slice { .. } => {
                let s = v.try_get_slice_bytes_for_diagnostics(self.tcx)
                    .map(|b| String::from_utf8_lossy(b).to_string());
                match s {
                    Some(s) => format!("{{\"c\":\"str\",\"v\":{},\"ty\":{}}}", esc(&s), ti),
                    None => format!("{{\"c\":\"opaque\",\"ty\":{}}}", ti),
                }
            }
            ConstValue::Indirect { .. } => {
                if !t.has_param() {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<String> =
                            d.fields.iter().map(|(v, t)| self.constval(*v, *t, root)).collect();
                        return format!(
                            "{{\"c\":\"agg\",\"var\":{},\"fields\":{},\"ty\":{}}}",
                            d.variant.map(|v| v.as_usize()).unwrap_or(0),
                            list(fs),
                            ti
                        );
                    }
                }
                format!("{{\"c\":\"opaque\",\"ty\":{}}}", ti)
            }
        }
    }

    /// the unspecialised implementation of a std adaptor's method, where type parameters keep rustc from choosing
    fn general_impl(&self, tr: Option<DefId>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tr?;
        if self.krate(tr) != "core" || args.types().count() != 1 {
            return None;
        }
        let (adt, aargs) = match args.type_at(0).kind() {
            ty::Adt(a, x) if !a.did().is_local() => (a.did(), *x),
            _ => return None,
        };
        let mut out = None;
        for im in tcx.all_impls(tr) {
            match tcx.type_of(im).skip_binder().kind() {
                ty::Adt(a, x) if a.did() == adt && *x == ty::GenericArgs::identity_for_item(tcx, im) => {}
                _ => continue,
            }
            for it in tcx.associated_items(im).in_definition_order() {
                if it.trait_item_def_id() == Some(did) && tcx.defaultness(it.def_id).is_default() {
                    if out.is_some() {
                        return None;
                    }
                    out = Some(Instance::new_raw(it.def_id, aargs));
                }
            }
        }
        out
    }

    fn callee(&mut self, fty: Ty<'tcx>, root: DefId) -> String {
        // describes a function item type: its path, args and resolved target
        let tcx = self.tcx;
        let (did, args): (DefId, _) = match fty.kind() {
            ty::FnDef(d, a) => ((*d).into(), a.skip_binder()),
            _ => return "{\"kind\":\"ptr\"}".into(),
        };
        let targs: Vec<String> = args.types().map(|a| self.ty(a, root).to_string()).collect();
        let mut s = format!(
            "{{\"path\":{},\"crate\":{},\"args\":{}",
            esc(&self.path(did)),
            esc(&self.krate(did)),
            list(targs)
        );
        let tr = tcx.trait_of_assoc(did);
        if let Some(tr) = tr {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let _ = write!(s, ",\"unsafe\":{}", tcx.fn_sig(did).skip_binder().safety().is_unsafe());
        let env = self.env(root);
        let provided = |tr: Option<DefId>| match tr {
            Some(tr) => {
                matches!(self.path(tr).as_str(), "std::iter::Iterator" | "std::iter::DoubleEndedIterator")
                    && !matches!(tcx.item_name(did).as_str(), "next" | "next_back" | "size_hint" | "__iterator_get_unchecked")
                    && tcx.defaultness(did).has_value()
            }
            None => false,
        };
        let found = match Instance::try_resolve(tcx, env, did, args) {
            // a type parameter's iterator: the provided body stands for whatever the real type does
            Ok(None) if provided(tr) => Ok(Some(Instance::new_raw(did, args))),
            Ok(None) => Ok(self.general_impl(tr, did, args)),
            r => r,
        };
        match found {
            Ok(Some(mut inst)) => {
                // iterator consumers: use the provided default body (a plain loop over next),
                // which by the Iterator contract computes the same as any override
                if provided(tr) && !inst.def_id().is_local() {
                    inst = Instance::new_raw(did, args);
                }
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                let d = inst.def_id();
                // model substitution
                let p = self.path(d);
                let mut model = None;
                if p.contains("from_iter") && self.krate(d) == "alloc" && p.contains("Vec") {
                    // <Vec<T> as FromIterator<T>>::from_iter::<I>
                    let v: Vec<Ty<'tcx>> = inst.args.types().collect();
                    if v.len() == 2 {
                        model = self.models.get("vec_from_iter").map(|m| (*m, vec![v[0], v[1]]));
                    }
                } else if tr.map(|t| self.path(t)) == Some("std::iter::Extend".into())
                    && tcx.item_name(did).as_str() == "extend"
                {
                    // <Vec<T> as Extend<U>>::extend::<I>: args of the trait method: Self, U, I
                    let v: Vec<Ty<'tcx>> = args.types().collect();
                    if v.len() == 3 {
                        if let ty::Adt(a, va) = v[0].kind() {
                            if self.path(a.did()) == "std::vec::Vec" {
                                let t = va.types().next().unwrap();
                                let name = if t == v[1] { "vec_extend" } else { "vec_extend_ref" };
                                model = self.models.get(name).map(|m| (*m, vec![t, v[2]]));
                            }
                        }
                    }
                } else if p.ends_with("Vec::<T, A>::extend_from_slice") {
                    let v: Vec<Ty<'tcx>> = inst.args.types().collect();
                    model = self.models.get("vec_extend_from_slice").map(|m| (*m, vec![v[0]]));
                }
                if let Some((m, targs)) = model {
                    let generics = tcx.generics_of(m);
                    let want = generics.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type{..})).count();
                    if want == targs.len() {
                        let mut it = targs.into_iter();
                        let margs = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => it.next().unwrap().into(),
                        });
                        let minst = Instance::new_raw(m, margs);
                        let id = self.inst(minst, root);
                        let _ = write!(s, ",\"kind\":\"item\",\"model\":true,\"rpath\":{},\"rcrate\":\"vmodels\",\"inst\":{}", esc(&self.path(m)), id);
                        s.push('}');
                        return s;
                    }
                }
                let rargs: Vec<String> =
                    inst.args.types().map(|a| self.ty(a, root).to_string()).collect();
                let _ = write!(
                    s,
                    ",\"kind\":\"{}\",\"rpath\":{},\"rcrate\":{},\"rargs\":{}",
                    kind,
                    esc(&p),
                    esc(&self.krate(d)),
                    list(rargs)
                );
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).skip_binder();
                    let _ = write!(s, ",\"implself\":{}", esc(&with_no_trimmed_paths!(st.to_string())));
                }
                if self.descend(&inst) {
                    let id = self.inst(inst, root);
                    let _ = write!(s, ",\"inst\":{}", id);
                }
                if let InstanceKind::Shim(sk) = inst.def {
                    let _ = write!(s, ",\"shim\":{}", esc(&format!("{:?}", sk)));
                }
            }
            _ => {
                let _ = write!(s, ",\"kind\":\"unresolved\"");
            }
        }
        s.push('}');
        s
    }

    fn descend(&self, inst: &Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_constructor(d) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let k = self.krate(d);
                if k != "core" && k != "vmodels" {
                    return false;
                }
                if self.tcx.is_foreign_item(d) || !self.tcx.is_mir_available(d) {
                    return false;
                }
                let p = self.path(d);
                let leaf = [
                    "std::slice", "core::slice", "std::str", "core::str", "std::fmt", "core::fmt",
                    "std::num", "core::num", "std::ptr", "core::ptr", "std::panicking", "core::panicking",
                    "std::rt", "std::hash", "std::alloc", "std::any", "std::hint", "std::intrinsics", "std::mem::",
                    "std::char", "std::cell", "std::array", "std::f64", "std::f32", "std::error", "std::ub_checks",
                    "std::iter::range", "core::iter::range", "std::ops::index", "std::sync", "std::borrow", "std::time",
                ];
                for l in leaf {
                    if p.starts_with(l) || p.starts_with(&format!("<{}", l)) {
                        // closures passed to these are handled by the analyser's models
                        return false;
                    }
                }
                if p.contains("core::num::") || p.contains("std::iter::range::") || p.contains("<impl [T]>") || p.contains("<impl str>") || p.contains("<impl f64>") || p.contains("<impl f32>") {
                    return false;
                }
                true
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, inst: &Instance<'tcx>, root: DefId) -> String {
        let _ = (body, inst);
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t, inst, root);
                    format!("[\"f\",{},{}]", f.as_usize(), self.ty(t, root))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, v: T, inst: &Instance<'tcx>, root: DefId) -> T {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env(root), ty::EarlyBinder::bind(self.tcx, v))
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, inst: &Instance<'tcx>, root: DefId) -> String {
        let k = self.norm(c.const_, inst, root);
        let t = k.ty();
        if let ty::FnDef(..) = t.kind() {
            let ti = self.ty(t, root);
            let cal = self.callee(t, root);
            return format!("{{\"c\":\"fn\",\"ty\":{},\"fn\":{}}}", ti, cal);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                // promoted: a reference to a promoted body of this item
                let id = self.promoted(u.def, p, u.args, root);
                let ti = self.ty(t, root);
                return format!("{{\"c\":\"promoted\",\"body\":{},\"ty\":{}}}", id, ti);
            }
            name = format!(",\"name\":{}", esc(&self.path(u.def)));
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let ti = self.ty(t, root);
            return format!("{{\"c\":\"static\",\"name\":{},\"ty\":{}}}", esc(&self.path(d)), ti);
        }
        let r = match k.eval(self.tcx, self.env(root), c.span) {
            Ok(v) => self.constval(v, t, root),
            Err(_) => {
                let ti = self.ty(t, root);
                format!("{{\"c\":\"opaque\",\"d\":{},\"ty\":{}}}", esc(&with_no_trimmed_paths!(k.to_string())), ti)
            }
        };
        format!("{}{}}}", &r[..r.len() - 1], name)
    }

    fn promoted(&mut self, def: DefId, p: Promoted, args: ty::GenericArgsRef<'tcx>, root: DefId) -> usize {
        let inst = Instance::new_raw(def, args);
        let key = self.names.len();
        // unique id per use: promoteds are tiny
        self.names.push(format!("{}::promoted[{}]", self.path(def), p.as_usize()));
        self.insts.insert((Instance::new_raw(DefId { krate: def.krate, index: def.index }, self.tcx.mk_args(&[ty::GenericArg::from(Ty::new_array(self.tcx, self.tcx.types.u8, key as u64))])), None), key);
        let body = &self.tcx.promoted_mir(def)[p];
        let j = self.body(body, &inst, root, "promoted");
        self.bodies.push((key, j));
        key
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, inst: &Instance<'tcx>, root: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, body, inst, root)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, body, inst, root)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(c, inst, root)),
            #[allow(unreachable_patterns)]
            _ => "[\"const\",{\"c\":\"int\",\"v\":\"0\",\"ty\":-1,\"rt\":true}]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, inst: &Instance<'tcx>, root: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, inst, root)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(*n, inst, root);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, body, inst, root), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p, body, inst, root))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"use\",[\"copy\",{}],{}]", self.place(p, body, inst, root), m.is_mut())
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p, body, inst, root))
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t, inst, root);
                let ot = o.ty(body, self.tcx);
                let ot = self.norm(ot, inst, root);
                let mut extra = String::new();
                if let ty::FnDef(..) = ot.kind() {
                    extra = format!(",{}", self.callee(ot, root));
                }
                format!(
                    "[\"cast\",{},{},{},{}{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(o, body, inst, root),
                    self.ty(t, root),
                    self.ty(ot, root),
                    extra
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let xt = self.norm(x.ty(body, self.tcx), inst, root);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(x, body, inst, root),
                    self.operand(y, body, inst, root),
                    self.ty(xt, root)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let xt = self.norm(o.ty(body, self.tcx), inst, root);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o, body, inst, root), self.ty(xt, root))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body, inst, root)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, inst, root)).collect();
                let t = self.norm(r.ty(body, self.tcx), inst, root);
                let ti = self.ty(t, root);
                let (kind, var, af) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, af) => ("adt", v.as_usize(), af.map(|f| f.as_usize())),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                format!(
                    "[\"agg\",\"{}\",{},{},{},{}]",
                    kind,
                    ti,
                    var,
                    list(os),
                    af.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, body, inst, root)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, inst: &Instance<'tcx>, root: DefId, kind: &str) -> String {
        let tcx = self.tcx;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let t = self.norm(d.ty, inst, root);
            locals.push(self.ty(t, root).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, body, inst, root)));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p, body, inst, root);
                        let rj = self.rvalue(r, body, inst, root);
                        st.push(format!("[\"=\",{},{},{}]", pj, rj, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, body, inst, root);
                        st.push(format!("[\"setd\",{},{},{}]", pj, variant_index.as_usize(), sp));
                    }
                    StatementKind::StorageLive(_) => {}
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[\"dead\",{}]", l.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.norm(discr.ty(body, tcx), inst, root);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, body, inst, root),
                        list(ts),
                        targets.otherwise().as_usize(),
                        self.ty(dt, root)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = self.norm(place.ty(body, tcx).ty, inst, root);
                    format!("[\"drop\",{},{},{}]", self.place(place, body, inst, root), target.as_usize(), self.ty(pt, root))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = self.norm(func.ty(body, tcx), inst, root);
                    let cal = self.callee(ft, root);
                    let fop = self.operand(func, body, inst, root);
                    let av: Vec<String> =
                        args.iter().map(|a| self.operand(&a.node, body, inst, root)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = self.norm(a.node.ty(body, tcx), inst, root);
                            self.ty(t, root).to_string()
                        })
                        .collect();
                    let fop = if let ty::FnDef(..) = ft.kind() { "null".to_string() } else { fop };
                    let d = self.place(destination, body, inst, root);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        cal,
                        list(av),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        list(at),
                        fop
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow", vec![a]),
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => ("div0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, inst, root)).collect();
                    format!(
                        "[\"assert\",{},{},{},\"{}\",{}]",
                        self.operand(cond, body, inst, root),
                        expected,
                        target.as_usize(),
                        mk,
                        list(os)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", list(st), tj, sp, b.is_cleanup));
        }
        let did = inst.def_id();
        let spread = body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        format!(
            "{{\"kind\":\"{}\",\"path\":{},\"crate\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"sp\":{},\"local\":{}}}",
            kind,
            esc(&self.path(did)),
            esc(&self.krate(did)),
            body.arg_count,
            spread,
            list(locals),
            list(names),
            list(blocks),
            self.span(body.span),
            did.is_local()
        )
    }

    fn run(&mut self) {
        let limit = 6000;
        while let Some((id, inst, root)) = self.queue.pop_front() {
            if self.bodies.len() > limit {
                break;
            }
            let d = inst.def_id();
            let ok = match inst.def {
                InstanceKind::Item(_) => self.tcx.is_mir_available(d),
                InstanceKind::Shim(_) => true,
                _ => false,
            };
            if !ok {
                continue;
            }
            let mirbody = self.tcx.instance_mir(inst.def);
            let kind = match inst.def { InstanceKind::Shim(_) => "shim", _ => "fn" };
            let j = self.body(mirbody, &inst, root, kind);
            self.bodies.push((id, j));
        }
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let Ok(out) = std::env::var("VERIF_OUT") else { return rustc_driver_impl::Compilation::Continue };
        if tcx.crate_name(LOCAL_CRATE).as_str() != std::env::var("VERIF_CRATE").unwrap_or("poly2tri_rs".into()) {
            return rustc_driver_impl::Compilation::Continue;
        }
        let mut models = HashMap::new();
        for c in tcx.crates(()) {
            if tcx.crate_name(*c).as_str() == "vmodels" {
                for ch in tcx.module_children(DefId { krate: *c, index: rustc_hir::def_id::CRATE_DEF_INDEX }) {
                    if let rustc_hir::def::Res::Def(DefKind::Fn, d) = ch.res {
                        models.insert(ch.ident.to_string(), d);
                    }
                }
            }
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), queue: VecDeque::new(), bodies: vec![], names: vec![], models };
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index);
        for ld in keys {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
            let id = cx.inst(inst, d);
            let mut s = format!("{{\"id\":{},\"path\":{},\"kind\":\"{:?}\"", id, esc(&cx.path(d)), k);
            let _ = write!(s, ",\"span\":{}", cx.span(tcx.def_span(d)));
            if k != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"unsafe\":{}", sig.safety().is_unsafe());
                let sig = tcx.liberate_late_bound_regions(d, sig);
                let sig = tcx.erase_and_anonymize_regions(sig);
                let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t, d).to_string()).collect();
                let _ = write!(s, ",\"inputs\":{},\"output\":{}", list(ins), cx.ty(sig.output(), d));
                let _ = write!(s, ",\"exported\":{},\"reachable\":{}", ev.is_exported(ld), ev.is_reachable(ld));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let _ = write!(s, ",\"implself\":{}", esc(&with_no_trimmed_paths!(tcx.type_of(im).skip_binder().to_string())));
                    if let Some(tr) = tcx.impl_opt_trait_id(im) {
                        let _ = write!(s, ",\"trait\":{}", esc(&cx.path(tr)));
                    }
                    let _ = write!(s, ",\"derived\":{}", tcx.is_builtin_derived(im));
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(s, ",\"traitdef\":{}", esc(&cx.path(tr)));
                }
                let _ = write!(s, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            } else {
                let p = tcx.typeck_root_def_id(d);
                let _ = write!(s, ",\"parent\":{}", esc(&cx.path(p)));
            }
            s.push('}');
            fns.push(s);
        }
        cx.run();
        // items: statics, consts, adts, impls
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let mut s = format!("{{\"kind\":\"{:?}\",\"path\":{},\"span\":{}", k, esc(&cx.path(d)), cx.span(tcx.def_span(d)));
            match k {
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"ty\":{},\"mut\":{}", cx.ty(t, d), tcx.is_mutable_static(d));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let _ = write!(s, ",\"ty\":{},\"exported\":{},\"reachable\":{}", cx.ty(t, d), ev.is_exported(ld), ev.is_reachable(ld));
                }
                DefKind::TyAlias => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let _ = write!(s, ",\"ty\":{}", cx.ty(t, d));
                }
                DefKind::Impl { of_trait: true } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let tr = tcx.impl_trait_id(d);
                    let _ = write!(s, ",\"ty\":{},\"trait\":{},\"unsafe\":{},\"derived\":{}", cx.ty(t, d), esc(&cx.path(tr)), tcx.trait_def(tr).safety.is_unsafe(), tcx.is_builtin_derived(d));
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Const | DefKind::AssocConst | DefKind::Trait => {
                    let _ = write!(s, ",\"exported\":{}", ev.is_exported(ld));
                }
                _ => continue,
            }
            s.push('}');
            items.push(s);
        }
        cx.run();
        let mut o = String::new();
        o.push_str("{\"types\":[\n");
        o.push_str(&cx.ty_json.join(",\n"));
        o.push_str("\n],\"fns\":[\n");
        o.push_str(&fns.join(",\n"));
        o.push_str("\n],\"items\":[\n");
        o.push_str(&items.join(",\n"));
        o.push_str("\n],\"names\":[\n");
        o.push_str(&cx.names.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",\n"));
        o.push_str("\n],\"bodies\":{\n");
        let b: Vec<String> = cx.bodies.iter().map(|(i, j)| format!("\"{}\":{}", i, j)).collect();
        o.push_str(&b.join(",\n"));
        o.push_str("\n}}\n");
        std::fs::write(out, o).unwrap();
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if let Ok(m) = std::env::var("VERIF_MODELS") {
        let krate = std::env::var("VERIF_CRATE").unwrap_or("poly2tri_rs".into());
        if args.iter().any(|a| a == &krate) {
            args.push("-Zunstable-options".into());
            args.push("-Zmir-opt-level=0".into());
            args.push(format!("--extern=force:vmodels={}", m));
        }
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
