use crate::json::{arr, q};
use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypingEnv,
};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

/// std modules whose (generic, always-encoded) bodies are dumped and analysed
/// like the crate's own code; everything else in std is a modelled primitive.
const STD_INLINE: &[&str] = &[
    "core::option",
    "core::result",
    "core::ops::try_trait",
    "core::ops::control_flow",
    "core::ops::function",
    "core::convert",
    "core::cmp",
    "core::bool",
    "core::ops::range",
];

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    statics: HashMap<DefId, String>,
    vtables: HashMap<(Ty<'tcx>, DefId), String>,
    failures: Vec<String>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    with_no_trimmed_paths!({
        let mut d = D {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            ty_ids: HashMap::new(),
            ty_json: vec![],
            queue: VecDeque::new(),
            seen: HashSet::new(),
            statics: HashMap::new(),
            vtables: HashMap::new(),
            failures: vec![],
        };
        d.run()
    })
}

impl<'tcx> D<'tcx> {
    fn modpath(&self, def: DefId) -> String {
        let dp = self.tcx.def_path(def);
        let mut s = self.tcx.crate_name(dp.krate).to_string();
        for e in dp.data.iter() {
            s.push_str("::");
            s.push_str(&e.as_sym(true).to_string());
        }
        s
    }

    fn key(&self, i: &Instance<'tcx>) -> String {
        match i.def {
            InstanceKind::Item(d) => {
                self.tcx.def_path_str_with_args(d, i.args)
            }
            _ => format!("{:?}@{}", i.def, self.tcx.def_path_str_with_args(i.def_id(), i.args)),
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut fns = vec![];
        // find the representative transport type: std::net::TcpStream
        let mut transport: Option<Ty<'tcx>> = None;
        for ld in tcx.mir_keys(()) {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => fns.push(def),
                _ => {}
            }
        }
        // iteration order of mir_keys is deterministic (source order)
        for &def in &fns {
            let sig = tcx.fn_sig(def).skip_binder();
            for t in sig.inputs_and_output().skip_binder().iter() {
                for a in t.walk() {
                    if let GenericArgKind::Type(t) = a.kind() {
                        if let ty::Adt(adt, _) = t.kind() {
                            if tcx.def_path_str(adt.did()) == "std::net::TcpStream" {
                                transport = Some(t);
                            }
                        }
                    }
                }
            }
        }
        let mut fn_json = vec![];
        for &def in &fns {
            let gens = tcx.generics_of(def);
            let path = tcx.def_path_str(def);
            let mut ok = true;
            let args = GenericArgs::for_item(tcx, def, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => match transport {
                    Some(t) => t.into(),
                    None => {
                        ok = false;
                        tcx.types.u8.into()
                    }
                },
                ty::GenericParamDefKind::Const { .. } => {
                    ok = false;
                    tcx.consts.true_.into()
                }
            });
            let is_pub = tcx.visibility(def).is_public();
            let reachable = tcx.effective_visibilities(()).is_exported(def.expect_local());
            // default methods of traits need a Self; skip as roots (they are
            // reached through the instances that use them)
            let in_trait = tcx.trait_of_assoc(def).is_some();
            let mut rootkey: String = "null".to_string();
            if ok && !in_trait && !tcx.instantiate_and_check_impossible_clauses((def, args)) {
                let inst = Instance::new_raw(def, args);
                roots.push(inst);
                rootkey = q(&self.key(&inst));
            }
            fn_json.push(format!(
                "{{\"path\":{},\"mod\":{},\"pub\":{},\"exported\":{},\"generic\":{},\"root\":{},\"span\":{}}}",
                q(&path),
                q(&self.modpath(def)),
                is_pub,
                reachable,
                gens.count() > 0,
                rootkey,
                q(&self.span(tcx.def_span(def)))
            ));
        }
        for r in roots {
            self.enqueue(r);
        }
        // named constants and statics of the crate
        let mut consts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Static { .. } => {
                    self.static_value(def);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(def).count() > 0 {
                        continue;
                    }
                    let ty = tcx.type_of(def).instantiate_identity();
                    let ty = tcx.normalize_erasing_regions(self.env, ty);
                    if let Ok(v) = tcx.const_eval_poly(def) {
                        let t = self.ty(ty);
                        let v = self.const_value(v, ty);
                        consts.push(format!(
                            "{{\"path\":{},\"ty\":{},\"v\":{}}}",
                            q(&tcx.def_path_str(def)),
                            t,
                            v
                        ));
                    }
                }
                _ => {}
            }
        }
        let mut bodies = vec![];
        while let Some(i) = self.queue.pop_front() {
            match self.body(i) {
                Some(b) => bodies.push(b),
                None => {}
            }
        }
        // impls: who implements which local trait
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let def = ld.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(def) {
                let tr = tcx.impl_trait_ref(def).instantiate_identity().skip_normalization();
                let sty = tr.self_ty();
                let trs = tcx.def_path_str(tr.def_id);
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"span\":{}}}",
                    q(&trs),
                    q(&format!("{}", sty)),
                    q(&self.span(tcx.def_span(def)))
                ));
            }
        }
        let statics = arr(self.statics.values().cloned().collect::<Vec<_>>());
        let vts = arr(self.vtables.values().cloned().collect::<Vec<_>>());
        format!(
            "{{\"crate\":{},\n\"fns\":{},\n\"types\":{},\n\"consts\":{},\n\"statics\":{},\n\"vtables\":{},\n\"impls\":{},\n\"unsafety\":{},\n\"failures\":{},\n\"bodies\":{}}}\n",
            q(tcx.crate_name(LOCAL_CRATE).as_str()),
            arr(fn_json),
            format!("[{}]", self.ty_json.join(",\n")),
            arr(consts),
            statics,
            vts,
            arr(impls),
            crate::unsafety::collect(tcx, &|sp| self.span(sp)),
            arr(self.failures.iter().map(|s| q(s))),
            format!("[{}]", bodies.join(",\n"))
        )
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> bool {
        let def = match i.def {
            InstanceKind::Item(d) => d,
            _ => return false,
        };
        let local = def.is_local();
        if !local {
            let m = self.modpath(def);
            if !STD_INLINE.iter().any(|p| m.starts_with(p)) {
                return false;
            }
            if !self.tcx.is_mir_available(def) {
                return false;
            }
        } else if !self.tcx.is_mir_available(def) {
            return false;
        }
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
        true
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = match f.find("/src/") {
            Some(p) if f.starts_with('/') => f[p + 1..].to_string(),
            _ => f,
        };
        format!("{}:{}", f, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let id = self.ty_json.len();
        self.ty_ids.insert(t, id);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let name = q(&format!("{}", t));
        let j = match *t.kind() {
            ty::Bool => format!("\"k\":\"bool\",\"bits\":8"),
            ty::Char => format!("\"k\":\"char\",\"bits\":32"),
            ty::Int(it) => format!(
                "\"k\":\"int\",\"signed\":true,\"bits\":{}",
                it.bit_width().unwrap_or(64)
            ),
            ty::Uint(it) => format!(
                "\"k\":\"int\",\"signed\":false,\"bits\":{}",
                it.bit_width().unwrap_or(64)
            ),
            ty::Str => format!("\"k\":\"str\""),
            ty::Never => format!("\"k\":\"never\""),
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = tcx
                    .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(n))
                    .ok()
                    .and_then(|n| n.try_to_target_usize(tcx));
                format!(
                    "\"k\":\"array\",\"elem\":{},\"len\":{}",
                    e,
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            ty::Ref(_, to, m) => {
                let x = self.ty(to);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut())
            }
            ty::RawPtr(to, m) => {
                let x = self.ty(to);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
            }
            ty::Adt(adt, args) => {
                let path = q(&tcx.def_path_str(adt.did()));
                let targs: Vec<String> = args
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let kind = if adt.is_enum() {
                    "enum"
                } else if adt.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let discr = if adt.is_enum() {
                        adt.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = match tcx.try_normalize_erasing_regions(self.env, ft) {
                            Ok(t) => t,
                            Err(_) => continue,
                        };
                        let ft = self.ty(ft);
                        fs.push(format!(
                            "{{\"name\":{},\"ty\":{}}}",
                            q(f.name.as_str()),
                            ft
                        ));
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                        q(v.name.as_str()),
                        discr,
                        arr(fs)
                    ));
                }
                format!(
                    "\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"local\":{},\"args\":{},\"variants\":{}",
                    kind,
                    path,
                    adt.did().is_local(),
                    arr(targs),
                    arr(vs)
                )
            }
            ty::Closure(def, args) => {
                let inst = Instance::new_raw(def, args);
                let has = self.enqueue(inst);
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!(
                    "\"k\":\"closure\",\"key\":{},\"has_body\":{},\"upvars\":{}",
                    q(&self.key(&inst)),
                    has,
                    arr(ups)
                )
            }
            ty::FnDef(def, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(def.into(), args);
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::Dynamic(preds, _) => {
                let p = preds
                    .principal_def_id()
                    .map(|d| tcx.def_path_str(d))
                    .unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", q(&p))
            }
            ty::FnPtr(..) => format!("\"k\":\"fnptr\""),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            _ => format!("\"k\":\"other\""),
        };
        self.ty_json[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, name, j);
        id
    }

    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = tcx.def_path_str(def);
        let targs: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(t).to_string())
            .collect();
        let mut s = format!(
            "{{\"path\":{},\"mod\":{},\"args\":{}",
            q(&path),
            q(&self.modpath(def)),
            arr(targs)
        );
        // const generic args (e.g. array sizes)
        let cargs: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_const())
            .map(|c| {
                c.try_to_target_usize(tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into())
            })
            .collect();
        if !cargs.is_empty() {
            s.push_str(&format!(",\"cargs\":{}", arr(cargs)));
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            s.push_str(&format!(
                ",\"trait\":{},\"method\":{}",
                q(&tcx.def_path_str(tr)),
                q(tcx.item_name(def).as_str())
            ));
        }
        let callable = matches!(
            tcx.def_kind(def),
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)
        );
        if callable {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, def, args) {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let has = self.enqueue(inst);
                let rd = inst.def_id();
                s.push_str(&format!(
                    ",\"kind\":\"{}\",\"key\":{},\"rpath\":{},\"rmod\":{},\"local\":{},\"has_body\":{}",
                    kind,
                    q(&self.key(&inst)),
                    q(&tcx.def_path_str(rd)),
                    q(&self.modpath(rd)),
                    rd.is_local(),
                    has
                ));
                if let DefKind::Ctor(..) = tcx.def_kind(rd) {
                    s.push_str(",\"ctor\":true");
                }
            }
        }
        s.push('}');
        s
    }

    // ---------------------------------------------------------------- consts

    fn static_value(&mut self, def: DefId) {
        if self.statics.contains_key(&def) {
            return;
        }
        self.statics.insert(def, "null".into());
        let tcx = self.tcx;
        let ty = tcx.type_of(def).instantiate_identity();
        let ty = tcx.normalize_erasing_regions(self.env, ty);
        let v = match tcx.eval_static_initializer(def) {
            Ok(a) => self.decode(a.inner(), Size::ZERO, ty, 0),
            Err(_) => "{\"u\":\"static\"}".into(),
        };
        let t = self.ty(ty);
        self.statics.insert(
            def,
            format!(
                "{{\"path\":{},\"ty\":{},\"v\":{},\"span\":{}}}",
                q(&tcx.def_path_str(def)),
                t,
                v,
                q(&self.span(tcx.def_span(def)))
            ),
        );
    }

    fn const_value(&mut self, v: ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.zst(ty),
            ConstValue::Scalar(Scalar::Int(i)) => match ty.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                    // scalar-layout aggregate: materialise through an allocation
                    let bytes = i.to_bits(i.size());
                    let n = i.size().bytes() as usize;
                    let b = bytes.to_le_bytes();
                    let a: Allocation = Allocation::from_bytes_byte_aligned_immutable(&b[..n], ());
                    self.decode(&a, Size::ZERO, ty, 0)
                }
                _ => format!("{{\"i\":\"{}\"}}", i.to_bits(i.size())),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointee(prov.alloc_id(), off, ty, None, 0)
            }
            ConstValue::Slice { alloc_id, meta } => {
                self.pointee(alloc_id, Size::ZERO, ty, Some(meta), 0)
            }
            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => self.decode(a.inner(), offset, ty, 0),
                _ => "{\"u\":\"indirect\"}".into(),
            },
        }
    }

    fn zst(&mut self, ty: Ty<'tcx>) -> String {
        match *ty.kind() {
            ty::FnDef(..) => format!("{{\"fn\":{}}}", self.ty(ty)),
            ty::Closure(..) => format!("{{\"closure\":{}}}", self.ty(ty)),
            ty::Adt(adt, args) if adt.is_struct() => {
                let mut fs = vec![];
                for f in adt.non_enum_variant().fields.iter() {
                    let ft = f.ty(self.tcx, args);
                    let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                    fs.push(self.zst(ft));
                }
                format!("{{\"s\":{}}}", arr(fs))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.zst(t)).collect();
                format!("{{\"s\":{}}}", arr(v))
            }
            ty::Array(..) => "{\"a\":[]}".into(),
            ty::Adt(adt, _) if adt.is_enum() => {
                let layout = self.tcx.layout_of(self.env.as_query_input(ty));
                if let Ok(l) = layout {
                    if let Variants::Single { index } = l.variants {
                        return format!("{{\"e\":{},\"f\":[]}}", index.as_usize());
                    }
                }
                "{\"u\":\"zst enum\"}".into()
            }
            _ => "{\"u\":\"zst\"}".into(),
        }
    }

    fn pointee(
        &mut self,
        id: AllocId,
        off: Size,
        ptr_ty: Ty<'tcx>,
        meta: Option<u64>,
        depth: usize,
    ) -> String {
        let tcx = self.tcx;
        let to = match ptr_ty.kind() {
            ty::Ref(_, t, _) => *t,
            ty::RawPtr(t, _) => *t,
            _ => return "{\"u\":\"ptr\"}".into(),
        };
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(def) => {
                if def.is_local() {
                    self.static_value(def);
                }
                format!("{{\"static\":{}}}", q(&tcx.def_path_str(def)))
            }
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                match to.kind() {
                    ty::Slice(e) => {
                        let e = *e;
                        let n = meta.unwrap_or(0);
                        let Ok(l) = tcx.layout_of(self.env.as_query_input(e)) else {
                            return "{\"u\":\"layout\"}".into();
                        };
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.decode(a, off + l.size * i, e, depth + 1));
                        }
                        format!("{{\"ref\":{{\"a\":{}}}}}", arr(v))
                    }
                    ty::Str => {
                        let n = meta.unwrap_or(0);
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            off.bytes() as usize..(off.bytes() + n) as usize,
                        );
                        format!("{{\"ref\":{{\"str\":{}}}}}", q(&String::from_utf8_lossy(b)))
                    }
                    _ => format!("{{\"ref\":{}}}", self.decode(a, off, to, depth + 1)),
                }
            }
            _ => "{\"u\":\"alloc\"}".into(),
        }
    }

    fn read_uint(&self, a: &Allocation, off: Size, size: Size) -> Option<u128> {
        let r = AllocRange { start: off, size };
        match a.read_scalar(&self.tcx, r, false) {
            Ok(Scalar::Int(i)) => Some(i.to_bits(size)),
            _ => None,
        }
    }

    fn decode(&mut self, a: &Allocation, off: Size, ty: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"u\":\"depth\"}".into();
        }
        let Ok(l) = tcx.layout_of(self.env.as_query_input(ty)) else {
            return "{\"u\":\"layout\"}".into();
        };
        match *ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match self.read_uint(a, off, l.size) {
                Some(v) => format!("{{\"i\":\"{}\"}}", v),
                None => "{\"u\":\"uninit\"}".into(),
            },
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let Ok(el) = tcx.layout_of(self.env.as_query_input(e)) else {
                    return "{\"u\":\"layout\"}".into();
                };
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + el.size * i, e, depth + 1));
                }
                format!("{{\"a\":{}}}", arr(v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + l.fields.offset(i), t, depth + 1));
                }
                format!("{{\"s\":{}}}", arr(v))
            }
            ty::Adt(adt, args) if adt.is_struct() => {
                let mut v = vec![];
                for (i, f) in adt.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.normalize_erasing_regions(self.env, ft);
                    v.push(self.decode(a, off + l.fields.offset(i), ft, depth + 1));
                }
                format!("{{\"s\":{}}}", arr(v))
            }
            ty::Adt(adt, args) if adt.is_enum() => {
                let vi = match &l.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Empty => None,
                    Variants::Multiple {
                        tag,
                        tag_encoding,
                        tag_field,
                        ..
                    } => {
                        let toff = off + l.fields.offset(tag_field.as_usize());
                        let tsz = tag.size(&tcx);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                self.read_uint(a, toff, tsz).and_then(|tv| {
                                    adt.variants()
                                        .iter_enumerated()
                                        .map(|(i, _)| i)
                                        .find(|i| {
                                            let d = adt.discriminant_for_variant(tcx, *i).val;
                                            tsz.truncate(d) == tv
                                        })
                                })
                            }
                            TagEncoding::Niche {
                                untagged_variant,
                                niche_variants,
                                niche_start,
                            } => match self.read_uint(a, toff, tsz) {
                                None => Some(*untagged_variant),
                                Some(tv) => {
                                    let rel = tsz.truncate(tv.wrapping_sub(*niche_start));
                                    let lo = niche_variants.start.as_u32() as u128;
                                    let hi = niche_variants.last.as_u32() as u128;
                                    if rel <= hi - lo {
                                        Some(VariantIdx::from_u32((lo + rel) as u32))
                                    } else {
                                        Some(*untagged_variant)
                                    }
                                }
                            },
                        }
                    }
                };
                let Some(vi) = vi else {
                    return "{\"u\":\"enum\"}".into();
                };
                let cx = LayoutCx::new(tcx, self.env);
                let vl: TyAndLayout<'tcx> = l.for_variant(&cx, vi);
                let mut v = vec![];
                for (i, f) in adt.variant(vi).fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.normalize_erasing_regions(self.env, ft);
                    v.push(self.decode(a, off + vl.fields.offset(i), ft, depth + 1));
                }
                format!("{{\"e\":{},\"f\":{}}}", vi.as_usize(), arr(v))
            }
            ty::Ref(..) | ty::RawPtr(..) => {
                let psz = tcx.data_layout.pointer_size();
                let r = AllocRange {
                    start: off,
                    size: psz,
                };
                match a.read_scalar(&tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        let meta = if l.size > psz {
                            self.read_uint(a, off + psz, psz).map(|x| x as u64)
                        } else {
                            None
                        };
                        self.pointee(prov.alloc_id(), o, ty, meta, depth + 1)
                    }
                    _ => "{\"u\":\"ptr\"}".into(),
                }
            }
            _ if l.size == Size::ZERO => self.zst(ty),
            _ => "{\"u\":\"val\"}".into(),
        }
    }

    // ---------------------------------------------------------------- bodies

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    format!("{{\"f\":{},\"t\":{}}}", f.as_usize(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => format!("{{\"ci\":{},\"min\":{},\"end\":{}}}", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"sub\":[{},{}],\"end\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("{{\"d\":{}}}", v.as_usize()),
                ProjectionElem::OpaqueCast(t) => format!("{{\"oc\":{}}}", self.ty(t)),
                _ => "{\"u\":1}".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let t = self.ty(ty);
                if let ty::FnDef(..) = ty.kind() {
                    return format!("{{\"k\":{{\"fn\":{}}},\"t\":{}}}", t, t);
                }
                let v = match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.const_value(v, ty),
                    Err(_) => "{\"u\":\"eval\"}".into(),
                };
                format!("{{\"k\":{},\"t\":{}}}", v, t)
            }
            Operand::RuntimeChecks(rc) => {
                let b = match rc {
                    RuntimeChecks::OverflowChecks => self.tcx.sess.overflow_checks(),
                    _ => false,
                };
                format!(
                    "{{\"k\":{{\"i\":\"{}\"}},\"t\":{}}}",
                    b as u8,
                    self.ty(self.tcx.types.bool)
                )
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                    self.operand(o),
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"r\":\"ref\",\"raw\":true,\"mut\":{},\"p\":{}}}",
                k.to_mutbl_lossy().is_mut(),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                m.is_mut(),
                self.place(p)
            ),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let mut extra = String::new();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    extra = self.unsize(from, *t);
                }
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc),
                    k => format!("{:?}", k),
                };
                let ks = ks.split(['(', ' ']).next().unwrap().to_string();
                let ft = self.ty(from);
                format!(
                    "{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"from\":{},\"to\":{}{}}}",
                    q(&ks),
                    self.operand(o),
                    ft,
                    self.ty(*t),
                    extra
                )
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!(
                    "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}",
                    op,
                    self.operand(&b.0),
                    self.operand(&b.1),
                    t
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!(
                    "{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{},\"t\":{}}}",
                    op,
                    self.operand(o),
                    t
                )
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"tuple\"".into(),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        format!(
                            "\"adt\",\"v\":{},\"active\":{}",
                            v.as_usize(),
                            f.map(|f: FieldIdx| f.as_usize().to_string())
                                .unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(self.tcx, *def, args);
                        format!("\"closure\",\"t\":{}", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".into(),
                    _ => "\"other\"".into(),
                };
                let t = r.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("{{\"r\":\"agg\",\"k\":{},\"ty\":{},\"o\":{}}}", ks, t, arr(v))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p))
            }
            other => format!("{{\"r\":\"unknown\",\"s\":{}}}", q(&format!("{:?}", other))),
        }
    }

    /// For T -> dyn Trait coercions: record the concrete method instances.
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        fn inner<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match *t.kind() {
                ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(t),
                ty::Adt(adt, args) if adt.is_box() => {
                    let _ = tcx;
                    Some(args.type_at(0))
                }
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (inner(tcx, from), inner(tcx, to)) else {
            return String::new();
        };
        if let ty::Dynamic(preds, _) = t.kind() {
            if let Some(pr) = preds.principal_def_id() {
                if !matches!(f.kind(), ty::Dynamic(..)) {
                    self.vtable(f, pr);
                }
                let fi = self.ty(f);
                return format!(
                    ",\"dyn\":{{\"concrete\":{},\"trait\":{}}}",
                    fi,
                    q(&tcx.def_path_str(pr))
                );
            }
        }
        if let ty::Array(_, _) = f.kind() {
            return ",\"arr\":true".into();
        }
        String::new()
    }

    fn vtable(&mut self, f: Ty<'tcx>, tr: DefId) {
        let tcx = self.tcx;
        if self.vtables.contains_key(&(f, tr)) {
            return;
        }
        self.vtables.insert((f, tr), "null".into());
        let mut ms = vec![];
        for sup in rustc_middle::ty::elaborate::supertrait_def_ids(tcx, tr) {
            for item in tcx.associated_items(sup).in_definition_order() {
                if !item.is_fn() {
                    continue;
                }
                if tcx.generics_of(item.def_id).own_requires_monomorphization() {
                    continue;
                }
                let args = GenericArgs::for_item(tcx, item.def_id, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => f.into(),
                });
                let c = self.callee(item.def_id, args);
                ms.push(format!("{}:{}", q(item.name().as_str()), c));
            }
        }
        let fi = self.ty(f);
        self.vtables.insert(
            (f, tr),
            format!(
                "{{\"ty\":{},\"trait\":{},\"m\":{{{}}}}}",
                fi,
                q(&tcx.def_path_str(tr)),
                ms.join(",")
            ),
        );
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let def = inst.def_id();
        let b: &Body<'tcx> = tcx.instance_mir(inst.def);
        let b: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, b.clone()),
        ) {
            Ok(b) => b,
            Err(e) => {
                self.failures.push(format!("{}: {:?}", self.key(&inst), e));
                return None;
            }
        };
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(self.ty(d.ty).to_string());
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), q(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in bb.statements.iter() {
                let sp = q(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p);
                        let rj = self.rvalue(&b, r);
                        st.push(format!("{{\"p\":{},\"v\":{},\"s\":{}}}", pj, rj, sp));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let pj = self.place(place);
                        st.push(format!(
                            "{{\"p\":{},\"setd\":{},\"s\":{}}}",
                            pj,
                            variant_index.as_usize(),
                            sp
                        ));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => {
                            st.push(format!("{{\"copy\":1,\"s\":{}}}", sp));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx);
                    let ty = self.ty(ty);
                    let o = self.operand(discr);
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "\"t\":\"switch\",\"o\":{},\"ty\":{},\"vs\":{},\"else\":{}",
                        o,
                        ty,
                        arr(vs),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"t\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    let ty = self.ty(ty);
                    format!(
                        "\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}",
                        self.place(place),
                        ty,
                        target.as_usize()
                    )
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let fty = func.ty(&b.local_decls, tcx);
                    let callee = match *fty.kind() {
                        ty::FnDef(d, a) => {
                            self.callee(d.into(), a.no_bound_vars().unwrap())
                        }
                        _ => "null".to_string(),
                    };
                    let f = if callee == "null" {
                        self.operand(func)
                    } else {
                        "null".into()
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let atys: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&b.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "\"t\":\"call\",\"callee\":{},\"f\":{},\"args\":{},\"atys\":{},\"dest\":{},\"dty\":{},\"to\":{}",
                        callee,
                        f,
                        arr(av),
                        arr(atys),
                        self.place(destination),
                        dt,
                        target
                            .map(|t| t.as_usize().to_string())
                            .unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let ops: Vec<String> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![self.operand(len), self.operand(index)]
                        }
                        _ => vec![],
                    };
                    format!(
                        "\"t\":\"assert\",\"o\":{},\"exp\":{},\"kind\":\"{}\",\"msg\":{},\"ops\":{},\"to\":{}",
                        self.operand(cond),
                        expected,
                        kind,
                        q(&m),
                        arr(ops),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                other => format!("\"t\":\"unknown\",\"msg\":{}", q(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"st\":{},{},\"s\":{}}}", arr(st), tj, sp));
        }
        // was this body written by hand or by a derive / in a macro?
        Some(format!(
            "{{\"key\":{},\"path\":{},\"mod\":{},\"local\":{},\"span\":{},\"argc\":{},\"locals\":{},\"names\":{{{}}},\"spread\":{},\"blocks\":{}}}",
            q(&self.key(&inst)),
            q(&tcx.def_path_str(def)),
            q(&self.modpath(def)),
            def.is_local(),
            q(&self.span(tcx.def_span(def))),
            b.arg_count,
            arr(locals),
            names.join(","),
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(blocks)
        ))
    }
}
