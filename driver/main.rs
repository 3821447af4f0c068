// Fact extractor: a rustc driver which dumps the type-checked, resolved program (MIR) of the
// workspace crates as JSON.  It decides nothing; the rule engines in /verif/engine read the dump.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: std::fmt::Display>(x: T) -> J {
    J::I(x.to_string())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(x) => o.push_str(x),
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    todo: VecDeque<Instance<'tcx>>,
    seen: BTreeSet<String>,
    fns: Vec<(String, J)>,
}

const WORKSPACE: &[&str] = &[
    "math_core_renderer_internal",
    "math_core",
    "mathcore",
    "math_core_python",
    "math_core_wasm",
    "dumpselftest",
];

fn crate_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.crate_name(d.krate).to_string()
}
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", crate_name(tcx, d), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() { format!("{}::{}", crate_name(tcx, d), p).replace(&format!("{}::<", crate_name(tcx, d)), "<") } else { p }
}
fn ts(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

/// External functions whose MIR is dumped too, so that the engines can look through them.
fn external_wanted(name: &str) -> bool {
    const P: &[&str] = &[
        "core::option::",
        "core::result::",
        "core::ops::function",
        "core::ops::try_trait",
        "core::ops::control_flow",
        "core::ops::deref",
        "core::convert::",
        "core::mem::replace",
        "core::mem::take",
        "core::mem::swap",
        "core::cmp::",
        "core::bool::",
        "core::borrow::",
        "core::clone::",
        "core::default::",
        "core::iter::traits",
        "core::iter::adapters",
        "core::char::",
    ];
    P.iter().any(|p| name.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        J::A(vec![s(f), n(lo.line)])
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = i.def_id();
        let base = uid(tcx, d);
        let shim = match i.def {
            InstanceKind::Item(_) => String::new(),
            InstanceKind::Virtual(_, k) => format!("@virtual{}", k),
            InstanceKind::Shim(k) => format!("@{}", format!("{:?}", k).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
            ref o => format!("@{}", format!("{:?}", o).split('(').next().unwrap_or("").split_whitespace().next().unwrap_or("")),
        };
        let args = self.args_str(i.args);
        format!("{base}{shim}{args}")
    }
    fn args_str(&self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter(|x| x.as_region().is_none())
            .map(|x| with_no_trimmed_paths!(x.to_string()))
            .collect();
        if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(def, args) = t.kind() {
                    self.note_adt(*def, args);
                }
            }
        }
    }
    fn note_adt(&mut self, def: ty::AdtDef<'tcx>, _args: GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        let key = uid(tcx, def.did());
        if self.adts.contains_key(&key) {
            return;
        }
        self.adts.insert(key.clone(), J::Null);
        let mut variants = vec![];
        let discrs: BTreeMap<usize, String> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i.as_usize(), with_no_trimmed_paths!(d.to_string()))).collect()
        } else {
            BTreeMap::new()
        };
        let mut sub = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fields = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                sub.push(fty);
                fields.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", s(ts(fty))),
                    ("tys", self.constituents(fty)),
                    ("vis", s(format!("{:?}", f.vis))),
                ]));
            }
            variants.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", discrs.get(&vi.as_usize()).map(|d| s(d.clone())).unwrap_or(J::Null)),
                ("fields", J::A(fields)),
            ]));
        }
        let idty = tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
        let te = TypingEnv::post_analysis(tcx, def.did());
        let j = J::O(vec![
            ("path", s(with_no_trimmed_paths!(tcx.def_path_str(def.did())))),
            ("crate", s(crate_name(tcx, def.did()))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("freeze", J::B(idty.is_freeze(tcx, te))),
            ("variants", J::A(variants)),
        ]);
        self.adts.insert(key, j);
        for t in sub {
            self.note_ty(t);
        }
    }
    fn constituents(&self, t: Ty<'tcx>) -> J {
        let mut v = vec![];
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                match t.kind() {
                    ty::Adt(d, _) => v.push(s(uid(self.tcx, d.did()))),
                    ty::RawPtr(..) => v.push(s("*raw")),
                    ty::Dynamic(..) => v.push(s(format!("dyn {}", ts(t)))),
                    ty::FnPtr(..) => v.push(s("fnptr")),
                    ty::Ref(_, _, m) => v.push(s(if m.is_mut() { "&mut" } else { "&" })),
                    _ => {}
                }
            }
        }
        J::A(v)
    }

    // ---------------------------------------------------- constants
    fn decode(&mut self, val: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if !t.is_sized(tcx, TypingEnv::fully_monomorphized()) {
            return J::O(vec![("opaque", s(ts(t)))]);
        }
        if depth > 40 {
            return J::O(vec![("deep", J::B(true))]);
        }
        match (val, t.kind()) {
            (mir::ConstValue::Scalar(Scalar::Int(i)), ty::Bool) => {
                return J::O(vec![("b", J::B(i.try_to_bool().unwrap_or(false)))]);
            }
            (mir::ConstValue::Scalar(Scalar::Int(i)), ty::Char) => {
                return J::O(vec![("c", n(i.to_bits(i.size())))]);
            }
            (mir::ConstValue::Scalar(Scalar::Int(i)), ty::Int(_)) => {
                let sz = i.size();
                let b = i.to_bits(sz);
                let v = sz.sign_extend(b);
                return J::O(vec![("i", n(v))]);
            }
            (mir::ConstValue::Scalar(Scalar::Int(i)), ty::Uint(_)) => {
                return J::O(vec![("i", n(i.to_bits(i.size())))]);
            }
            (mir::ConstValue::Scalar(Scalar::Int(i)), ty::Float(f)) => {
                let b = i.to_bits(i.size());
                let x = match f.bit_width() {
                    32 => format!("{}", f32::from_bits(b as u32)),
                    64 => format!("{}", f64::from_bits(b as u64)),
                    _ => "?".into(),
                };
                return J::O(vec![("f", s(x))]);
            }
            (mir::ConstValue::ZeroSized, ty::FnDef(..)) => {
                return J::O(vec![("fn", self.callee(t, &TypingEnv::fully_monomorphized()))]);
            }
            _ => {}
        }
        // references
        if let ty::Ref(_, inner, _) = t.kind() {
            let inner = *inner;
            if inner.is_str() {
                if let Some(b) = self.slice_bytes(val) {
                    return J::O(vec![("str", s(String::from_utf8_lossy(&b).into_owned()))]);
                }
            }
            if let ty::Slice(elem) = inner.kind() {
                if let Some((alloc, off, len)) = self.fat_ptr(val) {
                    return self.decode_seq(alloc, off, len, *elem, depth);
                }
            }
            if let Some((alloc, off)) = self.thin_ptr(val) {
                if let GlobalAlloc::Memory(_) | GlobalAlloc::Static(_) = tcx.global_alloc(alloc) {
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(alloc) {
                        return J::O(vec![("static", s(uid(tcx, d)))]);
                    }
                    let v = mir::ConstValue::Indirect { alloc_id: alloc, offset: off };
                    return J::O(vec![("ref", self.decode(v, inner, depth + 1))]);
                }
            }
            return J::O(vec![("opaque", s(ts(t)))]);
        }
        match t.kind() {
            ty::Array(elem, len) => {
                let len = len.try_to_target_usize(tcx).unwrap_or(0);
                if let mir::ConstValue::Indirect { alloc_id, offset } = val {
                    return self.decode_seq(alloc_id, offset, len, *elem, depth);
                }
                if len == 0 {
                    return J::O(vec![("seq", J::A(vec![]))]);
                }
            }
            ty::Adt(..) | ty::Tuple(..) => {
                if t.has_param() || t.has_infer() {
                    return J::O(vec![("opaque", s(ts(t)))]);
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return J::O(vec![("opaque", s(ts(t)))]);
                    }
                    self.note_ty(t);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.decode(*v, *t, depth + 1)).collect();
                    if let ty::Adt(def, _) = t.kind() {
                        if def.is_enum() && d.variant.is_none() {
                            return J::O(vec![("opaque", s(ts(t)))]);
                        }
                        let vi = d.variant.unwrap_or(VariantIdx::from_u32(0));
                        let v = def.variant(vi);
                        let names: Vec<J> = v.fields.iter().map(|f| s(f.name.to_string())).collect();
                        return J::O(vec![
                            ("adt", s(uid(tcx, def.did()))),
                            ("vi", n(vi.as_usize())),
                            ("v", s(v.name.to_string())),
                            ("fn", J::A(names)),
                            ("fs", J::A(fs)),
                        ]);
                    }
                    return J::O(vec![("tup", J::A(fs))]);
                }
            }
            _ => {}
        }
        match val {
            mir::ConstValue::Indirect { alloc_id, offset } => {
                // Scalars inside memory
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    if let ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) = t.kind() {
                        let te = TypingEnv::fully_monomorphized();
                        if let Ok(l) = tcx.layout_of(te.as_query_input(t)) {
                            if let Ok(sc) = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: l.size }, false) {
                                if let Scalar::Int(_) = sc {
                                    return self.decode(mir::ConstValue::Scalar(sc), t, depth + 1);
                                }
                            }
                        }
                    }
                    if let ty::FnPtr(..) = t.kind() {
                        if let Ok(Scalar::Ptr(p, _)) = a.inner().read_scalar(
                            &tcx,
                            AllocRange { start: offset, size: tcx.data_layout.pointer_size() },
                            true,
                        ) {
                            if let GlobalAlloc::Function { instance } = tcx.global_alloc(p.provenance.alloc_id()) {
                                return J::O(vec![("fnptr", s(self.inst_key(instance)))]);
                            }
                        }
                    }
                }
                J::O(vec![("opaque", s(ts(t)))])
            }
            mir::ConstValue::ZeroSized => J::O(vec![("zst", s(ts(t)))]),
            _ => J::O(vec![("opaque", s(ts(t)))]),
        }
    }
    fn decode_seq(&mut self, alloc: mir::interpret::AllocId, off: rustc_abi::Size, len: u64, elem: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::fully_monomorphized();
        if elem == tcx.types.u8 {
            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc) {
                let b = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + len as usize);
                return J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x)).collect()))]);
            }
        }
        if len > 20000 {
            return J::O(vec![("opaque", s("long"))]);
        }
        let mut v = vec![];
        if let Ok(l) = tcx.layout_of(te.as_query_input(elem)) {
            for i in 0..len {
                let o = off + l.size * i;
                v.push(self.decode(mir::ConstValue::Indirect { alloc_id: alloc, offset: o }, elem, depth + 1));
            }
            return J::O(vec![("seq", J::A(v))]);
        }
        J::O(vec![("opaque", s("seq"))])
    }
    fn thin_ptr(&self, val: mir::ConstValue) -> Option<(mir::interpret::AllocId, rustc_abi::Size)> {
        match val {
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                Some((prov.alloc_id(), off))
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let sz = self.tcx.data_layout.pointer_size();
                    if let Ok(Scalar::Ptr(p, _)) = a.inner().read_scalar(&self.tcx, AllocRange { start: offset, size: sz }, true) {
                        let (prov, off) = p.prov_and_relative_offset();
                        return Some((prov.alloc_id(), off));
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn fat_ptr(&self, val: mir::ConstValue) -> Option<(mir::interpret::AllocId, rustc_abi::Size, u64)> {
        let sz = self.tcx.data_layout.pointer_size();
        match val {
            mir::ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let (a, o) = self.thin_ptr(val)?;
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    if let Ok(Scalar::Int(i)) =
                        m.inner().read_scalar(&self.tcx, AllocRange { start: offset + sz, size: sz }, false)
                    {
                        return Some((a, o, i.to_bits(i.size()) as u64));
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn slice_bytes(&self, val: mir::ConstValue) -> Option<Vec<u8>> {
        let (a, o, len) = match self.fat_ptr(val) {
            Some(x) => x,
            None => {
                // an empty str may have a dangling integer pointer
                return None;
            }
        };
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) {
            return Some(
                m.inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(o.bytes_usize()..o.bytes_usize() + len as usize)
                    .to_vec(),
            );
        }
        None
    }

    // ---------------------------------------------------- callees
    fn callee(&mut self, t: Ty<'tcx>, te: &TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let (d, args) = (*d, args);
                let mut o = vec![
                    ("name", s(pretty(tcx, d))),
                    ("id", s(uid(tcx, d))),
                    ("args", s(self.args_str(args))),
                    ("targs", J::A(args.iter().filter_map(|a| a.as_type()).map(|t| s(ts(t))).collect())),
                    ("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
                ];
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(with_no_trimmed_paths!(tcx.def_path_str(tr)))));
                }
                match Instance::try_resolve(tcx, *te, d, args) {
                    Ok(Some(i)) => {
                        let k = self.inst_key(i);
                        o.push(("inst", s(k)));
                        o.push(("rname", s(pretty(tcx, i.def_id()))));
                        o.push(("rcrate", s(crate_name(tcx, i.def_id()))));
                        if let InstanceKind::Virtual(..) = i.def {
                            o.push(("virtual", J::B(true)));
                        }
                        if tcx.intrinsic(i.def_id()).is_some() {
                            o.push(("intrinsic", s(tcx.item_name(i.def_id()).to_string())));
                        }
                        self.todo.push_back(i);
                    }
                    _ => {}
                }
                J::O(o)
            }
            _ => J::O(vec![("ptr", s(ts(t)))]),
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return J::A(vec![n(p.local.as_u32()), J::A(vec![])]);
        }
        let mut v = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let raw = pt.ty.is_raw_ptr();
                    J::A(vec![s(if raw { "*raw" } else { "*" })])
                }
                ProjectionElem::Field(f, _fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                            if def.is_union() || def.variants().len() > vi.as_usize() {
                                def.variant(vi).fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
                            } else {
                                String::new()
                            }
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let own = match pt.ty.kind() {
                        ty::Adt(def, _) => uid(tcx, def.did()),
                        ty::Closure(d, _) => uid(tcx, *d),
                        _ => String::new(),
                    };
                    J::A(vec![s("f"), n(f.as_u32()), s(name), s(own)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), n(from), n(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => String::new(),
                    };
                    J::A(vec![s("v"), n(vi.as_u32()), s(name)])
                }
                _ => J::A(vec![s("?")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.as_u32()), J::A(v)])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, te: &TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            let cal = self.callee(t, te);
            return J::O(vec![("k", s("const")), ("ty", s(ts(t))), ("val", J::O(vec![("fn", cal)]))]);
        }
        self.note_ty(t);
        let mut o = vec![("k", s("const")), ("ty", s(ts(t)))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_u32())));
            } else {
                o.push(("from", s(uid(tcx, u.def))));
            }
        }
        let v = match c.const_.eval(tcx, *te, c.span) {
            Ok(v) => self.decode(v, t, 0),
            Err(_) => J::O(vec![("uneval", s(with_no_trimmed_paths!(format!("{:?}", c.const_))))]),
        };
        o.push(("val", v));
        J::O(o)
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, te: &TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.konst(c, te),
            #[allow(unreachable_patterns)]
            o => J::O(vec![("k", s("const")), ("ty", s("bool")), ("val", J::O(vec![("runtime", s(format!("{:?}", o)))]))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, te: &TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("o", self.operand(o, body, te))]),
            Rvalue::Repeat(o, c) => J::O(vec![
                ("r", s("repeat")),
                ("o", self.operand(o, body, te)),
                ("n", c.try_to_target_usize(tcx).map(n).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("rawptr")),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{:?}", k))),
                ("o", self.operand(o, body, te)),
                ("from", s(ts(o.ty(&body.local_decls, tcx)))),
                ("ty", s(ts(*t))),
            ]),
            Rvalue::BinaryOp(b, bx) => {
                let (a, c) = &**bx;
                J::O(vec![
                    ("r", s("bin")),
                    ("op", s(format!("{:?}", b))),
                    ("a", self.operand(a, body, te)),
                    ("b", self.operand(c, body, te)),
                    ("ty", s(ts(a.ty(&body.local_decls, tcx)))),
                ])
            }
            Rvalue::UnaryOp(u, o) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", u))),
                ("o", self.operand(o, body, te)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(d, _) => s(uid(tcx, d.did())),
                    _ => J::Null,
                };
                self.note_ty(t);
                J::O(vec![("r", s("discr")), ("p", self.place(p, body)), ("adt", adt)])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, body, te)).collect();
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        o.push(("ak", s("adt")));
                        o.push(("adt", s(uid(tcx, *d))));
                        o.push(("vi", n(vi.as_u32())));
                        o.push(("v", s(def.variant(*vi).name.to_string())));
                        if let Some(a) = active {
                            o.push(("active", n(a.as_u32())));
                        }
                        let names: Vec<J> = def.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect();
                        o.push(("fn", J::A(names)));
                    }
                    AggregateKind::Closure(d, a) => {
                        o.push(("ak", s("closure")));
                        o.push(("id", s(uid(tcx, *d))));
                        if !a.has_param() {
                            let i = Instance::new_raw(*d, a);
                            let k = self.inst_key(i);
                            o.push(("inst", s(k)));
                            self.todo.push_back(i);
                        }
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", s("rawptr"))),
                    _ => o.push(("ak", s("other"))),
                }
                o.push(("fs", J::A(fs)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("r", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))]))])
            }
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("id", s(uid(tcx, *d)))]),
            #[allow(unreachable_patterns)]
            o => J::O(vec![("r", s("other")), ("dbg", s(format!("{:?}", o)))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, te: &TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        let mut upvars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else {
                    upvars.push(J::A(vec![s(v.name.to_string()), self.place(&p, body)]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            self.note_ty(d.ty);
            let mut o = vec![("ty", s(ts(d.ty)))];
            let mut t = d.ty;
            while let ty::Ref(_, i, _) = t.kind() {
                t = *i;
            }
            match t.kind() {
                ty::Adt(def, _) => o.push(("adt", s(uid(tcx, def.did())))),
                ty::Closure(d, _) => o.push(("adt", s(uid(tcx, *d)))),
                _ => {}
            }
            if let Some(nm) = names.get(&l.as_u32()) {
                o.push(("name", s(nm.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p, body);
                        let rj = self.rvalue(r, body, te);
                        st.push(J::O(vec![("s", s("=")), ("p", pj), ("rv", rj), ("at", self.span(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, body);
                        st.push(J::O(vec![
                            ("s", s("setdiscr")),
                            ("p", pj),
                            ("vi", n(variant_index.as_u32())),
                            ("at", self.span(x.source_info.span)),
                        ]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("s", s("intrinsic")), ("dbg", s(format!("{:?}", i)))]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("s", s("dead")), ("l", n(l.as_u32()))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let at = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", n(target.as_u32()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, te);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let arms: Vec<J> =
                        targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_u32())])).collect();
                    J::O(vec![
                        ("t", s("switch")),
                        ("o", o),
                        ("ty", s(ts(dt))),
                        ("arms", J::A(arms)),
                        ("else", n(targets.otherwise().as_u32())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::UnwindResume => J::O(vec![("t", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("terminate"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(place, body);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    J::O(vec![("t", s("drop")), ("p", pj), ("ty", s(ts(t))), ("to", n(target.as_u32()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = self.callee(ft, te);
                    let mut o = vec![("t", s("call")), ("c", c)];
                    if !matches!(ft.kind(), ty::FnDef(..)) {
                        let f = self.operand(func, body, te);
                        o.push(("fo", f));
                    }
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, te)).collect();
                    let at: Vec<J> = args.iter().map(|x| s(ts(x.node.ty(&body.local_decls, tcx)))).collect();
                    o.push(("args", J::A(a)));
                    o.push(("aty", J::A(at)));
                    let d = self.place(destination, body);
                    o.push(("dest", d));
                    o.push(("dty", s(ts(destination.ty(&body.local_decls, tcx).ty))));
                    o.push(("to", target.map(|t| n(t.as_u32())).unwrap_or(J::Null)));
                    J::O(o)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, te);
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("Overflow({:?})", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                        o => (format!("{:?}", o).chars().take(30).collect(), vec![]),
                    };
                    let ops: Vec<J> = ops.into_iter().map(|o| self.operand(o, body, te)).collect();
                    J::O(vec![
                        ("t", s("assert")),
                        ("cond", c),
                        ("exp", J::B(*expected)),
                        ("msg", s(k)),
                        ("ops", J::A(ops)),
                        ("to", n(target.as_u32())),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", n(real_target.as_u32()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", n(real_target.as_u32()))])
                }
                o => J::O(vec![("t", s("other")), ("dbg", s(format!("{:?}", o)))]),
            };
            let mut o = vec![("st", J::A(st)), ("term", tj), ("at", at)];
            if b.is_cleanup {
                o.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(o));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn header(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("name", s(pretty(tcx, d))),
            ("id", s(uid(tcx, d))),
            ("crate", s(crate_name(tcx, d))),
            ("kind", s(format!("{:?}", kind))),
            ("span", self.span(tcx.def_span(d))),
        ];
        if let DefKind::Fn | DefKind::AssocFn = kind {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("inputs", J::A(sig.inputs().iter().map(|t| s(ts(*t))).collect())));
            o.push(("output", s(ts(sig.output()))));
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        if kind == DefKind::Closure {
            o.push(("parent", s(uid(tcx, tcx.parent(d)))));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", s(ts(st))));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(with_no_trimmed_paths!(tr.print_only_trait_path().to_string()))));
                }
                // Was the impl written by a derive (or another attribute macro)?
                o.push(("derived", J::B(tcx.def_span(p).from_expansion())));
            }
        }
        o.push(("exp", J::B(tcx.def_span(d).from_expansion())));
        o
    }

    fn dump_instance(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let key = self.inst_key(i);
        if !self.seen.insert(key.clone()) {
            return;
        }
        let d = i.def_id();
        let local = d.is_local();
        let cn = crate_name(tcx, d);
        let name = with_no_trimmed_paths!(tcx.def_path_str(d));
        if !local {
            let ws = WORKSPACE.contains(&cn.as_str());
            if ws {
                // non-generic functions of workspace crates are in their own crate's dump
                if !tcx.generics_of(d).requires_monomorphization(tcx) && !matches!(tcx.def_kind(d), DefKind::Closure) {
                    return;
                }
            } else if !external_wanted(&name) && !name.starts_with('<') {
                return;
            } else if name.starts_with('<') {
                // trait impls: wanted if the implementing module is
                let mp = with_no_trimmed_paths!(tcx.def_path_str(tcx.parent(d)));
                let path = tcx.def_path(d).to_string_no_crate_verbose();
                let full = format!("{}{}", cn, path);
                if !external_wanted(&full) {
                    let _ = mp;
                    return;
                }
            }
        }
        match i.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..)) => {}
            _ => return,
        }
        if tcx.intrinsic(d).is_some() {
            return;
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => return,
        }
        if !local && !tcx.is_mir_available(d) {
            return;
        }
        let te;
        let body;
        let base = tcx.instance_mir(i.def);
        if i.args.has_param() || base.tainted_by_errors.is_some() {
            te = TypingEnv::post_analysis(tcx, d);
            body = base.clone();
        } else {
            te = TypingEnv::fully_monomorphized();
            body = i.instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, base.clone()));
        }
        let mut o = self.header(d);
        o.push(("poly", J::B(i.args.has_param())));
        o.extend(self.body(&body, &te));
        self.fns.push((key, J::O(o)));
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new(), todo: VecDeque::new(), seen: BTreeSet::new(), fns: vec![] };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut statics = vec![];
        let mut impls = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    cx.todo.push_back(Instance::new_raw(d, args));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    cx.note_ty(t);
                    let mut o = vec![
                        ("id", s(uid(tcx, d))),
                        ("ty", s(ts(t))),
                        ("kind", s("static")),
                        ("mutable", J::B(tcx.static_mutability(d).is_some_and(|m| m.is_mut()))),
                        ("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        let v = mir::ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                        o.push(("val", cx.decode(v, t, 0)));
                    }
                    statics.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    cx.note_ty(t);
                    let mut o = vec![
                        ("id", s(uid(tcx, d))),
                        ("name", s(pretty(tcx, d))),
                        ("ty", s(ts(t))),
                        ("kind", s("const")),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        o.push(("val", cx.decode(v, t, 0)));
                    }
                    statics.push(J::O(o));
                }
                _ => {}
            }
        }
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        s(with_no_trimmed_paths!(tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().print_only_trait_path().to_string()))
                    } else {
                        J::Null
                    };
                    impls.push(J::O(vec![
                        ("self", s(ts(st))),
                        ("trait", tr),
                        ("unsafe", J::B(of_trait && tcx.impl_trait_header(d).safety.is_unsafe())),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    cx.note_ty(t);
                }
                _ => {}
            }
        }
        while let Some(i) = cx.todo.pop_front() {
            cx.dump_instance(i);
        }
        let j = J::O(vec![
            ("crate", s(krate)),
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
            ("adts", J::M(cx.adts.into_iter().collect())),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("fns", J::M(cx.fns)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let out = std::env::var("FACTS_OUT").ok();
    let want = WORKSPACE.contains(&name.as_str());
    match out {
        Some(o) if want => {
            let mut cb = Cb { out: format!("{o}/{name}.json") };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    }
}
