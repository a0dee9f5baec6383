// Static-analysis front end: a rustc driver that dumps the monomorphic MIR
// reachable from the functions of the witness crate (and, for the crate
// aoc_parse itself, a table of its items) as JSON. It decides nothing; the
// engine in /verif/engine does.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{ConstAllocation, GlobalAlloc, Scalar};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------- tiny JSON ----------
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => jstr(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    jstr(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn jstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

fn allowed_std(path: &str) -> bool {
    const ALLOW: &[&str] = &[
        "core::option::", "core::result::", "core::ops::", "core::cmp::", "core::convert::",
        "core::mem::", "core::clone::", "core::default::", "core::bool::", "core::iter::",
        "core::tuple::", "core::array::", "core::slice::iter::", "core::borrow::", "core::any::",
        "core::hint::", "core::pin::", "core::marker::", "core::ptr::read", "core::ptr::write",
        "core::char::methods::", "core::num::", "core::slice::index::", "core::str::traits::",
        "core::intrinsics::", "core::ascii::", "core::slice::cmp::", "core::slice::<impl",
        "core::str::<impl", "core::char::<impl", "core::ops", "core::unit", "core::char::",
        "alloc::boxed::", "alloc::borrow::", "core::error::", "alloc::vec::in_place", "core::range::",
    ];
    ALLOW.iter().any(|a| path.contains(a))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyv: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    instv: Vec<J>,
    queue: Vec<(usize, Instance<'tcx>)>,
    vtables: HashMap<(Ty<'tcx>, Ty<'tcx>), ()>,
    vtv: Vec<J>,
    statics: HashMap<DefId, ()>,
    statv: Vec<J>,
    models: HashMap<String, DefId>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn ty_name<'tcx>(t: Ty<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")))
}
fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    /// The plain body (witness::model) that stands for a library function that loops.
    fn model(&self, d: DefId) -> Option<DefId> {
        let c = self.tcx.crate_name(d.krate);
        if !matches!(c.as_str(), "core" | "std" | "lazy_static" | "once_cell") {
            return None;
        }
        let p = path_of(self.tcx, d);
        let plain: String = { let mut o = String::new(); let mut n = 0; for ch in p.chars() { match ch { '<' => n += 1, '>' => n -= 1, c if n == 0 => o.push(c), _ => {} } } o.replace("::::", "::") };
        let name = match plain.as_str() {
            "lazy_static::lazy::Lazy::get" | "lazy_static::inline_lazy::Lazy::get"
            | "std::sync::once_lock::OnceLock::get_or_init" | "core::cell::once::OnceCell::get_or_init" => "lazy_get".to_string(),
            _ => match p.as_str() {
            "core::iter::traits::collect::FromIterator::from_iter" => "from_iter".to_string(),
            "core::iter::traits::collect::Extend::extend" => "extend".to_string(),
            _ => format!("iter_{}", p.strip_prefix("core::iter::traits::iterator::Iterator::")?),
            },
        };
        self.models.get(&name).copied()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyi(t))
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tyv.len();
        self.tys.insert(t, i);
        self.tyv.push(J::Null);
        let name = ty_name(t);
        let mut o: Vec<(&'static str, J)> = vec![("n", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                let signed = matches!(t.kind(), ty::Int(_));
                o.push(("k", s("int")));
                o.push(("signed", J::B(signed)));
                let bits = self.size(t).map(|s| s.bits()).unwrap_or(64);
                o.push(("bits", J::I(bits as i128)));
            }
            ty::Float(_) => {
                o.push(("k", s("float")));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path_of(self.tcx, def.did()))));
                o.push(("crate", s(self.tcx.crate_name(def.did().krate).to_string())));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                let cargs: Vec<J> = args.consts().map(|c| s(with_no_trimmed_paths!(format!("{c}")))).collect();
                o.push(("cargs", J::A(cargs)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() {
                        let d = def.discriminant_for_variant(self.tcx, vi);
                        let (size, signed) = d.ty.int_size_and_signed(self.tcx);
                        if signed { J::I(size.sign_extend(d.val)) } else { J::I(d.val as i128) }
                    } else {
                        J::I(0)
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.norm(f.ty(self.tcx, args).skip_norm_wip());
                        fs.push(J::A(vec![s(f.name.to_string()), self.ty(ft)]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
                // how it shows
                if self.tcx.crate_name(def.did().krate).as_str() == "aoc_parse" {
                    if let Some(tr) = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display")) {
                        let m = self.tcx.associated_item_def_ids(tr).iter().copied().next();
                        let has = self.tcx.non_blanket_impls_for_ty(tr, t).next().is_some();
                        if let (Some(m), true) = (m, has) {
                            if let Ok(Some(x)) = Instance::try_resolve(self.tcx, self.env, m, self.tcx.mk_args(&[t.into()])) {
                                let id = self.inst(x);
                                o.push(("disp", n(id)));
                            }
                        }
                    }
                }
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("len", match len.try_to_target_usize(self.tcx) { Some(l) => J::I(l as i128), None => J::Null }));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap();
                let inst = Instance::try_resolve(self.tcx, self.env, *d, args).ok().flatten();
                match inst {
                    Some(x) => {
                        let id = self.inst(x);
                        o.push(("fn", n(id)));
                    }
                    None => o.push(("fn", J::Null)),
                }
            }
            ty::FnPtr(..) => {
                o.push(("k", s("fnptr")));
                let sig = t.fn_sig(self.tcx);
                let sig = self.tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = self.norm(*t); self.ty(t) }).collect();
                let out = self.norm(sig.output());
                let out = self.ty(out);
                o.push(("in", J::A(ins)));
                o.push(("out", out));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal() {
                    o.push(("trait", s(path_of(self.tcx, p.def_id()))));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let c = args.as_closure();
                let ups: Vec<J> = c.upvar_tys().iter().map(|t| { let t = self.norm(t); self.ty(t) }).collect();
                o.push(("up", J::A(ups)));
                let kind = c.kind();
                o.push(("ck", s(format!("{kind:?}"))));
                o.push(("crate", s(self.tcx.crate_name(d.krate).to_string())));
                o.push(("span", s(span_str(self.tcx, self.tcx.def_span(*d)))));
                let inst = Instance::resolve_closure(self.tcx, *d, args, kind);
                let id = self.inst(inst);
                o.push(("fn", n(id)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("v", J::A(v)));
            }
            ty::Pat(b, _) => {
                let b = self.ty(*b);
                o.push(("k", s("pat")));
                o.push(("e", b));
            }
            _ => o.push(("k", s("other"))),
        }
        self.tyv[i] = J::O(o);
        i
    }

    fn size(&self, t: Ty<'tcx>) -> Option<Size> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| l.size)
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&i) = self.insts.get(&inst) {
            return i;
        }
        let i = self.instv.len();
        self.insts.insert(inst, i);
        self.instv.push(J::Null);
        self.queue.push((i, inst));
        i
    }

    fn dump_inst(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let def = inst.def_id();
        let krate = tcx.crate_name(def.krate).to_string();
        let path = path_of(tcx, def);
        let full = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(def, inst.args)));
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", n(id)),
            ("path", s(path.clone())),
            ("full", s(full)),
            ("crate", s(krate.clone())),
            ("span", s(span_str(tcx, tcx.def_span(def)))),
        ];
        let a: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::A(a)));
        let cargs: Vec<J> = inst.args.consts().map(|c| s(with_no_trimmed_paths!(format!("{c}")))).collect();
        o.push(("cargs", J::A(cargs)));
        // trait method this implements / is
        if matches!(tcx.def_kind(def), DefKind::AssocFn) {
            let ai = tcx.associated_item(def);
            if let Some(t) = ai.trait_item_def_id() {
                o.push(("tm", s(path_of(tcx, t))));
            }
            let parent = tcx.parent(def);
            match tcx.def_kind(parent) {
                DefKind::Impl { .. } => {
                    let nargs = tcx.generics_of(parent).count();
                    if inst.args.len() >= nargs {
                        let pargs = tcx.mk_args(&inst.args[..nargs]);
                        let st = tcx.type_of(parent).instantiate(tcx, pargs).skip_norm_wip();
                        let st = self.norm(st);
                        let st = self.ty(st);
                        o.push(("self", st));
                    }
                }
                DefKind::Trait { .. } => {
                    let st = inst.args.type_at(0);
                    let st = self.ty(st);
                    o.push(("self", st));
                    o.push(("in_trait", J::B(true)));
                }
                _ => {}
            }
        }
        let mut body = false;
        let kind = match inst.def {
            InstanceKind::Item(_) => {
                body = match krate.as_str() {
                    "witness" | "aoc_parse" => true,
                    "core" | "alloc" | "std" => allowed_std(&path),
                    "thiserror" | "lazy_static" => false,
                    _ => false,
                };
                if body && !tcx.is_mir_available(def) {
                    body = false;
                    o.push(("nomir", J::B(true)));
                }
                if body && matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
                    // constructor functions have a body, too
                }
                "item"
            }
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(_, idx) => {
                o.push(("vidx", n(idx)));
                "virtual"
            }
            InstanceKind::Shim(k) => {
                let ks = format!("{k:?}");
                o.push(("shim", s(ks.clone())));
                body = !ks.starts_with("DropGlue");
                "shim"
            }
        };
        o.push(("kind", s(kind)));
        if body {
            let b = tcx.instance_mir(inst.def);
            let b = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, b.clone()),
            );
            let bj = self.body(&b, inst);
            o.push(("body", bj));
        }
        self.instv[id] = J::O(o);
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                PlaceElem::Deref => s("d"),
                PlaceElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                PlaceElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                PlaceElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                _ => s("x"),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let j = self.constant(&c.const_);
                J::A(vec![s("k"), j])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rt"), s(format!("{r:?}"))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let t = self.norm(c.ty());
        let tj = self.ty(t);
        let v = match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => self.cval(v, t),
            Err(_) => J::O(vec![("err", s("eval"))]),
        };
        let mut o = vec![("t", tj), ("v", v)];
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                o.push(("def", s(path_of(self.tcx, u.def))));
            }
        }
        J::O(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let b = i.to_bits_unchecked();
                match t.kind() {
                    ty::Int(_) => J::O(vec![("i", J::I(i.size().sign_extend(b)))]),
                    ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::RawPtr(..) => {
                        J::O(vec![("i", J::S(b.to_string()))])
                    }
                    _ => {
                        // newtype scalar
                        let size = i.size();
                        let mut bytes = b.to_le_bytes().to_vec();
                        bytes.truncate(size.bytes() as usize);
                        self.decode(&bytes, &[], 0, t, 0)
                    }
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) => self.ptr(prov.alloc_id(), off.bytes(), None, t, 0),
                    _ => {
                        // newtype around a pointer
                        let bytes = vec![0u8; 8];
                        self.decode(&bytes, &[(0, prov.alloc_id(), off.bytes())], 0, t, 0)
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => self.ptr(alloc_id, 0, Some(meta), t, 0),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.global_alloc(alloc_id);
                match a {
                    GlobalAlloc::Memory(m) => self.decode_alloc(m, offset.bytes() as usize, t, 0),
                    _ => J::O(vec![("opaque", s("indirect"))]),
                }
            }
        }
    }

    fn zst(&mut self, t: Ty<'tcx>) -> J {
        self.decode(&[], &[], 0, t, 0)
    }

    fn decode_alloc(&mut self, m: ConstAllocation<'tcx>, off: usize, t: Ty<'tcx>, depth: usize) -> J {
        let a = m.inner();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
        let mut provs = vec![];
        for (o, p) in a.provenance().ptrs().iter() {
            let ob = o.bytes() as usize;
            let mut b = [0u8; 8];
            b.copy_from_slice(&bytes[ob..ob + 8]);
            provs.push((ob, p.alloc_id(), u64::from_le_bytes(b)));
        }
        self.decode(&bytes, &provs, off, t, depth)
    }

    fn ptr(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, meta: Option<u64>, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match self.tcx.global_alloc(aid) {
            GlobalAlloc::Function { instance } => J::O(vec![("fn", n(self.inst(instance)))]),
            GlobalAlloc::Static(d) => {
                self.stat(d);
                J::O(vec![("static", s(path_of(self.tcx, d)))])
            }
            GlobalAlloc::Memory(m) => {
                let pointee = match t.kind() {
                    ty::Ref(_, e, _) => *e,
                    ty::RawPtr(e, _) => *e,
                    _ => return J::O(vec![("opaque", s("ptr"))]),
                };
                match pointee.kind() {
                    ty::Str => {
                        let a = m.inner();
                        let end = off as usize + meta.unwrap_or(0) as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end);
                        J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                    }
                    ty::Slice(e) => {
                        let mut v = vec![];
                        let sz = self.size(*e).map(|s| s.bytes()).unwrap_or(0);
                        for i in 0..meta.unwrap_or(0) {
                            v.push(self.decode_alloc(m, (off + i * sz) as usize, *e, depth + 1));
                        }
                        J::O(vec![("slice", J::A(v))])
                    }
                    ty::Dynamic(..) => J::O(vec![("opaque", s("dynref"))]),
                    _ => {
                        let v = self.decode_alloc(m, off as usize, pointee, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            GlobalAlloc::TypeId { ty } => J::O(vec![("typeid", self.ty(ty))]),
            GlobalAlloc::VTable(t, _) => J::O(vec![("vtable", self.ty(t))]),
        }
    }

    fn decode(&mut self, bytes: &[u8], provs: &[(usize, rustc_middle::mir::interpret::AllocId, u64)], off: usize, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 24 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        let Ok(layout) = tcx.layout_of(self.env.as_query_input(t)) else {
            return J::O(vec![("opaque", s("layout"))]);
        };
        let rd = |o: usize, sz: usize| -> u128 {
            let mut r = 0u128;
            for i in (0..sz).rev() {
                r = (r << 8) | *bytes.get(o + i).unwrap_or(&0) as u128;
            }
            r
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Float(_) => J::O(vec![("i", J::S(rd(off, layout.size.bytes() as usize).to_string()))]),
            ty::Int(_) => J::O(vec![("i", J::I(layout.size.sign_extend(rd(off, layout.size.bytes() as usize))))]),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => {
                if let Some(&(_, aid, po)) = provs.iter().find(|p| p.0 == off) {
                    let meta = if layout.size.bytes() == 16 { Some(rd(off + 8, 8) as u64) } else { None };
                    self.ptr(aid, po, meta, t, depth + 1)
                } else {
                    J::O(vec![("i", J::S(rd(off, 8).to_string()))])
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes() as usize;
                    v.push(self.decode(bytes, provs, off + fo, ft, depth + 1));
                }
                J::O(vec![("agg", J::A(v))])
            }
            ty::Closure(_, args) => {
                let mut v = vec![];
                for (i, ft) in args.as_closure().upvar_tys().iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes() as usize;
                    v.push(self.decode(bytes, provs, off + fo, ft, depth + 1));
                }
                J::O(vec![("agg", J::A(v))])
            }
            ty::Array(e, len) => {
                let l = len.try_to_target_usize(tcx).unwrap_or(0);
                if l > 4096 {
                    return J::O(vec![("opaque", s("bigarray"))]);
                }
                let sz = self.size(*e).map(|s| s.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..l {
                    v.push(self.decode(bytes, provs, off + (i * sz) as usize, *e, depth + 1));
                }
                J::O(vec![("agg", J::A(v))])
            }
            ty::FnDef(..) => J::O(vec![("zst", J::B(true))]),
            ty::Pat(b, _) => self.decode(bytes, provs, off, *b, depth),
            ty::Adt(def, args) => {
                if def.is_union() {
                    // decode every field as seen at offset 0
                    let mut v = vec![];
                    for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                        let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                        let _ = i;
                        v.push(self.decode(bytes, provs, off, ft, depth + 1));
                    }
                    return J::O(vec![("union", J::A(v))]);
                }
                let vi = match &layout.variants {
                    Variants::Empty => return J::O(vec![("opaque", s("empty"))]),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = layout.fields.offset(tag_field.as_usize()).bytes() as usize + off;
                        let tsz = tag.size(&tcx).bytes() as usize;
                        let has_prov = provs.iter().any(|p| p.0 == to);
                        let tv = rd(to, tsz);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = VariantIdx::from_usize(0);
                                for (vi, d) in def.discriminants(tcx) {
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d.val & mask == tv {
                                        r = vi;
                                    }
                                }
                                r
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    *untagged_variant
                                } else {
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= cnt {
                                        VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                };
                let v = def.variant(vi);
                let vl = match &layout.variants {
                    Variants::Multiple { variants, .. } => Some(variants[vi].field_offsets.clone()),
                    _ => None,
                };
                let mut fs = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                    let fo = match &vl {
                        Some(o) => o[FieldIdx::from_usize(i)].bytes() as usize,
                        None => match &layout.fields {
                            FieldsShape::Primitive => 0,
                            _ => layout.fields.offset(i).bytes() as usize,
                        },
                    };
                    fs.push(self.decode(bytes, provs, off + fo, ft, depth + 1));
                }
                J::O(vec![("adt", n(vi.as_usize())), ("f", J::A(fs))])
            }
            _ => J::O(vec![("opaque", s("kind"))]),
        }
    }

    fn stat(&mut self, d: DefId) {
        if self.statics.insert(d, ()).is_some() {
            return;
        }
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = self.norm(t);
        let tj = self.ty(t);
        let v = match self.tcx.eval_static_initializer(d) {
            Ok(m) => self.decode_alloc(m, 0, t, 0),
            Err(_) => J::Null,
        };
        self.statv.push(J::O(vec![("path", s(path_of(self.tcx, d))), ("t", tj), ("v", v)]));
    }

    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        // find the concrete pointee and the dyn pointee
        let tcx = self.tcx;
        fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(*e),
                ty::Adt(def, args) if def.is_box() => Some(args.type_at(0)),
                ty::Adt(_, args) => args.types().next().and_then(|t| match t.kind() {
                    ty::Ref(..) | ty::RawPtr(..) => pointee(t),
                    ty::Adt(d, _) if d.is_box() => pointee(t),
                    _ => Some(t),
                }),
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return };
        let ty::Dynamic(preds, _) = t.kind() else { return };
        if matches!(f.kind(), ty::Dynamic(..)) {
            return;
        }
        if self.vtables.insert((f, t), ()).is_some() {
            return;
        }
        let Some(p) = preds.principal() else { return };
        let p = tcx.instantiate_bound_regions_with_erased(p);
        let tr = p.with_self_ty(tcx, f);
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut v = vec![];
        for e in tcx.vtable_entries(tr).iter() {
            v.push(match e {
                ty::VtblEntry::Method(i) => n(self.inst(*i)),
                _ => J::Null,
            });
        }
        let fj = self.ty(f);
        let tj = self.ty(t);
        self.vtv.push(J::O(vec![("t", fj), ("dyn", tj), ("m", J::A(v))]));
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let l = match c.try_to_target_usize(self.tcx) { Some(l) => J::I(l as i128), None => J::Null };
                J::A(vec![s("repeat"), self.operand(o), l])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path_of(self.tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let t = *t;
                let mut ks = format!("{k:?}");
                if let CastKind::PointerCoercion(c, _) = k {
                    ks = format!("{c:?}");
                    if ks.contains("Unsize") {
                        self.unsize(from, t);
                    }
                    if ks.contains("ReifyFnPointer") {
                        if let ty::FnDef(d, args) = from.kind() {
                            let args = args.no_bound_vars().unwrap();
                            if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, args) {
                                let id = self.inst(i);
                                return J::A(vec![s("fnptr"), n(id)]);
                            }
                        }
                    }
                    if ks.contains("ClosureFnPointer") {
                        if let ty::Closure(d, args) = from.kind() {
                            let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                            let id = self.inst(i);
                            return J::A(vec![s("fnptr"), n(id)]);
                        }
                    }
                }
                let f = self.ty(from);
                let tt = self.ty(t);
                J::A(vec![s("cast"), s(ks), self.operand(o), f, tt])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&ab.0), self.operand(&ab.1), t])
            }
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(a)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("disc"), self.place(p), t])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        let t = self.ty(t);
                        J::A(vec![s("adt"), t, n(vi.as_usize()), match fi { Some(f) => n(f.as_usize()), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.norm(t);
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let line = tcx.sess.source_map().lookup_char_pos(x.source_info.span.lo()).line;
                        st.push(J::A(vec![s("="), self.place(&pr.0), self.rvalue(&pr.1, b), n(line)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place), n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        other => st.push(J::A(vec![s("other"), s(format!("{other:?}"))])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_str(tcx, t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        let val = if dt.is_signed() { self.size(dt).unwrap().sign_extend(val) } else { val as i128 };
                        v.push(J::A(vec![J::I(val), n(t.as_usize())]));
                    }
                    let dt = self.ty(dt);
                    J::A(vec![s("switch"), self.operand(discr), J::A(v), n(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    let t = self.norm(t);
                    let t = self.ty(t);
                    J::A(vec![s("drop"), self.place(place), n(target.as_usize()), t])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let fj = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap();
                            let d = &self.model(*d).unwrap_or(*d);
                            match Instance::try_resolve(tcx, self.env, *d, a) {
                                Ok(Some(i)) => J::A(vec![s("fn"), n(self.inst(i))]),
                                _ => J::A(vec![s("unresolved"), s(path_of(tcx, *d))]),
                            }
                        }
                        _ => J::A(vec![s("ptr"), self.operand(func)]),
                    };
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                    J::A(vec![
                        s("call"),
                        fj,
                        J::A(a),
                        self.place(destination),
                        match target { Some(t) => n(t.as_usize()), None => J::Null },
                        s(sp.clone()),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), s(msg_kind(msg)), n(target.as_usize()), s(sp.clone())])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("other"), s("tailcall")]),
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            let cleanup = bb.is_cleanup;
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(cleanup)), ("sp", s(sp))]));
        }
        let mut names = vec![];
        for d in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(d.name.to_string())]));
                }
            }
        }
        let _ = inst;
        J::O(vec![
            ("argc", n(b.arg_count)),
            ("spread", match b.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("bb", J::A(blocks)),
        ])
    }
}

fn msg_kind(m: &AssertKind<Operand<'_>>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "bounds".into(),
        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
        AssertKind::OverflowNeg(_) => "overflow neg".into(),
        AssertKind::DivisionByZero(_) => "div0".into(),
        AssertKind::RemainderByZero(_) => "rem0".into(),
        _ => "other".into(),
    }
}

// ---------- witness crate: everything reachable from its w_* functions ----------
fn dump_witness(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        tyv: vec![],
        insts: HashMap::new(),
        instv: vec![],
        queue: vec![],
        vtables: HashMap::new(),
        vtv: vec![],
        statics: HashMap::new(),
        statv: vec![],
        models: HashMap::new(),
    };
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn) && path_of(tcx, d).contains("model::") {
            cx.models.insert(tcx.item_name(d).to_string(), d);
        }
    }
    let mut roots = vec![];
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) {
            continue;
        }
        let name = tcx.item_name(d).to_string();
        if !(name.len() > 2 && name.as_bytes()[1] == b'_' && path_of(tcx, d).contains("_w::")) {
            continue;
        }
        if tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let i = Instance::mono(tcx, d);
        let id = cx.inst(i);
        roots.push((name, path_of(tcx, d), id));
    }
    roots.sort();
    while let Some((id, i)) = cx.queue.pop() {
        cx.dump_inst(id, i);
    }
    let mut o = String::new();
    o.push_str("{\"roots\":");
    J::A(roots.iter().map(|(a, b, c)| J::A(vec![s(a.clone()), s(b.clone()), n(*c)])).collect()).w(&mut o);
    o.push_str(",\n\"types\":[");
    for (i, t) in cx.tyv.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        t.w(&mut o);
    }
    o.push_str("],\n\"fns\":[");
    for (i, t) in cx.instv.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        t.w(&mut o);
    }
    o.push_str("],\n\"vtables\":");
    J::A(cx.vtv.clone()).w(&mut o);
    o.push_str(",\n\"statics\":");
    J::A(cx.statv.clone()).w(&mut o);
    o.push_str("}\n");
    std::fs::write(out, o).unwrap();
}

// ---------- aoc_parse itself: table of its items ----------
/// The functions a body mentions other than by calling them, and the statics it mentions.
struct Vals<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    b: &'a Body<'tcx>,
    fns: Vec<String>,
    ptrs: Vec<String>,
    st: Vec<String>,
}
impl<'a, 'tcx> Vals<'a, 'tcx> {
    fn ty(&mut self, t: Ty<'tcx>, ptr: bool) {
        for x in t.walk() {
            if let ty::GenericArgKind::Type(t) = x.kind() {
                let p = match t.kind() {
                    ty::FnDef(d, _) => path_of(self.tcx, *d),
                    ty::Closure(d, _) => path_of(self.tcx, *d),
                    _ => continue,
                };
                self.fns.push(p.clone());
                if ptr {
                    self.ptrs.push(p);
                }
            }
        }
    }
}
impl<'a, 'tcx> Visitor<'tcx> for Vals<'a, 'tcx> {
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::Call { func: Operand::Constant(c), args, .. } = &t.kind {
            if let ty::FnDef(_, a) = c.const_.ty().kind() {
                for t in a.no_bound_vars().unwrap().types() {
                    self.ty(t, false);
                }
            }
            for a in args.iter() {
                self.visit_operand(&a.node, l);
            }
        } else {
            self.super_terminator(t, l);
        }
    }
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
        self.ty(c.const_.ty(), false);
        if let Some(sd) = c.check_static_ptr(self.tcx) {
            self.st.push(path_of(self.tcx, sd));
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        if let Rvalue::Cast(k, o, _) = r {
            let k = format!("{k:?}");
            if k.contains("FnPointer") {
                let t = o.ty(&self.b.local_decls, self.tcx);
                self.ty(t, true);
            }
        }
        if let Rvalue::Aggregate(k, _) = r {
            if let AggregateKind::Closure(d, _) = **k {
                self.fns.push(path_of(self.tcx, d));
            }
        }
        self.super_rvalue(r, l);
    }
}
fn dump_items<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut fns = vec![];
    let mut statics = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut inits = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                statics.push(J::O(vec![
                    ("path", s(path_of(tcx, d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("ty", s(ty_name(t))),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("span", s(span_str(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                let mut fs = vec![];
                for v in def.variants().iter() {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(J::A(vec![s(f.name.to_string()), s(ty_name(ft)), J::B(ft.is_freeze(tcx, env))]));
                    }
                }
                adts.push(J::O(vec![
                    ("path", s(path_of(tcx, d))),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("f", J::A(fs)),
                    ("span", s(span_str(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                impls.push(J::O(vec![
                    ("trait", s(path_of(tcx, tr.def_id))),
                    ("self", s(ty_name(tr.self_ty()))),
                    ("unsafe", J::B(false)),
                    ("span", s(span_str(tcx, tcx.def_span(d)))),
                ]));
            }
            _ => {}
        }
    }
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let mut vals = Vals { tcx, b: tcx.mir_for_ctfe(d), fns: vec![], ptrs: vec![], st: vec![] };
                vals.visit_body(vals.b);
                for b in tcx.promoted_mir(d).iter() {
                    vals.b = b;
                    vals.visit_body(b);
                }
                inits.push(J::O(vec![
                    ("path", s(path_of(tcx, d))),
                    ("fns", J::A(vals.fns.into_iter().map(s).collect())),
                    ("ptrs", J::A(vals.ptrs.into_iter().map(s).collect())),
                    ("statics", J::A(vals.st.into_iter().map(s).collect())),
                ]));
            }
            continue;
        }
        let b = tcx.optimized_mir(d);
        let mut vals = Vals { tcx, b, fns: vec![], ptrs: vec![], st: vec![] };
        vals.visit_body(b);
        for b in tcx.promoted_mir(d).iter() {
            vals.b = b;
            vals.visit_body(b);
        }
        let mut calls = vec![];
        let mut tls = vec![];
        let mut unsafe_op = vec![];
        let mut fieldw = vec![];
        for bb in b.basic_blocks.iter() {
            for x in bb.statements.iter() {
                if let StatementKind::Assign(pr) = &x.kind {
                    if let Rvalue::ThreadLocalRef(t) = &pr.1 {
                        tls.push(s(path_of(tcx, *t)));
                    }
                    // field writes / mutable borrows of ADT fields
                    let mut note = |p: &Place<'tcx>, how: &str| {
                        let mut base = b.local_decls[p.local].ty;
                        let mut pt = rustc_middle::mir::PlaceTy::from_ty(base);
                        for e in p.projection.iter() {
                            if let PlaceElem::Field(f, _) = e {
                                if let ty::Adt(def, _) = pt.ty.kind() {
                                    if !def.is_enum() && !def.is_union() && def.did().krate == LOCAL_CRATE {
                                        let nm = def.non_enum_variant().fields[f].name.to_string();
                                        fieldw.push(J::A(vec![s(path_of(tcx, def.did())), s(nm), s(how)]));
                                    }
                                }
                            }
                            pt = pt.projection_ty(tcx, e);
                            base = pt.ty;
                        }
                        let _ = base;
                    };
                    if !pr.0.projection.is_empty() {
                        note(&pr.0, "assign");
                    }
                    if let Rvalue::Ref(_, BorrowKind::Mut { .. }, p) = &pr.1 {
                        note(p, "mutref");
                    }
                    if let Rvalue::RawPtr(k, p) = &pr.1 {
                        note(p, "raw");
                        if matches!(k, RawPtrKind::Mut) {
                            unsafe_op.push(s("raw mut borrow"));
                        }
                    }
                    if let Rvalue::Cast(k, o, t) = &pr.1 {
                        let k = format!("{k:?}");
                        if k.contains("PointerExpose") || k.contains("PointerWithExposed") || k.contains("Transmute") {
                            unsafe_op.push(s(format!("cast {k} to {}", ty_name(*t))));
                        }
                        let _ = o;
                    }
                }
            }
            let t = bb.terminator();
            if let TerminatorKind::Call { func, .. } = &t.kind {
                let ft = func.ty(&b.local_decls, tcx);
                let sp = span_str(tcx, t.source_info.span);
                match ft.kind() {
                    ty::FnDef(cd, a) => {
                        let a = a.no_bound_vars().unwrap();
                        let mut p = path_of(tcx, *cd);
                        let targs: Vec<J> = a.types().map(|t| s(ty_name(t))).collect();
                        let mut resolved = J::Null;
                        let env = TypingEnv::post_analysis(tcx, d);
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *cd, tcx.erase_and_anonymize_regions(a)) {
                            let rp = path_of(tcx, i.def_id());
                            if rp != p {
                                resolved = s(rp);
                            }
                        }
                        let sig = tcx.fn_sig(*cd).skip_binder();
                        let uns = !sig.safety().is_safe();
                        if uns {
                            p.push_str(" [unsafe]");
                        }
                        let caps: Vec<J> = a
                            .types()
                            .filter_map(|t| match t.kind() {
                                ty::Closure(_, ca) => Some(s(format!("{}", ca.as_closure().upvar_tys().len()))),
                                _ => None,
                            })
                            .collect();
                        calls.push(J::A(vec![s(p), J::A(targs), resolved, s(sp), s(tcx.crate_name(cd.krate).to_string()), J::A(caps)]));
                    }
                    _ => calls.push(J::A(vec![s("<fn pointer>"), J::A(vec![]), J::Null, s(sp), s(""), J::A(vec![])])),
                }
            }
        }
        let st: Vec<J> = vals.st.into_iter().map(s).collect();
        fns.push(J::O(vec![
            ("path", s(path_of(tcx, d))),
            ("kind", s(format!("{dk:?}"))),
            ("span", s(span_str(tcx, tcx.def_span(d)))),
            ("unsafe", J::B(matches!(dk, DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe())),
            ("calls", J::A(calls)),
            ("statics", J::A(st)),
            ("tls", J::A(tls)),
            ("uns", J::A(unsafe_op)),
            ("fw", J::A(fieldw)),
            ("fns", J::A(vals.fns.into_iter().map(s).collect())),
            ("ptrs", J::A(vals.ptrs.into_iter().map(s).collect())),
        ]));
    }
    // unsafe blocks in the source
    let mut o = String::new();
    J::O(vec![
        ("fns", J::A(fns)),
        ("inits", J::A(inits)),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
    ])
    .w(&mut o);
    std::fs::write(out, o).unwrap();
}

struct Cb {
    which: String,
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.which == "witness" {
            dump_witness(tcx, &format!("{}/witness.json", self.out));
        } else {
            dump_items(tcx, &format!("{}/items.json", self.out));
        }
        Compilation::Continue
    }
}

fn main() {
    // invoked by cargo as: driver rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let out = std::env::var("AOCV_OUT").unwrap_or_default();
    struct Nothing;
    impl Callbacks for Nothing {}
    let code = if !out.is_empty() && (name == "witness" || name == "aoc_parse") {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { which: name, out }))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nothing))
    };
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 })
}
