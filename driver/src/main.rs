//! Dumps the type-checked program of a crate (MIR as built, with resolved
//! callees, evaluated constants, ADT and impl tables) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

/// Minimal JSON value
#[derive(Clone)]
enum J {
    S(String),
    N(i128),
    U(u128),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
    Null,
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::U(x as u128) }
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::S(x) => esc(x, o),
            J::N(x) => { let _ = write!(o, "{}", x); }
            J::U(x) => { let _ = write!(o, "{}", x); }
            J::B(x) => o.push_str(if *x { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.out(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.out(o); }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.out(o); }
                o.push('}');
            }
        }
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    adt_queue: VecDeque<DefId>,
    adt_seen: HashSet<DefId>,
    consts: VecDeque<DefId>,
}

impl<'tcx> Dumper<'tcx> {
    fn id(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    /// Path of an item as a user would name it: crate::mod::Item, Trait methods
    /// as Trait::method, inherent methods as Type::method
    fn name(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    if tcx.impl_opt_trait_ref(imp).is_none() {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let base = match st.kind() {
                            ty::Adt(a, _) => self.id(a.did()),
                            ty::Slice(_) => "slice".to_string(),
                            ty::Str => "str".to_string(),
                            ty::Array(..) => "array".to_string(),
                            _ => with_no_trimmed_paths!(format!("{}", st)),
                        };
                        return format!("{}::{}", base, tcx.item_name(d));
                    }
                }
                self.id(d)
            }
            _ => self.id(d),
        }
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("k", s("cparam")), ("i", n(p.index as usize)), ("n", s(p.name.as_str()))]),
            ty::ConstKind::Value(_) => {
                if let Some(v) = c.try_to_target_usize(self.tcx) {
                    return J::O(vec![("k", s("cval")), ("v", J::U(v as u128))]);
                }
                J::O(vec![("k", s("cother")), ("s", s(format!("{:?}", c)))])
            }
            _ => {
                if let ty::ConstKind::Alias(_, u) = c.kind() {
                    let _ = u;
                }
                let norm = self.tcx.try_normalize_erasing_regions(
                    TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(c));
                if let Ok(nc) = norm {
                    if let Some(v) = nc.try_to_target_usize(self.tcx) {
                        return J::O(vec![("k", s("cval")), ("v", J::U(v as u128))]);
                    }
                }
                J::O(vec![("k", s("cother")), ("s", s(format!("{:?}", c)))])
            }
        }
    }
    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d) { self.adt_queue.push_back(d); }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => J::O(vec![("k", s("num")), ("n", s(format!("{}", t)))]),
            ty::Adt(a, args) => {
                self.adt(a.did());
                let args = self.args(args);
                J::O(vec![("k", s("adt")), ("p", s(self.id(a.did()))), ("a", args)])
            }
            ty::Ref(_, t, m) => { let t = self.ty(*t); J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", t)]) }
            ty::RawPtr(t, m) => { let t = self.ty(*t); J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", t)]) }
            ty::Slice(t) => { let t = self.ty(*t); J::O(vec![("k", s("slice")), ("t", t)]) }
            ty::Array(t, c) => { let t = self.ty(*t); let c = self.cst(*c); J::O(vec![("k", s("array")), ("t", t), ("n", c)]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| self.ty(x)).collect(); J::O(vec![("k", s("tuple")), ("a", J::A(v))]) }
            ty::Param(p) => J::O(vec![("k", s("param")), ("i", n(p.index as usize)), ("n", s(p.name.as_str()))]),
            ty::FnDef(d, args) => {
                let a = args.skip_binder();
                let args = self.args(a);
                let name = self.name(*d);
                J::O(vec![("k", s("fndef")), ("p", s(self.id(*d))), ("name", s(name)), ("a", args)])
            }
            ty::Closure(d, args) => {
                let args = self.args(args);
                J::O(vec![("k", s("closure")), ("p", s(self.id(*d))), ("a", args)])
            }
            ty::Coroutine(d, args) => {
                let args = self.args(args);
                J::O(vec![("k", s("coroutine")), ("p", s(self.id(*d))), ("a", args)])
            }
            ty::Alias(_, a) => {
                let args = self.args(a.args);
                let did = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                let did: DefId = did;
                J::O(vec![("k", s("alias")), ("p", s(self.id(did))), ("a", args)])
            }
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(with_no_trimmed_paths!(format!("{}", t))))]),
            _ => J::O(vec![("k", s("other")), ("s", s(with_no_trimmed_paths!(format!("{}", t))))]),
        }
    }
    fn dump_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<u128> = if a.is_enum() { a.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![] };
        for (i, v) in a.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                // field types of foreign ADTs are only needed one level deep
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tj = if d.is_local() || kind == "enum" { self.ty(t) } else { J::Null };
                fs.push(J::O(vec![("n", s(f.name.as_str())), ("t", tj),
                    ("pub", J::B(f.vis.is_public()))]));
            }
            vs.push(J::O(vec![
                ("n", s(v.name.as_str())),
                ("d", if let Some(x) = discrs.get(i) { J::U(*x) } else { J::Null }),
                ("f", J::A(fs)),
            ]));
        }
        let id = self.id(d);
        let vis = tcx.visibility(d).is_public();
        self.adts.insert(id, J::O(vec![("kind", s(kind)), ("v", J::A(vs)), ("pub", J::B(vis)), ("local", J::B(d.is_local()))]));
    }
    fn alloc_bytes(&self, aid: rustc_middle::mir::interpret::AllocId) -> Option<(Vec<u8>, bool)> {
        match self.tcx.global_alloc(aid) {
            GlobalAlloc::Memory(m) => {
                let inner = m.inner();
                let has_ptr = !inner.provenance().ptrs().is_empty();
                let len = inner.len();
                let bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..len).to_vec();
                Some((bytes, has_ptr))
            }
            _ => None,
        }
    }
    fn bytes_json(b: &[u8]) -> J { J::A(b.iter().map(|x| J::U(*x as u128)).collect()) }

    /// Decode a constant of type t stored at offset off of alloc
    fn decode_mem(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes() as usize;
        let GlobalAlloc::Memory(m) = tcx.global_alloc(aid) else { return None };
        let inner = m.inner();
        if off + size > inner.len() { return None; }
        let raw = inner.inspect_with_uninit_and_ptr_outside_interpreter(off..off + size).to_vec();
        let int = |r: &[u8]| { let mut v = 0u128; for (i, b) in r.iter().enumerate() { if i < 16 { v |= (*b as u128) << (8 * i); } } v };
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => { let tj = self.ty(t); Some(J::O(vec![("k", s("int")), ("v", J::U(int(&raw))), ("t", tj)])) }
            ty::Int(_) => {
                let v = int(&raw); let bits = size * 8;
                let sv = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                let tj = self.ty(t);
                Some(J::O(vec![("k", s("int")), ("v", J::N(sv)), ("t", tj)]))
            }
            ty::Array(et, c) => {
                let cnt = c.try_to_target_usize(tcx)? as usize;
                let es = tcx.layout_of(env.as_query_input(*et)).ok()?.size.bytes() as usize;
                if cnt > 4096 { return None; }
                let mut v = vec![];
                for i in 0..cnt { v.push(self.decode_mem(aid, off + i * es, *et, env, depth + 1)?); }
                let tj = self.ty(t);
                Some(J::O(vec![("k", s("arr")), ("v", J::A(v)), ("t", tj)]))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, et) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes() as usize;
                    v.push(self.decode_mem(aid, off + fo, et, env, depth + 1)?);
                }
                Some(J::O(vec![("k", s("tup")), ("v", J::A(v))]))
            }
            ty::Adt(a, args) if a.is_struct() => {
                let mut v = vec![];
                let var = a.non_enum_variant();
                for (i, f) in var.fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).ok()?;
                    let fo = lay.fields.offset(i).bytes() as usize;
                    v.push(self.decode_mem(aid, off + fo, ft, env, depth + 1)?);
                }
                let tj = self.ty(t);
                Some(J::O(vec![("k", s("struct")), ("v", J::A(v)), ("t", tj)]))
            }
            ty::Adt(a, _) if a.is_enum() && a.variants().iter().all(|v| v.fields.is_empty()) => {
                let v = int(&raw);
                for (vi, d) in a.discriminants(tcx) {
                    if d.val == v {
                        let tj = self.ty(t);
                        return Some(J::O(vec![("k", s("variant")), ("i", n(vi.as_usize())), ("t", tj)]));
                    }
                }
                None
            }
            ty::Ref(_, it, _) => {
                let (po, prov) = inner.provenance().ptrs().iter().find(|(o, _)| o.bytes() as usize == off).map(|(o, p)| (*o, *p))?;
                let _ = po;
                let target = prov.alloc_id();
                let base = int(&raw[..8.min(raw.len())]) as usize;
                match it.kind() {
                    ty::Str => {
                        let len = int(&raw[8..16]) as usize;
                        let (b, _) = self.alloc_bytes(target)?;
                        let st = String::from_utf8_lossy(&b[base..base + len]).to_string();
                        Some(J::O(vec![("k", s("str")), ("v", s(st))]))
                    }
                    ty::Slice(et) => {
                        let len = int(&raw[8..16]) as usize;
                        let es = tcx.layout_of(env.as_query_input(*et)).ok()?.size.bytes() as usize;
                        let mut v = vec![];
                        for i in 0..len { v.push(self.decode_mem(target, base + i * es, *et, env, depth + 1)?); }
                        let tj = self.ty(*it);
                        Some(J::O(vec![("k", s("arr")), ("v", J::A(v)), ("t", tj)]))
                    }
                    _ => match tcx.global_alloc(target) {
                        GlobalAlloc::Static(d) => Some(J::O(vec![("k", s("static")), ("p", s(self.id(d)))])),
                        _ => self.decode_mem(target, base, *it, env, depth + 1),
                    },
                }
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            let tj = self.ty(t);
            return J::O(vec![("k", s("fn")), ("t", tj)]);
        }
        let tj = self.ty(t);
        let mut named: Option<J> = None;
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let args = self.args(u.args);
                let nm = self.name(u.def);
                named = Some(J::O(vec![("p", s(self.id(u.def))), ("name", s(nm)), ("a", args),
                    ("promoted", if let Some(p) = u.promoted { n(p.as_usize()) } else { J::Null })]));
            }
            Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    return J::O(vec![("k", s("cparam")), ("i", n(p.index as usize)), ("n", s(p.name.as_str())), ("t", tj)]);
                }
            }
            _ => {}
        }
        let mut val = J::Null;
        let generic = rustc_middle::ty::TypeVisitableExt::has_param(&c.const_);
        if !generic {
            if let Ok(cv) = c.const_.eval(tcx, env, c.span) {
                val = self.constval(cv, t, env);
            }
        }
        let mut o = vec![("k", s("const")), ("t", tj), ("v", val)];
        if let Some(nm) = named { o.push(("named", nm)); }
        if generic { o.push(("generic", J::B(true))); }
        J::O(o)
    }
    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => J::O(vec![("k", s("zst"))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                if let ty::Int(_) = t.kind() {
                    return J::O(vec![("k", s("int")), ("v", J::N(i.to_int(i.size())))]);
                }
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Adt(a, _) if a.is_enum() => {
                        if a.variants().iter().all(|v| v.fields.is_empty()) {
                            for (vi, d) in a.discriminants(tcx) {
                                if d.val == bits { return J::O(vec![("k", s("variant")), ("i", n(vi.as_usize()))]); }
                            }
                        }
                        J::Null
                    }
                    ty::Adt(a, args) if a.is_struct() => {
                        // newtype around a scalar
                        let f = a.non_enum_variant().fields.iter().collect::<Vec<_>>();
                        if f.len() == 1 {
                            let ft = f[0].ty(tcx, args).skip_norm_wip();
                            let inner = self.constval(cv, ft, env);
                            return J::O(vec![("k", s("struct")), ("v", J::A(vec![inner]))]);
                        }
                        J::O(vec![("k", s("raw")), ("v", J::U(bits))])
                    }
                    ty::Array(et, _) => {
                        let b: Vec<u8> = bits.to_le_bytes()[..i.size().bytes() as usize].to_vec();
                        if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                            return J::O(vec![("k", s("bytes")), ("v", Self::bytes_json(&b))]);
                        }
                        J::O(vec![("k", s("raw")), ("v", J::U(bits))])
                    }
                    _ => J::O(vec![("k", s("int")), ("v", J::U(bits))]),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => J::O(vec![("k", s("static")), ("p", s(self.id(d)))]),
                    GlobalAlloc::Function { instance } => {
                        J::O(vec![("k", s("fnptr")), ("p", s(self.id(instance.def_id())))])
                    }
                    GlobalAlloc::Memory(_) => {
                        if let ty::Ref(_, it, _) = t.kind() {
                            if let Some(j) = self.decode_mem(aid, off.bytes() as usize, *it, env, 0) { return j; }
                        }
                        if let Some((b, _)) = self.alloc_bytes(aid) {
                            return J::O(vec![("k", s("rawbytes")), ("v", Self::bytes_json(&b))]);
                        }
                        J::Null
                    }
                    _ => J::Null,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some((b, _)) = self.alloc_bytes(alloc_id) {
                    if let ty::Ref(_, it, _) = t.kind() {
                        if it.is_str() {
                            let st = String::from_utf8_lossy(&b[..(meta as usize).min(b.len())]).to_string();
                            return J::O(vec![("k", s("str")), ("v", s(st))]);
                        }
                        if let ty::Slice(et) = it.kind() {
                            let mut v = vec![];
                            if let Ok(l) = tcx.layout_of(env.as_query_input(*et)) {
                                let es = l.size.bytes() as usize;
                                for i in 0..meta as usize {
                                    match self.decode_mem(alloc_id, i * es, *et, env, 0) { Some(j) => v.push(j), None => return J::Null }
                                }
                                return J::O(vec![("k", s("arr")), ("v", J::A(v))]);
                            }
                        }
                    }
                }
                J::Null
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.decode_mem(alloc_id, offset.bytes() as usize, t, env, 0).unwrap_or(J::Null)
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("field"), n(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("cindex"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("subslice"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), n(v.as_usize())]),
                _ => J::A(vec![s("opaque")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("copy"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("move"), p]) }
            Operand::Constant(c) => { let c = self.constant(c, env); J::A(vec![s("const"), c]) }
            _ => J::A(vec![s("rtchecks")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let o = self.op(o, env); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => { let o = self.op(o, env); let c = self.cst(*c); J::A(vec![s("repeat"), o, c]) }
            Rvalue::Ref(_, k, p) => {
                let m = match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" };
                let p = self.place(p);
                J::A(vec![s("ref"), s(m), p])
            }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), p]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); J::A(vec![s("ref"), s("raw"), p]) }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.id(*d))]),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o, env);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(b, ab) => { let x = self.op(&ab.0, env); let y = self.op(&ab.1, env); J::A(vec![s("bin"), s(format!("{:?}", b)), x, y]) }
            Rvalue::UnaryOp(u, o) => { let o = self.op(o, env); J::A(vec![s("un"), s(format!("{:?}", u)), o]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![s("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let v = J::A(ops.iter().map(|o| self.op(o, env)).collect());
                let k = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::O(vec![("k", s("array")), ("t", t)]) }
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        self.adt(*d);
                        let a = self.args(args);
                        J::O(vec![("k", s("adt")), ("p", s(self.id(*d))), ("v", n(vi.as_usize())), ("a", a)])
                    }
                    AggregateKind::Closure(d, args) => { let a = self.args(args); J::O(vec![("k", s("closure")), ("p", s(self.id(*d))), ("a", a)]) }
                    AggregateKind::Coroutine(d, args) => { let a = self.args(args); J::O(vec![("k", s("coroutine")), ("p", s(self.id(*d))), ("a", a)]) }
                    AggregateKind::CoroutineClosure(d, args) => { let a = self.args(args); J::O(vec![("k", s("coroutine")), ("p", s(self.id(*d))), ("a", a)]) }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                };
                J::A(vec![s("agg"), k, v])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("copy"), p])]) }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.op(o, env); J::A(vec![s("use"), o]) }
        }
    }
    /// The callee a call resolves to in the caller's environment
    fn callee(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let args = self.args(a);
            let name = self.name(*d);
            let mut o = vec![("p", s(self.id(*d))), ("name", s(name)), ("a", args)];
            if let Some(tr) = tcx.trait_of_assoc(*d) {
                o.push(("trait", s(self.id(tr))));
                o.push(("m", s(tcx.item_name(*d).as_str())));
                let erased = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, *d, erased))).unwrap_or(Ok(None)) {
                    let rd = inst.def_id();
                    if rd != *d {
                        let ra = self.args(inst.args);
                        let rn = self.name(rd);
                        o.push(("res", J::O(vec![("p", s(self.id(rd))), ("name", s(rn)), ("a", ra), ("local", J::B(rd.is_local()))])));
                    }
                }
            }
            J::O(o)
        } else {
            let tj = self.ty(t);
            J::O(vec![("ptr", tj)])
        }
    }
    fn body(&mut self, d: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let mut locals = vec![];
        for l in b.local_decls.iter() { locals.push(self.ty(l.ty)); }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(J::A(vec![s(v.name.as_str()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rv(&pr.1, env);
                        st.push(J::A(vec![s("assign"), p, r, s(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, env);
                    let v = targets.iter().map(|(v, t)| J::A(vec![J::U(v), n(t.as_usize())])).collect();
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dtj = self.ty(dt);
                    J::A(vec![s("switch"), o, J::A(v), n(targets.otherwise().as_usize()), dtj])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { target, place, .. } => { let p = self.place(place); J::A(vec![s("drop"), n(target.as_usize()), p]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let c = self.callee(ft, env);
                    let fo = self.op(func, env);
                    let a = J::A(args.iter().map(|x| self.op(&x.node, env)).collect());
                    let at = J::A(args.iter().map(|x| { let t = x.node.ty(&b.local_decls, tcx); self.ty(t) }).collect());
                    let dst = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dtj = self.ty(dt);
                    J::A(vec![s("call"), c, a, dst, if let Some(t) = target { n(t.as_usize()) } else { J::Null }, at, dtj, fo])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.op(len, env); let i = self.op(index, env); J::A(vec![s("bounds"), l, i]) }
                        AssertKind::Overflow(op, l, r) => { let l = self.op(l, env); let r = self.op(r, env); J::A(vec![s("overflow"), s(format!("{:?}", op)), l, r]) }
                        AssertKind::OverflowNeg(o) => { let o = self.op(o, env); J::A(vec![s("negoverflow"), o]) }
                        AssertKind::DivisionByZero(o) => { let o = self.op(o, env); J::A(vec![s("divzero"), o]) }
                        AssertKind::RemainderByZero(o) => { let o = self.op(o, env); J::A(vec![s("remzero"), o]) }
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, n(target.as_usize())])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => { let p = self.place(resume_arg); J::A(vec![s("yield"), n(resume.as_usize()), p]) }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => J::A(vec![s("dead")]),
                _ => J::A(vec![s("dead")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", s(sp)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let kind = match tcx.def_kind(d) {
            DefKind::Closure => if tcx.is_coroutine(d) { "coroutine" } else { "closure" },
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Static { .. } => "static",
            _ => "const",
        };
        let mut o = vec![
            ("id", s(self.id(d))),
            ("name", { let nm = self.name(d); s(nm) }),
            ("kind", s(kind)),
            ("args", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("span", { let sp = self.span(b.span); s(sp) }),
        ];
        let root = tcx.typeck_root_def_id(d);
        if root != d { o.push(("root", s(self.id(root)))); o.push(("parent", s(self.id(tcx.parent(d))))); }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            if let Some(imp) = tcx.impl_of_assoc(d) { o.push(("impl", s(self.id(imp)))); }
            if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("in_trait", s(self.id(tr)))); }
        }
        let g = tcx.generics_of(d);
        o.push(("ngen", n(g.count())));
        let mut gn = vec![];
        for i in 0..g.count() { gn.push(s(g.param_at(i, tcx).name.as_str())); }
        o.push(("gens", J::A(gn)));
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut bodies = vec![];
        let mut skipped = vec![];
        for ld in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(ld), DefKind::AnonConst | DefKind::GlobalAsm) { continue; }
            let st = tcx.mir_built(ld);
            if st.is_stolen() { skipped.push(ld); continue; }
            bodies.push((ld.to_def_id(), st.borrow().clone()));
        }
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut du = Dumper { tcx, adts: Default::default(), adt_queue: Default::default(), adt_seen: Default::default(), consts: Default::default() };
        let mut bj = vec![];
        for (d, b) in bodies.iter() {
            bj.push(du.body(*d, b));
        }
        // impls
        let mut impls = vec![];
        for &imp in tcx.trait_impls_in_crate(LOCAL_CRATE) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let selft = du.ty(tr.self_ty());
            let args = du.args(tr.args);
            let mut items = vec![];
            for it in tcx.associated_items(imp).in_definition_order() {
                let nm = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                items.push((nm, s(du.id(it.def_id))));
            }
            let derived = tcx.is_automatically_derived(imp);
            let sp = du.span(tcx.def_span(imp));
            impls.push(J::O(vec![("id", s(du.id(imp))), ("trait", s(du.id(tr.def_id))), ("self", selft), ("a", args),
                ("items", J::M(items)), ("derived", J::B(derived)), ("ngen", n(tcx.generics_of(imp).count())), ("span", s(sp))]));
        }
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) { du.adt(d); }
        }
        while let Some(d) = du.adt_queue.pop_front() { du.dump_adt(d); }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let root = J::O(vec![
            ("crate", s(name.clone())),
            ("bodies", J::A(bj)),
            ("impls", J::A(impls)),
            ("adts", J::M(du.adts.clone().into_iter().collect())),
            ("skipped", J::A(skipped.iter().map(|d| s(du.id(d.to_def_id()))).collect())),
        ]);
        let mut o = String::new();
        root.out(&mut o);
        let tmp = format!("{}/{}.json.tmp{}", self.out, name, std::process::id());
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, format!("{}/{}.json", self.out, name)).unwrap();
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_wanted = !out.is_empty() && wanted.split(',').any(|w| w == name) && !args.iter().any(|a| a == "--print");
    rustc_driver::catch_with_exit_code(|| {
        if is_wanted {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.clone() });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
