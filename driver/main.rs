// MIR extractor: runs the compiler front end on the crate under analysis and writes, as JSON, the
// type-checked and borrow-checked MIR of every function of the crate and of every library function
// reachable from it that has MIR, with callees resolved and constants evaluated.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    fns: Vec<Option<String>>,
    fnmap: HashMap<Instance<'tcx>, usize>,
    work: Vec<(Instance<'tcx>, TypingEnv<'tcx>)>,
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&n) = self.fnmap.get(&i) { return n; }
        let n = self.fns.len();
        self.fns.push(None);
        self.fnmap.insert(i, n);
        self.work.push((i, env));
        n
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        // innermost call site written in a source file of the crate
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&n) = self.tymap.get(&t) { return n; }
        let n = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, n);
        let name = js(&format!("{}", t));
        let tcx = self.tcx;
        let layout_size = tcx.layout_of(env.as_query_input(t)).map(|l| l.size.bytes() as i64).unwrap_or(-1);
        let d = match t.kind() {
            ty::Bool => format!(r#""k":"bool""#),
            ty::Char => format!(r#""k":"char""#),
            ty::Int(i) => format!(r#""k":"int","bits":{},"signed":true"#, i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!(r#""k":"int","bits":{},"signed":false"#, i.bit_width().unwrap_or(64)),
            ty::Float(_) => format!(r#""k":"float""#),
            ty::Str => format!(r#""k":"str""#),
            ty::Never => format!(r#""k":"never""#),
            ty::Slice(e) => format!(r#""k":"slice","e":{}"#, self.ty(*e, env)),
            ty::Array(e, c) => {
                let e = self.ty(*e, env);
                let l = c.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!(r#""k":"array","e":{},"len":{}"#, e, l)
            }
            ty::Ref(_, e, m) => format!(r#""k":"ref","e":{},"mut":{}"#, self.ty(*e, env), m.is_mut()),
            ty::RawPtr(e, m) => format!(r#""k":"ptr","e":{},"mut":{}"#, self.ty(*e, env), m.is_mut()),
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| self.ty(x, env).to_string()).collect();
                format!(r#""k":"tuple","f":[{}]"#, v.join(","))
            }
            ty::FnPtr(..) => format!(r#""k":"fnptr""#),
            ty::FnDef(d, a) => {
                match self.resolve(*d, a.skip_binder(), env) {
                    Ok(f) => format!(r#""k":"fndef","fn":{}"#, f),
                    Err(c) => format!(r#""k":"fndef","callee":{}"#, c),
                }
            }
            ty::Closure(d, a) => {
                let up: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let i = Instance { def: InstanceKind::Item(*d), args: a };
                let i = tcx.erase_and_anonymize_regions(i);
                let f = self.inst(i, env);
                format!(r#""k":"closure","fn":{},"f":[{}]"#, f, up.join(","))
            }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let is_enum = def.is_enum();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(ft.skip_normalization());
                        fs.push(format!(r#"{{"n":{},"t":{}}}"#, js(f.name.as_str()), self.ty(ft, env)));
                    }
                    let discr = if is_enum { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, js(v.name.as_str()), discr, fs.join(",")));
                }
                format!(r#""k":"adt","path":{},"enum":{},"union":{},"box":{},"freeze":{},"v":[{}]"#,
                    js(&tcx.def_path_str(def.did())), is_enum, def.is_union(), def.is_box(), t.is_freeze(tcx, env), vs.join(","))
            }
            ty::Param(_) => format!(r#""k":"param""#),
            ty::Dynamic(..) => format!(r#""k":"dyn""#),
            _ => format!(r#""k":"other""#),
        };
        self.types[n] = format!(r#"{{"id":{},"n":{},"sz":{},{}}}"#, n, name, layout_size, d);
        n
    }

    // Ok(fn index) or Err(json describing an unresolved callee)
    fn resolve(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Result<usize, String> {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        let a = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a)).unwrap_or(a);
        match Instance::try_resolve(tcx, env, d, a) {
            Ok(Some(i)) => Ok(self.inst(i, env)),
            _ => {
                let tr = tcx.trait_of_assoc(d).map(|t| tcx.def_path_str(t)).unwrap_or_default();
                let self_ty = if a.len() > 0 { a[0].as_type().map(|t| format!("{}", t)).unwrap_or_default() } else { String::new() };
                Err(format!(r#"{{"trait":{},"method":{},"path":{},"self":{}}}"#, js(&tr),
                    js(tcx.item_name(d).as_str()), js(&tcx.def_path_str(d)), js(&self_ty)))
            }
        }
    }

    fn read_int(&self, alloc: &Allocation, off: Size, size: Size) -> Option<u128> {
        let r = rustc_middle::mir::interpret::alloc_range(off, size);
        match alloc.read_scalar(&self.tcx, r, false) {
            Ok(s) => s.try_to_scalar_int().ok().map(|i| i.to_bits(size)),
            Err(_) => None,
        }
    }

    fn decode_ptr(&mut self, id: AllocId, off: Size, ty: Ty<'tcx>, env: TypingEnv<'tcx>, meta: Option<u64>, depth: usize) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => self.decode_pointee(a.inner(), off, ty, env, meta, depth),
            GlobalAlloc::Static(d) => {
                let nm = tcx.def_path_str(d);
                let mutbl = tcx.is_mutable_static(d);
                let v = match tcx.eval_static_initializer(d) {
                    Ok(a) if !mutbl => self.decode_pointee(a.inner(), off, ty, env, meta, depth),
                    _ => r#"{"k":"opaque"}"#.to_string(),
                };
                format!(r#"{{"k":"static","name":{},"mut":{},"v":{}}}"#, js(&nm), mutbl, v)
            }
            GlobalAlloc::Function { instance } => {
                let f = self.inst(instance, env);
                format!(r#"{{"k":"fn","fn":{}}}"#, f)
            }
            _ => r#"{"k":"opaque"}"#.to_string(),
        }
    }

    fn decode_pointee(&mut self, a: &Allocation, off: Size, ty: Ty<'tcx>, env: TypingEnv<'tcx>, meta: Option<u64>, depth: usize) -> String {
        match ty.kind() {
            ty::Slice(e) => {
                let n = meta.unwrap_or(0);
                let es = self.tcx.layout_of(env.as_query_input(*e)).unwrap().size;
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + es * i, *e, env, depth + 1)).collect();
                format!(r#"{{"k":"arr","v":[{}]}}"#, v.join(","))
            }
            ty::Str => {
                let n = meta.unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| {
                    let b = self.read_int(a, off + Size::from_bytes(i), Size::from_bytes(1)).unwrap_or(0);
                    format!(r#"{{"k":"int","v":{}}}"#, b)
                }).collect();
                format!(r#"{{"k":"arr","v":[{}]}}"#, v.join(","))
            }
            ty::Dynamic(..) => r#"{"k":"opaque"}"#.to_string(),
            _ => self.decode(a, off, ty, env, depth),
        }
    }

    fn decode(&mut self, a: &Allocation, off: Size, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let opaque = r#"{"k":"opaque"}"#.to_string();
        if depth > 12 { return opaque; }
        let Ok(layout) = tcx.layout_of(env.as_query_input(ty)) else { return opaque };
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match self.read_int(a, off, layout.size) {
                    Some(v) => format!(r#"{{"k":"int","v":{}}}"#, v),
                    None => opaque,
                }
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return opaque };
                let Ok(el) = tcx.layout_of(env.as_query_input(*e)) else { return opaque };
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + el.size * i, *e, env, depth + 1)).collect();
                format!(r#"{{"k":"arr","v":[{}]}}"#, v.join(","))
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().enumerate().map(|(i, t)| self.decode(a, off + layout.fields.offset(i), t, env, depth + 1)).collect();
                format!(r#"{{"k":"tuple","v":[{}]}}"#, v.join(","))
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let ps = tcx.data_layout.pointer_size();
                let r = rustc_middle::mir::interpret::alloc_range(off, ps);
                match a.read_scalar(&tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        let meta = if layout.size > ps { self.read_int(a, off + ps, ps).map(|x| x as u64) } else { None };
                        let v = self.decode_ptr(prov.alloc_id(), o, *e, env, meta, depth + 1);
                        format!(r#"{{"k":"ref","v":{}}}"#, v)
                    }
                    _ => opaque,
                }
            }
            ty::FnPtr(..) => {
                let ps = tcx.data_layout.pointer_size();
                let r = rustc_middle::mir::interpret::alloc_range(off, ps);
                match a.read_scalar(&tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        self.decode_ptr(prov.alloc_id(), o, ty, env, None, depth + 1)
                    }
                    _ => opaque,
                }
            }
            ty::Adt(def, args) if !def.is_union() => {
                let vi = match &layout.variants {
                    Variants::Empty => return opaque,
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = off + layout.fields.offset(tag_field.as_usize());
                        let tsize = tag.size(&tcx);
                        let tagv = self.read_int(a, toff, tsize);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tagv) = tagv else { return opaque };
                                match def.discriminants(tcx).find(|(_, d)| {
                                    let m = if tsize.bits() >= 128 { u128::MAX } else { (1u128 << tsize.bits()) - 1 };
                                    d.val & m == tagv }) { Some((v, _)) => v, None => return opaque }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match tagv {
                                    None => *untagged_variant, // pointer niche
                                    Some(t) => {
                                        let m = if tsize.bits() >= 128 { u128::MAX } else { (1u128 << tsize.bits()) - 1 };
                                        let rel = t.wrapping_sub(*niche_start) & m;
                                        let n = niche_variants.last.as_u32() as u128 - niche_variants.start.as_u32() as u128;
                                        if rel <= n { VariantIdx::from_u32((niche_variants.start.as_u32() as u128 + rel) as u32) } else { *untagged_variant }
                                    }
                                }
                            }
                        }
                    }
                };
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vl = layout.for_variant(&cx, vi);
                let v = def.variant(vi);
                let mut fs = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(ft.skip_normalization());
                    fs.push(self.decode(a, off + vl.fields.offset(i), ft, env, depth + 1));
                }
                format!(r#"{{"k":"adt","vi":{},"v":[{}]}}"#, vi.as_u32(), fs.join(","))
            }
            ty::FnDef(..) => r#"{"k":"zst"}"#.to_string(),
            _ => opaque,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let t = self.ty(ty, env);
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => format!(r#"{{"k":"int","v":{}}}"#, i.to_bits(i.size())),
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, o) = p.into_raw_parts();
                let pointee = match ty.kind() { ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(*e), ty::FnPtr(..) => Some(ty), _ => None };
                match pointee {
                    Some(e) => { let v = self.decode_ptr(prov.alloc_id(), o, e, env, None, 0); format!(r#"{{"k":"ref","v":{}}}"#, v) }
                    None => r#"{"k":"opaque"}"#.to_string(),
                }
            }
            Ok(ConstValue::ZeroSized) => r#"{"k":"zst"}"#.to_string(),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                let e = match ty.kind() { ty::Ref(_, e, _) => *e, _ => ty };
                let v = self.decode_ptr(alloc_id, Size::ZERO, e, env, Some(meta), 0);
                format!(r#"{{"k":"ref","v":{}}}"#, v)
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(a) => self.decode(a.inner(), offset, ty, env, 0),
                    _ => r#"{"k":"opaque"}"#.to_string(),
                }
            }
            Err(_) => r#"{"k":"opaque"}"#.to_string(),
        };
        format!(r#"{{"o":"const","t":{},"c":{}}}"#, t, v)
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.as_usize(), self.ty(t, env)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["c",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!(r#"["d",{}]"#, vi.as_u32()),
                _ => r#"["?"]"#.to_string(),
            });
        }
        format!(r#"{{"l":{},"p":[{}]}}"#, p.local.as_usize(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"o":"copy","p":{}}}"#, self.place(p, env)),
            Operand::Move(p) => format!(r#"{{"o":"move","p":{}}}"#, self.place(p, env)),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(c) => {
                // every optional check is assumed off, except overflow checks
                let b = matches!(c, RuntimeChecks::OverflowChecks);
                format!(r#"{{"o":"rtcheck","v":{}}}"#, b)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"{{"r":"use","a":{}}}"#, self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(r#"{{"r":"repeat","a":{},"n":{}}}"#, self.operand(o, env), n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, b, p) => format!(r#"{{"r":"ref","mut":{},"p":{}}}"#, matches!(b, BorrowKind::Mut { .. }), self.place(p, env)),
            Rvalue::Reborrow(_, m, p) => format!(r#"{{"r":"reborrow","mut":{},"p":{}}}"#, m.is_mut(), self.place(p, env)),
            Rvalue::RawPtr(_, p) => format!(r#"{{"r":"rawptr","p":{}}}"#, self.place(p, env)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!(r#"{{"r":"cast","k":{},"a":{},"t":{}}}"#, js(&ks), self.operand(o, env), self.ty(*t, env))
            }
            Rvalue::BinaryOp(op, b) => format!(r#"{{"r":"bin","op":"{:?}","a":{},"b":{}}}"#, op, self.operand(&b.0, env), self.operand(&b.1, env)),
            Rvalue::UnaryOp(op, a) => format!(r#"{{"r":"un","op":"{:?}","a":{}}}"#, op, self.operand(a, env)),
            Rvalue::Discriminant(p) => format!(r#"{{"r":"discr","p":{}}}"#, self.place(p, env)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => r#""array""#.to_string(),
                    AggregateKind::Tuple => r#""tuple""#.to_string(),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.try_normalize_erasing_regions(env, t).unwrap_or(t.skip_normalization());
                        format!(r#"["adt",{},{},{}]"#, self.ty(t, env), vi.as_u32(), uf.map(|f: FieldIdx| f.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = self.tcx.erase_and_anonymize_regions(Instance { def: InstanceKind::Item(*d), args: a });
                        let f = self.inst(i, env);
                        format!(r#"["closure",{}]"#, f)
                    }
                    AggregateKind::RawPtr(..) => r#""rawptr""#.to_string(),
                    _ => r#""other""#.to_string(),
                };
                format!(r#"{{"r":"agg","k":{},"v":[{}]}}"#, k, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"{{"r":"use","a":{{"o":"copy","p":{}}}}}"#, self.place(p, env)),
            Rvalue::ThreadLocalRef(d) => format!(r#"{{"r":"tls","n":{}}}"#, js(&self.tcx.def_path_str(*d))),
            Rvalue::WrapUnsafeBinder(..) => r#"{"r":"other"}"#.to_string(),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty, env).to_string()).collect();
        let _ = write!(o, r#""argc":{},"spread":{},"locals":[{}],"#, b.arg_count, b.spread_arg.map(|x| x.as_usize() as i64).unwrap_or(-1), locals.join(","));
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = d.value { if p.projection.is_empty() {
                names.push(format!(r#"[{},{}]"#, p.local.as_usize(), js(d.name.as_str()))); } }
        }
        let _ = write!(o, r#""names":[{}],"blocks":["#, names.join(","));
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            o.push_str(r#"{"s":["#);
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(a) => format!(r#"["=",{},{},{}]"#, self.place(&a.0, env), self.rvalue(&a.1, env), js(&self.span(s.source_info.span))),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(r#"["sd",{},{}]"#, self.place(place, env), variant_index.as_u32()),
                    StatementKind::StorageLive(l) => format!(r#"["sl",{}]"#, l.as_usize()),
                    StatementKind::StorageDead(l) => format!(r#"["sx",{}]"#, l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!(r#"["assume",{}]"#, self.operand(op, env)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(r#"["cno",{},{},{}]"#, self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env)),
                    },
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&t);
            }
            o.push_str(r#"],"t":"#);
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let d = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    format!(r#"["switch",{},[{}],{},{},{}]"#, d, v.join(","), targets.otherwise().as_usize(), sp, self.ty(dt, env))
                }
                TerminatorKind::Return => r#"["return"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    format!(r#"["drop",{},{},{}]"#, self.place(place, env), target.as_usize(), self.ty(pt, env))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let ft = func.ty(&b.local_decls, self.tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => match self.resolve(*d, a.skip_binder(), env) {
                            Ok(n) => format!(r#"["fn",{}]"#, n),
                            Err(c) => format!(r#"["trait",{}]"#, c),
                        },
                        _ => format!(r#"["ptr",{}]"#, self.operand(func, env)),
                    };
                    format!(r#"["call",{},[{}],{},{},{}]"#, f, av.join(","), self.place(destination, env),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(r#"["bounds",{},{}]"#, self.operand(len, env), self.operand(index, env)),
                        AssertKind::Overflow(op, ..) => format!(r#"["overflow","{:?}"]"#, op),
                        AssertKind::OverflowNeg(_) => r#"["overflow","Neg"]"#.to_string(),
                        AssertKind::DivisionByZero(_) => r#"["divzero"]"#.to_string(),
                        AssertKind::RemainderByZero(_) => r#"["remzero"]"#.to_string(),
                        _ => r#"["other"]"#.to_string(),
                    };
                    format!(r#"["assert",{},{},{},{},{}]"#, self.operand(cond, env), expected, k, target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => r#"["unwind"]"#.to_string(),
                _ => r#"["other"]"#.to_string(),
            };
            o.push_str(&ts);
            o.push('}');
        }
        o.push(']');
        o
    }

    fn run(&mut self, skip: &[String]) {
        while let Some((i, env)) = self.work.pop() {
            let tcx = self.tcx;
            let n = self.fnmap[&i];
            let did = i.def_id();
            let path = tcx.def_path_str(did);
            let full = tcx.def_path_str_with_args(did, i.args);
            let krate = tcx.crate_name(did.krate).to_string();
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            let mut name = String::new();
            if let Some(s) = tcx.opt_item_name(did) { name = s.to_string(); }
            let tr = tcx.trait_of_assoc(did).map(|t| tcx.def_path_str(t)).unwrap_or_default();
            let targs: Vec<String> = i.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t, env).to_string()).collect();
            let span = self.span(tcx.def_span(did));
            let imp = match tcx.impl_of_assoc(did) { Some(im) => {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                let it = tcx.impl_opt_trait_ref(im).map(|t| tcx.def_path_str(t.skip_binder().def_id)).unwrap_or_default();
                format!(r#","impl_self":{},"impl_trait":{}"#, js(&format!("{}", st)), js(&it)) } None => String::new() };
            let vis = if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
            let reach = did.is_local() && tcx.effective_visibilities(()).is_reachable(did.expect_local());
            let mut o = format!(r#"{{"id":{},"path":{},"full":{},"name":{},"crate":{},"kind":"{}","trait":{},"args":[{}],"span":{},"pub":{},"reach":{}{}"#,
                n, js(&path), js(&full), js(&name), js(&krate), kind, js(&tr), targs.join(","), js(&span), vis, reach, imp);
            if i.def.def_id() == did {
                if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = i.def { o.push_str(r#","shim":"closure_once""#); }
                if let InstanceKind::Shim(ty::ShimKind::FnPtr(..)) = i.def { o.push_str(r#","shim":"fnptr""#); }
                if let InstanceKind::Shim(ty::ShimKind::DropGlue(..)) = i.def { o.push_str(r#","shim":"drop""#); }
            }
            let skipped = skip.iter().any(|s| path.starts_with(s.as_str()));
            let has = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && !skipped,
                InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => false,
                _ => !skipped,
            };
            if skipped { o.push_str(r#","skipped":true"#); }
            if has {
                let b = tcx.instance_mir(i.def);
                let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
                let s = self.body(&b, env);
                let _ = write!(o, r#","body":{{{}}}"#, s);
            }
            o.push('}');
            self.fns[n] = Some(o);
        }
    }
}

struct Dump { out: String, skip: Vec<String> }

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        tcx.sess.dcx().abort_if_errors();
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), fns: vec![], fnmap: HashMap::new(), work: vec![] };
        let mut roots = vec![];
        for &d in tcx.mir_keys(()) {
            let did = d.to_def_id();
            match tcx.def_kind(did) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
            if !tcx.is_mir_available(did) { continue; }
            let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, did));
            let env = TypingEnv::post_analysis(tcx, did);
            let i = Instance { def: InstanceKind::Item(did), args };
            let n = cx.inst(i, env);
            roots.push(n.to_string());
        }
        cx.run(&self.skip);
        // statics of the crate, traits and their methods
        let mut statics = vec![];
        let mut structs = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let env = TypingEnv::post_analysis(tcx, did);
                    statics.push(format!(r#"{{"name":{},"mut":{},"freeze":{},"ty":{}}}"#, js(&tcx.def_path_str(did)), mutability.is_mut(), t.is_freeze(tcx, env), js(&format!("{}", t))));
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let env = TypingEnv::post_analysis(tcx, did);
                    let ti = cx.ty(t, env);
                    structs.push(format!(r#"{{"name":{},"ty":{},"reach":{}}}"#, js(&tcx.def_path_str(did)), ti, tcx.effective_visibilities(()).is_reachable(id)));
                }
                DefKind::Trait => {
                    let ms: Vec<String> = tcx.associated_items(did).in_definition_order().filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                        .map(|a| format!(r#"{{"n":{},"default":{}}}"#, js(a.name().as_str()), a.defaultness(tcx).has_value())).collect();
                    traits.push(format!(r#"{{"name":{},"m":[{}]}}"#, js(&tcx.def_path_str(did)), ms.join(",")));
                }
                _ => {}
            }
        }
        cx.run(&self.skip);
        let mut o = String::new();
        let _ = write!(o, "{{\"roots\":[{}],\n\"statics\":[{}],\n\"structs\":[{}],\n\"traits\":[{}],\n\"types\":[\n{}\n],\n\"fns\":[\n", roots.join(","), statics.join(","), structs.join(","), traits.join(","), cx.types.join(",\n"));
        let fs: Vec<String> = cx.fns.into_iter().map(|f| f.unwrap()).collect();
        o.push_str(&fs.join(",\n"));
        o.push_str("\n]}\n");
        std::fs::write(&self.out, o).expect("write output");
        Compilation::Stop
    }
}

fn main() {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let skip = std::env::var("MIRDUMP_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Dump { out, skip });
}
