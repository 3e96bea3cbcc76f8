// MIR exporter: a rustc driver that type-checks the crate exactly as cargo asks and then writes the
// monomorphised, callee-resolved MIR of every local function (plus the few `core` helpers the
// analysis inlines) as JSON.  It decides nothing; every rule lives in /verif/sa.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<String>>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    fns: Vec<Option<String>>,
    fn_ids: HashMap<(DefId, GenericArgsRef<'tcx>), usize>,
    queue: VecDeque<(usize, DefId, GenericArgsRef<'tcx>, DefId)>,
    root: DefId,
}

const STD_INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
    "core::ops::function::", "core::bool::", "core::cmp::", "core::convert::", "core::mem::",
    "std::option::", "std::result::", "std::ops::", "std::cmp::", "std::convert::", "std::mem::",
    "std::bool::",
];

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, self.root)
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        t
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(None);
        self.type_ids.insert(t, i);
        let s = esc(&format!("{}", t));
        let j = match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{}}}", s),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{}}}", s),
            ty::Int(x) => format!("{{\"k\":\"int\",\"signed\":true,\"bits\":{},\"s\":{}}}", x.bit_width().unwrap_or(64), s),
            ty::Uint(x) => format!("{{\"k\":\"int\",\"signed\":false,\"bits\":{},\"s\":{}}}", x.bit_width().unwrap_or(64), s),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{}}}", s),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{}}}", s),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{}}}", s),
            ty::Slice(e) => { let e = self.ty(*e); format!("{{\"k\":\"slice\",\"e\":{},\"s\":{}}}", e, s) }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => "null".into() };
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{},\"s\":{}}}", e, n, s)
            }
            ty::Ref(_, e, m) => { let e = self.ty(*e); format!("{{\"k\":\"ref\",\"mut\":{},\"e\":{},\"s\":{}}}", m.is_mut(), e, s) }
            ty::RawPtr(e, m) => { let e = self.ty(*e); format!("{{\"k\":\"ptr\",\"mut\":{},\"e\":{},\"s\":{}}}", m.is_mut(), e, s) }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"es\":[{}],\"s\":{}}}", v.join(","), s)
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.callee(*d, args);
                format!("{{\"k\":\"fndef\",\"f\":{},\"s\":{}}}", f, s)
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let f = self.fn_id(*d, args);
                format!("{{\"k\":\"closure\",\"fn\":{},\"ups\":[{}],\"kind\":{},\"s\":{}}}", f, ups.join(","), esc(&format!("{:?}", args.as_closure().kind())), s)
            }
            ty::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.tcx.def_path_str(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"trait\":{},\"s\":{}}}", esc(&tr), s)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{},\"s\":{}}}", esc(p.name.as_str()), s),
            ty::Adt(def, args) => {
                let path = self.tcx.def_path_str(def.did());
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = String::new();
                let want = def.did().is_local() || def.is_enum() || path.starts_with("std::ops::Range") || path.starts_with("core::ops::Range") || path.contains("RepeatedField");
                if want {
                    let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
                    } else { vec![] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        if !vs.is_empty() { vs.push(','); }
                        let d = discrs.iter().find(|x| x.0 == vi).map(|x| x.1.to_string()).unwrap_or("0".into());
                        let mut fs = String::new();
                        for f in v.fields.iter() {
                            if !fs.is_empty() { fs.push(','); }
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env(), ft).unwrap_or(ft.skip_norm_wip());
                            let ft = self.ty(ft);
                            let _ = write!(fs, "{{\"name\":{},\"ty\":{},\"pub\":{}}}", esc(f.name.as_str()), ft, f.vis.is_public());
                        }
                        let _ = write!(vs, "{{\"name\":{},\"d\":{},\"fields\":[{}]}}", esc(v.name.as_str()), d, fs);
                    }
                }
                format!("{{\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"local\":{},\"pub\":{},\"args\":[{}],\"variants\":[{}],\"s\":{}}}",
                    esc(&path), kind, def.did().is_local(), self.tcx.visibility(def.did()).is_public(), targs.join(","), vs, s)
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        };
        self.types[i] = Some(j);
        i
    }

    fn fn_id(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Some(i) = self.fn_ids.get(&(d, args)) { return *i; }
        let i = self.fns.len();
        self.fns.push(None);
        self.fn_ids.insert((d, args), i);
        self.queue.push_back((i, d, args, self.root));
        i
    }

    /// Resolved callee description: {"path","full","fn":id|null,"virt":bool,...}
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = tcx.def_path_str(d);
        let mut out = format!("{{\"decl\":{}", esc(&decl));
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(out, ",\"targs\":[{}]", targs.join(","));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{},\"method\":{}", esc(&tcx.def_path_str(t)), esc(tcx.item_name(d).as_str()));
        }
        let inst = Instance::try_resolve(tcx, self.env(), d, args).ok().flatten();
        let (path, full, fid, shim) = match inst {
            Some(i) => match i.def {
                InstanceKind::Item(id) => {
                    let p = tcx.def_path_str(id);
                    let avail = matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(id)
                        && (id.is_local() || STD_INLINE.iter().any(|x| p.starts_with(x) || p.contains(&format!("<impl {}", x))) || tcx.def_kind(id) == DefKind::Closure);
                    let fid = if avail { Some(self.fn_id(id, i.args)) } else { None };
                    (p, tcx.def_path_str_with_args(id, i.args), fid, "item")
                }
                InstanceKind::Virtual(id, _) => (tcx.def_path_str(id), tcx.def_path_str_with_args(id, i.args), None, "virtual"),
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                    let fid = if let ty::Closure(cd, cargs) = i.args.type_at(0).kind() { Some(self.fn_id(*cd, cargs)) } else { None };
                    (tcx.def_path_str(closure), decl.clone(), fid, "closure_once")
                }
                InstanceKind::Shim(ty::ShimKind::FnPtr(id, _)) => (tcx.def_path_str(id), decl.clone(), None, "fnptr"),
                InstanceKind::Intrinsic(id) => (tcx.def_path_str(id), tcx.def_path_str_with_args(id, i.args), None, "intrinsic"),
                other => (tcx.def_path_str(other.def_id()), tcx.def_path_str_with_args(other.def_id(), i.args), None, "shim"),
            },
            None => (decl.clone(), tcx.def_path_str_with_args(d, args), None, "unresolved"),
        };
        let _ = write!(out, ",\"path\":{},\"full\":{},\"shim\":\"{}\",\"fn\":{}}}", esc(&path), esc(&full), shim,
            fid.map(|x| x.to_string()).unwrap_or("null".into()));
        out
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = match &lo.file.name { n => format!("{}", n.prefer_local_unconditionally()) };
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(i, t) => { let t = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", i.as_usize(), t); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"d\",{}]", v.as_usize()); }
                other => { let _ = write!(o, ",[\"?\",{}]", esc(&format!("{:?}", other))); }
            }
        }
        o.push(']');
        o
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() { return None; }
                if !a.provenance().ptrs().is_empty() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }

    /// a constant value as a tree of scalars, aggregates, sequences and references; None when some part has no such form
    fn tree(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 12 { return None; }
        let tid = self.ty(t);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let i = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => i,
                    ConstValue::Indirect { alloc_id, offset } => {
                        let l = tcx.layout_of(self.env().as_query_input(t)).ok()?;
                        let n = l.size.bytes() as usize;
                        let b = self.alloc_bytes(alloc_id, offset.bytes() as usize, n)?;
                        let mut x = 0u128;
                        for k in (0..n).rev() { x = x << 8 | b[k] as u128; }
                        return Some(format!("{{\"t\":{},\"v\":\"{}\",\"sz\":{}}}", tid, x, n));
                    }
                    _ => return None,
                };
                Some(format!("{{\"t\":{},\"v\":\"{}\",\"sz\":{}}}", tid, i.to_bits(i.size()), i.size().bytes()))
            }
            ty::Ref(_, e, _) => {
                let (elem, is_str) = match e.kind() {
                    ty::Slice(x) => (Some(*x), false),
                    ty::Str => (Some(tcx.types.u8), true),
                    _ => (None, false),
                };
                let _ = is_str;
                if let Some(x) = elem {
                    let (id, off, n) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0usize, meta as usize),
                        ConstValue::Indirect { alloc_id, offset } => self.fat(alloc_id, offset.bytes() as usize)?,
                        _ => return None,
                    };
                    let s = self.elements(id, off, n, x, depth)?;
                    return Some(format!("{{\"t\":{},\"refseq\":{}}}", tid, s));
                }
                let (id, off) = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (prov, off) = p.into_raw_parts(); (prov.alloc_id(), off.bytes() as usize) }
                    ConstValue::Indirect { alloc_id, offset } => self.thin(alloc_id, offset.bytes() as usize)?,
                    _ => return None,
                };
                match tcx.try_get_global_alloc(id) { Some(GlobalAlloc::Memory(_)) => {}, _ => return None }
                let r = self.tree(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off as u64) }, *e, depth + 1)?;
                Some(format!("{{\"t\":{},\"ref\":{}}}", tid, r))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)? as usize;
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let s = self.elements(alloc_id, offset.bytes() as usize, n, *e, depth)?;
                    return Some(format!("{{\"t\":{},\"seq\":{}}}", tid, s));
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut o = Vec::new();
                for (fv, ft) in d.fields { o.push(self.tree(*fv, *ft, depth + 1)?); }
                Some(format!("{{\"t\":{},\"seq\":[{}]}}", tid, o.join(",")))
            }
            ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(a, _) = t.kind() { if a.is_union() { return None; } }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut o = Vec::new();
                for (fv, ft) in d.fields { o.push(self.tree(*fv, *ft, depth + 1)?); }
                Some(format!("{{\"t\":{},\"variant\":{},\"fields\":[{}]}}", tid, d.variant.map(|x| x.as_usize() as i64).unwrap_or(-1), o.join(",")))
            }
            _ => None,
        }
    }

    fn elements(&mut self, id: mir::interpret::AllocId, off: usize, n: usize, e: Ty<'tcx>, depth: usize) -> Option<String> {
        let sz = self.tcx.layout_of(self.env().as_query_input(e)).ok()?.size.bytes() as usize;
        if n > 4096 { return None; }
        if sz == 1 { if let ty::Uint(_) = e.kind() { let b = self.alloc_bytes(id, off, n)?; return Some(format!("\"{}\"", Self::hex(&b))); } }
        let mut o = Vec::new();
        for k in 0..n {
            o.push(self.tree(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes((off + k * sz) as u64) }, e, depth + 1)?);
        }
        Some(format!("[{}]", o.join(",")))
    }

    /// the pointer stored at a place in a constant's memory
    fn thin(&self, id: mir::interpret::AllocId, off: usize) -> Option<(mir::interpret::AllocId, usize)> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let p = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off as u64))?;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
                let mut x = 0u64;
                for k in (0..8).rev() { x = x << 8 | b[k] as u64; }
                Some((p.alloc_id(), x as usize))
            }
            _ => None,
        }
    }

    fn fat(&self, id: mir::interpret::AllocId, off: usize) -> Option<(mir::interpret::AllocId, usize, usize)> {
        let (i, o) = self.thin(id, off)?;
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                let mut x = 0u64;
                for k in (0..8).rev() { x = x << 8 | b[k] as u64; }
                Some((i, o, x as usize))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let s = self.constant0(c, span);
        if !s.contains("\"opaque\"") && !s.contains("\"ptr\"") { return s; }
        if let Ok(v) = c.eval(self.tcx, self.env(), span) {
            if let Some(t) = self.tree(v, c.ty(), 0) { return format!("{},\"tree\":{}}}", &s[..s.len() - 1], t); }
            if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                let (prov, _) = p.into_raw_parts();
                if let (Some(GlobalAlloc::Static(d)), ty::Ref(_, e, _)) = (self.tcx.try_get_global_alloc(prov.alloc_id()), c.ty().kind()) {
                    if d.is_local() && !self.tcx.is_mutable_static(d) && e.is_freeze(self.tcx, self.env()) {
                        if let Ok(a) = self.tcx.eval_static_initializer(d) {
                            let id = self.tcx.reserve_and_set_memory_alloc(a);
                            if let Some(t) = self.tree(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, *e, 0) {
                                return format!("{},\"global\":{}}}", &s[..s.len() - 1], t);
                            }
                        }
                    }
                }
            }
        }
        s
    }

    fn constant0(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() { return format!("{{\"t\":{},\"zst\":true}}", tid); }
        let tcx = self.tcx;
        let disp = esc(&format!("{}", c));
        match c.eval(tcx, self.env(), span) {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                format!("{{\"t\":{},\"v\":\"{}\",\"sz\":{}}}", tid, bits, i.size().bytes())
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                let mut extra = String::new();
                if let ty::Ref(_, e, _) | ty::RawPtr(e, _) = t.kind() {
                    if let Ok(l) = tcx.layout_of(self.env().as_query_input(*e)) {
                        if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes() as usize, l.size.bytes() as usize) {
                            extra = format!(",\"pbytes\":\"{}\"", Self::hex(&b));
                        }
                    }
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        extra = format!(",\"static\":{}", esc(&tcx.def_path_str(d)));
                    }
                }
                format!("{{\"t\":{},\"ptr\":{}{}}}", tid, disp, extra)
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"t\":{},\"zst\":true}}", tid),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                match self.alloc_bytes(alloc_id, 0, meta as usize) {
                    Some(b) => format!("{{\"t\":{},\"slice\":\"{}\"}}", tid, Self::hex(&b)),
                    None => format!("{{\"t\":{},\"opaque\":{}}}", tid, disp),
                }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                let mut extra = String::new();
                if let Ok(l) = tcx.layout_of(self.env().as_query_input(t)) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes() as usize, l.size.bytes() as usize) {
                        extra = format!(",\"bytes\":\"{}\"", Self::hex(&b));
                    }
                }
                format!("{{\"t\":{},\"opaque\":{}{}}}", tid, disp, extra)
            }
            Err(_) => format!("{{\"t\":{},\"opaque\":{},\"generic\":true}}", tid, disp),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c.const_, c.span)),
            Operand::RuntimeChecks(_) => format!("[\"rc\"]"),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(*p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(*p)),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t) }
            Rvalue::BinaryOp(op, ab) => { let a = self.operand(&ab.0); let b = self.operand(&ab.1); format!("[\"bin\",\"{:?}\",{},{}]", op, a, b) }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a); format!("[\"un\",\"{:?}\",{}]", op, a) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.tcx.def_path_str(*d))),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, v.as_usize(), active.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => { let f = self.fn_id(*d, args); format!("[\"closure\",{}]", f) }
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},[{}]]", kk, os.join(","))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut o = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(format!("\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()))); }
            }
        }
        let _ = write!(o, "\"locals\":[{}],\"argc\":{},\"names\":{{{}}},\"spread\":{},\"blocks\":[", locals.join(","), b.arg_count,
            names.join(","), b.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into()));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { o.push(','); }
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => { let p = self.place(x.0); let r = self.rvalue(&x.1); ss.push(format!("[\"=\",{},{},{}]", p, r, self.span(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(**place); ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), self.span(s.source_info.span))); }
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), self.span(s.source_info.span))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), vs.join(","), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(*place); format!("[\"drop\",{},{}]", p, target.as_usize()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func.ty(&b.local_decls, self.tcx).kind() {
                        ty::FnDef(d, a) => { let a = a.skip_binder(); self.callee(*d, a) }
                        _ => format!("{{\"path\":\"<fnptr>\",\"decl\":\"<fnptr>\",\"full\":\"<fnptr>\",\"shim\":\"fnptr\",\"fn\":null,\"targs\":[],\"op\":{}}}", self.operand(func)),
                    };
                    let asv: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let dp = self.place(*destination);
                    format!("[\"call\",{},[{}],{},{}]", fj, asv.join(","), dp, target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(len); let i = self.operand(index); format!("[\"bounds\",{},{}]", l, i) }
                        AssertKind::Overflow(op, a, c) => { let a = self.operand(a); let c = self.operand(c); format!("[\"overflow\",\"{:?}\",{},{}]", op, a, c) }
                        AssertKind::DivisionByZero(a) => { let a = self.operand(a); format!("[\"div0\",{}]", a) }
                        AssertKind::RemainderByZero(a) => { let a = self.operand(a); format!("[\"rem0\",{}]", a) }
                        other => format!("[\"other\",{}]", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"sp\":{},\"cl\":{}}}", ss.join(","), ts, sp, bb.is_cleanup);
        }
        o.push(']');
        o
    }

    fn do_fn(&mut self, i: usize, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) {
        self.root = root;
        let tcx = self.tcx;
        let inst = Instance::new_raw(d, args);
        let kind = tcx.def_kind(d);
        let mut o = String::new();
        let path = tcx.def_path_str(d);
        let full = tcx.def_path_str_with_args(d, args);
        let (vis, reach) = if let Some(l) = d.as_local() {
            if kind == DefKind::Closure { (false, false) } else { (tcx.visibility(d).is_public(), tcx.effective_visibilities(()).is_reachable(l)) }
        } else { (true, true) };
        let mut extra = String::new();
        if matches!(kind, DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_self\":{}", esc(&format!("{}", st)));
                if let ty::Adt(ad, _) = st.kind() { let _ = write!(extra, ",\"impl_adt\":{}", esc(&tcx.def_path_str(ad.did()))); }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { let _ = write!(extra, ",\"impl_trait\":{}", esc(&tcx.def_path_str(tr.skip_binder().def_id))); }
            } else if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(extra, ",\"trait_default\":{}", esc(&tcx.def_path_str(tr))); }
        }
        if !matches!(kind, DefKind::Closure) {
            if let Some(n) = tcx.opt_item_name(d) { let _ = write!(extra, ",\"name\":{}", esc(n.as_str())); }
            let _ = write!(extra, ",\"unsafe\":{}", tcx.fn_sig(d).skip_binder().safety().is_unsafe());
        } else {
            let _ = write!(extra, ",\"name\":\"{{closure}}\",\"parent\":{}", esc(&tcx.def_path_str(tcx.typeck_root_def_id(d))));
        }
        let sp = self.span(tcx.def_span(d));
        let _ = write!(o, "{{\"id\":{},\"path\":{},\"full\":{},\"kind\":{},\"local\":{},\"pub\":{},\"reach\":{},\"span\":{}{}", i, esc(&path), esc(&full),
            esc(&format!("{:?}", kind)), d.is_local(), vis, reach, sp, extra);
        let generic = args.types().any(|t| matches!(t.kind(), ty::Param(_)));
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, ",\"generic\":{},\"targs\":[{}],", generic, targs.join(","));
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, body));
        o.push_str(&self.body(&body));
        o.push('}');
        self.fns[i] = Some(o);
    }
}

struct UnsafeFinder<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, Span)> }
impl<'tcx> intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            // blocks that a macro of another crate brings along (panic!, format_args!) are that crate's
            let x = b.span.ctxt().outer_expn_data();
            let foreign = b.span.from_expansion() && x.macro_def_id.map_or(true, |d| !d.is_local());
            let generated = matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::CompilerGenerated));
            if !foreign && !generated { self.out.push(("unsafe block".into(), b.span)); }
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("ORCMIR_OUT") { Ok(x) => x, Err(_) => return Compilation::Continue };
        if tcx.crate_name(LOCAL_CRATE).as_str() != "orc_format" { return Compilation::Continue; }
        let root0 = rustc_hir::def_id::CRATE_DEF_ID.to_def_id();
        let mut cx = Cx { tcx, types: vec![], type_ids: HashMap::new(), fns: vec![], fn_ids: HashMap::new(), queue: VecDeque::new(), root: root0 };
        let mut statics = Vec::new();
        let mut roots = Vec::new();
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.impl_of_assoc(d).is_some() || tcx.trait_of_assoc(d).is_none() || tcx.is_mir_available(d) { roots.push(d); }
                }
                DefKind::Static { mutability, .. } => statics.push((d, format!("{:?}", mutability))),
                _ => {}
            }
        }
        let mut root_ids = Vec::new();
        for d in roots {
            if !tcx.is_mir_available(d) { continue; }
            cx.root = d;
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let id = cx.fn_id(d, args);
            root_ids.push(id.to_string());
        }
        while let Some((i, d, args, root)) = cx.queue.pop_front() { cx.do_fn(i, d, args, root); }
        // trait impls in the crate
        let mut impls = Vec::new();
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let st = tcx.type_of(*im).instantiate_identity().skip_norm_wip();
                impls.push(format!("{{\"trait\":{},\"self\":{}}}", esc(&tcx.def_path_str(*tr)), esc(&format!("{}", st))));
            }
        }
        // all local ADTs and every const
        let mut adts = Vec::new();
        let mut consts = Vec::new();
        let mut extra_unsafe: Vec<(String, Span)> = Vec::new();
        for item in tcx.hir_free_items() {
            let d = item.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    cx.root = d;
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    adts.push(cx.ty(t).to_string());
                }
                DefKind::Impl { of_trait: true } => {
                    if let rustc_hir::ItemKind::Impl(im) = tcx.hir_item(item).kind {
                        let x = tcx.hir_item(item).span.ctxt().outer_expn_data();
                        let foreign = tcx.hir_item(item).span.from_expansion() && x.macro_def_id.map_or(true, |d| !d.is_local());
                        if !foreign && im.of_trait.map_or(false, |t| t.safety == rustc_hir::Safety::Unsafe) { extra_unsafe.push(("unsafe impl".to_string(), tcx.def_span(d))); }
                    }
                }
                DefKind::ForeignMod => extra_unsafe.push(("foreign functions".to_string(), tcx.def_span(d))),
                DefKind::Const { .. } => consts.push(esc(&tcx.def_path_str(d))),
                DefKind::Static { mutability, .. } => { if !statics.iter().any(|x| x.0 == d) { statics.push((d, format!("{:?}", mutability))); } }
                _ => {}
            }
        }
        let mut uf = UnsafeFinder { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        uf.out.extend(extra_unsafe);
        let us: Vec<String> = uf.out.iter().map(|(k, s)| format!("[{},{}]", esc(k), cx.span(*s))).collect();
        let st: Vec<String> = statics.iter().map(|(d, m)| {
            let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
            let fz = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
            format!("{{\"path\":{},\"mut\":{},\"ty\":{},\"freeze\":{},\"tls\":{},\"span\":{}}}", esc(&tcx.def_path_str(*d)), esc(m), esc(&format!("{}", t)), fz, tcx.is_thread_local_static(*d), cx.span(tcx.def_span(*d)))
        }).collect();
        // nested promotion of types/fns discovered late
        while let Some((i, d, args, root)) = cx.queue.pop_front() { cx.do_fn(i, d, args, root); }
        let types: Vec<String> = cx.types.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
        let fns: Vec<String> = cx.fns.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
        let s = format!("{{\"crate\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n],\"roots\":[{}],\"impls\":[{}],\"adts\":[{}],\"consts\":[{}],\"statics\":[{}],\"unsafe\":[{}]}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()), types.join(",\n"), fns.join(",\n"), root_ids.join(","), impls.join(",\n"), adts.join(","), consts.join(","), st.join(","), us.join(","));
        std::fs::write(&out, s).expect("write ORCMIR_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let mine = std::env::var("ORCMIR_OUT").is_ok() && args.iter().any(|a| a == "orc_format");
    if mine {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Awarnings"] { args.push(a.into()); }
    }
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
