// mirdump: a rustc driver that writes the type-checked, monomorphised MIR of a crate as JSON.
//
// Every function of the crate that is not generic, or generic only over its byte stream, is a root;
// streams are instantiated with Cursor<Vec<u8>>. From the roots all resolvable callees are
// collected. Nothing is decided here: the analyses read the JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, GenericArgKind, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<Option<String>>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    type_queue: VecDeque<(usize, Ty<'tcx>)>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    names: HashMap<Instance<'tcx>, String>,
    used_names: HashMap<String, usize>,
    adts: HashSet<Ty<'tcx>>,
}

const STD_DENY: &[&str] = &[
    "core::fmt", "alloc::fmt", "std::fmt", "core::panicking", "std::panicking", "alloc::raw_vec", "std::alloc", "alloc::alloc",
    "core::str", "alloc::str", "std::io", "core::io", "std::sys", "std::thread", "std::fs", "std::env", "std::process", "std::time",
    "std::backtrace", "core::unicode", "core::char", "core::hash", "std::collections", "alloc::collections", "alloc::string",
    "core::num::flt2dec", "core::num::dec2flt", "alloc::vec::Vec", "core::alloc", "core::sync", "alloc::sync", "std::sync",
    "core::slice::sort", "core::slice::memchr", "core::ptr::drop_in_place", "alloc::boxed",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(None);
        self.type_ids.insert(t, i);
        self.type_queue.push_back((i, t));
        i
    }

    fn garg(&mut self, a: GenericArg<'tcx>) -> Option<String> {
        match a.kind() {
            GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
            GenericArgKind::Const(c) => {
                let v = c.try_to_target_usize(self.tcx).map(|x| x.to_string());
                let v = v.or_else(|| {
                    c.try_to_value().and_then(|v| v.try_to_leaf()).map(|s| s.to_bits_unchecked().to_string())
                });
                Some(format!("{{\"const\":{}}}", v.map(|x| esc(&x)).unwrap_or(esc(&format!("{:?}", c)))))
            }
            _ => None,
        }
    }
    fn gargs(&mut self, a: &'tcx GenericArgs<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter_map(|x| self.garg(x)).collect();
        arr(&v)
    }

    fn flush_types(&mut self) {
        while let Some((i, t)) = self.type_queue.pop_front() {
            let s = self.type_json(t);
            self.types[i] = Some(s);
        }
    }

    fn type_json(&mut self, t: Ty<'tcx>) -> String {
        let name = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\",\"bits\":8".to_string(),
            ty::Char => "\"k\":\"char\",\"bits\":32".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"ty\":{},\"mut\":{}", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"ty\":{},\"mut\":{}", self.ty(*t), m.is_mut()),
            ty::Slice(t) => format!("\"k\":\"slice\",\"ty\":{}", self.ty(*t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", self.ty(*t), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":{}", arr(&v))
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                        let vis = f.vis.is_public();
                        fs.push(format!("{{\"n\":{},\"ty\":{},\"pub\":{}}}", esc(f.name.as_str()), self.ty(ft), vis));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), disc, arr(&fs)));
                }
                let ga = self.gargs(args);
                let local = def.did().is_local();
                if local {
                    self.adts.insert(t);
                }
                let mut drop = "null".to_string();
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let krate = tcx.crate_name(d.did.krate).to_string();
                    if krate != "core" && krate != "alloc" && krate != "std" {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d.did, args) {
                            drop = esc(&self.inst(inst));
                        } else {
                            drop = "\"?\"".into();
                        }
                    }
                }
                let vis = tcx.visibility(def.did()).is_public();
                format!(
                    "\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"local\":{},\"pub\":{},\"args\":{},\"variants\":{},\"drop\":{}",
                    kind, esc(&self.path(def.did())), local, vis, ga, arr(&vs), drop
                )
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{}", esc(&self.path(*d)), self.gargs(args), {
                    match Instance::try_resolve(tcx, self.env, *d, args) {
                        Ok(Some(i)) => esc(&self.inst(i)),
                        _ => "null".into(),
                    }
                })
            }
            ty::Closure(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups.iter().map(|x| self.ty(*x).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                let inst = Instance::resolve_closure(tcx, *d, args, args.as_closure().kind());
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"ckind\":{},\"inst\":{}", esc(&self.path(*d)), arr(&v), esc(&kind), esc(&self.inst(inst)))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},{}}}", esc(&name), body)
    }

    fn wanted(&self, i: &Instance<'tcx>) -> bool {
        let d = i.def_id();
        let krate = self.tcx.crate_name(d.krate).to_string();
        match krate.as_str() {
            "dash7" | "deku" => true,
            "core" | "alloc" | "std" => {
                if matches!(i.def, InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..)) {
                    return false;
                }
                let p = self.path(d);
                let p = p.trim_start_matches('<');
                !STD_DENY.iter().any(|x| p.starts_with(x))
            }
            _ => d.is_local(),
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> String {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(n) = self.names.get(&i) {
            return n.clone();
        }
        let mut n = with_no_trimmed_paths!(format!("{}", i));
        match i.def {
            InstanceKind::Item(_) => {}
            k => {
                n = format!("{} @{}", n, format!("{:?}", k).split('(').next().unwrap());
                n = n.split(" - ").next().unwrap().to_string() + &format!(" @{}", format!("{:?}", k).split('(').next().unwrap());
            }
        }
        let c = self.used_names.entry(n.clone()).or_insert(0);
        *c += 1;
        if *c > 1 {
            n = format!("{}#{}", n, c);
        }
        self.names.insert(i, n.clone());
        if self.wanted(&i) && self.seen.insert(i) {
            self.queue.push_back(i);
        }
        n
    }

    fn has_mir(&self, i: &Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let k = self.tcx.def_kind(d);
                matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) && self.tcx.is_mir_available(d)
            }
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) => false,
            _ => true,
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("{{\"f\":{},\"ty\":{}}}", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("{{\"ci\":[{},{},{}]}}", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("{{\"sub\":[{},{},{}]}}", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("{{\"v\":{}}}", v.as_usize()),
                o => format!("{{\"other\":{}}}", esc(&format!("{:?}", o))),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&v))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let label = with_no_trimmed_paths!(format!("{}", c));
        let v = match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.const_value(v, t).unwrap_or("null".into()),
            Err(_) => "null".into(),
        };
        let mut lab = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                lab = format!(",\"n\":{}", esc(&self.path(u.def)));
            }
        }
        let _ = label;
        format!("{{\"ty\":{},\"v\":{}{}}}", tid, v, lab)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                    // put the bits in a scratch buffer
                    let size = i.size();
                    let bits = i.to_bits_unchecked();
                    let bytes = bits.to_le_bytes();
                    let alloc = rustc_middle::mir::interpret::Allocation::from_bytes(&bytes[..size.bytes() as usize], rustc_abi::Align::ONE, rustc_hir::Mutability::Not, ());
                    let alloc = tcx.mk_const_alloc(alloc);
                    self.mem(alloc, 0, t, 0)
                }
                _ => Some(self.int(i.to_bits_unchecked(), t)),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                self.pointee(id, off.bytes(), t, 0)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let bytes = a.inner().get_bytes_unchecked(AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::from_bytes(meta) });
                Some(format!("{{\"str\":{}}}", esc(&bytes.iter().map(|b| *b as char).collect::<String>())))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                self.mem(a, offset.bytes(), t, 0)
            }
        }
    }
    fn int(&self, bits: u128, t: Ty<'tcx>) -> String {
        let _ = t;
        format!("{{\"i\":\"{}\"}}", bits)
    }
    fn zst(&mut self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Adt(d, args) if d.is_struct() => {
                let mut fs = vec![];
                for f in d.non_enum_variant().fields.iter() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                    fs.push(self.zst(ft)?);
                }
                Some(format!("{{\"adt\":[0,{}]}}", arr(&fs)))
            }
            ty::Adt(..) => Some(format!("{{\"adt\":[0,[]]}}")),
            ty::Tuple(_) => Some("{\"tup\":[]}".into()),
            ty::Array(..) => Some("{\"arr\":[]}".into()),
            _ => Some("{\"zst\":1}".into()),
        }
    }
    fn pointee(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let inner = match t.kind() {
            ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i,
            _ => return None,
        };
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let v = self.mem(a, off, inner, depth + 1)?;
                Some(format!("{{\"ref\":{},\"ty\":{}}}", v, self.ty(inner)))
            }
            GlobalAlloc::Static(d) => {
                let st = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !self.tcx.is_mutable_static(d) && !self.tcx.is_thread_local_static(d) && st.is_freeze(self.tcx, self.env) {
                    if let Ok(a) = self.tcx.eval_static_initializer(d) {
                        if let Some(v) = self.mem(a, off, inner, depth + 1) {
                            return Some(format!("{{\"ref\":{},\"ty\":{}}}", v, self.ty(inner)));
                        }
                    }
                }
                Some(format!("{{\"static\":{}}}", esc(&self.path(d))))
            }
            _ => None,
        }
    }
    fn mem(&mut self, a: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let tcx = self.tcx;
        let lay = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let size = lay.size;
        let scalar = |o: u64, n: u64| -> Option<u128> {
            let b = a.inner();
            if o + n > b.size().bytes() {
                return None;
            }
            let bytes = b.get_bytes_unchecked(AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(n) });
            let mut v = 0u128;
            for (i, x) in bytes.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        if size.bytes() == 0 {
            if let ty::Adt(d, _) = t.kind() {
                if d.is_enum() {
                    let vi = match &lay.variants {
                        rustc_abi::Variants::Single { index } => index.as_usize(),
                        _ => return None,
                    };
                    return Some(format!("{{\"adt\":[{},[]]}}", vi));
                }
            }
            return self.zst(t);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => Some(self.int(scalar(off, size.bytes())?, t)),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let prov = a.inner().provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                let o = scalar(off, 8)? as u64;
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let len = scalar(off + 8, 8)? as u64;
                        let GlobalAlloc::Memory(b) = tcx.global_alloc(prov.alloc_id()) else { return None };
                        if let ty::Slice(et) = inner.kind() {
                            if !matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                                let es = tcx.layout_of(self.env.as_query_input(*et)).ok()?.size.bytes();
                                let mut v = vec![];
                                for i in 0..len {
                                    v.push(self.mem(b, o + i * es, *et, depth + 1)?);
                                }
                                return Some(format!("{{\"ref\":{{\"arr\":{}}},\"ty\":{}}}", arr(&v), self.ty(*inner)));
                            }
                        }
                        let bytes = b.inner().get_bytes_unchecked(AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(len) });
                        Some(format!("{{\"str\":{}}}", esc(&bytes.iter().map(|b| *b as char).collect::<String>())))
                    }
                    _ => self.pointee(prov.alloc_id(), o, t, depth),
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.mem(a, off + lay.fields.offset(i).bytes(), ft, depth + 1)?);
                }
                Some(format!("{{\"tup\":{}}}", arr(&v)))
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(self.env.as_query_input(*et)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(a, off + i * es, *et, depth + 1)?);
                }
                Some(format!("{{\"arr\":{}}}", arr(&v)))
            }
            ty::Adt(d, args) => {
                let (vi, vlay) = if d.is_enum() {
                    match &lay.variants {
                        rustc_abi::Variants::Single { index } => (*index, lay),
                        rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let to = off + lay.fields.offset(tag_field.as_usize()).bytes();
                            let tsize = tag.size(&tcx).bytes();
                            let prov = a.inner().provenance().get_ptr(rustc_abi::Size::from_bytes(to)).is_some();
                            let raw = scalar(to, tsize)?;
                            let vi = match tag_encoding {
                                rustc_abi::TagEncoding::Direct => {
                                    let mut f = None;
                                    for (i, _) in d.variants().iter_enumerated() {
                                        let dv = d.discriminant_for_variant(tcx, i).val;
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        if dv & mask == raw {
                                            f = Some(i)
                                        }
                                    }
                                    f?
                                }
                                rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if prov {
                                        *untagged_variant
                                    } else {
                                        let rel = raw.wrapping_sub(*niche_start) & if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        let start = niche_variants.start.as_u32() as u128;
                                        let cnt = niche_variants.last.as_u32() as u128 - start;
                                        if rel <= cnt { rustc_abi::VariantIdx::from_u32((start + rel) as u32) } else { *untagged_variant }
                                    }
                                }
                            };
                            let cx = ty::layout::LayoutCx::new(tcx, self.env);
                            (vi, lay.for_variant(&cx, vi))
                        }
                        _ => return None,
                    }
                } else if d.is_struct() {
                    (rustc_abi::FIRST_VARIANT, lay)
                } else {
                    return None;
                };
                let mut v = vec![];
                for (i, f) in d.variant(vi).fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                    v.push(self.mem(a, off + vlay.fields.offset(i).bytes(), ft, depth + 1)?);
                }
                Some(format!("{{\"adt\":[{},{}]}}", vi.as_usize(), arr(&v)))
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(&ops.0), self.operand(&ops.1)),
            Rvalue::UnaryOp(b, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", b)), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("\"array\",{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"tuple\",null".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t);
                        format!("\"adt\",[{},{},{}]", self.ty(t), v.as_usize(), f.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("\"closure\",{}", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("\"rawptr\",{}", self.ty(*t)),
                    o => format!("\"other\",{}", esc(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", kk, arr(&v))
            }
            o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, i: Instance<'tcx>) -> Option<String> {
        if !self.has_mir(&i) {
            return None;
        }
        let tcx = self.tcx;
        let generic = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, generic));
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(format!("[\"=\",{},{}]", self.place(&a.0), self.rvalue(&a.1))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(n) => st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", n)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(&v), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, esc(&m), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let f = self.callee(func, &body);
                    format!("[\"call\",{},{},{},{}]", f, arr(&a), self.place(destination), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"c\":{}}}", arr(&st), term, sp, bb.is_cleanup));
        }
        let d = i.def_id();
        let spread = body.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
        Some(format!(
            "{{\"path\":{},\"crate\":{},\"span\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}",
            esc(&self.path(d)), esc(self.tcx.crate_name(d.krate).as_str()), esc(&self.span(tcx.def_span(d))), body.arg_count, spread, arr(&locals), arr(&blocks)
        ))
    }

    fn callee(&mut self, f: &Operand<'tcx>, _body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        if let Operand::Constant(c) = f {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                let args = args.no_bound_vars().unwrap();
                let path = self.path(*d);
                let tr = tcx.trait_of_assoc(*d);
                let ga = self.gargs(args);
                let unsafe_ = tcx.fn_sig(*d).skip_binder().safety().is_unsafe();
                let mut s = format!("{{\"path\":{},\"args\":{},\"unsafe\":{}", esc(&path), ga, unsafe_);
                if let Some(t) = tr {
                    let _ = write!(s, ",\"trait\":{},\"m\":{}", esc(&self.path(t)), esc(tcx.item_name(*d).as_str()));
                }
                match Instance::try_resolve(tcx, self.env, *d, args) {
                    Ok(Some(i)) => {
                        let n = self.inst(i);
                        let kind = format!("{:?}", i.def).split('(').next().unwrap().to_string();
                        let ip = self.path(i.def_id());
                        let _ = write!(s, ",\"inst\":{},\"ik\":{},\"ipath\":{},\"icrate\":{}", esc(&n), esc(&kind), esc(&ip), esc(tcx.crate_name(i.def_id().krate).as_str()));
                        let ia = self.gargs(i.args);
                        let _ = write!(s, ",\"iargs\":{}", ia);
                    }
                    _ => {}
                }
                s.push('}');
                return s;
            }
        }
        format!("{{\"dyn\":{}}}", self.operand(f))
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn run<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut d = Dump {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        type_ids: HashMap::new(),
        type_queue: VecDeque::new(),
        seen: HashSet::new(),
        queue: VecDeque::new(),
        names: HashMap::new(),
        used_names: HashMap::new(),
        adts: HashSet::new(),
    };
    // the stream type
    let mut cursor = None;
    let mut vec = None;
    for &k in tcx.crates(()).iter() {
        let name = tcx.crate_name(k).to_string();
        if name == "std" || name == "alloc" {
            for c in tcx.module_children(k.as_def_id()) {
                if c.ident.name.as_str() == "io" && name == "std" {
                    if let Some(m) = c.res.opt_def_id() {
                        for c in tcx.module_children(m) {
                            if c.ident.name.as_str() == "Cursor" {
                                cursor = c.res.opt_def_id();
                            }
                        }
                    }
                }
                if c.ident.name.as_str() == "vec" && name == "alloc" {
                    if let Some(m) = c.res.opt_def_id() {
                        if tcx.def_kind(m) == DefKind::Mod {
                            for c in tcx.module_children(m) {
                                if c.ident.name.as_str() == "Vec" {
                                    vec = c.res.opt_def_id();
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let cursor = cursor.expect("std::io::Cursor");
    let vec = vec.expect("alloc::vec::Vec");
    let glob = tcx.lang_items().global_alloc_ty();
    let va = tcx.generics_of(vec);
    let u8t = tcx.types.u8;
    let vargs = GenericArgs::for_item(tcx, vec, |p, prev| {
        if p.index == 0 { u8t.into() } else { tcx.type_of(p.def_id).instantiate(tcx, prev).skip_norm_wip().into() }
    });
    let _ = (glob, va);
    let vecu8 = Ty::new_adt(tcx, tcx.adt_def(vec), vargs);
    let stream = Ty::new_adt(tcx, tcx.adt_def(cursor), tcx.mk_args(&[vecu8.into()]));

    let mut roots = vec![];
    let mut skipped = vec![];
    let mut items = vec![];
    let mut defs: Vec<DefId> = tcx.mir_keys(()).iter().map(|x| x.to_def_id()).collect();
    defs.sort_by_key(|x| tcx.def_path_hash(*x));
    for def in defs {
        let kind = tcx.def_kind(def);
        if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            items.push(def);
        }
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        for pick in [0u8, 9u8] {
        let mut generic = false;
        let mut ok = true;
        let preds = tcx.param_env(def).caller_bounds();
        let args = GenericArgs::for_item(tcx, def, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                let mut is_stream = false;
                for c in preds.clone() {
                    if let Some(t) = c.as_trait_clause() {
                        let t = t.skip_binder();
                        if let ty::Param(pp) = t.self_ty().kind() {
                            if pp.index == p.index {
                                let n = tcx.item_name(t.def_id()).to_string();
                                if n == "Read" || n == "Write" || n == "Seek" {
                                    is_stream = true;
                                }
                            }
                        }
                    }
                }
                if !is_stream {
                    ok = false;
                }
                stream.into()
            }
            ty::GenericParamDefKind::Const { .. } => {
                let t = tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
                if t == tcx.types.u8 {
                    generic = true;
                    ty::Const::from_bits(tcx, pick as u128, d.env, t).into()
                } else {
                    ok = false;
                    tcx.types.u8.into()
                }
            }
        });
        if pick > 0 && !generic {
            continue;
        }
        let path = d.path(def);
        let span = d.span(tcx.def_span(def));
        if !ok {
            skipped.push(format!("{{\"path\":{},\"span\":{}}}", esc(&path), esc(&span)));
            continue;
        }
        let ev = tcx.effective_visibilities(());
        let vis = match tcx.impl_of_assoc(def) {
            Some(im) if tcx.impl_opt_trait_ref(im).is_some() => {
                let mut v = true;
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                for a in tr.args.types() {
                    for t in a.walk() {
                        if let Some(t) = t.as_type() {
                            if let ty::Adt(ad, _) = t.kind() {
                                if let Some(l) = ad.did().as_local() {
                                    v &= ev.is_reachable(l);
                                }
                            }
                        }
                    }
                }
                v
            }
            _ => def.as_local().map(|l| ev.is_reachable(l)).unwrap_or(true),
        };
        let inst = Instance::new_raw(def, args);
        let n = d.inst(inst);
        let mut s = format!("{{\"key\":{},\"path\":{},\"span\":{},\"name\":{},\"pub\":{}", esc(&n), esc(&path), esc(&span), esc(tcx.item_name(def).as_str()), vis);
        if let Some(im) = tcx.impl_of_assoc(def) {
            let iargs = args.truncate_to(tcx, tcx.generics_of(im));
            let st = tcx.type_of(im).instantiate(tcx, iargs).skip_norm_wip();
            let st = d.ty(st);
            let _ = write!(s, ",\"self\":{}", st);
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate(tcx, iargs).skip_norm_wip();
                let ta = d.gargs(tr.args);
                let _ = write!(s, ",\"trait\":{},\"targs\":{}", esc(&d.path(tr.def_id)), ta);
            }
        }
        s.push('}');
        roots.push(s);
        }
    }
    let mut bodies = vec![];
    let mut nobody = vec![];
    loop {
        d.flush_types();
        let Some(i) = d.queue.pop_front() else { break };
        let n = d.inst(i);
        match d.body(i) {
            Some(b) => bodies.push(format!("{}:{}", esc(&n), b)),
            None => nobody.push(esc(&n)),
        }
    }
    // constants
    let mut consts = vec![];
    for def in items {
        let path = d.path(def);
        let kind = format!("{:?}", tcx.def_kind(def));
        let span = d.span(tcx.def_span(def));
        let g = tcx.generics_of(def);
        let mut cands: Vec<(String, &'tcx GenericArgs<'tcx>)> = vec![];
        let id = GenericArgs::identity_for_item(tcx, def);
        let needs = g.requires_monomorphization(tcx);
        if !needs {
            cands.push((String::new(), id));
        } else if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            if let ty::Adt(sd, _) = st.kind() {
                let mut ts: Vec<Ty<'tcx>> = d.adts.iter().copied().filter(|t| matches!(t.kind(), ty::Adt(x, _) if x.did() == sd.did())).collect();
                ts.sort_by_key(|t| format!("{}", t));
                for t in ts {
                    if let ty::Adt(_, a) = t.kind() {
                        cands.push((with_no_trimmed_paths!(format!("{}", t)), a));
                    }
                }
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Static { .. }) {
            let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let shared = tcx.is_mutable_static(def) || tcx.is_thread_local_static(def) || !st.is_freeze(tcx, d.env);
            consts.push(format!("{{\"path\":{},\"kind\":\"Static\",\"span\":{},\"state\":{}}}", esc(&path), esc(&span), shared));
            continue;
        }
        for (label, a) in cands {
            let t = tcx.type_of(def).instantiate(tcx, a).skip_norm_wip();
            let uv = UnevaluatedConst::new(def, a);
            let c = Const::Unevaluated(uv, t);
            let v = match c.eval(tcx, d.env, rustc_span::DUMMY_SP) {
                Ok(v) => d.const_value(v, t).unwrap_or("null".into()),
                Err(_) => "null".into(),
            };
            let tid = d.ty(t);
            let mut tr = String::new();
            if let Some(im) = tcx.impl_of_assoc(def) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(tr, ",\"self\":{}", esc(&with_no_trimmed_paths!(format!("{}", st))));
                if tcx.impl_opt_trait_ref(im).is_some() {
                    let t = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(tr, ",\"trait\":{}", esc(&d.path(t.def_id)));
                }
            }
            consts.push(format!(
                "{{\"path\":{},\"name\":{},\"for\":{},\"kind\":{},\"span\":{},\"ty\":{},\"v\":{},\"pub\":{}{}}}",
                esc(&path), esc(tcx.item_name(def).as_str()), esc(&label), esc(&kind), esc(&span), tid, v, tcx.visibility(def).is_public(), tr
            ));
        }
    }
    d.flush_types();
    // unsafe blocks, statics
    let mut uv = UnsafeV { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let us: Vec<String> = uv.out.iter().map(|s| esc(&d.span(*s))).collect();
    let types: Vec<String> = d.types.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
    let s = format!(
        "{{\"crate\":{},\"stream\":{},\"types\":{},\"roots\":{},\"skipped\":{},\"consts\":{},\"unsafe_blocks\":{},\"nobody\":{},\"fns\":{{{}}}}}",
        esc(&krate),
        d.type_ids.get(&stream).map(|x| x.to_string()).unwrap_or("null".into()),
        format!("[{}]", types.join(",\n")),
        arr(&roots),
        arr(&skipped),
        arr(&consts),
        arr(&us),
        arr(&nobody),
        bodies.join(",\n")
    );
    let tmp = format!("{}/{}.json.tmp", out, krate);
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", out, krate)).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            let k = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let has_bin = !tcx.sess.opts.test;
            if (k == "dash7" || k == "dash7_cli") && has_bin {
                let bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
                let dir = if bin { format!("{}/bin", o) } else { format!("{}/lib", o) };
                std::fs::create_dir_all(&dir).unwrap();
                run(tcx, &dir);
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").ok();
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
