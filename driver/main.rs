// MIR exporter: a rustc wrapper (nightly, rustc_public).  For the crate named in VERIF_DUMP_CRATE it writes the
// monomorphic MIR of all functions reachable from the crate's own non-generic functions to VERIF_DUMP_OUT (JSON).
// For every other crate it simply behaves like rustc.  It drops nothing of a function body except spans.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    stop: Vec<String>,
    types: BTreeMap<usize, String>,
    ty_ids: HashMap<Ty, usize>,
    ty_queue: VecDeque<Ty>,
    fns: BTreeMap<String, String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    allocs: BTreeMap<usize, String>,
    alloc_queue: VecDeque<(usize, AllocId)>,
    alloc_ids: HashMap<AllocId, usize>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let i = self.ty_ids.len();
        self.ty_ids.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }
    fn tys(&mut self, ts: &[Ty]) -> String {
        let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{}}}", n), Err(_) => "null".into() }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn layout(&self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let mut o = format!("{{\"size\":{},\"align\":{}", s.size.bytes(), s.abi_align);
                if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &s.fields {
                    let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                    let _ = write!(o, ",\"offsets\":[{}]", v.join(","));
                }
                if let rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } = &s.variants {
                    let v: Vec<String> = variants.iter().map(|vf| { let w: Vec<String> = vf.offsets.iter().map(|x| x.bytes().to_string()).collect(); format!("[{}]", w.join(",")) }).collect();
                    let _ = write!(o, ",\"tag\":{},\"tag_enc\":{},\"tag_field\":{},\"voffsets\":[{}]", esc(&format!("{:?}", tag)), esc(&format!("{:?}", tag_encoding)), tag_field, v.join(","));
                }
                o.push('}');
                o
            }
            Err(_) => "null".into(),
        }
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let k = t.kind();
        let lay = self.layout(t);
        let body = match k.rigid() {
            Some(RigidTy::Bool) => "\"k\":\"bool\"".to_string(),
            Some(RigidTy::Char) => "\"k\":\"char\"".to_string(),
            Some(RigidTy::Int(i)) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            Some(RigidTy::Uint(i)) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            Some(RigidTy::Float(_)) => "\"k\":\"float\"".to_string(),
            Some(RigidTy::Str) => "\"k\":\"str\"".to_string(),
            Some(RigidTy::Never) => "\"k\":\"never\"".to_string(),
            Some(RigidTy::Adt(def, args)) => {
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = self.ty(f.ty_with_args(args));
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), ft));
                    }
                    let d = if def.kind() == AdtKind::Enum {
                        let d = def.discriminant_for_variant(v.idx());
                        // val is the bit pattern: sign-extend it for signed discriminant types
                        match d.ty.kind().rigid() {
                            Some(RigidTy::Int(i)) => { let sh = 128 - 8 * i.num_bytes() as u32; (((d.val << sh) as i128) >> sh).to_string() }
                            _ => d.val.to_string(),
                        }
                    } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                }
                let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let ga = self.gargs(args);
                format!("\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"args\":{},\"variants\":[{}]", kind, esc(&def.name().to_string()), ga, vs.join(","))
            }
            Some(RigidTy::Array(e, n)) => { let e2 = self.ty(*e); format!("\"k\":\"array\",\"e\":{},\"n\":{}", e2, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
            Some(RigidTy::Slice(e)) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            Some(RigidTy::RawPtr(e, m)) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(*e), *m == Mutability::Mut),
            Some(RigidTy::Ref(_, e, m)) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(*e), *m == Mutability::Mut),
            Some(RigidTy::FnDef(def, args)) => {
                let inst = Instance::resolve(*def, args);
                match inst {
                    Ok(i) => { let n = self.inst(i); format!("\"k\":\"fndef\",\"inst\":{}", esc(&n)) }
                    Err(_) => "\"k\":\"fndef\",\"inst\":null".to_string(),
                }
            }
            Some(RigidTy::FnPtr(_)) => "\"k\":\"fnptr\"".to_string(),
            Some(RigidTy::Closure(def, args)) => {
                let inst = Instance::resolve_closure(*def, args, ClosureKind::FnOnce).ok();
                let mut s = String::from("\"k\":\"closure\"");
                if let Some(i) = inst { let n = self.inst(i); let _ = write!(s, ",\"inst\":{}", esc(&n)); }
                // the closure's own body (its kind is encoded in the third generic argument from the end)
                let n = args.0.len();
                let kind = if n >= 3 { match &args.0[n - 3] { GenericArgKind::Type(t) => match t.kind().rigid() { Some(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn, Some(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut, _ => ClosureKind::FnOnce }, _ => ClosureKind::FnOnce } } else { ClosureKind::FnOnce };
                if let Ok(i) = Instance::resolve_closure(*def, args, kind) { let n = self.inst(i); let _ = write!(s, ",\"fn\":{}", esc(&n)); }
                // upvar types: last generic argument is the tuple of captured types
                if let Some(GenericArgKind::Type(t)) = args.0.last() { let u = self.ty(*t); let _ = write!(s, ",\"up\":{}", u); }
                let _ = write!(s, ",\"path\":{}", esc(&def.name().to_string()));
                s
            }
            Some(RigidTy::Tuple(ts)) => { let x = self.tys(ts); format!("\"k\":\"tuple\",\"e\":{}", x) }
            Some(RigidTy::Dynamic(..)) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},{},\"lay\":{}}}", name, body, lay)
    }
    fn stopped(&self, name: &str) -> bool {
        let hit = |p: &str| if let Some(q) = p.strip_prefix('^') { name.starts_with(q) } else { name.contains(p) };
        self.stop.iter().any(|p| !p.starts_with('!') && hit(p)) && !self.stop.iter().any(|p| p.strip_prefix('!').map_or(false, hit))
    }
    fn inst(&mut self, i: Instance) -> String {
        let m = i.mangled_name().to_string();
        if self.seen.insert(m.clone()) { self.queue.push_back(i); }
        m
    }
    fn alloc_ref(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&a) { return *i; }
        let i = self.alloc_ids.len();
        self.alloc_ids.insert(a, i);
        self.alloc_queue.push_back((i, a));
        i
    }
    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in a.bytes.iter() { match b { Some(x) => { let _ = write!(hex, "{:02x}", x); } None => hex.push_str("??") } }
        let mut pr = vec![];
        for (o, p) in a.provenance.ptrs.iter() { pr.push(format!("[{},{}]", o, self.alloc_ref(p.0))); }
        format!("\"bytes\":\"{}\",\"prov\":[{}]", hex, pr.join(","))
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                #[allow(unreachable_patterns)]
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let b = self.alloc_body(a); format!("{{\"t\":{},{}}}", t, b) }
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"zst\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let b = self.alloc_body(a); format!("{{\"t\":{},{}}}", t, b) }
                TyConstKind::ZSTValue(_) => format!("{{\"t\":{},\"zst\":1}}", t),
                k => format!("{{\"t\":{},\"unk\":{}}}", t, esc(&format!("{:?}", k))),
            },
            k => format!("{{\"t\":{},\"unk\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",\"{:?}\"]", r),
        }
    }
    fn ops(&mut self, os: &[Operand]) -> String { let v: Vec<String> = os.iter().map(|o| self.op(o)).collect(); format!("[{}]", v.join(",")) }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(_, v, _, _, f) => format!("[\"adt\",{},{}]", v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into())),
                    AggregateKind::Closure(..) => "[\"closure\"]".into(),
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let o = self.ops(os);
                format!("[\"agg\",{},{},{}]", ks, t, o)
            }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"cbin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t) }
            Rvalue::Cast(k, o, t) => { let f = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t), f) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => { let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"discr\",{},{}]", self.place(p), t) }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},\"{}\"]", self.place(p), match k { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" }),
            Rvalue::Repeat(o, n) => { let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"repeat\",{},{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()), t) }
            Rvalue::UnaryOp(u, o) => { let t = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o), t) }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            x => format!("[\"other\",{}]", esc(&format!("{:?}", x))),
        }
    }
    fn fun(&mut self, i: Instance) -> String {
        let name = i.name().to_string();
        let kind = match i.kind { InstanceKind::Item => "item".to_string(), InstanceKind::Intrinsic => "intrinsic".into(), InstanceKind::Virtual { idx } => format!("virtual{}", idx), InstanceKind::Shim => "shim".into(), _ => "llvm".into() };
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let ga = self.gargs(&i.args());
        let head = format!("\"name\":{},\"def\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"krate\":{}", esc(&name), esc(&i.def.name().to_string()), kind, intr.map(|s| esc(&s)).unwrap_or("null".into()), ga, esc(&i.def.krate().name.to_string()));
        let sig = "";
        let is_mod = self.stopped(&name); let stop = is_mod || kind == "intrinsic" || kind == "llvm" || (!i.has_body() && !(kind == "shim" && name.contains(" as std::ops::Fn"))) || kind.starts_with("virtual");
        let body = if stop { None } else { i.body() };
        match body {
            None => format!("{{{}{},\"body\":null,\"stop\":{}}}", head, sig, stop),
            Some(b) => {
                let locals: Vec<LocalDecl> = b.locals().to_vec();
                let lt: Vec<Ty> = locals.iter().map(|l| l.ty).collect();
                let lts = self.tys(&lt);
                let mut dbg = vec![];
                for v in &b.var_debug_info { if let Some(l) = v.local() { dbg.push(format!("[{},{}]", esc(&v.name.to_string()), l)); } }
                let mut bl = vec![];
                for bb in &b.blocks {
                    let mut st = vec![];
                    for s in &bb.statements {
                        match &s.kind {
                            StatementKind::Assign(p, r) => { let x = self.place(p); let y = self.rv(r, &locals); st.push(format!("[\"=\",{},{},{}]", x, y, s.source_info.span.get_lines().start_line)); }
                            StatementKind::SetDiscriminant { place, variant_index } => { let x = self.place(place); let t = place.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); st.push(format!("[\"setd\",{},{},{}]", x, variant_index.to_index(), t)); }
                            StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                            StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l)),
                            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(format!("[\"assume\",{}]", self.op(o))),
                            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let x = self.op(&c.src); let y = self.op(&c.dst); let z = self.op(&c.count); st.push(format!("[\"cno\",{},{},{}]", x, y, z)); }
                            _ => {}
                        }
                    }
                    let line = bb.terminator.source_info.span.get_lines().start_line;
                    let t = match &bb.terminator.kind {
                        TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                        TerminatorKind::SwitchInt { discr, targets } => {
                            let o = self.op(discr);
                            let dt = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                            let v: Vec<String> = targets.branches().map(|(a, b)| format!("[\"{}\",{}]", a, b)).collect();
                            format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), targets.otherwise(), dt)
                        }
                        TerminatorKind::Return => "[\"ret\"]".into(),
                        TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                        TerminatorKind::Drop { place, target, .. } => { let t = place.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"drop\",{},{},{}]", self.place(place), target, t) }
                        TerminatorKind::Call { func, args, destination, target, .. } => {
                            let callee = match func.ty(&locals).ok().map(|t| t.kind()) {
                                Some(TyKind::RigidTy(RigidTy::FnDef(def, ga))) => match Instance::resolve(def, &ga) { Ok(x) => { let n = self.inst(x); esc(&n) } Err(_) => "null".into() },
                                _ => format!("[\"dyn\",{}]", self.op(func)),
                            };
                            let a = self.ops(args);
                            let d = self.place(destination);
                            let dt = destination.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                            let at: Vec<String> = args.iter().map(|o| o.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                            format!("[\"call\",{},{},{},{},{},{},[{}]]", callee, a, d, target.map(|t| t.to_string()).unwrap_or("null".into()), line, dt, at.join(","))
                        }
                        TerminatorKind::Assert { cond, expected, msg, target, .. } => format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, esc(msg.description().unwrap_or("?")), target, line),
                        TerminatorKind::Resume => "[\"resume\"]".into(),
                        TerminatorKind::Abort => "[\"abort\"]".into(),
                        TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                    };
                    bl.push(format!("[[{}],{}]", st.join(","), t));
                }
                let file = b.span.get_filename().to_string();
                let line = b.span.get_lines().start_line;
                format!("{{{}{},\"nargs\":{},\"spread\":{},\"locals\":{},\"dbg\":[{}],\"file\":{},\"line\":{},\"body\":[{}]}}", head, sig, b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), lts, dbg.join(","), esc(&file), line, bl.join(",\n"))
            }
        }
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("VERIF_DUMP_OUT").unwrap();
    let stopf = std::env::var("VERIF_DUMP_STOP").unwrap_or_default();
    let stop = std::fs::read_to_string(&stopf).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut cx = Cx { stop, types: BTreeMap::new(), ty_ids: HashMap::new(), ty_queue: VecDeque::new(), fns: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), allocs: BTreeMap::new(), alloc_queue: VecDeque::new(), alloc_ids: HashMap::new() };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = it.ty().kind() {
            if args.0.iter().any(|a| !matches!(a, GenericArgKind::Lifetime(_))) { continue; }
            if let Ok(i) = Instance::resolve(def, &args) { let n = cx.inst(i); roots.push(esc(&n)); }
        }
    }
    loop {
        if let Some(i) = cx.queue.pop_front() { let m = i.mangled_name().to_string(); let j = cx.fun(i); cx.fns.insert(m, j); continue; }
        if let Some(t) = cx.ty_queue.pop_front() { let id = cx.ty_ids[&t]; let j = cx.ty_json(t); cx.types.insert(id, j); continue; }
        if let Some((n, a)) = cx.alloc_queue.pop_front() {
            let j = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => { let b = cx.alloc_body(&m); format!("{{\"k\":\"mem\",{}}}", b) }
                GlobalAlloc::Function(i) => { let m = cx.inst(i); format!("{{\"k\":\"fn\",\"inst\":{}}}", esc(&m)) }
                GlobalAlloc::VTable(t, _) => { let t = cx.ty(t); format!("{{\"k\":\"vtable\",\"t\":{}}}", t) }
                GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(m) => { let b = cx.alloc_body(&m); let t = cx.ty(s.ty()); format!("{{\"k\":\"static\",\"name\":{},\"t\":{},{}}}", esc(&s.name().to_string()), t, b) } Err(_) => format!("{{\"k\":\"static\",\"name\":{}}}", esc(&s.name().to_string())) },
                _ => "{\"k\":\"other\"}".into(),
            };
            cx.allocs.insert(n, j);
            continue;
        }
        break;
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"crate\":{},\"roots\":[{}],\n\"types\":{{", esc(&rustc_public::local_crate().name.to_string()), roots.join(","));
    let v: Vec<String> = cx.types.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("},\n\"allocs\":{");
    let v: Vec<String> = cx.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("},\n\"fns\":{");
    let v: Vec<String> = cx.fns.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("}}\n");
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // invoked as: driver <path-to-rustc> <rustc args...>  (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("VERIF_DUMP_CRATE").unwrap_or_default();
    let hit = krate.as_deref().map(|k| want.split(',').any(|w| w == k)).unwrap_or(false);
    if hit {
        if let Ok(d) = std::env::var("VERIF_DUMP_DIR") { unsafe { std::env::set_var("VERIF_DUMP_OUT", format!("{}/{}.json", d, krate.unwrap())); } }
        match run!(&args, dump) { Ok(_) => {} Err(e) => { eprintln!("driver: {:?}", e); std::process::exit(1) } }
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
