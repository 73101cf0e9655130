// Exports the type-checked, monomorphic MIR of the crate being compiled as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_session;
extern crate rustc_span;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
enum J {
    S(String),
    I(i128),
    B(bool),
    N,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap_or(-1))
}

// ---------------------------------------------------------------- context
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<String, usize>, // key -> id
    queue: VecDeque<(usize, Instance)>,
    n_insts: usize,
    src: String,
}

fn def_path<D: CrateDef>(d: &D) -> String {
    d.name().to_string()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.tys.get(&t) {
            return *x;
        }
        let id = self.tys.len();
        self.tys.insert(t, id);
        self.ty_queue.push_back(t);
        self.ty_out.push(J::N);
        id
    }
    fn jty(&mut self, t: Ty) -> J {
        i(self.ty(t))
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in a.0.iter() {
            if let GenericArgKind::Type(t) = x {
                v.push(self.jty(*t));
            }
        }
        J::A(v)
    }
    fn flush_types(&mut self) {
        while let Some(t) = self.ty_queue.pop_front() {
            let id = self.tys[&t];
            let j = self.ty_json(t);
            self.ty_out[id] = j;
        }
    }
    fn ty_json(&mut self, t: Ty) -> J {
        let mut o = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(x) => {
                    o.push(("k", s("int")));
                    o.push(("bytes", i(x.num_bytes())));
                }
                RigidTy::Uint(x) => {
                    o.push(("k", s("uint")));
                    o.push(("bytes", i(x.num_bytes())));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Adt(d, a) => {
                    o.push(("k", s("adt")));
                    o.push(("def", s(def_path(&d))));
                    o.push(("local", J::B(d.krate().is_local)));
                    o.push(("krate", s(d.krate().name)));
                    let args = self.gargs(&a);
                    o.push(("args", args));
                    o.push((
                        "adt",
                        s(match d.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                    ));
                    o.push(("box", J::B(d.is_box())));
                    let path = def_path(&d);
                    let detail = d.krate().is_local
                        || path.starts_with("std::")
                        || path.starts_with("core::")
                        || path.starts_with("alloc::")
                        || d.num_variants() <= 1;
                    if detail {
                        let mut vs = vec![];
                        for v in d.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let fty = f.ty_with_args(&a);
                                fs.push(J::A(vec![s(f.name.to_string()), self.jty(fty)]));
                            }
                            let discr = if let AdtKind::Enum = d.kind() {
                                d.discriminant_for_variant(v.idx()).val
                            } else {
                                0
                            };
                            vs.push(J::O(vec![
                                ("name", s(v.name().to_string())),
                                ("discr", J::I(discr as i128)),
                                ("fields", J::A(fs)),
                            ]));
                        }
                        o.push(("variants", J::A(vs)));
                    } else {
                        let mut vs = vec![];
                        for v in d.variants() {
                            let discr = if let AdtKind::Enum = d.kind() {
                                d.discriminant_for_variant(v.idx()).val
                            } else {
                                0
                            };
                            vs.push(J::O(vec![
                                ("name", s(v.name().to_string())),
                                ("discr", J::I(discr as i128)),
                            ]));
                        }
                        o.push(("variants", J::A(vs)));
                    }
                }
                RigidTy::Array(e, n) => {
                    o.push(("k", s("array")));
                    let e = self.jty(e);
                    o.push(("elem", e));
                    o.push(("len", n.eval_target_usize().map(|x| i(x)).unwrap_or(J::N)));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    let e = self.jty(e);
                    o.push(("elem", e));
                }
                RigidTy::RawPtr(e, _) => {
                    o.push(("k", s("rawptr")));
                    let e = self.jty(e);
                    o.push(("elem", e));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    let e = self.jty(e);
                    o.push(("elem", e));
                    o.push(("mut", J::B(matches!(m, Mutability::Mut))));
                }
                RigidTy::Tuple(v) => {
                    o.push(("k", s("tuple")));
                    let v = v.iter().map(|x| self.jty(*x)).collect();
                    o.push(("elems", J::A(v)));
                }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", s("fndef")));
                    let c = self.callee(d, &a);
                    o.push(("fn", c));
                }
                RigidTy::Closure(d, a) => {
                    o.push(("k", s("closure")));
                    o.push(("def", s(def_path(&d))));
                    let id = self.closure_inst(d, &a);
                    o.push(("inst", id));
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
    fn closure_inst(&mut self, d: ClosureDef, a: &GenericArgs) -> J {
        for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
            if let Ok(inst) = Instance::resolve_closure(d, a, k) {
                // an Fn closure resolved as FnOnce is a shim: prefer the item itself
                if inst.kind == InstanceKind::Item {
                    return self.inst(inst);
                }
            }
        }
        J::N
    }
    fn wanted(&self, path: &str, local: bool) -> bool {
        if local {
            return !path.contains("GrammarParser") && !path.contains("_::") || path.contains("{impl");
        }
        let p = path;
        const PRE: &[&str] = &[
            "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::ops::",
            "core::iter::", "core::mem::replace", "core::mem::take", "core::mem::swap",
            "std::option::", "std::result::", "std::cmp::", "std::convert::", "std::ops::",
            "std::iter::", "std::mem::replace", "std::mem::take", "std::mem::swap",
            "core::bool::", "std::bool::", "core::tuple::", "std::tuple::",
            "core::borrow::", "std::borrow::",
        ];
        let q = p.trim_start_matches('<');
        PRE.iter().any(|x| q.starts_with(x))
            || (p.starts_with('<') && PRE.iter().any(|x| p.contains(&format!(" as {}", x))) && p.contains("::iter::adapters"))
            || (p.starts_with('<')
                && (p.contains(" as std::iter::Iterator>") || p.contains(" as core::iter::Iterator>")
                    || p.contains(" as std::iter::FromIterator")
                    || p.contains(" as std::ops::Try>")
                    || p.contains(" as std::ops::FromResidual")
                    || p.contains(" as std::cmp::PartialOrd")
                    || p.contains(" as std::cmp::PartialEq")
                    || p.contains(" as std::cmp::Ord")
                    || p.contains(" as std::ops::Fn")
                    || p.contains(" as std::default::Default>")))
    }
    // id of an instance whose body is exported (or null)
    fn inst(&mut self, inst: Instance) -> J {
        let key = format!("{}|{}", inst.mangled_name(), matches!(inst.kind, InstanceKind::Virtual { .. }));
        if let Some(x) = self.insts.get(&key) {
            return i(*x);
        }
        let local = inst.def.krate().is_local;
        let path = inst.name().to_string();
        if matches!(inst.kind, InstanceKind::Item | InstanceKind::Shim)
            && inst.has_body()
            && self.wanted(&path, local)
        {
            let id = self.n_insts;
            self.n_insts += 1;
            self.insts.insert(key, id);
            self.queue.push_back((id, inst));
            return i(id);
        }
        J::N
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> J {
        let mut o = vec![("decl", s(def_path(&d)))];
        let ga = self.gargs(a);
        o.push(("targs", ga));
        match Instance::resolve(d, a) {
            Ok(inst) => {
                o.push(("def", s(inst.def.name().to_string())));
                o.push(("name", s(inst.name().to_string())));
                o.push(("krate", s(inst.def.krate().name)));
                if let InstanceKind::Virtual { .. } = inst.kind {
                    o.push(("virtual", J::B(true)));
                } else if let InstanceKind::Intrinsic = inst.kind {
                    o.push(("intrinsic", s(inst.intrinsic_name().map(|x| x.to_string()).unwrap_or_default())));
                } else {
                    if let InstanceKind::Shim = inst.kind {
                        o.push(("shim", J::B(true)));
                    }
                    let id = self.inst(inst);
                    o.push(("inst", id));
                }
            }
            Err(_) => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }
    fn span(&self, sp: &Span) -> J {
        let l = sp.get_lines();
        let f = sp.get_filename().to_string();
        let f = f.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(f);
        J::S(format!("{}:{}", f, l.start_line))
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![i(p.local)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(k, t) => J::A(vec![s("f"), i(*k), self.jty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(*l)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), i(*offset), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), i(*from), i(*to), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => {
                    J::A(vec![s("d"), i(vidx(v))])
                }
                ProjectionElem::OpaqueCast(_) => s("oc"),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let mut o = vec![("ty", self.jty(t))];
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let v = self.alloc_val(t, a, 0, 0);
                o.push(("v", v));
            }
            ConstantKind::ZeroSized => o.push(("v", J::A(vec![s("zst")]))),
            ConstantKind::Ty(tc) => o.push((
                "v",
                match tc.eval_target_usize() {
                    Ok(x) => J::A(vec![s("int"), i(x)]),
                    Err(_) => J::A(vec![s("opaque"), s(format!("{:?}", tc))]),
                },
            )),
            ConstantKind::Unevaluated(_) => {
                o.push(("v", J::A(vec![s("opaque"), s(format!("{:?}", c))])));
            }
            _ => o.push(("v", J::A(vec![s("opaque"), s(format!("{:?}", c))]))),
        }
        J::O(o)
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        if off + n > a.bytes.len() {
            return None;
        }
        let mut v = vec![];
        for b in &a.bytes[off..off + n] {
            v.push((*b)?);
        }
        Some(v)
    }
    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = self.rd(a, off, n)?;
        let mut x = 0u128;
        for (k, v) in b.iter().enumerate() {
            x |= (*v as u128) << (8 * k);
        }
        Some(x)
    }
    // decode a constant
    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let bad = |why: &str| J::A(vec![s("opaque"), s(why)]);
        if depth > 12 {
            return bad("deep");
        }
        let TyKind::RigidTy(r) = t.kind() else { return bad("ty") };
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(x) => J::A(vec![s("bool"), J::B(x != 0)]),
                None => bad("u"),
            },
            RigidTy::Char => match self.uint(a, off, 4) {
                Some(x) => J::A(vec![s("char"), s(char::from_u32(x as u32).unwrap_or('?'))]),
                None => bad("u"),
            },
            RigidTy::Int(k) => match self.uint(a, off, k.num_bytes()) {
                Some(x) => {
                    let bits = 8 * k.num_bytes() as u32;
                    let v = if bits == 128 { x as i128 } else {
                        let sh = 128 - bits;
                        ((x << sh) as i128) >> sh
                    };
                    J::A(vec![s("int"), J::I(v)])
                }
                None => bad("u"),
            },
            RigidTy::Uint(k) => match self.uint(a, off, k.num_bytes()) {
                Some(x) => J::A(vec![s("int"), s(x)]),
                None => bad("u"),
            },
            RigidTy::Float(_) => bad("float"),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1 .0);
                let Some(p) = prov else { return bad("noprov") };
                let base = self.uint(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            match self.rd(&m, base, len) {
                                Some(b) => J::A(vec![s("str"), s(String::from_utf8_lossy(&b))]),
                                None => bad("str"),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = match el.layout() {
                                Ok(l) => l.shape().size.bytes(),
                                Err(_) => return bad("layout"),
                            };
                            let v = (0..len).map(|k| self.alloc_val(el, &m, base + k * sz, depth + 1)).collect();
                            J::A(vec![s("ref"), J::A(vec![s("arr"), J::A(v)])])
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => bad("dyn"),
                        _ => J::A(vec![s("ref"), self.alloc_val(e, &m, base, depth + 1)]),
                    },
                    GlobalAlloc::Static(d) => {
                        // a plain table is its content; anything with interior mutability stays a name
                        let n = format!("{}", e);
                        let plain = !["Cell", "Lazy", "Once", "Atomic", "Mutex", "RwLock", "lazy"].iter().any(|x| n.contains(x))
                            && !matches!(e.kind(), TyKind::RigidTy(RigidTy::Adt(..)));
                        match d.eval_initializer() {
                            Ok(m) if plain => J::A(vec![s("ref"), self.alloc_val(e, &m, base, depth + 1)]),
                            _ => J::A(vec![s("static"), s(def_path(&d))]),
                        }
                    }
                    GlobalAlloc::Function(inst) => J::A(vec![s("fn"), s(inst.name().to_string()), self.inst(inst)]),
                    _ => bad("ga"),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1 .0);
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(inst) = GlobalAlloc::from(p) {
                        return J::A(vec![s("fn"), s(inst.name().to_string()), self.inst(inst)]);
                    }
                }
                bad("fnptr")
            }
            RigidTy::Array(e, n) => {
                let Ok(n) = n.eval_target_usize() else { return bad("arrlen") };
                let sz = match e.layout() {
                    Ok(l) => l.shape().size.bytes(),
                    Err(_) => return bad("layout"),
                };
                if n > 4096 { return bad("long array"); }
                let v = (0..n as usize).map(|k| self.alloc_val(e, a, off + k * sz, depth + 1)).collect();
                J::A(vec![s("arr"), J::A(v)])
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return bad("layout") };
                if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = l.shape().fields {
                    let v = ts.iter().zip(offsets.iter())
                        .map(|(ft, fo)| self.alloc_val(*ft, a, off + fo.bytes(), depth + 1)).collect();
                    return J::A(vec![s("tuple"), J::A(v)]);
                }
                if ts.is_empty() { return J::A(vec![s("tuple"), J::A(vec![])]); }
                bad("tuple")
            }
            RigidTy::Adt(d, args) => {
                let Ok(l) = t.layout() else { return bad("layout") };
                let sh = l.shape();
                let single = match &sh.variants {
                    rustc_public::abi::VariantsShape::Single { index } => Some((*index, sh.fields.clone())),
                    rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        // direct tags only; niche: handle the "all bytes zero pointer" case as opaque
                        if let rustc_public::abi::TagEncoding::Direct = tag_encoding {
                            let toff = match &sh.fields {
                                rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let n = match tag {
                                rustc_public::abi::Scalar::Initialized { value: rustc_public::abi::Primitive::Int { length, .. }, .. } => length.bits() / 8,
                                _ => return bad("tag"),
                            };
                            let Some(tv) = self.uint(a, off + toff, n) else { return bad("tag") };
                            let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                            let mut r = None;
                            for v in d.variants() {
                                if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                    let f = variants[vidx(&v.idx())].offsets.clone();
                                    r = Some((v.idx(), rustc_public::abi::FieldsShape::Arbitrary { offsets: f }));
                                }
                            }
                            r
                        } else if let rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                            let toff = match &sh.fields {
                                rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let prim = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => value,
                                rustc_public::abi::Scalar::Union { value } => value,
                            };
                            let (n, ptr) = match prim {
                                rustc_public::abi::Primitive::Int { length, .. } => (length.bits() / 8, false),
                                rustc_public::abi::Primitive::Pointer(_) => (8, true),
                                _ => return bad("niche"),
                            };
                            let (lo, hi) = (vidx(niche_variants.start()), vidx(niche_variants.end()));
                            let isptr = ptr && a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let mut ix = vidx(untagged_variant);
                            if !isptr {
                                let Some(tv) = self.uint(a, off + toff, n) else { return bad("tag") };
                                let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                if rel <= (hi - lo) as u128 {
                                    ix = lo + rel as usize;
                                }
                            }
                            d.variants().into_iter().find(|v| vidx(&v.idx()) == ix).map(|v| {
                                let f = variants[ix].offsets.clone();
                                (v.idx(), rustc_public::abi::FieldsShape::Arbitrary { offsets: f })
                            })
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                let Some((vi, fields)) = single else { return bad("adt") };
                let Some(v) = d.variant(vi) else { return bad("variant") };
                let offs = match fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect::<Vec<_>>(),
                    _ => vec![],
                };
                let fs = v.fields();
                if fs.len() != offs.len() && !fs.is_empty() { return bad("fields"); }
                let vals = fs.iter().zip(offs.iter())
                    .map(|(f, fo)| self.alloc_val(f.ty_with_args(&args), a, off + fo, depth + 1)).collect();
                J::A(vec![s("adt"), i(vidx(&vi)), J::A(vals)])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => J::A(vec![s("zst")]),
            _ => bad("kind"),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.jty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, fld) => {
                        let t = d.ty_with_args(a);
                        J::A(vec![s("adt"), self.jty(t), i(vidx(v)), fld.map(|x| i(x)).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        J::A(vec![s("closure"), self.jty(t)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(ops)])
            }
            Rvalue::BinaryOp(op, a, b) => {
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                J::A(vec![s("chk"), s(format!("{:?}", op)), self.operand(a), self.operand(b)])
            }
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o), self.jty(*t)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(o), c.eval_target_usize().map(|x| i(x)).unwrap_or(J::N)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), s("reborrow"), self.place(p)]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
        }
    }
    fn body(&mut self, id: usize, inst: &Instance) -> Option<J> {
        let b = inst.body()?;
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(self.jty(l.ty));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(J::A(vec![s("="), p, r, self.span(&x.source_info.span)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, i(vidx(variant_index))]))
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(*l)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push(J::A(vec![s("copynonoverlapping")]))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let mut o = vec![];
            match &t.kind {
                TerminatorKind::Goto { target } => {
                    o.push(("t", s("goto")));
                    o.push(("to", i(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    o.push(("on", self.operand(discr)));
                    o.push(("br", J::A(targets.branches().map(|(v, t)| J::A(vec![s(v), i(t)])).collect())));
                    o.push(("else", i(targets.otherwise())));
                }
                TerminatorKind::Resume => o.push(("t", s("resume"))),
                TerminatorKind::Abort => o.push(("t", s("abort"))),
                TerminatorKind::Return => o.push(("t", s("return"))),
                TerminatorKind::Unreachable => o.push(("t", s("unreachable"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("t", s("drop")));
                    o.push(("place", self.place(place)));
                    o.push(("to", i(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("t", s("call")));
                    let fty = func.ty(b.locals()).ok();
                    let f = match fty.map(|x| x.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a),
                        _ => J::O(vec![("ptr", self.operand(func))]),
                    };
                    o.push(("f", f));
                    o.push(("args", J::A(args.iter().map(|x| self.operand(x)).collect())));
                    o.push(("dst", self.place(destination)));
                    o.push(("to", target.map(|x| i(x)).unwrap_or(J::N)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("t", s("assert")));
                    o.push(("on", self.operand(cond)));
                    o.push(("exp", J::B(*expected)));
                    o.push(("msg", s(match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow Neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "div0".to_string(),
                        AssertMessage::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    })));
                    o.push(("to", i(*target)));
                }
                TerminatorKind::InlineAsm { .. } => o.push(("t", s("asm"))),
            }
            o.push(("span", self.span(&t.source_info.span)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o))]));
        }
        let mut out = vec![
            ("id", i(id)),
            ("name", s(inst.name().to_string())),
            ("def", s(inst.def.name().to_string())),
            ("krate", s(inst.def.krate().name)),
            ("local", J::B(inst.def.krate().is_local)),
            ("shim", J::B(inst.kind == InstanceKind::Shim)),
            ("nargs", i(b.arg_locals().len())),
            ("spread", b.spread_arg().map(|x| i(x)).unwrap_or(J::N)),
            ("span", self.span(&b.span)),
        ];
        let ga = self.gargs(&inst.args());
        out.push(("targs", ga));
        out.push(("locals", J::A(locals)));
        out.push(("names", J::A(names)));
        out.push(("blocks", J::A(blocks)));
        Some(J::O(out))
    }
}

fn export(out: &str) {
    let krate = rustc_public::local_crate();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        queue: VecDeque::new(),
        n_insts: 0,
        src: String::new(),
    };
    let _ = &cx.src;
    let mut generic = vec![];
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != rustc_public::ItemKind::Fn {
            items.push(J::A(vec![s(it.name().to_string()), s(format!("{:?}", it.kind()))]));
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(s(it.name().to_string()));
            // impl Hash for a local type: the hasher does not matter for what is hashed
            if it.name().to_string().ends_with("as std::hash::Hash>::hash") {
                let h = Ty::from_rigid_kind(RigidTy::Uint(UintTy::Usize));
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = it.ty().kind() {
                    if a.0.len() == 1 {
                        let args = GenericArgs(vec![GenericArgKind::Type(h)]);
                        if let Ok(inst) = Instance::resolve(d, &args) {
                            cx.inst(inst);
                        }
                    }
                }
            }
            continue;
        }
        if let Ok(inst) = Instance::try_from(it) {
            cx.inst(inst);
        }
    }
    let mut fns = vec![];
    loop {
        if let Some((id, inst)) = cx.queue.pop_front() {
            match cx.body(id, &inst) {
                Some(j) => fns.push(j),
                None => fns.push(J::O(vec![("id", i(id)), ("name", s(inst.name().to_string())), ("nobody", J::B(true))])),
            }
        } else if !cx.ty_queue.is_empty() {
            cx.flush_types();
        } else {
            break;
        }
    }
    let mut impls = vec![];
    for im in rustc_public::all_trait_impls() {
        let _ = &im;
    }
    for im in krate.trait_impls() {
        let tr = im.trait_impl();
        let tr = tr.value;
        impls.push(J::A(vec![s(tr.def_id.name().to_string()), s(format!("{}", tr.self_ty())), s(im.name().to_string())]));
    }
    let j = J::O(vec![
        ("crate", s(krate.name)),
        ("fns", J::A(fns)),
        ("types", J::A(std::mem::take(&mut cx.ty_out))),
        ("generic", J::A(generic)),
        ("items", J::A(items)),
        ("impls", J::A(impls)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    std::fs::write(out, o).expect("write export");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            rustc_public::rustc_internal::run(tcx, || export(o)).expect("export");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    // args[0] is rustc
    let get = |n: &str| {
        args.iter().position(|x| x == n).and_then(|p| args.get(p + 1).cloned())
    };
    let name = get("--crate-name").unwrap_or_default();
    let ctype = get("--crate-type").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let out = match (&dir, name.as_str()) {
        (Some(d), "dinero") => Some(format!("{}/{}.json", d, if ctype == "bin" { "bin" } else { "lib" })),
        _ => None,
    };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
fn vidx(v: &VariantIdx) -> usize {
    // VariantIdx has no public accessor; its Debug form is `VariantIdx(<n>)`
    format!("{:?}", v).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}
