//! rustc MIR -> compact IR. Everything is monomorphic: a `Fun` is one instance.
use crate::term::*;
use crate::val::*;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum PE { Deref, Field(u32), Index(usize), ConstIdx(u64, bool), Subslice(u64, u64, bool) }

#[derive(Clone, Debug)]
pub struct Pl { pub local: usize, pub proj: Vec<PE> }

#[derive(Clone, Debug)]
pub enum Opd { Place(Pl), Const(Val), Bad(String) }

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opd),
    Ref(Pl),
    Bin(BinOp, Opd, Opd, u16, bool),
    Checked(BinOp, Opd, Opd, u16, bool),
    Not(Opd),
    Neg(Opd),
    PtrMeta(Opd),
    Discr(Pl, Rc<Vec<u128>>, u16),
    Agg(Vec<Opd>),
    Variant(u32, Vec<Opd>),
    RawPtr(Opd, Opd),
    MkString(Opd),
    MkVec(Opd),
    IntCast(Opd, bool, u16),
    Unsize(Opd, Option<usize>, Option<u32>),
    Repeat(Opd, usize),
    Len(Pl),
    FnPtr(u32),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum St { Assign(Pl, Rv), SetDiscr(Pl, u32), Bad(String) }

#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Opd, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Call { callee: CallT, args: Vec<Opd>, dest: Pl, target: Option<usize> },
    Assert { cond: Opd, expected: bool, msg: String, target: usize },
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum CallT { Fun(u32), Ptr(Opd) }

#[derive(Debug)]
pub struct Block { pub stmts: Vec<St>, pub term: Tm, pub line: u32 }

#[derive(Debug)]
pub struct Fun {
    pub id: u32,
    pub name: String,
    pub nargs: usize,
    pub nlocals: usize,
    /// locals of a zero-sized enum type: MIR optimisation removes their writes
    pub zsts: Vec<(usize, Val)>,
    pub spread: bool,
    pub is_closure: bool,
    pub blocks: Vec<Block>,
    pub file: String,
    pub cleanup: bool,
}

pub struct InstInfo {
    pub inst: Instance,
    /// generic definition path
    pub def: String,
    /// instance path
    pub name: String,
    pub tys: Vec<Ty>,
    pub consts: Vec<u64>,
    pub fndef: Option<(FnDef, GenericArgs)>,
    pub kind: u8, // 0 item, 1 intrinsic, 2 virtual, 3 shim
}

pub struct Prog {
    pub infos: Vec<Rc<InstInfo>>,
    pub map: HashMap<Instance, u32>,
    pub funs: HashMap<u32, Rc<Fun>>,
    pub consts: Vec<Val>,
    pub discr_cache: HashMap<Ty, Rc<Vec<u128>>>,
    pub models: HashMap<String, FnDef>,
    pub compiled: u64,
    pub dyn_types: Vec<Ty>,
}

/// readable form of an instance path: generic arguments and closure types are dropped
pub fn short_name(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut depth = 0;
    let skip = |mut j: usize, open: char, close: char| { let mut d = 0; while j < b.len() { if b[j] == open { d += 1 } else if b[j] == close && !(close == '>' && j > 0 && b[j - 1] == '-') { d -= 1; if d == 0 { return j + 1; } } j += 1; } j };
    while i < b.len() {
        if b[i] == '{' && b[i..].iter().take(9).collect::<String>() == "{closure@" { i = skip(i, '{', '}'); out.push_str("{closure}"); continue; }
        if b[i] == '<' {
            if out.ends_with("::") || depth >= 1 { i = skip(i, '<', '>'); if out.ends_with("::") { out.truncate(out.len() - 2); } continue; }
            depth += 1;
        } else if b[i] == '>' && !(i > 0 && b[i - 1] == '-') && depth > 0 { depth -= 1; }
        out.push(b[i]);
        i += 1;
    }
    out.replace("osu_file_parser::", "")
}
pub fn strip_lt(s: &str) -> String {
    // remove lifetime arguments such as 'a / '_ from printed paths
    let mut out = String::with_capacity(s.len());
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1; }
            // "&'a str" -> "&str", "<'a, T>" -> "<T>", "<'a>" -> ""
            if j < b.len() && b[j] == ' ' { i = j + 1; continue; }
            if j < b.len() && b[j] == ',' { i = j + 1; if i < b.len() && b[i] == ' ' { i += 1; } continue; }
            i = j;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    let mut r = out.replace(", >", ">");
    loop { let n = r.replace("::<>", "").replace("<>", ""); if n == r { break; } r = n; }
    r
}

pub fn int_info(ty: &Ty) -> Option<(u16, bool)> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Bool) => Some((0, false)),
        TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
        TyKind::RigidTy(RigidTy::Int(i)) => Some((8 * i.num_bytes() as u16, true)),
        TyKind::RigidTy(RigidTy::Uint(i)) => Some((8 * i.num_bytes() as u16, false)),
        TyKind::RigidTy(RigidTy::Pat(t, _)) => int_info(&t),
        _ => None,
    }
}
pub fn adt_name(ty: &Ty) -> Option<String> {
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { Some(d.name().to_string()) } else { None }
}
const TRANSPARENT: &[&str] = &[
    "std::boxed::Box", "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit", "std::mem::ManuallyDrop",
    "std::mem::MaybeDangling", "core::ptr::Unique", "core::ptr::unique::Unique", "std::ptr::unique::Unique", "alloc::boxed::BoxRaw", "std::boxed::raw::BoxRaw",
];
pub fn is_transparent(ty: &Ty) -> bool {
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
        if d.is_box() { return true; }
        let n = d.name().to_string();
        return TRANSPARENT.contains(&n.as_str());
    }
    false
}
pub fn ty_name(ty: &Ty) -> String { strip_lt(&format!("{}", ty)) }

impl Prog {
    pub fn new() -> Prog {
        Prog { infos: vec![], map: HashMap::new(), funs: HashMap::new(), consts: vec![], discr_cache: HashMap::new(), models: HashMap::new(), compiled: 0, dyn_types: vec![] }
    }
    pub fn inst_id(&mut self, inst: Instance) -> u32 {
        if let Some(i) = self.map.get(&inst) { return *i; }
        let id = self.infos.len() as u32;
        let kind = match inst.kind { InstanceKind::Item => 0, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => 1, InstanceKind::Virtual { .. } => 2, InstanceKind::Shim => 3 };
        let mut tys = vec![];
        let mut consts = vec![];
        for a in inst.args().0.iter() {
            match a { GenericArgKind::Type(t) => tys.push(*t), GenericArgKind::Const(c) => consts.push(c.eval_target_usize().unwrap_or(u64::MAX)), _ => {} }
        }
        let info = InstInfo { inst: inst.clone(), def: strip_lt(&inst.def.name().to_string()), name: strip_lt(&inst.name().to_string()), tys, consts, kind, fndef: None };
        self.infos.push(Rc::new(info));
        self.map.insert(inst, id);
        id
    }
    pub fn info(&self, id: u32) -> Rc<InstInfo> { self.infos[id as usize].clone() }
    pub fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> Result<u32, String> {
        match Instance::resolve(def, args) {
            Ok(i) => {
                let id = self.inst_id(i);
                if self.infos[id as usize].fndef.is_none() {
                    let o = self.infos[id as usize].clone();
                    self.infos[id as usize] = Rc::new(InstInfo { inst: o.inst.clone(), def: o.def.clone(), name: o.name.clone(), tys: o.tys.clone(), consts: o.consts.clone(), kind: o.kind, fndef: Some((def, args.clone())) });
                }
                Ok(id)
            }
            Err(e) => Err(format!("cannot resolve {}: {:?}", def.name(), e)),
        }
    }
    pub fn resolve_closure(&mut self, def: ClosureDef, args: &GenericArgs, kind: ClosureKind) -> Result<u32, String> {
        Instance::resolve_closure(def, args, kind).map(|i| self.inst_id(i)).map_err(|e| format!("{:?}", e))
    }
    pub fn dyn_type(&mut self, t: Ty) -> u32 {
        if let Some(i) = self.dyn_types.iter().position(|x| *x == t) { return i as u32; }
        self.dyn_types.push(t);
        self.dyn_types.len() as u32 - 1
    }
    /// instance called through a virtual call on a value of concrete type `t`
    pub fn devirt(&mut self, info: &InstInfo, t: Ty) -> Result<u32, String> {
        let (d, a) = info.fndef.clone().ok_or("virtual call")?;
        let mut v = a.0.clone();
        for x in v.iter_mut() { if let GenericArgKind::Type(_) = x { *x = GenericArgKind::Type(t); break; } }
        self.resolve(d, &GenericArgs(v))
    }
    pub fn add_const(&mut self, v: Val) -> Ptr {
        self.consts.push(v);
        Ptr::new(Base::Const(self.consts.len() as u32 - 1))
    }

    // ---- constants -----------------------------------------------------------------------

    pub fn const_val(&mut self, c: &MirConst) -> Result<Val, String> {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => Ok(self.zst(ty)),
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                TyConstKind::ZSTValue(t) => Ok(self.zst(*t)),
                other => Err(format!("type constant {:?}", other)),
            },
            other => Err(format!("constant kind {:?}", other)),
        }
    }
    fn zst(&mut self, ty: Ty) -> Val {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, args)) if d.kind() == AdtKind::Struct => {
                if is_transparent(&ty) { return unit(); }
                let n = d.variants()[0].fields();
                Val::Agg(Rc::new(n.iter().map(|f| { let t = f.ty_with_args(&args); self.zst(t) }).collect()))
            }
            TyKind::RigidTy(RigidTy::Adt(d, args)) if d.kind() == AdtKind::Enum => {
                let k = match ty.layout().ok().map(|l| l.shape().variants) { Some(VariantsShape::Single { index }) => index.to_index(), _ => 0 };
                match d.variants().get(k) {
                    Some(v) => { let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect(); Val::Enum(k as u32, Rc::new(fs.into_iter().map(|t| self.zst(t)).collect())) }
                    None => Val::Enum(0, Rc::new(vec![])),
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => Val::Agg(Rc::new(ts.iter().map(|t| self.zst(*t)).collect())),
            TyKind::RigidTy(RigidTy::Closure(..)) => unit(),
            TyKind::RigidTy(RigidTy::Array(..)) => Val::Agg(Rc::new(vec![])),
            _ => unit(),
        }
    }
    fn ptr_at(&self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        let add = read(a, off, 8).unwrap_or(0) as usize;
        Some((GlobalAlloc::from(p.1 .0), add))
    }
    pub fn decode(&mut self, a: &Allocation, off: usize, ty: Ty) -> Result<Val, String> {
        let shape = ty.layout().map_err(|e| format!("{:?}", e))?.shape();
        if let Some((w, _)) = int_info(&ty) {
            let bytes = if w == 0 { 1 } else { w as usize / 8 };
            return match read(a, off, bytes) { Some(v) => Ok(Val::Int(T::c(v, w))), None => Ok(Val::Uninit) };
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, inner, _)) | TyKind::RigidTy(RigidTy::RawPtr(inner, _)) => self.decode_ptr(a, off, inner),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.decode(a, off, t),
            TyKind::RigidTy(RigidTy::FnPtr(_)) => match self.ptr_at(a, off) {
                Some((GlobalAlloc::Function(i), _)) => Ok(Val::FnPtr(self.inst_id(i))),
                _ => Err("function pointer constant".into()),
            },
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return Ok(self.zst(ty)) };
                let mut v = vec![];
                for (t, o) in ts.iter().zip(offsets) { v.push(self.decode(a, off + o.bytes(), *t)?); }
                Ok(agg(v))
            }
            TyKind::RigidTy(RigidTy::Array(t, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))?;
                let FieldsShape::Array { stride, .. } = &shape.fields else { return Err("array layout".into()) };
                let mut v = vec![];
                for i in 0..n { v.push(self.decode(a, off + i as usize * stride.bytes(), t)?); }
                Ok(agg(v))
            }
            TyKind::RigidTy(RigidTy::Closure(_, args)) => {
                let _ = args;
                if shape.size.bytes() == 0 { Ok(unit()) } else { Err("closure constant with captures".into()) }
            }
            TyKind::RigidTy(RigidTy::FnDef(..)) => Ok(unit()),
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                let name = d.name().to_string();
                if name == "std::string::String" || name == "std::path::PathBuf" { return Ok(vstr("")); }
                if name == "std::vec::Vec" { return Ok(Val::Vec(Rc::new(vec![]))); }
                if name == "rust_decimal::Decimal" {
                    let fields = d.variants()[0].fields();
                    let FieldsShape::Arbitrary { offsets } = &shape.fields else { return Err("decimal layout".into()) };
                    let mut g = HashMap::new();
                    for (f, o) in fields.iter().zip(offsets) { g.insert(f.name.to_string(), read(a, off + o.bytes(), 4).unwrap_or(0)); }
                    let (flags, hi, lo, mid) = (g["flags"], g["hi"], g["lo"], g["mid"]);
                    let m = (hi << 64 | mid << 32 | lo) as i128;
                    let neg = flags >> 31 & 1 == 1;
                    let scale = (flags >> 16 & 0xff) as u32;
                    return Ok(Val::Dec(T::real(if neg { -m } else { m }, scale)));
                }
                if is_transparent(&ty) {
                    let f = d.variants()[0].fields();
                    for (i, f) in f.iter().enumerate() {
                        let t = f.ty_with_args(&args);
                        if d.kind() == AdtKind::Union { if i == 1 { return self.decode(a, off, t); } else { continue; } }
                        return self.decode(a, off, t);
                    }
                }
                match d.kind() {
                    AdtKind::Struct => {
                        let fields = d.variants()[0].fields();
                        let mut v = vec![];
                        match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => for (f, o) in fields.iter().zip(offsets) { v.push(self.decode(a, off + o.bytes(), f.ty_with_args(&args))?); },
                            _ => return Ok(self.zst(ty)),
                        }
                        Ok(agg(v))
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                            VariantsShape::Empty => return Err("uninhabited constant".into()),
                            VariantsShape::Single { index } => (index.to_index(), match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] }),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return Err("enum layout".into()) };
                                let toff = off + offsets[*tag_field].bytes();
                                let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                                let (tb, isptr) = match value { Primitive::Int { length, .. } => (length.bits() / 8, false), Primitive::Pointer(_) => (8, true), _ => return Err("float tag".into()) };
                                let raw = read(a, toff, tb).unwrap_or(0);
                                let has_ptr = isptr && a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let m = mask(tb as u16 * 8);
                                        let n = d.num_variants();
                                        (0..n).find(|i| d.discriminant_for_variant(VariantIdx::to_val(*i)).val & m == raw & m).ok_or("enum tag")?
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let lo = niche_variants.start().to_index();
                                        let hi = niche_variants.end().to_index();
                                        let rel = raw.wrapping_sub(*niche_start) & mask(tb as u16 * 8);
                                        if has_ptr || rel > (hi - lo) as u128 { untagged_variant.to_index() } else { lo + rel as usize }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let fields = d.variants()[vi].fields();
                        let mut v = vec![];
                        for (f, o) in fields.iter().zip(offs) { v.push(self.decode(a, off + o, f.ty_with_args(&args))?); }
                        Ok(Val::Enum(vi as u32, Rc::new(v)))
                    }
                    AdtKind::Union => Err(format!("union constant {}", name)),
                }
            }
            other => Err(format!("constant of type {:?}", other)),
        }
    }
    fn decode_ptr(&mut self, a: &Allocation, off: usize, inner: Ty) -> Result<Val, String> {
        let t = self.ptr_at(a, off);
        match inner.kind() {
            TyKind::RigidTy(RigidTy::Str) => {
                let n = read(a, off + 8, 8).ok_or("str length")? as usize;
                if n == 0 { return Ok(vstr("")); }
                match t { Some((GlobalAlloc::Memory(m), o)) => {
                    let b: Vec<u8> = (o..o + n).map(|i| m.bytes[i].unwrap_or(0)).collect();
                    Ok(vstr(std::str::from_utf8(&b).map_err(|_| "utf8")?))
                } _ => Err("str constant".into()) }
            }
            TyKind::RigidTy(RigidTy::Slice(t2)) => {
                let n = read(a, off + 8, 8).ok_or("slice length")? as usize;
                if n == 0 { let p = self.add_const(agg(vec![])); return Ok(Val::Slice(p, 0, 0)); }
                let stride = t2.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
                match t { Some((GlobalAlloc::Memory(m), o)) => {
                    let mut v = vec![];
                    for i in 0..n { v.push(self.decode(&m, o + i * stride, t2)?); }
                    let p = self.add_const(agg(v));
                    Ok(Val::Slice(p, 0, n))
                } _ => Err("slice constant".into()) }
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => Err("dyn constant".into()),
            _ => match t {
                Some((GlobalAlloc::Memory(m), o)) => {
                    let v = self.decode(&m, o, inner)?;
                    Ok(Val::Ref(self.add_const(v)))
                }
                Some((GlobalAlloc::Static(_), _)) => Err("static".into()),
                Some(_) => Err("pointer constant".into()),
                None => {
                    // dangling pointer to a zero-sized or empty value
                    let v = self.zst(inner);
                    Ok(Val::Ref(self.add_const(v)))
                }
            },
        }
    }
    pub fn discrs(&mut self, ty: Ty) -> Option<Rc<Vec<u128>>> {
        if let Some(r) = self.discr_cache.get(&ty) { return Some(r.clone()); }
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            if d.kind() != AdtKind::Enum { return None; }
            let v: Vec<u128> = (0..d.num_variants()).map(|i| d.discriminant_for_variant(VariantIdx::to_val(i)).val).collect();
            let r = Rc::new(v);
            self.discr_cache.insert(ty, r.clone());
            return Some(r);
        }
        None
    }

    /// the number of fields of each variant
    pub fn variant_fields(&mut self, ty: Ty) -> Vec<usize> {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { if d.kind() == AdtKind::Enum { return d.variants().iter().map(|v| v.fields().len()).collect(); } }
        vec![]
    }

    // ---- bodies --------------------------------------------------------------------------

    pub fn fun(&mut self, id: u32) -> Result<Rc<Fun>, String> {
        if let Some(f) = self.funs.get(&id) { return Ok(f.clone()); }
        let info = self.info(id);
        if std::env::var("MIRV_BODY").is_ok() { eprintln!("BODY {} {:?}", info.name, info.inst); }
        let body = info.inst.body().ok_or_else(|| format!("no body for {}", info.name))?;
        self.compiled += 1;
        let f = Rc::new(self.compile(id, &info, &body));
        if let Ok(p) = std::env::var("MIRV_DUMP") { if f.name.contains(&p) { let mut o = vec![]; let _ = body.dump(&mut o, &f.name); eprintln!("{}", String::from_utf8_lossy(&o)); } }
        self.funs.insert(id, f.clone());
        Ok(f)
    }
    fn compile(&mut self, id: u32, info: &InstInfo, body: &Body) -> Fun {
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let mut blocks = vec![];
        for bb in &body.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => { let pl = self.place(p, &locals); let r = self.rvalue(rv, &locals); stmts.push(St::Assign(pl, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => stmts.push(St::SetDiscr(self.place(place, &locals), variant_index.to_index() as u32)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(_) => stmts.push(St::Bad("copy_nonoverlapping".into())),
                    _ => {}
                }
            }
            let term = self.term(&bb.terminator.kind, &locals);
            let line = bb.terminator.source_info.span.get_lines().start_line as u32;
            blocks.push(Block { stmts, term, line });
        }
        let zsts = locals.iter().enumerate().filter(|(i, l)| *i == 0 || *i > body.arg_locals().len()).filter_map(|(i, l)| {
            let enumish = matches!(l.ty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum);
            if !enumish { return None; }
            let sh = l.ty.layout().ok()?.shape();
            if sh.size.bytes() != 0 || matches!(sh.variants, VariantsShape::Empty) { return None; }
            Some((i, self.zst(l.ty)))
        }).collect();
        let is_closure = info.kind == 0 && matches!(info.inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        Fun {
            id, name: short_name(&info.name), nargs: body.arg_locals().len(), nlocals: locals.len(), zsts, spread: body.spread_arg().is_some(), is_closure, blocks,
            file: body.span.get_filename().to_string(), cleanup: false,
        }
    }
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> Pl {
        let mut ty = locals[p.local].ty;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    proj.push(PE::Deref);
                    ty = deref_ty(ty);
                }
                ProjectionElem::Field(i, t) => {
                    if !is_transparent(&ty) { proj.push(PE::Field(*i as u32)); }
                    ty = *t;
                }
                ProjectionElem::Index(l) => { proj.push(PE::Index(*l)); ty = elem_ty(ty); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { proj.push(PE::ConstIdx(*offset, *from_end)); ty = elem_ty(ty); }
                ProjectionElem::Subslice { from, to, from_end } => proj.push(PE::Subslice(*from, *to, *from_end)),
                ProjectionElem::Downcast(_) => {}
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        Pl { local: p.local, proj }
    }
    fn opd(&mut self, o: &Operand) -> Opd { self.opd2(o, &[]) }
    fn opd2(&mut self, o: &Operand, locals: &[LocalDecl]) -> Opd {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Opd::Place(self.place(p, locals)),
            Operand::Constant(c) => match self.const_val(&c.const_) { Ok(v) => Opd::Const(v), Err(e) => Opd::Bad(e) },
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Opd::Const(vbool(true)),
            Operand::RuntimeChecks(_) => Opd::Const(vbool(false)),
        }
    }
    fn rvalue(&mut self, rv: &Rvalue, locals: &[LocalDecl]) -> Rv {
        let _ = Self::opd;
        match rv {
            Rvalue::Use(o, _) => Rv::Use(self.opd2(o, locals)),
            Rvalue::CopyForDeref(p) => Rv::Use(Opd::Place(self.place(p, locals))),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => Rv::Ref(self.place(p, locals)),
            Rvalue::BinaryOp(op, a, b) => {
                let ty = a.ty(locals).unwrap();
                let (w, s) = int_info(&ty).unwrap_or((999, false));
                Rv::Bin(*op, self.opd2(a, locals), self.opd2(b, locals), w, s)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (w, s) = int_info(&a.ty(locals).unwrap()).unwrap_or((999, false));
                Rv::Checked(*op, self.opd2(a, locals), self.opd2(b, locals), w, s)
            }
            Rvalue::UnaryOp(UnOp::Not, a) => Rv::Not(self.opd2(a, locals)),
            Rvalue::UnaryOp(UnOp::Neg, a) => Rv::Neg(self.opd2(a, locals)),
            Rvalue::UnaryOp(UnOp::PtrMetadata, a) => Rv::PtrMeta(self.opd2(a, locals)),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(locals).unwrap();
                let w = ty.kind().discriminant_ty().and_then(|t| int_info(&t)).map(|x| x.0).unwrap_or(64);
                match self.discrs(ty) { Some(d) => Rv::Discr(self.place(p, locals), d, w), None => Rv::Bad(format!("discriminant of {}", ty)) }
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<Opd> = ops.iter().map(|o| self.opd2(o, locals)).collect();
                match k {
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let ty = d.ty_with_args(args);
                        let an = d.name().to_string();
                        if an == "std::string::String" { return Rv::MkString(v.into_iter().next().unwrap()); }
                        if an == "std::vec::Vec" { return Rv::MkVec(v.into_iter().nth(1).unwrap()); }
                        if is_transparent(&ty) { return match v.into_iter().next() { Some(o) => Rv::Use(o), None => Rv::Use(Opd::Const(Val::Uninit)) }; }
                        if fi.is_some() { return Rv::Bad(format!("union aggregate {}", d.name())); }
                        if d.kind() == AdtKind::Enum { Rv::Variant(vi.to_index() as u32, v) } else { Rv::Agg(v) }
                    }
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(v),
                    AggregateKind::RawPtr(..) => { let mut it = v.into_iter(); Rv::RawPtr(it.next().unwrap(), it.next().unwrap()) }
                    _ => Rv::Bad("aggregate kind".into()),
                }
            }
            Rvalue::Repeat(o, n) => Rv::Repeat(self.opd2(o, locals), n.eval_target_usize().unwrap_or(0) as usize),
            Rvalue::Len(p) => Rv::Len(self.place(p, locals)),
            Rvalue::Cast(k, o, ty) => {
                let oty = o.ty(locals).unwrap();
                match k {
                    CastKind::IntToInt => {
                        let (_, s) = int_info(&oty).unwrap_or((0, false));
                        match int_info(ty) { Some((w, _)) => Rv::IntCast(self.opd2(o, locals), s, w), None => Rv::Bad("int cast".into()) }
                    }
                    CastKind::PtrToPtr | CastKind::Subtype | CastKind::FnPtrToPtr | CastKind::BoxDerefTransmute => Rv::Use(self.opd2(o, locals)),
                    CastKind::Transmute => {
                        match (int_info(&oty), int_info(ty)) {
                            (Some((a, _)), Some((b, _))) if a == b => Rv::Use(self.opd2(o, locals)),
                            (None, None) => Rv::Use(self.opd2(o, locals)),
                            _ => Rv::Bad(format!("transmute {} to {}", oty, ty)),
                        }
                    }
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer | PointerCoercion::ArrayToPointer => Rv::Use(self.opd2(o, locals)),
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = oty.kind() {
                                match Instance::resolve_for_fn_ptr(d, &args) { Ok(i) => Rv::FnPtr(self.inst_id(i)), Err(e) => Rv::Bad(format!("{:?}", e)) }
                            } else { Rv::Bad("reify".into()) }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::Closure(d, args)) = oty.kind() {
                                match self.resolve_closure(d, &args, ClosureKind::Fn) { Ok(i) => Rv::FnPtr(i), Err(e) => Rv::Bad(e) }
                            } else { Rv::Bad("closure fn ptr".into()) }
                        }
                        PointerCoercion::Unsize => {
                            let from = pointee(oty);
                            let to = pointee(*ty);
                            match (from.kind(), to.kind()) {
                                (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => Rv::Unsize(self.opd2(o, locals), n.eval_target_usize().ok().map(|x| x as usize), None),
                                (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Rv::Use(self.opd2(o, locals)),
                                (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => { let k = self.dyn_type(from); Rv::Unsize(self.opd2(o, locals), None, Some(k)) }
                                _ => Rv::Bad(format!("unsize {} to {}", oty, ty)),
                            }
                        }
                    },
                    _ => Rv::Bad(format!("cast {:?}", k)),
                }
            }
            Rvalue::ThreadLocalRef(_) => Rv::Bad("thread local".into()),
        }
    }
    fn term(&mut self, t: &TerminatorKind, locals: &[LocalDecl]) -> Tm {
        match t {
            TerminatorKind::Goto { target } => Tm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(self.opd2(discr, locals), targets.branches().collect(), targets.otherwise()),
            TerminatorKind::Return => Tm::Return,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Resume | TerminatorKind::Abort => Tm::Bad("unwinding".into()),
            TerminatorKind::Drop { target, .. } => Tm::Goto(*target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).unwrap();
                let a: Vec<Opd> = args.iter().map(|o| self.opd2(o, locals)).collect();
                let dest = self.place(destination, locals);
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match self.resolve(d, &ga) { Ok(i) => CallT::Fun(i), Err(e) => return Tm::Bad(e) },
                    _ => CallT::Ptr(self.opd2(func, locals)),
                };
                Tm::Call { callee, args: a, dest, target: *target }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                    AssertMessage::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                    AssertMessage::OverflowNeg(_) => "negation overflow".into(),
                    AssertMessage::DivisionByZero(_) => "division by zero".into(),
                    AssertMessage::RemainderByZero(_) => "remainder by zero".into(),
                    _ => "assertion".into(),
                };
                Tm::Assert { cond: self.opd2(cond, locals), expected: *expected, msg: m, target: *target }
            }
            TerminatorKind::InlineAsm { .. } => Tm::Bad("inline assembly".into()),
        }
    }
}

fn read(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    let mut v = 0u128;
    for i in 0..n { v |= ((*a.bytes.get(off + i)?)? as u128) << (8 * i); }
    Some(v)
}
pub fn deref_ty(ty: Ty) -> Ty {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
        TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| a.ty().copied()).unwrap_or(ty),
        _ => ty,
    }
}
fn elem_ty(ty: Ty) -> Ty {
    match ty.kind() { TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => t, _ => ty }
}
/// pointee of a reference, raw pointer or Box (through transparent wrappers)
fn pointee(ty: Ty) -> Ty { deref_ty(ty) }
