//! Independent reference model: definitions of types and libraries, their ids, byte layout and
//! membership of values.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use sha2::{Digest, Sha256};
use strict_encoding::{FieldName, LibName, Primitive, Sizing, TypeName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2};
use strict_types::value::{EnumTag, StrictNum, StrictVal};
use strict_types::{
    Dependency, LibRef, SemId, SymbolRef, TranspileRef, Ty, TypeLib, TypeLibId, TypeRef,
};

pub type TId = usize;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MTy {
    Prim(u8),
    Unicode,
    Enum(Vec<(String, u8)>),
    Union(Vec<(String, u8, TId)>),
    Tuple(Vec<TId>),
    Struct(Vec<(String, TId)>),
    Array(TId, u16),
    List(TId, u64, u64),
    Set(TId, u64, u64),
    Map(TId, TId, u64, u64),
}

impl MTy {
    pub fn refs(&self) -> Vec<TId> {
        match self {
            MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => vec![],
            MTy::Union(v) => v.iter().map(|x| x.2).collect(),
            MTy::Tuple(v) => v.clone(),
            MTy::Struct(v) => v.iter().map(|x| x.1).collect(),
            MTy::Array(t, _) | MTy::List(t, ..) | MTy::Set(t, ..) => vec![*t],
            MTy::Map(k, v, ..) => vec![*k, *v],
        }
    }
    pub fn map_refs(&self, mut f: impl FnMut(TId) -> TId) -> MTy {
        match self {
            MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => self.clone(),
            MTy::Union(v) => MTy::Union(v.iter().map(|x| (x.0.clone(), x.1, f(x.2))).collect()),
            MTy::Tuple(v) => MTy::Tuple(v.iter().map(|t| f(*t)).collect()),
            MTy::Struct(v) => MTy::Struct(v.iter().map(|x| (x.0.clone(), f(x.1))).collect()),
            MTy::Array(t, l) => MTy::Array(f(*t), *l),
            MTy::List(t, a, b) => MTy::List(f(*t), *a, *b),
            MTy::Set(t, a, b) => MTy::Set(f(*t), *a, *b),
            MTy::Map(k, v, a, b) => {
                let k = f(*k);
                MTy::Map(k, f(*v), *a, *b)
            }
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            MTy::Prim(_) => "primitive",
            MTy::Unicode => "unicode",
            MTy::Enum(_) => "enum",
            MTy::Union(_) => "union",
            MTy::Tuple(_) => "tuple",
            MTy::Struct(_) => "struct",
            MTy::Array(..) => "array",
            MTy::List(..) => "list",
            MTy::Set(..) => "set",
            MTy::Map(..) => "map",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Node {
    /// Named types are referenced by id; unnamed ones are inlined and have a single parent
    pub name: Option<String>,
    pub lib: usize,
    pub ty: MTy,
}

/// Set of libraries; nodes reference only the nodes which precede them.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct World {
    pub libs: Vec<String>,
    pub nodes: Vec<Node>,
}

pub type Id = [u8; 32];

pub fn tagged(tag: &[u8], data: &[u8]) -> Id {
    let t = Sha256::digest(tag);
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}
fn put_name(out: &mut Vec<u8>, n: &str) {
    out.push(n.len() as u8);
    out.extend(n.as_bytes());
}

impl World {
    fn commit(&self, ids: &[Id], ty: &MTy, out: &mut Vec<u8>) {
        let r = |t: TId, out: &mut Vec<u8>| {
            if self.nodes[t].name.is_some() {
                out.extend(ids[t])
            } else {
                self.commit(ids, &self.nodes[t].ty, out)
            }
        };
        match ty {
            MTy::Prim(c) => out.extend([0, *c]),
            MTy::Unicode => out.push(1),
            MTy::Enum(v) => {
                out.push(3);
                for (n, t) in v {
                    put_name(out, n);
                    out.push(*t);
                }
            }
            MTy::Union(v) => {
                out.push(4);
                for (n, t, ty) in v {
                    put_name(out, n);
                    out.push(*t);
                    r(*ty, out);
                }
            }
            MTy::Struct(v) => {
                out.push(5);
                for (n, ty) in v {
                    put_name(out, n);
                    r(*ty, out);
                }
            }
            MTy::Tuple(v) => {
                out.push(6);
                for ty in v {
                    r(*ty, out);
                }
            }
            MTy::Array(t, l) => {
                out.push(7);
                r(*t, out);
                out.extend(l.to_le_bytes());
            }
            MTy::List(t, a, b) | MTy::Set(t, a, b) => {
                out.push(if matches!(ty, MTy::List(..)) { 8 } else { 9 });
                r(*t, out);
                out.extend(a.to_le_bytes());
                out.extend(b.to_le_bytes());
            }
            MTy::Map(k, v, a, b) => {
                out.push(10);
                r(*k, out);
                r(*v, out);
                out.extend(a.to_le_bytes());
                out.extend(b.to_le_bytes());
            }
        }
    }

    /// Semantic ids of all nodes
    pub fn ids(&self) -> Vec<Id> {
        let mut ids: Vec<Id> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            let mut d = vec![];
            if let Some(name) = &n.name {
                put_name(&mut d, name);
            }
            self.commit(&ids, &n.ty, &mut d);
            ids.push(tagged(b"urn:ubideco:strict-types:typ:v01", &d));
        }
        ids
    }

    pub fn find_named(&self, lib: usize, name: &str) -> TId {
        self.nodes
            .iter()
            .position(|n| n.lib == lib && n.name.as_deref() == Some(name))
            .expect("harness: type")
    }
    pub fn named(&self, lib: usize) -> Vec<TId> {
        let mut v: Vec<TId> = (0..self.nodes.len())
            .filter(|t| self.nodes[*t].lib == lib && self.nodes[*t].name.is_some())
            .collect();
        v.sort_by(|a, b| self.nodes[*a].name.cmp(&self.nodes[*b].name));
        v
    }
    pub fn all_named(&self) -> Vec<TId> {
        (0..self.nodes.len())
            .filter(|t| self.nodes[*t].name.is_some())
            .collect()
    }

    /// Named types of other libraries referenced from the library
    pub fn externs(&self, lib: usize) -> BTreeSet<TId> {
        let mut out = BTreeSet::new();
        for n in self.nodes.iter().filter(|n| n.lib == lib) {
            for t in n.ty.refs() {
                if self.nodes[t].name.is_some() && self.nodes[t].lib != lib {
                    out.insert(t);
                }
            }
        }
        out
    }
    pub fn deps(&self, lib: usize) -> BTreeSet<usize> {
        self.externs(lib)
            .into_iter()
            .map(|t| self.nodes[t].lib)
            .collect()
    }
    /// Ids of all libraries
    pub fn lib_ids(&self, ids: &[Id]) -> Vec<Id> {
        let mut out: Vec<Id> = vec![];
        for (l, name) in self.libs.iter().enumerate() {
            let mut d = vec![];
            put_name(&mut d, name);
            let deps: BTreeSet<Id> = self.deps(l).into_iter().map(|d| out[d]).collect();
            d.push(deps.len() as u8);
            for x in deps {
                d.extend(x);
            }
            let named = self.named(l);
            d.extend((named.len() as u16).to_le_bytes());
            for t in named {
                d.extend(ids[t]);
            }
            out.push(tagged(b"urn:ubideco:strict-types:lib:v01", &d));
        }
        out
    }
    pub fn sys_id(set: &BTreeSet<Id>) -> Id {
        let mut d = vec![];
        d.extend(&(set.len() as u32).to_le_bytes()[..3]);
        for x in set {
            d.extend(x);
        }
        tagged(b"urn:ubideco:strict-types:sys:v01", &d)
    }
    /// All nodes reachable from the node, including itself
    pub fn closure(&self, roots: impl IntoIterator<Item = TId>) -> BTreeSet<TId> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<TId> = roots.into_iter().collect();
        while let Some(t) = todo.pop() {
            if out.insert(t) {
                todo.extend(self.nodes[t].ty.refs());
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------
// Conversion of the model into the data structures of the library

pub fn sid(id: &Id) -> SemId {
    SemId::from_byte_array(*id)
}
pub fn tname(s: &str) -> TypeName {
    TypeName::try_from(s.to_string()).expect("harness: type name")
}
pub fn fname(s: &str) -> FieldName {
    FieldName::try_from(s.to_string()).expect("harness: field name")
}
pub fn vname(s: &str) -> VariantName {
    VariantName::try_from(s.to_string()).expect("harness: variant name")
}
pub fn lname(s: &str) -> LibName {
    LibName::try_from(s.to_string()).expect("harness: lib name")
}

pub struct Cvt<'w> {
    pub w: &'w World,
    pub ids: Vec<Id>,
    pub lib_ids: Vec<Id>,
}

pub trait MkRef: TypeRef {
    fn mk(c: &Cvt, lib: usize, t: TId) -> Self;
}

enum Kind {
    Named,
    Ext,
    Inline,
}

impl<'w> Cvt<'w> {
    pub fn new(w: &'w World) -> Self {
        let ids = w.ids();
        let lib_ids = w.lib_ids(&ids);
        Cvt { w, ids, lib_ids }
    }
    fn kind(&self, lib: usize, t: TId) -> Kind {
        let n = &self.w.nodes[t];
        match n.name {
            None => Kind::Inline,
            Some(_) if n.lib == lib => Kind::Named,
            Some(_) => Kind::Ext,
        }
    }
    pub fn sem(&self, t: TId) -> SemId {
        sid(&self.ids[t])
    }
    pub fn lib_id(&self, l: usize) -> TypeLibId {
        TypeLibId::from_byte_array(self.lib_ids[l])
    }
    fn ext(&self, t: TId) -> ExternRef {
        ExternRef::with(self.lib_id(self.w.nodes[t].lib), self.sem(t))
    }

    pub fn ty<Rf: MkRef>(&self, lib: usize, t: TId) -> Ty<Rf> {
        self.mty(lib, &self.w.nodes[t].ty)
    }

    pub fn mty<Rf: MkRef>(&self, lib: usize, ty: &MTy) -> Ty<Rf> {
        let r = |t: TId| Rf::mk(self, lib, t);
        let sz = |a: &u64, b: &u64| Sizing::new(*a, *b);
        match ty {
            MTy::Prim(c) => Ty::Primitive(Primitive::from_code(*c)),
            MTy::Unicode => Ty::UnicodeChar,
            MTy::Enum(v) => Ty::Enum(
                EnumVariants::try_from(
                    v.iter()
                        .map(|(n, t)| Variant::named(*t, vname(n)))
                        .collect::<BTreeSet<_>>(),
                )
                .expect("harness: enum"),
            ),
            MTy::Union(v) => Ty::Union(
                UnionVariants::try_from(
                    v.iter()
                        .map(|(n, t, ty)| (Variant::named(*t, vname(n)), r(*ty)))
                        .collect::<BTreeMap<_, _>>(),
                )
                .expect("harness: union"),
            ),
            MTy::Tuple(v) => Ty::Tuple(
                UnnamedFields::try_from(v.iter().map(|t| r(*t)).collect::<Vec<_>>())
                    .expect("harness: tuple"),
            ),
            MTy::Struct(v) => Ty::Struct(
                NamedFields::try_from(
                    v.iter()
                        .map(|(n, t)| Field {
                            name: fname(n),
                            ty: r(*t),
                        })
                        .collect::<Vec<_>>(),
                )
                .expect("harness: struct"),
            ),
            MTy::Array(t, l) => Ty::Array(r(*t), *l),
            MTy::List(t, a, b) => Ty::List(r(*t), sz(a, b)),
            MTy::Set(t, a, b) => Ty::Set(r(*t), sz(a, b)),
            MTy::Map(k, v, a, b) => Ty::Map(r(*k), r(*v), sz(a, b)),
        }
    }

    pub fn dependency(&self, l: usize) -> Dependency {
        Dependency::with(self.lib_id(l), lname(&self.w.libs[l]))
    }

    pub fn dep_set(&self, l: usize) -> BTreeSet<Dependency> {
        self.w
            .deps(l)
            .into_iter()
            .map(|d| self.dependency(d))
            .collect()
    }
    pub fn extern_map(&self, l: usize) -> BTreeMap<LibName, BTreeMap<SemId, TypeName>> {
        let mut ext = BTreeMap::<LibName, BTreeMap<SemId, TypeName>>::new();
        for t in self.w.externs(l) {
            let n = &self.w.nodes[t];
            ext.entry(lname(&self.w.libs[n.lib]))
                .or_default()
                .insert(self.sem(t), tname(n.name.as_ref().unwrap()));
        }
        ext
    }
    /// Library built directly from its parts
    pub fn type_lib(&self, l: usize) -> TypeLib {
        TypeLib {
            name: lname(&self.w.libs[l]),
            dependencies: Confined::from_checked(self.dep_set(l)),
            extern_types: Confined::from_checked(
                self.extern_map(l)
                    .into_iter()
                    .map(|(k, v)| (k, Confined::from_checked(v)))
                    .collect(),
            ),
            types: Confined::from_checked(
                self.w
                    .named(l)
                    .into_iter()
                    .map(|t| {
                        (
                            tname(self.w.nodes[t].name.as_ref().unwrap()),
                            self.ty::<LibRef>(l, t),
                        )
                    })
                    .collect::<BTreeMap<_, _>>(),
            ),
        }
    }
}

impl MkRef for SemId {
    fn mk(c: &Cvt, _lib: usize, t: TId) -> Self {
        c.sem(t)
    }
}
macro_rules! mk_ref {
    ($ty:ident) => {
        impl MkRef for $ty {
            fn mk(c: &Cvt, lib: usize, t: TId) -> Self {
                match c.kind(lib, t) {
                    Kind::Named => $ty::Named(c.sem(t)),
                    Kind::Ext => $ty::Extern(c.ext(t)),
                    Kind::Inline => $ty::Inline(c.ty(lib, t)),
                }
            }
        }
    };
}
mk_ref!(LibRef);
mk_ref!(InlineRef);
mk_ref!(InlineRef1);
impl MkRef for InlineRef2 {
    fn mk(c: &Cvt, lib: usize, t: TId) -> Self {
        match c.kind(lib, t) {
            Kind::Named => InlineRef2::Named(c.sem(t)),
            Kind::Ext => InlineRef2::Extern(c.ext(t)),
            Kind::Inline => panic!("harness: too deep inline type"),
        }
    }
}
impl MkRef for TranspileRef {
    fn mk(c: &Cvt, lib: usize, t: TId) -> Self {
        let n = &c.w.nodes[t];
        match c.kind(lib, t) {
            Kind::Named => TranspileRef::Named(tname(n.name.as_ref().unwrap())),
            Kind::Ext => TranspileRef::Extern(SymbolRef::with(
                lname(&c.w.libs[n.lib]),
                tname(n.name.as_ref().unwrap()),
                c.lib_id(n.lib),
                c.sem(t),
            )),
            Kind::Inline => TranspileRef::Embedded(Box::new(c.ty(lib, t))),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Values

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum NumCls {
    Unit,
    SmallU,
    LargeU,
    SmallS,
    LargeS,
    Other,
}
pub fn num_cls(code: u8) -> NumCls {
    match code {
        0 => NumCls::Unit,
        0x40 | 1..=8 => NumCls::SmallU,
        9..=0x3F => NumCls::LargeU,
        0x41..=0x48 => NumCls::SmallS,
        0x49..=0x7F => NumCls::LargeS,
        _ => NumCls::Other,
    }
}
pub fn num_size(code: u8) -> usize {
    match code {
        0x40 => 1,
        0xC0 => 2,
        c if c & 0x20 != 0 => 16 * ((c & 0x1F) as usize + 2),
        c => (c & 0x1F) as usize,
    }
}
pub fn prefix_len(max: u64) -> usize {
    match max {
        0..=0xFF => 1,
        0x100..=0xFFFF => 2,
        0x1_0000..=0xFF_FFFF => 3,
        0x100_0000..=0xFFFF_FFFF => 4,
        _ => 8,
    }
}
fn put_len(out: &mut Vec<u8>, len: usize, max: u64) {
    out.extend(&(len as u64).to_le_bytes()[..prefix_len(max)]);
}

/// Sign and sign-extended little-endian bytes of a number
pub fn num_parts(n: &StrictNum) -> (bool, [u8; 128]) {
    let mut b = [0u8; 128];
    match n {
        StrictNum::Uint(v) => b[..8].copy_from_slice(&v.to_le_bytes()),
        StrictNum::Int(v) => {
            if *v < 0 {
                b = [0xFF; 128];
            }
            b[..8].copy_from_slice(&v.to_le_bytes());
        }
        StrictNum::BigUint(v) => b = v.to_le_bytes(),
        StrictNum::BigInt(v) => {
            b = v.to_le_bytes();
            return (b[127] & 0x80 != 0, b);
        }
        _ => panic!("harness: unknown number"),
    }
    (matches!(n, StrictNum::Int(v) if *v < 0), b)
}

fn encode_num(n: &StrictNum, code: u8) -> Option<Vec<u8>> {
    let size = num_size(code);
    if size == 0 || size > 128 {
        return None;
    }
    use NumCls::*;
    let accepted = match (n, num_cls(code)) {
        (_, Unit | Other) => false,
        (StrictNum::Uint(_) | StrictNum::Int(_), _) => true,
        (StrictNum::BigUint(_), c) => c == LargeU,
        (StrictNum::BigInt(_), c) => c == LargeS,
        _ => false,
    };
    if !accepted {
        return None;
    }
    let (neg, b) = num_parts(n);
    let signed = matches!(num_cls(code), SmallS | LargeS);
    let fits = match (signed, neg) {
        (false, true) => false,
        (false, false) => b[size..].iter().all(|x| *x == 0),
        (true, false) => b[size - 1] < 0x80 && b[size..].iter().all(|x| *x == 0),
        (true, true) => b[size - 1] >= 0x80 && b[size..].iter().all(|x| *x == 0xFF),
    };
    fits.then(|| b[..size].to_vec())
}

/// Whether bytes can be read as a value
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Scan {
    /// Valid, up to the position
    Ok(usize),
    Bad,
    /// Contains a primitive which is not possible to read
    Unsupported,
}

impl World {
    pub fn ty(&self, t: TId) -> &MTy {
        &self.nodes[t].ty
    }
    pub fn is_byte(&self, t: TId) -> bool {
        self.nodes[t].name.is_none() && matches!(self.ty(t), MTy::Prim(0x40) | MTy::Prim(1))
    }
    pub fn is_char(&self, t: TId) -> bool {
        self.nodes[t].name.is_none() && *self.ty(t) == MTy::Unicode
    }
    pub fn is_char_enum(&self, t: TId) -> bool {
        matches!(self.ty(t), MTy::Enum(v) if v.iter().all(|(_, t)| (32..=127).contains(t)))
    }
    pub fn alphabet(&self, t: TId) -> Option<Vec<u8>> {
        match self.ty(t) {
            MTy::Enum(v) => Some(v.iter().map(|x| x.1).collect()),
            _ => None,
        }
    }
    pub fn is_rstring(&self, ty: &MTy) -> Option<(TId, TId, u64, u64)> {
        if let MTy::Tuple(f) = ty {
            if f.len() == 2 && self.is_char_enum(f[0]) {
                if let MTy::List(rest, a, b) = self.ty(f[1]) {
                    if self.is_char_enum(*rest) {
                        return Some((f[0], *rest, a.saturating_add(1), b.saturating_add(1)));
                    }
                }
            }
        }
        None
    }
    pub fn option_of(&self, ty: &MTy) -> Option<(TId, TId)> {
        match ty {
            MTy::Union(v)
                if v.len() == 2
                    && v[0].0 == "none"
                    && v[0].1 == 0
                    && v[1].0 == "some"
                    && v[1].1 == 1 =>
            {
                Some((v[0].2, v[1].2))
            }
            _ => None,
        }
    }
    fn is_string_of(&self, s: &str, t: TId) -> bool {
        match self.alphabet(t) {
            Some(a) => s.bytes().all(|c| c < 0x80 && a.contains(&c)),
            None => false,
        }
    }

    /// Interprets the value as a member of the type and gives its encoding; nothing if it is not a
    /// member. The encoding identifies the member.
    pub fn interp(&self, v: &StrictVal, t: TId) -> Option<Vec<u8>> {
        let mut out = vec![];
        self.interp_to(v, t, &mut out)?;
        Some(out)
    }

    fn seq(&self, items: &[StrictVal], t: TId, out: &mut Vec<u8>) -> Option<()> {
        for i in items {
            self.interp_to(i, t, out)?;
        }
        Some(())
    }

    pub fn interp_ty(&self, v: &StrictVal, ty: &MTy) -> Option<Vec<u8>> {
        let mut out = vec![];
        self.interp_def(v, ty, &mut out)?;
        Some(out)
    }

    fn interp_to(&self, v: &StrictVal, t: TId, out: &mut Vec<u8>) -> Option<()> {
        self.interp_def(v, self.ty(t), out)
    }

    fn interp_def(&self, v: &StrictVal, ty: &MTy, out: &mut Vec<u8>) -> Option<()> {
        use StrictVal as V;
        match ty {
            MTy::Prim(0) => match v {
                V::Unit => Some(()),
                V::Tuple(f) | V::List(f) if f.is_empty() => Some(()),
                V::Struct(f) if f.is_empty() => Some(()),
                V::Map(f) if f.is_empty() => Some(()),
                _ => None,
            },
            MTy::Prim(code) => match v {
                V::Number(n) => Some(out.extend(encode_num(n, *code)?)),
                _ => None,
            },
            MTy::Unicode => match v {
                V::String(s) if s.chars().count() == 1 => Some(out.extend(s.as_bytes())),
                _ => None,
            },
            MTy::Enum(vars) => {
                let tag = match v {
                    V::String(s) => {
                        if s.len() == 1 && vars.iter().any(|x| x.1 == s.as_bytes()[0]) {
                            s.as_bytes()[0]
                        } else {
                            vars.iter().find(|x| x.0 == *s)?.1
                        }
                    }
                    V::Enum(EnumTag::Name(n)) => vars.iter().find(|x| x.0 == n.as_str())?.1,
                    V::Enum(EnumTag::Ord(n)) => vars.iter().find(|x| x.1 == *n)?.1,
                    V::Number(StrictNum::Uint(n)) => vars.iter().find(|x| x.1 as u64 == *n)?.1,
                    _ => return None,
                };
                out.push(tag);
                Some(())
            }
            MTy::Union(vars) => {
                if let V::Union(tag, inner) = v {
                    let x = match tag {
                        EnumTag::Name(n) => vars.iter().find(|x| x.0 == n.as_str())?,
                        EnumTag::Ord(n) => vars.iter().find(|x| x.1 == *n)?,
                    };
                    out.push(x.1);
                    return self.interp_to(inner, x.2, out);
                }
                let (none, some) = self.option_of(ty)?;
                match v {
                    V::Unit => {
                        out.push(0);
                        self.interp_to(&V::Unit, none, out)
                    }
                    V::Tuple(f) if f.len() == 2 => match (&f[0], &f[1]) {
                        (V::String(s), V::Unit) if s == "none" => {
                            out.push(0);
                            self.interp_to(&V::Unit, none, out)
                        }
                        (V::String(s), x) if s == "some" => {
                            out.push(1);
                            self.interp_to(x, some, out)
                        }
                        _ => None,
                    },
                    x => {
                        out.push(1);
                        self.interp_to(x, some, out)
                    }
                }
            }
            MTy::Tuple(fields) => {
                if let Some((first, rest, min, max)) = self.is_rstring(ty) {
                    return match v {
                        V::String(s)
                            if s.len() as u64 >= min
                                && s.len() as u64 <= max
                                && s.is_ascii()
                                && self.is_string_of(&s[..1], first)
                                && self.is_string_of(&s[1..], rest) =>
                        {
                            put_len(out, s.len(), max);
                            Some(out.extend(s.as_bytes()))
                        }
                        _ => None,
                    };
                }
                match v {
                    V::Tuple(f) | V::List(f) => {
                        if f.len() != fields.len() {
                            return None;
                        }
                        for (x, t) in f.iter().zip(fields) {
                            self.interp_to(x, *t, out)?;
                        }
                        Some(())
                    }
                    x if fields.len() == 1 => self.interp_to(x, fields[0], out),
                    _ => None,
                }
            }
            MTy::Struct(fields) => {
                let mut given = BTreeMap::<&str, &StrictVal>::new();
                match v {
                    V::Struct(f) => {
                        for (n, x) in f {
                            if given.insert(n.as_str(), x).is_some() {
                                return None;
                            }
                        }
                    }
                    V::Map(f) => {
                        for (n, x) in f {
                            let V::String(n) = n else { return None };
                            if given.insert(n, x).is_some() {
                                return None;
                            }
                        }
                    }
                    _ => return None,
                }
                if given.len() != fields.len() {
                    return None;
                }
                for (n, t) in fields {
                    self.interp_to(given.get(n.as_str())?, *t, out)?;
                }
                Some(())
            }
            MTy::Array(it, len) => {
                let len = *len as usize;
                match v {
                    V::Bytes(b) if self.is_byte(*it) && b.len() == len => {
                        Some(out.extend(b.iter()))
                    }
                    V::String(s) => {
                        let n = if self.is_char(*it) {
                            s.chars().count()
                        } else {
                            s.len()
                        };
                        if n == len
                            && (self.is_byte(*it) || self.is_char(*it) || self.is_string_of(s, *it))
                        {
                            Some(out.extend(s.as_bytes()))
                        } else {
                            None
                        }
                    }
                    V::List(l) if l.len() == len => self.seq(l, *it, out),
                    _ => None,
                }
            }
            MTy::List(it, min, max) => {
                let ok = |n: usize| n as u64 >= *min && n as u64 <= *max;
                match v {
                    V::Bytes(b) if self.is_byte(*it) && ok(b.len()) => {
                        put_len(out, b.len(), *max);
                        Some(out.extend(b.iter()))
                    }
                    V::String(s)
                        if ok(s.len())
                            && (self.is_byte(*it)
                                || self.is_char(*it)
                                || self.is_string_of(s, *it)) =>
                    {
                        put_len(out, s.len(), *max);
                        Some(out.extend(s.as_bytes()))
                    }
                    V::List(l) if self.is_char(*it) => {
                        let mut b = vec![];
                        self.seq(l, *it, &mut b)?;
                        if !ok(b.len()) {
                            return None;
                        }
                        put_len(out, b.len(), *max);
                        Some(out.extend(b))
                    }
                    V::List(l) if ok(l.len()) => {
                        put_len(out, l.len(), *max);
                        self.seq(l, *it, out)
                    }
                    _ => None,
                }
            }
            MTy::Set(it, min, max) => match v {
                V::Set(l) if l.len() as u64 >= *min && l.len() as u64 <= *max => {
                    put_len(out, l.len(), *max);
                    let mut seen = BTreeSet::new();
                    for x in l {
                        let b = self.interp(x, *it)?;
                        out.extend(&b);
                        if !seen.insert(b) {
                            return None;
                        }
                    }
                    Some(())
                }
                _ => None,
            },
            MTy::Map(k, it, min, max) => match v {
                V::Map(l) if l.len() as u64 >= *min && l.len() as u64 <= *max => {
                    put_len(out, l.len(), *max);
                    let mut seen = BTreeSet::new();
                    for (key, x) in l {
                        let b = self.interp(key, *k)?;
                        out.extend(&b);
                        self.interp_to(x, *it, out)?;
                        if !seen.insert(b) {
                            return None;
                        }
                    }
                    Some(())
                }
                _ => None,
            },
        }
    }

    /// Whether the value is in the explicit form prescribed by the type
    pub fn explicit(&self, v: &StrictVal, t: TId) -> Result<(), String> {
        use StrictVal as V;
        let ty = self.ty(t);
        let bad = || {
            Err(format!(
                "{v:?} is not in the form prescribed by {}",
                ty.class()
            ))
        };
        match (ty, v) {
            (MTy::Prim(0), V::Unit) => Ok(()),
            (MTy::Prim(c), V::Number(n)) => match (num_cls(*c), n) {
                (NumCls::SmallU, StrictNum::Uint(_))
                | (NumCls::SmallS, StrictNum::Int(_))
                | (NumCls::LargeU, StrictNum::BigUint(_))
                | (NumCls::LargeS, StrictNum::BigInt(_)) => Ok(()),
                _ => bad(),
            },
            (MTy::Unicode, V::String(_)) => Ok(()),
            (MTy::Enum(_), V::Enum(EnumTag::Name(_))) => Ok(()),
            (MTy::Union(vars), V::Union(tag, x)) => {
                let var = vars.iter().find(|v| match tag {
                    EnumTag::Name(n) => v.0 == n.as_str(),
                    EnumTag::Ord(n) => v.1 == *n,
                });
                match var {
                    Some(var) => self.explicit(x, var.2),
                    None => bad(),
                }
            }
            (MTy::Tuple(_), V::String(_)) if self.is_rstring(ty).is_some() => Ok(()),
            (MTy::Tuple(f), V::Tuple(x)) if f.len() == x.len() => {
                f.iter().zip(x).try_for_each(|(t, x)| self.explicit(x, *t))
            }
            (MTy::Struct(f), V::Struct(x)) if f.len() == x.len() => {
                f.iter().try_for_each(|(n, t)| match x.get(&fname(n)) {
                    Some(x) => self.explicit(x, *t),
                    None => bad(),
                })
            }
            (MTy::Array(it, _) | MTy::List(it, ..), V::Bytes(_)) if self.is_byte(*it) => Ok(()),
            (MTy::Array(it, _) | MTy::List(it, ..), V::String(_)) if !self.is_byte(*it) => Ok(()),
            (MTy::Array(it, _) | MTy::List(it, ..), V::List(x)) => {
                x.iter().try_for_each(|x| self.explicit(x, *it))
            }
            (MTy::Set(it, ..), V::Set(x)) => x.iter().try_for_each(|x| self.explicit(x, *it)),
            (MTy::Map(k, it, ..), V::Map(x)) => x.iter().try_for_each(|(a, b)| {
                self.explicit(a, *k)?;
                self.explicit(b, *it)
            }),
            _ => bad(),
        }
    }

    /// Checks validity of an encoding starting at the position
    pub fn scan(&self, d: &[u8], pos: usize, t: TId) -> Scan {
        let ty = self.ty(t);
        let len_at = |pos: usize, max: u64| -> Option<(u64, usize)> {
            let n = prefix_len(max);
            let s = d.get(pos..pos + n)?;
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(s);
            Some((u64::from_le_bytes(b), pos + n))
        };
        let slice = |pos: usize, len: u64| -> Option<&[u8]> {
            let end = (pos as u64).checked_add(len)?;
            if end > d.len() as u64 {
                return None;
            }
            Some(&d[pos..end as usize])
        };
        match ty {
            MTy::Prim(0) => Scan::Ok(pos),
            MTy::Prim(c) => match c {
                0x40..=0x42 | 0x44 | 0x48 | 1..=8 => match slice(pos, num_size(*c) as u64) {
                    Some(_) => Scan::Ok(pos + num_size(*c)),
                    None => Scan::Bad,
                },
                _ => Scan::Unsupported,
            },
            MTy::Unicode => {
                for n in 1..=4 {
                    if let Some(b) = slice(pos, n) {
                        if std::str::from_utf8(b).is_ok() {
                            return Scan::Ok(pos + n as usize);
                        }
                    }
                }
                Scan::Bad
            }
            MTy::Enum(v) => match d.get(pos) {
                Some(b) if v.iter().any(|x| x.1 == *b) => Scan::Ok(pos + 1),
                _ => Scan::Bad,
            },
            MTy::Union(v) => match d.get(pos) {
                Some(b) => match v.iter().find(|x| x.1 == *b) {
                    Some(x) => self.scan(d, pos + 1, x.2),
                    None => Scan::Bad,
                },
                None => Scan::Bad,
            },
            MTy::Tuple(f) => {
                if let Some((first, rest, min, max)) = self.is_rstring(ty) {
                    let Some((len, p)) = len_at(pos, max) else {
                        return Scan::Bad;
                    };
                    let Some(b) = slice(p, len) else {
                        return Scan::Bad;
                    };
                    if len < min || len > max || len == 0 {
                        return Scan::Bad;
                    }
                    let (a1, a2) = (self.alphabet(first).unwrap(), self.alphabet(rest).unwrap());
                    if !a1.contains(&b[0]) || !b[1..].iter().all(|c| a2.contains(c)) {
                        return Scan::Bad;
                    }
                    return Scan::Ok(p + len as usize);
                }
                let mut p = pos;
                for t in f {
                    match self.scan(d, p, *t) {
                        Scan::Ok(n) => p = n,
                        x => return x,
                    }
                }
                Scan::Ok(p)
            }
            MTy::Struct(f) => {
                let mut p = pos;
                for (_, t) in f {
                    match self.scan(d, p, *t) {
                        Scan::Ok(n) => p = n,
                        x => return x,
                    }
                }
                Scan::Ok(p)
            }
            MTy::Array(it, len) => {
                let mut p = pos;
                for _ in 0..*len {
                    match self.scan(d, p, *it) {
                        Scan::Ok(n) => p = n,
                        x => return x,
                    }
                }
                Scan::Ok(p)
            }
            MTy::List(it, min, max) => {
                let Some((len, p)) = len_at(pos, *max) else {
                    return Scan::Bad;
                };
                let bounds = len >= *min && len <= *max;
                if self.is_byte(*it) || self.is_char(*it) {
                    let Some(b) = slice(p, len) else {
                        return Scan::Bad;
                    };
                    if !bounds || self.is_char(*it) && std::str::from_utf8(b).is_err() {
                        return Scan::Bad;
                    }
                    return Scan::Ok(p + len as usize);
                }
                let r = self.scan_items(d, p, len, &mut |d, p| self.scan(d, p, *it));
                if bounds {
                    r
                } else if matches!(r, Scan::Ok(_)) {
                    Scan::Bad
                } else {
                    r
                }
            }
            MTy::Set(it, min, max) => {
                let Some((len, p)) = len_at(pos, *max) else {
                    return Scan::Bad;
                };
                let mut seen = BTreeSet::new();
                let mut unique = true;
                let r = self.scan_items(d, p, len, &mut |d, p| {
                    let r = self.scan(d, p, *it);
                    if let Scan::Ok(e) = r {
                        unique &= seen.insert(d[p..e].to_vec());
                    }
                    r
                });
                let good = len >= *min && len <= *max && unique;
                if !good && matches!(r, Scan::Ok(_)) {
                    Scan::Bad
                } else {
                    r
                }
            }
            MTy::Map(k, it, min, max) => {
                let Some((len, p)) = len_at(pos, *max) else {
                    return Scan::Bad;
                };
                let mut seen = BTreeSet::new();
                let mut unique = true;
                let r = self.scan_items(d, p, len, &mut |d, p| match self.scan(d, p, *k) {
                    Scan::Ok(e) => {
                        unique &= seen.insert(d[p..e].to_vec());
                        self.scan(d, e, *it)
                    }
                    r => r,
                });
                let good = len >= *min && len <= *max && unique;
                if !good && matches!(r, Scan::Ok(_)) {
                    Scan::Bad
                } else {
                    r
                }
            }
        }
    }

    fn scan_items(
        &self,
        d: &[u8],
        mut p: usize,
        len: u64,
        f: &mut dyn FnMut(&[u8], usize) -> Scan,
    ) -> Scan {
        for _ in 0..len {
            match f(d, p) {
                Scan::Ok(n) => p = n,
                x => return x,
            }
        }
        Scan::Ok(p)
    }

    /// Smallest size of an encoding of the type
    pub fn min_size(&self, t: TId) -> u64 {
        let r = |t: TId| self.min_size(t);
        match self.ty(t) {
            MTy::Prim(0) => 0,
            MTy::Prim(c) => num_size(*c) as u64,
            MTy::Unicode | MTy::Enum(_) => 1,
            MTy::Union(v) => 1u64.saturating_add(v.iter().map(|x| r(x.2)).min().unwrap()),
            MTy::Tuple(f) => f.iter().map(|t| r(*t)).fold(0, u64::saturating_add),
            MTy::Struct(f) => f.iter().map(|t| r(t.1)).fold(0, u64::saturating_add),
            MTy::Array(t, l) => r(*t).saturating_mul(*l as u64),
            MTy::List(t, min, max) | MTy::Set(t, min, max) => {
                (prefix_len(*max) as u64).saturating_add(r(*t).saturating_mul(*min))
            }
            MTy::Map(k, v, min, max) => {
                (prefix_len(*max) as u64).saturating_add(r(*k).saturating_add(r(*v)).saturating_mul(*min))
            }
        }
    }
}
