//! C25 (definitions and values made with macros and constructors are the written ones)
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::hex::{FromHex, ToHex};
use amplify::num::{i1024, u1024, u24, u40, u48, u56};
use amplify::Wrapper;
use indexmap::IndexMap;
use strict_encoding::{Primitive, Sizing, TypeName, Variant};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, LibRef};
use strict_types::typesys::{SymTy, TypeFqn};
use strict_types::value::{Blob, EnumTag, StrictNum, StrictVal};
use strict_types::{
    fields, fname, ston, sv, svbytes, svenum, svlist, svnewtype, svnone, svnum, svset, svsome, svstr, svtable, variants, vname,
    Cls, Dependency, PrimitiveRef, SemId, SymbolRef, TranspileRef, Ty, TypeLibId, TypeRef, TypeSymbol,
};
#[allow(deprecated)]
use strict_types::{svstruct, svtuple, svunion};

use super::paths::constructors;
use crate::cx::{Cx, R};
use crate::gen::*;
use crate::rng::Rng;
use crate::Prop;

pub const C25: Prop = Prop {
    id: "C25",
    cases: (30_000, 800_000),
    run: c25,
    rule: "values, definitions and references with random contents are written with each of the macros, constructors and \
           conversions, and compared with the ones put together part by part; fields and variants of all sizes up to 300 \
           are converted in both directions; non-trivial: each distinct value and definition",
    need: &[
        ("value", 100_000),
        ("definition", 50_000),
        ("reference", 50_000),
        ("fields", 5_000),
        ("too many", 500),
        ("repeated variant refused", 5_000),
    ],
    level: "exploration",
    assume: &[],
};

macro_rules! same {
    ($cx:ident, $kind:literal, $got:expr, $exp:expr) => {{
        let got = $got;
        let exp = &$exp;
        ck!(&got == exp, "{} is {} instead of {}", stringify!($got), crate::cx::short(&format!("{got:?}")), crate::cx::short(&format!("{exp:?}")));
        $cx.count($kind);
    }};
}

/// Stands in for a constructor which `svtable!` once named and which didn't exist
trait NoTable {
    fn table<T>(_: T) -> StrictVal {
        StrictVal::Unit
    }
}
impl NoTable for StrictVal {}

fn un(n: u64) -> StrictVal {
    StrictVal::Number(StrictNum::Uint(n))
}
fn sn(n: i64) -> StrictVal {
    StrictVal::Number(StrictNum::Int(n))
}
fn named(t: &str) -> EnumTag {
    EnumTag::Name(vname!(t.to_string()))
}
fn uni(t: EnumTag, v: &StrictVal) -> StrictVal {
    StrictVal::Union(t, Box::new(v.clone()))
}
fn stru(f: &[(&'static str, &StrictVal)]) -> StrictVal {
    let mut m = IndexMap::new();
    for (n, v) in f {
        m.insert(fname!(*n), (*v).clone());
    }
    StrictVal::Struct(m)
}

#[allow(deprecated)]
fn values(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (a, b, c) = (any_val(r, 2), any_val(r, 1), any_val(r, 1));
    let n = r.biased();
    let s = ident(r, false);
    let len = r.us(40);
    let bytes = r.bytes(len);
    let blob = StrictVal::Bytes(Blob(bytes.clone()));
    let text = StrictVal::String(s.clone());
    let some = |v: &StrictVal| uni(named("some"), v);
    let none = uni(named("none"), &StrictVal::Unit);

    same!(cx, "value", ston!(~), none);
    same!(cx, "value", ston!("written text"), StrictVal::String("written text".to_string()));
    same!(cx, "value", ston!(17u8), un(17));
    same!(cx, "value", ston!(-17i8), sn(-17));
    same!(cx, "value", ston!(-9223372036854775808i64), sn(i64::MIN));
    same!(cx, "value", ston!(18446744073709551615u64), un(u64::MAX));
    same!(cx, "value", ston!(n), un(n));
    same!(cx, "value", ston!(s.as_str()), text);
    same!(cx, "value", ston!(&a), a);
    same!(cx, "value", ston!("some" a.clone()), some(&a));
    same!(cx, "value", ston!("other" n), uni(named("other"), &un(n)));
    same!(cx, "value", ston!(7u8 n), uni(EnumTag::Ord(7), &un(n)));
    same!(cx, "value", ston!(variantTwo n), uni(named("variantTwo"), &un(n)));
    same!(cx, "value", ston!(&a, n, &b, "t"), StrictVal::Tuple(vec![
        a.clone(),
        un(n),
        b.clone(),
        StrictVal::String("t".into())
    ]));
    same!(cx, "value", ston!(&b, &a), StrictVal::Tuple(vec![b.clone(), a.clone()]));
    same!(cx, "value", ston!(zed n, alpha a.clone(), mid "text"), stru(&[
        ("zed", &un(n)),
        ("alpha", &a),
        ("mid", &StrictVal::String("text".into()))
    ]));
    same!(cx, "value", ston!(second b.clone(), first a.clone()), stru(&[("second", &b), ("first", &a)]));
    // the order of the fields is the written one
    if let StrictVal::Struct(f) = ston!(zed n, alpha a.clone(), mid "text") {
        let names: Vec<_> = f.keys().map(|k| k.to_string()).collect();
        same!(cx, "value", names, vec!["zed", "alpha", "mid"]);
    }
    same!(cx, "value", sv!(n), un(n));
    same!(cx, "value", sv!(s.as_str()), text);
    same!(cx, "value", sv!(s.clone()), text);
    same!(cx, "value", sv!(&b), b);
    same!(cx, "value", sv!(b.clone()), b);
    same!(cx, "value", sv!(()), StrictVal::Unit);
    same!(cx, "value", sv!(Blob(bytes.clone())), blob);
    same!(cx, "value", sv!(EnumTag::Ord(n as u8)), StrictVal::Enum(EnumTag::Ord(n as u8)));
    same!(cx, "value", sv!(Some(n)), some(&un(n)));
    same!(cx, "value", sv!(None::<u8>), none);
    same!(cx, "value", sv!(Some(None::<u8>)), some(&none));
    same!(cx, "value", svnum!(n), un(n));
    same!(cx, "value", svnum!(n as i64), sn(n as i64));
    same!(cx, "value", svstr!(&s), text);
    same!(cx, "value", svstr!(n), StrictVal::String(n.to_string()));
    same!(cx, "value", svbytes!(&bytes), blob);
    same!(cx, "value", svbytes!([1u8, 0, 255]), StrictVal::Bytes(Blob(vec![1, 0, 255])));
    same!(cx, "value", svnewtype!(&a), StrictVal::Tuple(vec![a.clone()]));
    same!(cx, "value", svnewtype!(svnewtype!(n)), StrictVal::Tuple(vec![StrictVal::Tuple(vec![un(n)])]));
    same!(cx, "value", svtuple!([&a, &b, &c]), StrictVal::Tuple(vec![a.clone(), b.clone(), c.clone()]));
    same!(cx, "value", svstruct!(zed => &a, alpha => n), stru(&[("zed", &a), ("alpha", &un(n))]));
    same!(cx, "value", svenum!("variant"), StrictVal::Enum(named("variant")));
    same!(cx, "value", svenum!(5u8), StrictVal::Enum(EnumTag::Ord(5)));
    same!(cx, "value", svenum!(variantTwo), StrictVal::Enum(named("variantTwo")));
    same!(cx, "value", svunion!("variant" => &a), uni(named("variant"), &a));
    same!(cx, "value", svunion!(255u8 => &a), uni(EnumTag::Ord(255), &a));
    same!(cx, "value", svunion!(variantTwo => &a), uni(named("variantTwo"), &a));
    same!(cx, "value", svnone!(), none);
    same!(cx, "value", svsome!(&a), some(&a));
    same!(cx, "value", svsome!(svsome!(n)), some(&some(&un(n))));
    same!(cx, "value", svlist!([&c, &a, &c]), StrictVal::List(vec![c.clone(), a.clone(), c.clone()]));
    same!(cx, "value", svlist!(bytes.clone()), StrictVal::List(bytes.iter().map(|x| un(*x as u64)).collect()));
    same!(cx, "value", svset!([&c, &a]), StrictVal::Set(vec![c.clone(), a.clone()]));
    same!(cx, "value", svset!(["b", "a"]), StrictVal::Set(vec![StrictVal::String("b".into()), StrictVal::String("a".into())]));
    same!(cx, "value", svtable!([(&a, &b), (&b, &c)]), StrictVal::Map(vec![(a.clone(), b.clone()), (b.clone(), c.clone())]));
    same!(
        cx,
        "value",
        svtable!(bytes.iter().map(|x| (*x, *x as i8)).collect::<Vec<_>>()),
        StrictVal::Map(bytes.iter().map(|x| (un(*x as u64), sn(*x as i8 as i64))).collect())
    );
    let boolean = n & 1 == 1;
    same!(cx, "value", StrictVal::bool(boolean), StrictVal::Enum(EnumTag::Ord(boolean as u8)));

    // numbers of all widths
    macro_rules! nums {
        ($($e:expr => $x:expr),+ $(,)?) => {$(
            same!(cx, "value", StrictNum::from($e), $x);
            same!(cx, "value", StrictVal::from($e), StrictVal::Number($x));
            same!(cx, "value", StrictVal::num($e), StrictVal::Number($x));
        )+};
    }
    let m = |bits: u32| n & (u64::MAX >> (64 - bits));
    nums! {
        n as u8 => StrictNum::Uint(m(8)),
        n as u16 => StrictNum::Uint(m(16)),
        u24::try_from(m(24) as u32).unwrap() => StrictNum::Uint(m(24)),
        n as u32 => StrictNum::Uint(m(32)),
        u40::try_from(m(40)).unwrap() => StrictNum::Uint(m(40)),
        u48::try_from(m(48)).unwrap() => StrictNum::Uint(m(48)),
        u56::try_from(m(56)).unwrap() => StrictNum::Uint(m(56)),
        n => StrictNum::Uint(n),
        n as i8 => StrictNum::Int(n as i8 as i64),
        n as i16 => StrictNum::Int(n as i16 as i64),
        n as i32 => StrictNum::Int(n as i32 as i64),
        n as i64 => StrictNum::Int(n as i64),
    }
    let big = u1024::from(n) * u1024::from(u64::MAX);
    let neg = i1024::from(n as i64) * i1024::from(i64::MAX);
    same!(cx, "value", StrictVal::num(big), StrictVal::Number(StrictNum::BigUint(big)));
    same!(cx, "value", StrictVal::num(neg), StrictVal::Number(StrictNum::BigInt(neg)));
    same!(cx, "value", StrictNum::Uint(n).unwrap_uint::<u64>(), n);

    // bytes
    let b = Blob(bytes.clone());
    let text: String = bytes.iter().map(|x| format!("{x:02x}")).collect();
    same!(cx, "value", b.to_string(), text);
    same!(cx, "value", b.to_hex(), text);
    same!(cx, "value", Blob::from_hex(&text).ok(), Some(b.clone()));
    same!(cx, "value", Blob::from(bytes.clone()), b);
    same!(cx, "value", Blob::from_hex(&format!("{text}0")).is_err(), true);
    same!(cx, "value", Blob::from_hex(&format!("{text}0g")).is_err(), true);
    same!(cx, "value", EnumTag::from("name"), named("name"));
    same!(cx, "value", EnumTag::from(n as u8), EnumTag::Ord(n as u8));
    same!(cx, "value", EnumTag::from(vname!(s.clone())), EnumTag::Name(vname!(s.clone())));
    cx.eval(format!("{a:?}{c:?}{n}{s}{text}"));
    Ok(())
}

fn any_id(r: &mut Rng) -> SemId {
    let mut b = [0u8; 32];
    b.copy_from_slice(&r.bytes(32));
    SemId::from_inner(b.into())
}

/// References of one kind, of all forms
trait Refs: TypeRef + Clone + PartialEq + std::fmt::Debug {
    fn any(r: &mut Rng) -> Self;
}
impl Refs for SemId {
    fn any(r: &mut Rng) -> Self {
        any_id(r)
    }
}
fn lib_id(r: &mut Rng) -> TypeLibId {
    let mut b = [0u8; 32];
    b.copy_from_slice(&r.bytes(32));
    TypeLibId::from_inner(b.into())
}
impl Refs for LibRef {
    fn any(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => LibRef::Named(any_id(r)),
            1 => LibRef::Extern(ExternRef::with(lib_id(r), any_id(r))),
            _ => LibRef::Inline(Ty::U16),
        }
    }
}
fn tname(r: &mut Rng) -> TypeName {
    TypeName::try_from(ident(r, true)).unwrap()
}
impl Refs for TranspileRef {
    fn any(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => TranspileRef::Named(tname(r)),
            1 => TranspileRef::Extern(SymbolRef::with(libname(r), tname(r), lib_id(r), any_id(r))),
            _ => TranspileRef::Embedded(Box::new(Ty::I8)),
        }
    }
}
fn libname(r: &mut Rng) -> strict_types::LibName {
    strict_types::LibName::try_from(ident(r, true)).unwrap()
}

fn panics(f: impl FnOnce()) -> bool {
    let p = catch_unwind(AssertUnwindSafe(f)).is_err();
    if p {
        crate::last_panic();
    }
    p
}

fn definitions<T: Refs>(cx: &mut Cx) -> R {
    let (x, y, z) = (T::any(&mut cx.rng), T::any(&mut cx.rng), T::any(&mut cx.rng));
    let (lo, hi) = (cx.rng.biased(), cx.rng.biased());
    let s = Sizing::new(lo.min(hi), lo.max(hi));
    let var = |t: u8, n: &'static str| Variant::named(t, vname!(n));
    let fld = |n: &'static str, t: &T| Field {
        name: fname!(n),
        ty: t.clone(),
    };

    // fields
    let f: NamedFields<T> = fields! { "zed" => x.clone(), "alpha" => y.clone(), "mid" => z.clone() };
    let parts = vec![fld("zed", &x), fld("alpha", &y), fld("mid", &z)];
    same!(cx, "definition", NamedFields::into_inner(f.clone()), parts);
    let name = fname!("dyn");
    let g: NamedFields<T> = fields! { name.clone() => y.clone(), fname!("zed") => x.clone(), };
    same!(cx, "definition", NamedFields::into_inner(g), vec![fld("dyn", &y), fld("zed", &x)]);
    let t: UnnamedFields<T> = fields!(z.clone(), x.clone(), x.clone(), y.clone());
    same!(cx, "definition", UnnamedFields::into_inner(t.clone()), vec![z.clone(), x.clone(), x.clone(), y.clone()]);

    // variants
    let u: UnionVariants<T> = variants! { "zed" => x.clone(), "alpha" => y.clone(), "mid" => z.clone() };
    let m: BTreeMap<_, _> = [(var(0, "zed"), x.clone()), (var(1, "alpha"), y.clone()), (var(2, "mid"), z.clone())].into();
    same!(cx, "definition", UnionVariants::into_inner(u.clone()), m.clone());
    same!(cx, "definition", u.clone().into_keys().collect::<Vec<_>>(), m.keys().cloned().collect::<Vec<_>>());
    same!(cx, "definition", u.clone().into_values().collect::<Vec<_>>(), m.values().cloned().collect::<Vec<_>>());
    let w: UnionVariants<T> = variants! { "zed" => 255 => x.clone(), "alpha" => 0 => y.clone(), "mid" => 100 => z.clone() };
    let m: BTreeMap<_, _> = [(var(255, "zed"), x.clone()), (var(0, "alpha"), y.clone()), (var(100, "mid"), z.clone())].into();
    same!(cx, "definition", UnionVariants::into_inner(w), m);
    let e: EnumVariants = variants! { "zed", "alpha", "mid" };
    let m: BTreeSet<_> = [var(0, "zed"), var(1, "alpha"), var(2, "mid")].into();
    same!(cx, "definition", EnumVariants::into_inner(e.clone()), m);
    let q: EnumVariants = variants! { 250..=254 };
    let m: Vec<_> = (250..=254u8).map(|t| Variant::named(t, vname!(format!("_{t}")))).collect();
    same!(cx, "definition", q.into_iter().collect::<Vec<_>>(), m);
    for p in [
        panics(|| {
            let _: UnionVariants<T> = variants! { "zed" => x.clone(), "alpha" => y.clone(), "zed" => z.clone() };
        }),
        panics(|| {
            let _: UnionVariants<T> = variants! { "zed" => 4 => x.clone(), "alpha" => 4 => y.clone() };
        }),
        panics(|| {
            let _: UnionVariants<T> = variants! { "zed" => 4 => x.clone(), "zed" => 5 => y.clone() };
        }),
        panics(|| {
            let _: EnumVariants = variants! { "zed", "zed" };
        }),
        panics(|| {
            let _: EnumVariants = variants! { 0..=255 };
        }),
    ] {
        ck!(p, "definition with a repeated variant or too many of them is accepted");
        cx.count("repeated variant refused");
    }

    // types
    let show = |t: &Ty<T>| format!("{t:?}");
    macro_rules! ty {
        ($got:expr, $pat:pat => $cond:expr, $cls:ident) => {{
            let t: Ty<T> = $got;
            ck!(
                match &t {
                    $pat => $cond,
                    _ => false,
                },
                "{} gives {}",
                stringify!($got),
                show(&t)
            );
            ck!(t.cls() == Cls::$cls, "{} is of class {}", show(&t), t.cls());
            cx.count("definition");
        }};
    }
    ty!(Ty::list(x.clone(), s), Ty::List(a, b) => *a == x && *b == s, List);
    ty!(Ty::set(x.clone(), s), Ty::Set(a, b) => *a == x && *b == s, Set);
    ty!(Ty::map(x.clone(), y.clone(), s), Ty::Map(a, b, c) => *a == x && *b == y && *c == s, Map);
    ty!(Ty::struc(f.clone()), Ty::Struct(a) => *a == f, Struct);
    ty!(Ty::tuple(t.clone()), Ty::Tuple(a) => *a == t, Tuple);
    ty!(Ty::union(u.clone()), Ty::Union(a) => *a == u, Union);
    ty!(Ty::enumerate(e.clone()), Ty::Enum(a) => *a == e, Enum);
    ty!(Ty::from(f.clone()), Ty::Struct(a) => *a == f, Struct);
    ty!(Ty::from(t.clone()), Ty::Tuple(a) => *a == t, Tuple);
    ty!(Ty::from(u.clone()), Ty::Union(a) => *a == u, Union);
    ty!(Ty::from(e.clone()), Ty::Enum(a) => *a == e, Enum);
    ty!(Ty::UNICODE, Ty::UnicodeChar => true, Unicode);
    // constants with their specified codes
    for (t, code, p) in [
        (Ty::<T>::UNIT, 0x00, Primitive::UNIT),
        (Ty::BYTE, 0x40, Primitive::BYTE),
        (Ty::U8, 0x01, Primitive::U8),
        (Ty::U16, 0x02, Primitive::U16),
        (Ty::U24, 0x03, Primitive::U24),
        (Ty::U32, 0x04, Primitive::U32),
        (Ty::U40, 0x05, Primitive::U40),
        (Ty::U48, 0x06, Primitive::U48),
        (Ty::U56, 0x07, Primitive::U56),
        (Ty::U64, 0x08, Primitive::U64),
        (Ty::U128, 0x10, Primitive::U128),
        (Ty::U256, 0x20, Primitive::U256),
        (Ty::U512, 0x22, Primitive::U512),
        (Ty::U1024, 0x26, Primitive::U1024),
        (Ty::I8, 0x41, Primitive::I8),
        (Ty::I16, 0x42, Primitive::I16),
        (Ty::I24, 0x43, Primitive::I24),
        (Ty::I32, 0x44, Primitive::I32),
        (Ty::I64, 0x48, Primitive::I64),
        (Ty::I128, 0x50, Primitive::I128),
        (Ty::I256, 0x60, Primitive::I256),
        (Ty::I512, 0x62, Primitive::I512),
        (Ty::I1024, 0x66, Primitive::I1024),
        (Ty::F16, 0xC2, Primitive::F16),
        (Ty::F32, 0xC4, Primitive::F32),
        (Ty::F64, 0xC8, Primitive::F64),
        (Ty::F80, 0xCA, Primitive::F80),
        (Ty::F128, 0xD0, Primitive::F128),
        (Ty::F256, 0xE0, Primitive::F256),
        (Ty::F16B, 0xC0, Primitive::F16B),
    ] {
        ck!(t == Ty::Primitive(p), "constant of {p} is {}", show(&t));
        ck!(p == Primitive::from_code(code), "{p} has code {:#x} instead of {code:#x}", p.into_code());
        ck!(t.cls() == Cls::Primitive, "{p} is of class {}", t.cls());
        ck!(Ty::<T>::from(p) == t, "conversion of {p} gives {}", show(&Ty::<T>::from(p)));
        cx.count("definition");
    }
    cx.eval(format!("{x:?}{y:?}{z:?}{s}"));

    // sizes
    let n = *cx.rng.pick(&[0usize, 1, 2, 3, 16, 100, 254, 255, 256, 257, 300]);
    let ok = (1..=255).contains(&n);
    let refs: Vec<T> = (0..n).map(|_| T::any(&mut cx.rng)).collect();
    let fs: Vec<Field<T>> = refs
        .iter()
        .enumerate()
        .map(|(i, t)| Field {
            name: fname!(format!("f{}", n - i)),
            ty: t.clone(),
        })
        .collect();
    let nf = NamedFields::try_from(fs.clone());
    let uf = UnnamedFields::try_from(refs.clone());
    ck!(nf.is_ok() == ok && uf.is_ok() == ok, "{n} fields: {:?} {:?}", nf.is_ok(), uf.is_ok());
    if !ok {
        cx.count(if n == 0 { "no items" } else { "too many" });
    }
    if let (Ok(nf), Ok(uf)) = (nf, uf) {
        ck!(nf.len() == n && uf.len() == n, "{n} fields became {} and {}", nf.len(), uf.len());
        ck!(nf.iter().eq(fs.iter()) && (&nf).into_iter().eq(fs.iter()), "fields are changed");
        ck!(uf.iter().eq(refs.iter()) && (&uf).into_iter().eq(refs.iter()), "fields are changed");
        ck!(nf.clone().into_iter().eq(fs.iter().cloned()) && uf.clone().into_iter().eq(refs.iter().cloned()), "fields are changed");
        ck!(NamedFields::into_inner(nf.clone()) == fs && UnnamedFields::into_inner(uf.clone()) == refs, "fields are changed");
        ck!(NamedFields::from_inner(Wrapper::into_inner(nf.clone())) == nf, "fields are changed");
        ck!(UnnamedFields::from_inner(Wrapper::into_inner(uf.clone())) == uf, "fields are changed");
        let k = cx.rng.us(n);
        let mut other = fs.clone();
        other[k].name = fname!("other");
        ck!(nf != NamedFields::try_from(other).unwrap(), "fields with a different name are equal");
        cx.count("fields");
    }
    let mut tags: Vec<u8> = (0..=255).collect();
    cx.rng.shuffle(&mut tags);
    tags.truncate(n);
    let (n, ok) = (tags.len(), (1..=255).contains(&tags.len()));
    let vs: BTreeMap<Variant, T> = tags
        .iter()
        .zip(refs.iter())
        .map(|(t, r)| (Variant::named(*t, vname!(format!("v{}", t.wrapping_mul(37)))), r.clone()))
        .collect();
    let mut order: Vec<(u8, String, T)> = tags
        .iter()
        .zip(refs.iter())
        .map(|(t, r)| (*t, format!("v{}", t.wrapping_mul(37)), r.clone()))
        .collect();
    order.sort_by_key(|x| x.0);
    let uv = UnionVariants::try_from(vs.clone());
    let ev = EnumVariants::try_from(vs.keys().cloned().collect::<BTreeSet<_>>());
    ck!(uv.is_ok() == ok && ev.is_ok() == ok, "{n} variants: {:?} {:?}", uv.is_ok(), ev.is_ok());
    if let (Ok(uv), Ok(ev)) = (uv, ev) {
        let row = |v: &Variant, t: &T| (v.tag, v.name.to_string(), t.clone());
        ck!(uv.len() == n && ev.len() == n, "{n} variants became {} and {}", uv.len(), ev.len());
        ck!(uv.iter().map(|(v, t)| row(v, t)).eq(order.iter().cloned()), "variants are changed");
        ck!((&uv).into_iter().map(|(v, t)| row(v, t)).eq(order.iter().cloned()), "variants are changed");
        ck!(uv.clone().into_iter().map(|(v, t)| row(&v, &t)).eq(order.iter().cloned()), "variants are changed");
        ck!(uv.clone().into_values().eq(order.iter().map(|x| x.2.clone())), "variants are changed");
        ck!(uv.clone().into_keys().map(|v| (v.tag, v.name.to_string())).eq(order.iter().map(|x| (x.0, x.1.clone()))), "variants are changed");
        let e = |v: &Variant| (v.tag, v.name.to_string());
        ck!(ev.iter().map(e).eq(order.iter().map(|x| (x.0, x.1.clone()))), "variants are changed");
        ck!((&ev).into_iter().map(e).eq(order.iter().map(|x| (x.0, x.1.clone()))), "variants are changed");
        ck!(ev.clone().into_iter().map(|v| e(&v)).eq(order.iter().map(|x| (x.0, x.1.clone()))), "variants are changed");
        ck!(UnionVariants::into_inner(uv.clone()) == vs, "variants are changed");
        ck!(UnionVariants::from_inner(Wrapper::into_inner(uv.clone())) == uv, "variants are changed");
        cx.count("fields");
    }
    Ok(())
}

fn references(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (l, l2) = (libname(r), libname(r));
    let (t, t2) = (tname(r), tname(r));
    let (s, i) = (any_id(r), lib_id(r));
    let _ = l2;
    let sr = SymbolRef::with(l.clone(), t.clone(), i, s);
    same!(cx, "reference", (&sr.lib_name, &sr.ty_name, sr.lib_id, sr.sem_id), (&l, &t, i, s));
    let er = ExternRef::from(sr.clone());
    same!(cx, "reference", (er.lib_id, er.sem_id), (i, s));
    same!(cx, "reference", ExternRef::with(i, s), er);
    same!(cx, "reference", TranspileRef::from(t2.clone()), TranspileRef::Named(t2.clone()));
    same!(cx, "reference", TranspileRef::from(Ty::U40), TranspileRef::Embedded(Box::new(Ty::U40)));
    same!(cx, "reference", TranspileRef::unit(), TranspileRef::Embedded(Box::new(Ty::UNIT)));
    same!(cx, "reference", TranspileRef::byte(), TranspileRef::Embedded(Box::new(Ty::BYTE)));
    same!(cx, "reference", TranspileRef::unicode_char(), TranspileRef::Embedded(Box::new(Ty::UNICODE)));
    same!(cx, "reference", LibRef::from(Ty::U40), LibRef::Inline(Ty::U40));
    same!(cx, "reference", InlineRef::from(Ty::U40), InlineRef::Inline(Ty::U40));
    same!(cx, "reference", InlineRef1::from(Ty::U40), InlineRef1::Inline(Ty::U40));
    let fq = TypeFqn::with(l.clone(), t.clone());
    same!(cx, "reference", (&fq.lib, &fq.name), (&l, &t));
    same!(cx, "reference", TypeFqn::from("Bitcoin.Txid"), TypeFqn::with("Bitcoin", "Txid"));
    same!(cx, "reference", fq.to_string(), format!("{l}.{t}"));
    let d = Dependency::with(i, l.clone());
    same!(cx, "reference", (d.id, &d.name), (i, &l));
    let y = TypeSymbol::named(s, l.clone(), t.clone());
    same!(cx, "reference", (y.id, y.fqn), (s, Some(fq.clone())));
    let y = TypeSymbol::with(s, fq.clone());
    same!(cx, "reference", (y.id, y.fqn), (s, Some(fq.clone())));
    let y = TypeSymbol::unnamed(s);
    same!(cx, "reference", (y.id, y.fqn), (s, None));
    let y = SymTy::named(l.clone(), t.clone(), Ty::U24);
    same!(cx, "reference", (y.orig, y.ty), (Some(fq.clone()), Ty::U24));
    let y = SymTy::unnamed(Ty::U24);
    same!(cx, "reference", (y.orig, y.ty), (None, Ty::U24));
    let y = SymTy::with(Some("Bitcoin.Txid"), Ty::I8);
    same!(cx, "reference", (y.orig, y.ty), (Some(TypeFqn::with("Bitcoin", "Txid")), Ty::I8));
    // ids of the elementary types
    same!(cx, "reference", SemId::unit(), SemId::default());
    same!(cx, "reference", SemId::unit(), Ty::<SemId>::UNIT.sem_id_unnamed());
    same!(cx, "reference", SemId::byte(), Ty::<SemId>::BYTE.sem_id_unnamed());
    same!(cx, "reference", SemId::unicode_char(), Ty::<SemId>::UNICODE.sem_id_unnamed());
    cx.eval(format!("{sr:?}{t2}"));
    Ok(())
}

fn c25(cx: &mut Cx) -> R {
    values(cx)?;
    constructors(cx)?;
    definitions::<SemId>(cx)?;
    definitions::<LibRef>(cx)?;
    definitions::<TranspileRef>(cx)?;
    references(cx)?;
    cx.sample(|| "each macro, constructor and conversion with random contents".into());
    Ok(())
}
