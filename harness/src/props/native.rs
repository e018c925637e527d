//! C01 (encodings of Rust types), C07 (compilation of Rust types)
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::OnceLock;

use amplify::ascii::AsciiString;
use amplify::confinement::{
    Confined, MediumVec, NonEmptyVec, SmallVec, TinyOrdMap, TinyOrdSet, TinyVec,
};
use amplify::num::{i1024, i256, u1024, u24, u256, u3, u40, u48, u5, u512, u56, u7};
use amplify::{Array, ByteArray, Wrapper};
use indexmap::IndexMap;
use strict_encoding::stl::{AlphaCapsNum, AlphaLodash, AlphaNumLodash};
use strict_encoding::{
    strict_dumb, RString, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode, StrictReader,
    StrictSerialize, StrictType, StrictWriter,
};
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2, TypeLib};
use strict_types::typesys::TypeFqn;
use strict_types::value::{Blob, EnumTag, StrictNum, StrictVal};
use strict_types::{
    CompileError, Dependency, LibBuilder, LibRef, SemId, SymbolicSys, SystemBuilder,
    TranspileError, TranspileRef, Ty, TypeRef,
};

use super::base::*;
use super::libs::same_lib;
use crate::cx::{hex, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

const BASE: &str = "NatBase";
const MID: &str = "NatMid";
const TOP: &str = "NatTop";
const LIBS: [&str; 4] = ["Std", BASE, MID, TOP];

pub struct NW {
    pub w: World,
}
impl NW {
    fn push(&mut self, lib: usize, ty: MTy) -> TId {
        self.w.nodes.push(Node {
            name: None,
            lib,
            ty,
        });
        self.w.nodes.len() - 1
    }
    fn find(&self, lib: usize, name: &str) -> Option<TId> {
        self.w
            .nodes
            .iter()
            .position(|n| n.lib == lib && n.name.as_deref() == Some(name))
    }
    fn named(&mut self, lib: usize, name: &str, f: impl FnOnce(&mut Self) -> MTy) -> TId {
        if let Some(t) = self.find(lib, name) {
            return t;
        }
        let ty = f(self);
        self.w.nodes.push(Node {
            name: Some(name.into()),
            lib,
            ty,
        });
        self.w.nodes.len() - 1
    }
    fn std(&self, name: &str) -> TId {
        self.find(0, name).expect("harness: Std type")
    }
}

/// Rust type with a description independent from the derived traits
pub trait Nat: StrictEncode + StrictDecode + StrictType + Clone + PartialEq + Debug {
    fn def(n: &mut NW, lib: usize) -> TId;
    fn gen(r: &mut Rng) -> Self;
    fn val(&self) -> StrictVal;
}

macro_rules! nat_int {
    ($($t:ty, $code:literal, |$x:ident| $val:expr;)+) => { $(
        impl Nat for $t {
            fn def(n: &mut NW, lib: usize) -> TId { n.push(lib, MTy::Prim($code)) }
            fn gen(r: &mut Rng) -> Self {
                const N: usize = num_size_c($code);
                let mut b = [0u8; N];
                for x in b.iter_mut() { *x = r.u64() as u8 }
                match r.below(5) {
                    0 => b = [0; N],
                    1 => b = [0xFF; N],
                    2 => { b = [0; N]; b[N - 1] = 0x80 }
                    3 => { b = [0xFF; N]; b[N - 1] = 0x7F }
                    _ => {}
                }
                <$t>::from_le_bytes(b)
            }
            fn val(&self) -> StrictVal { let $x = *self; StrictVal::Number($val) }
        }
    )+ }
}
const fn num_size_c(code: u8) -> usize {
    if code & 0x20 != 0 {
        16 * ((code & 0x1F) as usize + 2)
    } else {
        (code & 0x1F) as usize
    }
}
fn uint(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(x)
}
fn bigu(b: &[u8]) -> StrictNum {
    let mut x = [0u8; 128];
    x[..b.len()].copy_from_slice(b);
    StrictNum::BigUint(big(x))
}
fn bigs(b: &[u8]) -> StrictNum {
    let mut x = [if b[b.len() - 1] & 0x80 != 0 {
        0xFFu8
    } else {
        0
    }; 128];
    x[..b.len()].copy_from_slice(b);
    StrictNum::BigInt(bigi(x))
}
nat_int! {
    u8, 0x01, |x| StrictNum::Uint(x as u64);
    u16, 0x02, |x| StrictNum::Uint(x as u64);
    u24, 0x03, |x| StrictNum::Uint(uint(&x.to_le_bytes()));
    u32, 0x04, |x| StrictNum::Uint(x as u64);
    u40, 0x05, |x| StrictNum::Uint(uint(&x.to_le_bytes()));
    u48, 0x06, |x| StrictNum::Uint(uint(&x.to_le_bytes()));
    u56, 0x07, |x| StrictNum::Uint(uint(&x.to_le_bytes()));
    u64, 0x08, |x| StrictNum::Uint(x);
    u128, 0x10, |x| bigu(&x.to_le_bytes());
    u256, 0x20, |x| bigu(&x.to_le_bytes());
    u512, 0x22, |x| bigu(&x.to_le_bytes());
    u1024, 0x26, |x| bigu(&x.to_le_bytes());
    i8, 0x41, |x| StrictNum::Int(x as i64);
    i16, 0x42, |x| StrictNum::Int(x as i64);
    i32, 0x44, |x| StrictNum::Int(x as i64);
    i64, 0x48, |x| StrictNum::Int(x);
    i128, 0x50, |x| bigs(&x.to_le_bytes());
    i256, 0x60, |x| bigs(&x.to_le_bytes());
    i1024, 0x66, |x| bigs(&x.to_le_bytes());
}

fn std_variant(name: &str, tag: u8) -> StrictVal {
    let lib = std_lib();
    let Ty::Enum(v) = &lib.types[&tname(name)] else {
        panic!("harness: Std enum")
    };
    let v = v
        .iter()
        .find(|v| v.tag == tag)
        .expect("harness: Std variant");
    StrictVal::Enum(EnumTag::Name(v.name.clone()))
}
macro_rules! nat_std {
    ($($t:ty, $name:literal, |$r:ident| $gen:expr, |$x:ident| $tag:expr;)+) => { $(
        impl Nat for $t {
            fn def(n: &mut NW, _: usize) -> TId { n.std($name) }
            fn gen($r: &mut Rng) -> Self { $gen }
            fn val(&self) -> StrictVal { let $x = *self; std_variant($name, $tag) }
        }
    )+ }
}
nat_std! {
    bool, "Bool", |r| r.coin(), |x| x as u8;
    u3, "U3", |r| u3::with(r.below(8) as u8), |x| x.to_u8();
    u5, "U5", |r| u5::with(r.below(32) as u8), |x| x.to_u8();
    u7, "U7", |r| u7::with(r.below(128) as u8), |x| x.to_u8();
    AlphaCapsNum, "AlphaCapsNum", |r| AlphaCapsNum::try_from(*r.pick(b"AZ09K")).unwrap(), |x| x as u8;
}

impl Nat for () {
    fn def(n: &mut NW, lib: usize) -> TId {
        n.push(lib, MTy::Prim(0))
    }
    fn gen(_: &mut Rng) -> Self {}
    fn val(&self) -> StrictVal {
        StrictVal::Unit
    }
}
impl<T: Nat + StrictDumb> Nat for Option<T> {
    fn def(n: &mut NW, lib: usize) -> TId {
        let none = n.push(lib, MTy::Prim(0));
        let x = T::def(n, lib);
        let some = n.push(lib, MTy::Tuple(vec![x]));
        n.push(
            lib,
            MTy::Union(vec![("none".into(), 0, none), ("some".into(), 1, some)]),
        )
    }
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 3) {
            None
        } else {
            Some(T::gen(r))
        }
    }
    fn val(&self) -> StrictVal {
        match self {
            None => StrictVal::Union(EnumTag::Name(vname("none")), Box::new(StrictVal::Unit)),
            Some(x) => StrictVal::Union(
                EnumTag::Name(vname("some")),
                Box::new(StrictVal::Tuple(vec![x.val()])),
            ),
        }
    }
}
impl<A: Nat + Default, B: Nat + Default> Nat for (A, B) {
    fn def(n: &mut NW, lib: usize) -> TId {
        let a = A::def(n, lib);
        let b = B::def(n, lib);
        n.push(lib, MTy::Tuple(vec![a, b]))
    }
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
    fn val(&self) -> StrictVal {
        StrictVal::Tuple(vec![self.0.val(), self.1.val()])
    }
}
impl<A: Nat + Default, B: Nat + Default, C: Nat + Default> Nat for (A, B, C) {
    fn def(n: &mut NW, lib: usize) -> TId {
        let a = A::def(n, lib);
        let b = B::def(n, lib);
        let c = C::def(n, lib);
        n.push(lib, MTy::Tuple(vec![a, b, c]))
    }
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r))
    }
    fn val(&self) -> StrictVal {
        StrictVal::Tuple(vec![self.0.val(), self.1.val(), self.2.val()])
    }
}
fn is_u8<T: 'static>() -> bool {
    std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>()
}
fn item_def<T: Nat + 'static>(n: &mut NW, lib: usize) -> TId {
    if is_u8::<T>() {
        n.push(lib, MTy::Prim(0x40))
    } else {
        T::def(n, lib)
    }
}
fn list_val<'a, T: Nat + 'static>(it: impl Iterator<Item = &'a T>) -> StrictVal {
    let v: Vec<StrictVal> = it.map(Nat::val).collect();
    if is_u8::<T>() {
        return StrictVal::Bytes(Blob(
            v.into_iter()
                .map(|x| match x {
                    StrictVal::Number(StrictNum::Uint(n)) => n as u8,
                    _ => unreachable!(),
                })
                .collect(),
        ));
    }
    StrictVal::List(v)
}
impl<T: Nat + Copy + StrictDumb + 'static, const N: usize> Nat for [T; N] {
    fn def(n: &mut NW, lib: usize) -> TId {
        let t = item_def::<T>(n, lib);
        n.push(lib, MTy::Array(t, N as u16))
    }
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
    fn val(&self) -> StrictVal {
        list_val(self.iter())
    }
}
impl<const N: usize> Nat for Array<u8, N> {
    fn def(n: &mut NW, lib: usize) -> TId {
        <[u8; N]>::def(n, lib)
    }
    fn gen(r: &mut Rng) -> Self {
        Array::from_inner(<[u8; N]>::gen(r))
    }
    fn val(&self) -> StrictVal {
        self.as_inner().val()
    }
}
fn len_in(r: &mut Rng, min: usize, max: usize) -> usize {
    let top = max.min(min.max(match r.below(12) {
        0 => 300,
        1 => 20,
        _ => 4,
    }));
    if r.chance(1, 30) && max <= 0xFF {
        return max;
    }
    r.range(min as u64, top as u64) as usize
}
impl<T: Nat + StrictDumb + 'static, const MIN: usize, const MAX: usize> Nat
    for Confined<Vec<T>, MIN, MAX>
{
    fn def(n: &mut NW, lib: usize) -> TId {
        let t = item_def::<T>(n, lib);
        n.push(lib, MTy::List(t, MIN as u64, MAX as u64))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = len_in(r, MIN, MAX);
        Confined::try_from((0..k).map(|_| T::gen(r)).collect::<Vec<_>>()).expect("harness: size")
    }
    fn val(&self) -> StrictVal {
        list_val(self.iter())
    }
}
impl<T: Nat + StrictDumb + Ord, const MIN: usize, const MAX: usize> Nat
    for Confined<BTreeSet<T>, MIN, MAX>
{
    fn def(n: &mut NW, lib: usize) -> TId {
        let t = T::def(n, lib);
        n.push(lib, MTy::Set(t, MIN as u64, MAX as u64))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = len_in(r, MIN, MAX).max(MIN + 3).min(MAX).min(40);
        let mut s = BTreeSet::new();
        for _ in 0..k * 3 {
            if s.len() < k {
                s.insert(T::gen(r));
            }
        }
        Confined::try_from(s).expect("harness: size")
    }
    fn val(&self) -> StrictVal {
        StrictVal::Set(self.iter().map(Nat::val).collect())
    }
}
impl<
        K: Nat + StrictDumb + Ord + std::hash::Hash,
        V: Nat + StrictDumb,
        const MIN: usize,
        const MAX: usize,
    > Nat for Confined<BTreeMap<K, V>, MIN, MAX>
{
    fn def(n: &mut NW, lib: usize) -> TId {
        let k = K::def(n, lib);
        let v = V::def(n, lib);
        n.push(lib, MTy::Map(k, v, MIN as u64, MAX as u64))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = len_in(r, MIN, MAX).max(MIN + 3).min(MAX).min(40);
        let mut s = BTreeMap::new();
        for _ in 0..k * 3 {
            if s.len() < k {
                s.insert(K::gen(r), V::gen(r));
            }
        }
        Confined::try_from(s).expect("harness: size")
    }
    fn val(&self) -> StrictVal {
        StrictVal::Map(self.iter().map(|(k, v)| (k.val(), v.val())).collect())
    }
}
impl<const MIN: usize, const MAX: usize> Nat for Confined<String, MIN, MAX> {
    fn def(n: &mut NW, lib: usize) -> TId {
        let t = n.push(lib, MTy::Unicode);
        n.push(lib, MTy::List(t, MIN as u64, MAX as u64))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = len_in(r, MIN, MAX);
        let mut s = String::new();
        while s.len() < k {
            let c = char_any(r);
            if s.len() + c.len_utf8() <= k {
                s.push(c)
            }
        }
        Confined::try_from(s).expect("harness: size")
    }
    fn val(&self) -> StrictVal {
        StrictVal::String(self.as_str().to_string())
    }
}
impl<const MIN: usize, const MAX: usize> Nat for Confined<AsciiString, MIN, MAX> {
    fn def(n: &mut NW, lib: usize) -> TId {
        let t = n.std("Ascii");
        n.push(lib, MTy::List(t, MIN as u64, MAX as u64))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = len_in(r, MIN, MAX);
        let b: Vec<u8> = (0..k).map(|_| r.below(128) as u8).collect();
        Confined::try_from(AsciiString::from_ascii(b).unwrap()).expect("harness: size")
    }
    /// Unlike those of printable characters, lists of ASCII control and printable characters are
    /// read as lists of variants
    fn val(&self) -> StrictVal {
        StrictVal::List(
            self.as_str()
                .bytes()
                .map(|c| std_variant("Ascii", c))
                .collect(),
        )
    }
}
impl<const MIN: usize, const MAX: usize> Nat for RString<AlphaLodash, AlphaNumLodash, MIN, MAX> {
    fn def(n: &mut NW, lib: usize) -> TId {
        let a = n.std("AlphaLodash");
        let b = n.std("AlphaNumLodash");
        let l = n.push(lib, MTy::List(b, MIN as u64 - 1, MAX as u64 - 1));
        n.push(lib, MTy::Tuple(vec![a, l]))
    }
    fn gen(r: &mut Rng) -> Self {
        let k = r.range(MIN as u64, (MAX as u64).min(MIN as u64 + 9)) as usize;
        let k = if r.chance(1, 10) { MAX } else { k };
        let mut s = String::from(*r.pick(b"abcXYZ_") as char);
        while s.len() < k {
            s.push(*r.pick(b"abcXYZ_0189") as char)
        }
        RString::try_from(s).expect("harness: rstring")
    }
    fn val(&self) -> StrictVal {
        StrictVal::String(self.to_string())
    }
}

macro_rules! nat_struct {
    ($lib:ident, $li:literal, $name:ident { $($f:ident $fname:literal : $t:ty),+ $(,)? }) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib)]
        pub struct $name { $(pub $f: $t),+ }
        impl StrictDumb for $name {
            fn strict_dumb() -> Self { Self::gen(&mut Rng::new(7)) }
        }
        impl Nat for $name {
            fn def(n: &mut NW, _: usize) -> TId {
                n.named($li, stringify!($name), |n| MTy::Struct(vec![$(($fname.to_string(), <$t>::def(n, $li))),+]))
            }
            fn gen(r: &mut Rng) -> Self { $name { $($f: <$t>::gen(r)),+ } }
            fn val(&self) -> StrictVal {
                StrictVal::Struct(IndexMap::from([$((fname($fname), self.$f.val())),+]))
            }
        }
    };
}
macro_rules! nat_tuple {
    ($lib:ident, $li:literal, $name:ident ( $($i:tt : $t:ty),+ )) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib)]
        pub struct $name( $(pub $t),+ );
        impl Nat for $name {
            fn def(n: &mut NW, _: usize) -> TId {
                n.named($li, stringify!($name), |n| MTy::Tuple(vec![$(<$t>::def(n, $li)),+]))
            }
            fn gen(r: &mut Rng) -> Self { $name($(<$t>::gen(r)),+) }
            fn val(&self) -> StrictVal { StrictVal::Tuple(vec![$(self.$i.val()),+]) }
        }
    };
}
macro_rules! nat_enum {
    ($lib:ident, $li:literal, $name:ident { $first:ident $fname:literal = $ftag:literal, $($v:ident $vname:literal = $tag:literal),+ }) => {
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib, tags = repr, into_u8, try_from_u8)]
        #[repr(u8)]
        pub enum $name { #[default] $first = $ftag, $($v = $tag),+ }
        impl Nat for $name {
            fn def(n: &mut NW, _: usize) -> TId {
                n.named($li, stringify!($name), |_| {
                    let mut v = vec![($fname.to_string(), $ftag), $(($vname.to_string(), $tag)),+];
                    v.sort_by_key(|x| x.1);
                    MTy::Enum(v)
                })
            }
            fn gen(r: &mut Rng) -> Self { *r.pick(&[$name::$first, $($name::$v),+]) }
            fn val(&self) -> StrictVal {
                let n = match self { $name::$first => $fname, $($name::$v => $vname),+ };
                StrictVal::Enum(EnumTag::Name(vname(n)))
            }
        }
    };
}

nat_tuple!(BASE, 1, Wrap(0: u8));
nat_tuple!(BASE, 1, Hash32(0: Array<u8, 32>));
nat_tuple!(BASE, 1, Pair(0: u16, 1: i32));
nat_struct!(BASE, 1, Unsigned {
    a "a": u8, b "b": u16, c "c": u24, d "d": u32, e "e": u40, f "f": u48, g "g": u56, h "h": u64
});
nat_struct!(BASE, 1, Signed { tiny "tiny": i8, small_one "smallOne": i16, medium "medium": i32, large "large": i64 });
nat_struct!(BASE, 1, Large { a "a": u128, b "b": u256, c "c": u512, d "d": u1024, e "e": i128, f "f": i256, g "g": i1024 });
nat_enum!(BASE, 1, Color { Red "red" = 7, Green "green" = 0, DeepBlue "deepBlue" = 255 });
nat_enum!(BASE, 1, Letter { A "a" = 65, B "b" = 66, Zed "zed" = 90 });
nat_struct!(BASE, 1, Text { uni "uni": Confined<String, 0, 255>, long_text "longText": Confined<String, 1, 65535>,
    ascii "ascii": Confined<AsciiString, 0, 65535>, ident "ident": RString<AlphaLodash, AlphaNumLodash, 1, 100>,
    short "short": RString<AlphaLodash, AlphaNumLodash, 3, 8> });
nat_struct!(BASE, 1, Bits { flag "flag": bool, three "three": u3, five "five": u5, seven "seven": u7, letter "letter": AlphaCapsNum });
nat_struct!(BASE, 1, Bytes { tiny "tiny": TinyVec<u8>, small "small": SmallVec<u8>, medium "medium": MediumVec<u8>,
    some "some": NonEmptyVec<u8, 300>, fixed "fixed": [u8; 20], long "long": Array<u8, 300>, set "set": TinyOrdSet<u8> });
nat_struct!(BASE, 1, Edges { no_bytes "noBytes": [u8; 0], no_nums "noNums": [u16; 0], one "one": [u8; 1], colors "colors": [Color; 2], grid "grid": [[u16; 2]; 3],
    no_rows "noRows": [[u8; 4]; 0], long "long": Array<u8, 4100>, empty "empty": Array<u8, 0>, flags "flags": [bool; 3], maybe "maybe": Option<u16>,
    units "units": TinyVec<()>, only_unit "onlyUnit": ((), ()) });
nat_struct!(BASE, 1, ListSizes { a "a": Confined<Vec<u16>, 0, 255>, b "b": Confined<Vec<u16>, 0, 256>, c "c": Confined<Vec<u16>, 2, 65535>, d "d": Confined<Vec<u16>, 0, 65536>,
    e "e": Confined<Vec<u16>, 0, 0xFFFFFF>, f "f": Confined<Vec<u16>, 1, 0x1000000>, g "g": Confined<Vec<u16>, 0, 0xFFFFFFFF>, h "h": Confined<Vec<u16>, 0, 0x100000000>,
    i "i": Confined<Vec<u16>, 0, { usize::MAX }>, j "j": Confined<Vec<u16>, 3, 3>, k "k": Confined<Vec<u8>, 0, 0x1000000>, l "l": Confined<Vec<u8>, 0, 0x100000000> });
nat_struct!(BASE, 1, SetSizes { a "a": Confined<BTreeSet<u32>, 0, 256>, b "b": Confined<BTreeSet<u32>, 1, 0xFFFFFF>, c "c": Confined<BTreeSet<u32>, 0, 0x1000000>,
    d "d": Confined<BTreeSet<u32>, 0, { usize::MAX }>, e "e": Confined<BTreeMap<u32, u8>, 1, 255>, f "f": Confined<BTreeMap<u32, u8>, 0, 65535>,
    g "g": Confined<BTreeMap<u32, u8>, 0, 65536>, h "h": Confined<BTreeMap<u32, u8>, 2, 0x1000000>, i "i": Confined<BTreeMap<u32, u8>, 0, { usize::MAX }> });
nat_struct!(BASE, 1, TextSizes { a "a": Confined<String, 2, 256>, b "b": Confined<String, 0, 0xFFFFFF>, c "c": Confined<String, 0, 0x1000000>, d "d": Confined<String, 0, { usize::MAX }>,
    e "e": Confined<AsciiString, 0, 0x1000000>, f "f": Confined<AsciiString, 1, 255>, g "g": RString<AlphaLodash, AlphaNumLodash, 1, 255>,
    h "h": RString<AlphaLodash, AlphaNumLodash, 1, 256>, i "i": RString<AlphaLodash, AlphaNumLodash, 2, 2>, j "j": TinyVec<Confined<String, 0, 255>> });

#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    StrictType,
    StrictDumb,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = MID, tags = order, dumb = Self::Ping)]
pub enum Msg {
    Ping,
    Num(u64),
    Both(u8, Wrap),
    Record {
        color: Color,
        opt_wrap: Option<Wrap>,
    },
    Last(TinyVec<Pair>),
}
fn unit_variant(n: &str) -> StrictVal {
    StrictVal::Union(EnumTag::Name(vname(n)), Box::new(StrictVal::Unit))
}
fn variant(n: &str, v: StrictVal) -> StrictVal {
    StrictVal::Union(EnumTag::Name(vname(n)), Box::new(v))
}
fn tup(v: Vec<StrictVal>) -> StrictVal {
    StrictVal::Tuple(v)
}
impl Nat for Msg {
    fn def(n: &mut NW, _: usize) -> TId {
        n.named(2, "Msg", |n| {
            let unit = n.push(2, MTy::Prim(0));
            let num = u64::def(n, 2);
            let num = n.push(2, MTy::Tuple(vec![num]));
            let a = u8::def(n, 2);
            let b = Wrap::def(n, 2);
            let both = n.push(2, MTy::Tuple(vec![a, b]));
            let c = Color::def(n, 2);
            let o = Option::<Wrap>::def(n, 2);
            let rec = n.push(
                2,
                MTy::Struct(vec![("color".into(), c), ("optWrap".into(), o)]),
            );
            let l = TinyVec::<Pair>::def(n, 2);
            let l = n.push(2, MTy::Tuple(vec![l]));
            MTy::Union(vec![
                ("ping".into(), 0, unit),
                ("num".into(), 1, num),
                ("both".into(), 2, both),
                ("record".into(), 3, rec),
                ("last".into(), 4, l),
            ])
        })
    }
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Msg::Ping,
            1 => Msg::Num(Nat::gen(r)),
            2 => Msg::Both(Nat::gen(r), Nat::gen(r)),
            3 => Msg::Record {
                color: Nat::gen(r),
                opt_wrap: Nat::gen(r),
            },
            _ => Msg::Last(Nat::gen(r)),
        }
    }
    fn val(&self) -> StrictVal {
        match self {
            Msg::Ping => unit_variant("ping"),
            Msg::Num(x) => variant("num", tup(vec![x.val()])),
            Msg::Both(x, y) => variant("both", tup(vec![x.val(), y.val()])),
            Msg::Record { color, opt_wrap } => variant(
                "record",
                StrictVal::Struct(IndexMap::from([
                    (fname("color"), color.val()),
                    (fname("optWrap"), opt_wrap.val()),
                ])),
            ),
            Msg::Last(x) => variant("last", tup(vec![x.val()])),
        }
    }
}

#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    StrictType,
    StrictDumb,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = MID, tags = custom, dumb = Self::Low(strict_dumb!()))]
pub enum Tagged {
    #[strict_type(tag = 0x80)]
    High(Msg),
    #[strict_type(tag = 0x05)]
    Low(Hash32),
    #[strict_type(tag = 0xFF)]
    Top,
    #[strict_type(tag = 0x00)]
    Zero { letter: Letter },
}
impl Nat for Tagged {
    fn def(n: &mut NW, _: usize) -> TId {
        n.named(2, "Tagged", |n| {
            let m = Msg::def(n, 2);
            let m = n.push(2, MTy::Tuple(vec![m]));
            let h = Hash32::def(n, 2);
            let h = n.push(2, MTy::Tuple(vec![h]));
            let unit = n.push(2, MTy::Prim(0));
            let z = Letter::def(n, 2);
            let z = n.push(2, MTy::Struct(vec![("letter".into(), z)]));
            MTy::Union(vec![
                ("zero".into(), 0, z),
                ("low".into(), 5, h),
                ("high".into(), 0x80, m),
                ("top".into(), 0xFF, unit),
            ])
        })
    }
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Tagged::High(Nat::gen(r)),
            1 => Tagged::Low(Nat::gen(r)),
            2 => Tagged::Top,
            _ => Tagged::Zero {
                letter: Nat::gen(r),
            },
        }
    }
    fn val(&self) -> StrictVal {
        match self {
            Tagged::High(x) => variant("high", tup(vec![x.val()])),
            Tagged::Low(x) => variant("low", tup(vec![x.val()])),
            Tagged::Top => unit_variant("top"),
            Tagged::Zero { letter } => variant(
                "zero",
                StrictVal::Struct(IndexMap::from([(fname("letter"), letter.val())])),
            ),
        }
    }
}
nat_struct!(MID, 2, Coll { list "list": TinyVec<Pair>, opts "opts": SmallVec<Option<Wrap>>, set "set": TinyOrdSet<Color>,
    nums "nums": Confined<BTreeSet<u32>, 1, 65535>, map "map": TinyOrdMap<Wrap, Color>,
    named "named": Confined<BTreeMap<u16, Confined<String, 0, 255>>, 0, 70000>, arr "arr": [u16; 3], nested "nested": TinyVec<TinyVec<TinyVec<Wrap>>> });
nat_struct!(MID, 2, Opts3 { one "one": Option<u8>, two "two": Option<Msg>, three "three": Option<Hash32>, no "no": (), pair "pair": (u8, u16),
    triple "triple": (Wrap, u8, Pair) });
nat_tuple!(MID, 2, Deep(0: Option<Wrap>, 1: TinyVec<u16>, 2: ()));
nat_struct!(TOP, 3, UsesMid { msg "msg": Msg });
nat_struct!(TOP, 3, UsesBase { color "color": Color, id "id": Hash32 });
nat_struct!(TOP, 3, UsesStd { flag "flag": bool });
nat_struct!(TOP, 3, Own { a "a": u8 });
nat_tuple!(TOP, 3, OwnPair(0: u16, 1: OwnInner));
nat_tuple!(TOP, 3, OwnInner(0: i64));
nat_struct!(TOP, 3, OwnTree { first "first": OwnPair, second "second": Option<OwnInner>, leafs "leafs": TinyVec<OwnPair>,
    map "map": TinyOrdMap<OwnInner, Tagged> });
nat_struct!(TOP, 3, Everything { coll "coll": Coll, tagged "tagged": Tagged, opts "opts": Opts3, deep "deep": Deep, text "text": Text, bits "bits": Bits,
    bytes "bytes": Bytes, tree "tree": OwnTree, unsigned "unsigned": Unsigned, signed "signed": Signed });
nat_struct!(TOP, 3, BigOne { large "large": TinyVec<Large> });

/// Types named as types of the other libraries
mod twin {
    use super::*;
    nat_tuple!(MID, 2, Wrap(0: u32));
    nat_struct!(MID, 2, Own { a "a": u16, color "color": super::Color });
    nat_tuple!(TOP, 3, Pair(0: Color, 1: u8));
    nat_struct!(TOP, 3, Hash32 { first "first": u64, tagged "tagged": Tagged });
    nat_enum!(TOP, 3, Color { Cyan "cyan" = 1, Magenta "magenta" = 2 });
}
use twin::{Color as TopColor, Hash32 as TopHash32, Own as MidOwn, Pair as TopPair, Wrap as MidWrap};
nat_struct!(MID, 2, MidTwins { own "own": MidWrap, other "other": Wrap, list "list": TinyVec<Wrap>, own_list "ownList": TinyVec<MidWrap>,
    inner "inner": MidOwn });
nat_struct!(TOP, 3, TopTwins { other "other": Pair, own "own": TopPair, wrap "wrap": Wrap, mid_wrap "midWrap": MidWrap, mid_own "midOwn": MidOwn,
    top_own "topOwn": Own, colors "colors": TinyOrdMap<Color, TopColor>, hash "hash": Hash32, top_hash "topHash": TopHash32, opt "opt": Option<Pair>, mid "mid": MidTwins });
nat_struct!(TOP, 3, OwnTwins { pair "pair": TopPair, color "color": TopColor });

pub struct Entry {
    pub lib: usize,
    pub name: &'static str,
    def: fn(&mut NW) -> TId,
    transpile: fn(LibBuilder) -> LibBuilder,
    check: fn(&mut Cx, &NatEnv, TId) -> R,
}
macro_rules! entries { ($($li:literal $t:ident),+ $(,)?) => { &[$(Entry {
    lib: $li, name: stringify!($t), def: |n| <$t>::def(n, $li), transpile: |b| b.transpile::<$t>(), check: check_value::<$t>,
}),+] } }
static TYPES: &[Entry] = entries![
    1 Wrap, 1 Hash32, 1 Pair, 1 Unsigned, 1 Signed, 1 Large, 1 Color, 1 Letter, 1 Text, 1 Bits, 1 Bytes,
    1 Edges, 1 ListSizes, 1 SetSizes, 1 TextSizes,
    2 Msg, 2 Tagged, 2 Coll, 2 Opts3, 2 Deep,
    2 MidWrap, 2 MidOwn, 2 MidTwins, 3 TopPair, 3 TopHash32, 3 TopColor, 3 TopTwins, 3 OwnTwins,
    3 UsesMid, 3 UsesBase, 3 UsesStd, 3 Own, 3 OwnPair, 3 OwnInner, 3 OwnTree, 3 Everything, 3 BigOne,
];

pub fn std_lib() -> &'static TypeLib {
    static L: OnceLock<TypeLib> = OnceLock::new();
    L.get_or_init(std_stl)
}

pub struct NatEnv {
    pub w: World,
    pub tids: Vec<TId>,
    pub libs: Vec<TypeLib>,
    pub sym: SymbolicSys,
    pub own: SymbolicSys,
}

fn nat_world() -> (World, Vec<TId>) {
    let mut n = NW {
        w: World {
            libs: LIBS.iter().map(|s| s.to_string()).collect(),
            nodes: vec![],
        },
    };
    for (name, ty) in &std_lib().types {
        let Ty::Enum(v) = ty else {
            panic!("harness: Std type {name} is not an enumeration")
        };
        let v = v.iter().map(|v| (v.name.to_string(), v.tag)).collect();
        n.w.nodes.push(Node {
            name: Some(name.to_string()),
            lib: 0,
            ty: MTy::Enum(v),
        });
    }
    let tids = TYPES.iter().map(|e| (e.def)(&mut n)).collect();
    (n.w, tids)
}

fn deps_of<'a>(libs: impl IntoIterator<Item = &'a TypeLib>) -> Vec<(Dependency, HashSet<SemId>)> {
    libs.into_iter().map(|l| l.to_dependency_types()).collect()
}

fn nat_env() -> R<&'static NatEnv> {
    static E: OnceLock<Result<NatEnv, String>> = OnceLock::new();
    let e = E.get_or_init(|| {
        let (w, tids) = nat_world();
        let mut libs = vec![std_lib().clone()];
        for l in 1..LIBS.len() {
            let mut b = LibBuilder::with(lname(LIBS[l]), deps_of(&libs));
            for e in TYPES.iter().filter(|e| e.lib == l) {
                b = (e.transpile)(b);
            }
            libs.push(
                b.compile()
                    .map_err(|e| format!("compilation of {}: {e}", LIBS[l]))?,
            );
        }
        let mut b = SystemBuilder::new();
        for lib in &libs {
            b = b
                .import(lib.clone())
                .map_err(|e| format!("import of {}: {e}", lib.name))?;
        }
        let sym = b.finalize().map_err(|e| format!("assembly: {e:?}"))?;
        let mut b = SystemBuilder::new();
        for lib in [std_stl(), strict_types_stl()] {
            b = b.import(lib).map_err(|e| format!("import: {e}"))?;
        }
        let own = b.finalize().map_err(|e| format!("assembly: {e:?}"))?;
        Ok(NatEnv {
            w,
            tids,
            libs,
            sym,
            own,
        })
    });
    match e {
        Ok(e) => Ok(e),
        Err(m) => fail!("{m}"),
    }
}

// ---------------------------------------------------------------------------------------------

pub const C01: Prop = Prop {
    id: "C01",
    cases: (40_000, 1_500_000),
    run: c01,
    rule: "random values of derived Rust types of every class are natively encoded, and the bytes are read, typified and \
           written by means of the compiled type system; the values are compared with those written down for each type by \
           hand; libraries, systems and layouts of the system itself are read by its own definitions; non-trivial: each \
           distinct native encoding",
    need: &[("values", 25_000), ("read back", 18_000), ("own library", 200), ("own system", 50), ("own identifiers", 500)],
    level: "exploration",
    assume: &["descriptions of the Rust types in harness/src/props/native.rs"],
};

fn c01(cx: &mut Cx) -> R {
    let e = nat_env()?;
    if cx.case % 50 == 0 {
        return own_structures(cx, e);
    }
    let k = cx.rng.us(TYPES.len());
    cx.count(&format!("type:{}", TYPES[k].name));
    (TYPES[k].check)(cx, e, e.tids[k])
}

fn native<T: StrictEncode>(x: &T) -> R<Vec<u8>> {
    let w = must!(
        x.strict_encode(StrictWriter::in_memory::<MAX>()),
        "native encoding"
    );
    Ok(w.unbox().unconfine())
}

fn check_value<T: Nat + StrictDumb>(cx: &mut Cx, e: &NatEnv, t: TId) -> R {
    let node = &e.w.nodes[t];
    let fqn = TypeFqn::with(
        lname(&e.w.libs[node.lib]),
        tname(node.name.as_ref().unwrap()),
    );
    let id = *must!(e.sym.resolve(fqn.clone()), "id of {fqn}");
    let sys = e.sym.as_types();
    for _ in 0..2 {
        let x = if cx.rng.chance(1, 40) {
            T::strict_dumb()
        } else {
            T::gen(&mut cx.rng)
        };
        let bytes = native(&x)?;
        let val = x.val();
        cx.say(|| format!("{fqn} {x:?}"));
        ck!(
            e.w.interp(&val, t).as_deref() == Some(&bytes[..]),
            "{fqn}: native encoding of {x:?} is {}, the definition prescribes {}",
            hex(&bytes),
            hex(&e.w.interp(&val, t).unwrap_or_default())
        );
        let tv = must!(
            sys.typify(val.clone(), id),
            "typification of {fqn} {}",
            show_val(&val)
        );
        ck!(
            *tv.as_val() == val,
            "{fqn} {} is typified to {}",
            show_val(&val),
            show_val(tv.as_val())
        );
        let out = must!(ser(sys, &tv), "serialization of {fqn} {}", show_val(&val));
        ck!(
            out == bytes,
            "{fqn} {}: native {} typed {}",
            show_val(&val),
            hex(&bytes),
            hex(&out)
        );
        let mut rd = StrictReader::in_memory::<MAX>(&out);
        let y = must!(T::strict_decode(&mut rd), "native decoding of {fqn}");
        ck!(x == y, "{fqn}: typed serialization of {x:?} is {y:?}");
        let got = sys.strict_deserialize_type(id, &bytes);
        match (e.w.scan(&bytes, 0, t), got) {
            (Scan::Ok(n), Ok(tv)) if n == bytes.len() => {
                ck!(
                    *tv.as_val() == val,
                    "{fqn}: {x:?} is read as {} instead of {}",
                    show_val(tv.as_val()),
                    show_val(&val)
                );
                let out = must!(ser(sys, &tv), "serialization of the value read");
                ck!(
                    out == bytes,
                    "{fqn}: value read is written as {} instead of {}",
                    hex(&out),
                    hex(&bytes)
                );
                cx.count("read back");
            }
            (Scan::Unsupported, Err(_)) => cx.count("reading not implemented"),
            (s, g) => fail!(
                "{fqn}: native encoding {} of {x:?} is read as {g:?} ({s:?})",
                hex(&bytes)
            ),
        }
        cx.count("values");
        cx.eval(&bytes);
        cx.sample(|| format!("{fqn} {x:?}"));
    }
    Ok(())
}

// Descriptions of the own data structures as values
fn vid(b: [u8; 32]) -> StrictVal {
    tup(vec![StrictVal::Bytes(Blob(b.to_vec()))])
}
fn vnum(n: u64) -> StrictVal {
    StrictVal::Number(StrictNum::Uint(n))
}
fn vname_val(s: &str) -> StrictVal {
    StrictVal::String(s.to_string())
}
fn vstr(fields: Vec<(&str, StrictVal)>) -> StrictVal {
    StrictVal::Struct(fields.into_iter().map(|(n, v)| (fname(n), v)).collect())
}
fn vname1(s: &str) -> StrictVal {
    tup(vec![vname_val(s)])
}
fn vvariant(v: &strict_encoding::Variant) -> StrictVal {
    vstr(vec![
        ("name", vname_val(v.name.as_str())),
        ("tag", vnum(v.tag as u64)),
    ])
}
fn vsizing(s: &strict_encoding::Sizing) -> StrictVal {
    vstr(vec![("min", vnum(s.min)), ("max", vnum(s.max))])
}

trait RefVal: TypeRef {
    fn rv(&self) -> StrictVal;
}
fn vext(e: &ExternRef) -> StrictVal {
    vstr(vec![
        ("libId", vid(e.lib_id.to_byte_array())),
        ("semId", vid(e.sem_id.to_byte_array())),
    ])
}
macro_rules! ref_val {
    ($($t:ident),+) => { $(
        impl RefVal for $t {
            fn rv(&self) -> StrictVal {
                match self {
                    $t::Inline(ty) => variant("inline", tup(vec![vty(ty)])),
                    $t::Named(id) => variant("named", tup(vec![vid(id.to_byte_array())])),
                    $t::Extern(e) => variant("extern", tup(vec![vext(e)])),
                }
            }
        }
    )+ }
}
ref_val!(LibRef, InlineRef, InlineRef1);
impl RefVal for InlineRef2 {
    fn rv(&self) -> StrictVal {
        match self {
            InlineRef2::Named(id) => variant("named", tup(vec![vid(id.to_byte_array())])),
            InlineRef2::Extern(e) => variant("extern", tup(vec![vext(e)])),
        }
    }
}
impl RefVal for SemId {
    fn rv(&self) -> StrictVal {
        vid(self.to_byte_array())
    }
}
fn vty<Rf: RefVal>(ty: &Ty<Rf>) -> StrictVal {
    match ty {
        Ty::Primitive(p) => variant(
            "primitive",
            tup(vec![tup(vec![vnum(p.into_code() as u64)])]),
        ),
        Ty::UnicodeChar => unit_variant("unicode"),
        Ty::Enum(v) => variant(
            "enum",
            tup(vec![tup(vec![StrictVal::Set(
                v.as_inner().iter().map(vvariant).collect(),
            )])]),
        ),
        Ty::Union(v) => variant(
            "union",
            tup(vec![tup(vec![StrictVal::Map(
                v.as_inner()
                    .iter()
                    .map(|(k, r)| {
                        (
                            vnum(k.tag as u64),
                            vstr(vec![("name", vname_val(k.name.as_str())), ("ty", r.rv())]),
                        )
                    })
                    .collect(),
            )])]),
        ),
        Ty::Tuple(v) => variant(
            "tuple",
            tup(vec![tup(vec![StrictVal::List(
                v.as_inner().iter().map(|r| r.rv()).collect(),
            )])]),
        ),
        Ty::Struct(v) => variant(
            "struct",
            tup(vec![tup(vec![StrictVal::List(
                v.as_inner()
                    .iter()
                    .map(|f| {
                        vstr(vec![
                            ("name", vname_val(f.name.as_str())),
                            ("ty", f.ty.rv()),
                        ])
                    })
                    .collect(),
            )])]),
        ),
        Ty::Array(r, n) => variant("array", tup(vec![r.rv(), vnum(*n as u64)])),
        Ty::List(r, s) => variant("list", tup(vec![r.rv(), vsizing(s)])),
        Ty::Set(r, s) => variant("set", tup(vec![r.rv(), vsizing(s)])),
        Ty::Map(k, v, s) => variant("map", tup(vec![k.rv(), v.rv(), vsizing(s)])),
    }
}

fn own_structures(cx: &mut Cx, e: &NatEnv) -> R {
    let w = world(&mut cx.rng, Opts::LIBS);
    let c = Cvt::new(&w);
    let sys = e.own.as_types();
    let idof = |n: &str| {
        e.own
            .resolve(TypeFqn::with(lname("StrictTypes"), tname(n)))
            .copied()
    };
    // identifiers and names
    let nid = must!(idof("TypeName"), "StrictTypes.TypeName");
    let name = tname(&ident(&mut cx.rng, true));
    let tv = must!(
        sys.strict_deserialize_type(nid, &native(&name)?),
        "type name"
    );
    own_val(tv.as_val(), &vname1(name.as_str()), "type name")?;
    cx.count("own identifiers");
    for l in 0..w.libs.len() {
        let lib = c.type_lib(l);
        let id = must!(idof("TypeLib"), "StrictTypes.TypeLib");
        let bytes = native(&lib)?;
        let tv = must!(
            sys.strict_deserialize_type(id, &bytes),
            "reading of library {}",
            lib.name
        );
        let val = vstr(vec![
            ("name", vname_val(lib.name.as_str())),
            (
                "dependencies",
                StrictVal::Set(
                    lib.dependencies
                        .iter()
                        .map(|d| {
                            vstr(vec![
                                ("id", vid(d.id.to_byte_array())),
                                ("name", vname_val(d.name.as_str())),
                            ])
                        })
                        .collect(),
                ),
            ),
            (
                "externTypes",
                StrictVal::Map(
                    lib.extern_types
                        .iter()
                        .map(|(n, m)| {
                            let m = m
                                .iter()
                                .map(|(i, n)| (vid(i.to_byte_array()), vname_val(n.as_str())))
                                .collect();
                            (vname_val(n.as_str()), StrictVal::Map(m))
                        })
                        .collect(),
                ),
            ),
            (
                "types",
                StrictVal::Map(
                    lib.types
                        .iter()
                        .map(|(n, ty)| (vname_val(n.as_str()), vty(ty)))
                        .collect(),
                ),
            ),
        ]);
        own_val(tv.as_val(), &val, "library")?;
        ck!(
            must!(ser(sys, &tv), "serialization") == bytes,
            "library {} is written differently",
            lib.name
        );
        let back = must!(
            TypeLib::from_strict_serialized::<MAX>(Confined::from_checked(must!(
                ser(sys, &tv),
                "serialization"
            ))),
            "native reading"
        );
        same_lib(&back, &lib)?;
        cx.count("own library");
        cx.eval(c.lib_ids[l]);
    }
    if cx.case % 100 == 0 {
        let env = Env::new(w)?;
        let id = must!(idof("SymbolicSys"), "StrictTypes.SymbolicSys");
        let bytes = must!(env.sym.to_strict_serialized::<MAX>(), "serialization").release();
        let tv = must!(
            sys.strict_deserialize_type(id, &bytes),
            "reading of a symbolic system"
        );
        let types = StrictVal::Map(
            env.sym
                .as_types()
                .as_inner()
                .iter()
                .map(|(i, ty)| (vid(i.to_byte_array()), vty(ty)))
                .collect(),
        );
        let StrictVal::Struct(f) = tv.as_val() else {
            fail!("symbolic system is read as {}", show_val(tv.as_val()))
        };
        let got = must!(f.get(&fname("types")), "field of types");
        own_val(got, &tup(vec![types]), "type system")?;
        ck!(
            must!(ser(sys, &tv), "serialization") == bytes,
            "symbolic system is written differently"
        );
        cx.count("own system");
        let t = *cx.rng.pick(&env.w.all_named());
        if let Some(tree) = env.sym.type_tree(env.sem(t)) {
            if tree.into_iter().count() < 3000 {
                let tree = must!(env.sym.type_tree(env.sem(t)), "tree");
                let lay = strict_types::layout::MemoryLayout::from(&tree);
                let id = must!(idof("MemoryLayout"), "StrictTypes.MemoryLayout");
                let bytes = native(&lay)?;
                let tv = must!(
                    sys.strict_deserialize_type(id, &bytes),
                    "reading of a layout"
                );
                ck!(
                    must!(ser(sys, &tv), "serialization") == bytes,
                    "layout is written differently"
                );
                cx.count("own layout");
            }
        }
    }
    Ok(())
}

/// Newtypes around names and numbers may be absent or present, which is checked by the bytes
fn own_val(got: &StrictVal, exp: &StrictVal, what: &str) -> R {
    fn strip(v: &StrictVal) -> StrictVal {
        match v {
            StrictVal::Tuple(x) if x.len() == 1 => strip(&x[0]),
            StrictVal::Tuple(x) => StrictVal::Tuple(x.iter().map(strip).collect()),
            StrictVal::List(x) => StrictVal::List(x.iter().map(strip).collect()),
            StrictVal::Set(x) => StrictVal::Set(x.iter().map(strip).collect()),
            StrictVal::Map(x) => {
                StrictVal::Map(x.iter().map(|(a, b)| (strip(a), strip(b))).collect())
            }
            StrictVal::Struct(x) => {
                StrictVal::Struct(x.iter().map(|(n, v)| (n.clone(), strip(v))).collect())
            }
            StrictVal::Union(t, x) => StrictVal::Union(t.clone(), Box::new(strip(x))),
            x => x.clone(),
        }
    }
    let (a, b) = (strip(got), strip(exp));
    ck!(
        a == b,
        "{what} is read as {} instead of {}",
        show_val(&a),
        show_val(&b)
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C07: Prop = Prop {
    id: "C07",
    cases: (20_000, 400_000),
    run: c07,
    rule: "random subsets of derived Rust types are compiled in random orders, with repetitions and with unused dependencies \
           offered, and compared with the library described by hand, whose id is computed independently; non-trivial: each \
           distinct subset and order",
    need: &[("compiled", 15_000), ("transitive dependency", 1_000), ("without dependencies", 1_000), ("repeated", 5_000)],
    level: "exploration",
    assume: &["descriptions of the Rust types in harness/src/props/native.rs"],
};

fn c07(cx: &mut Cx) -> R {
    static C: OnceLock<(World, Vec<TId>)> = OnceLock::new();
    let (w, tids) = C.get_or_init(nat_world);
    let e = nat_env()?;
    let c = Cvt::new(w);
    // whole libraries
    let l = cx.rng.range(1, 3) as usize;
    let own: Vec<usize> = (0..TYPES.len()).filter(|i| TYPES[*i].lib == l).collect();
    let n = cx.rng.range(1, own.len() as u64) as usize;
    let mut pick = own.clone();
    cx.rng.shuffle(&mut pick);
    pick.truncate(if cx.rng.coin() { n } else { n.min(2) });
    let roots: BTreeSet<usize> = pick.iter().copied().collect();
    for _ in 0..cx.rng.below(3) {
        let again = *cx.rng.pick(&pick);
        pick.push(again);
        cx.count("repeated");
    }
    cx.rng.shuffle(&mut pick);
    let mut offered: Vec<&TypeLib> = e.libs[..l].iter().collect();
    if cx.rng.coin() {
        offered.extend(e.libs[l + 1..].iter());
    }
    cx.rng.shuffle(&mut offered);

    // expected
    let closure = w.closure(roots.iter().map(|i| tids[*i]));
    let named: BTreeMap<String, TId> = closure
        .iter()
        .filter(|t| w.nodes[**t].lib == l)
        .filter_map(|t| w.nodes[*t].name.clone().map(|n| (n, *t)))
        .collect();
    let ext: BTreeSet<TId> = closure
        .iter()
        .copied()
        .filter(|t| w.nodes[*t].lib != l && w.nodes[*t].name.is_some())
        .collect();
    let full_ids = full_lib_ids(&c, tids);
    let lib_id = |d: usize| strict_types::TypeLibId::from_byte_array(full_ids[d]);
    let deps: BTreeSet<usize> = ext.iter().map(|t| w.nodes[*t].lib).collect();
    let direct: BTreeSet<usize> = closure
        .iter()
        .filter(|t| w.nodes[**t].lib == l)
        .flat_map(|t| w.ty(*t).refs())
        .filter(|t| w.nodes[*t].name.is_some() && w.nodes[*t].lib != l)
        .map(|t| w.nodes[t].lib)
        .collect();
    let mut em = BTreeMap::<_, BTreeMap<_, _>>::new();
    for t in &ext {
        em.entry(lname(LIBS[w.nodes[*t].lib]))
            .or_default()
            .insert(c.sem(*t), tname(w.nodes[*t].name.as_ref().unwrap()));
    }
    let mut cc = Cvt::new(w);
    cc.lib_ids = full_ids.clone();
    let exp = TypeLib {
        name: lname(LIBS[l]),
        dependencies: Confined::from_checked(
            deps.iter()
                .map(|d| Dependency::with(lib_id(*d), lname(LIBS[*d])))
                .collect(),
        ),
        extern_types: Confined::from_checked(
            em.into_iter()
                .map(|(k, v)| (k, Confined::from_checked(v)))
                .collect(),
        ),
        types: Confined::from_checked(
            named
                .iter()
                .map(|(n, t)| (tname(n), cc.ty::<LibRef>(l, *t)))
                .collect::<BTreeMap<_, _>>(),
        ),
    };
    let exp_id = lib_id_of(
        LIBS[l],
        deps.iter().map(|d| full_ids[*d]).collect(),
        named.values().map(|t| c.ids[*t]).collect(),
    );

    for _ in 0..2 {
        let mut b = LibBuilder::with(lname(LIBS[l]), deps_of(offered.iter().copied()));
        for i in &pick {
            b = (TYPES[*i].transpile)(b);
        }
        let sym = must!(b.compile_symbols(), "compilation of {}", LIBS[l]);
        for (n, t) in &named {
            let ty = must!(
                sym.types().get(&tname(n)),
                "type {n} in the symbolic library"
            );
            ck!(
                *ty == cc.ty::<TranspileRef>(l, *t),
                "{n} is {ty:?} instead of {:?}",
                cc.ty::<TranspileRef>(l, *t)
            );
        }
        ck!(
            sym.types().len() == named.len(),
            "{} types in the symbolic library instead of {}",
            sym.types().len(),
            named.len()
        );
        let lib = must!(sym.compile(), "compilation of {}", LIBS[l]);
        same_lib(&lib, &exp)?;
        ck!(
            lib.id().to_byte_array() == exp_id,
            "id of the library {}",
            lib.id()
        );
        cx.count("compiled");
        if deps.is_empty() {
            cx.count("without dependencies");
        }
        if deps.len() > direct.len() {
            cx.count("transitive dependency");
        }
        cx.eval(format!("{pick:?}"));
        cx.rng.shuffle(&mut pick);
        cx.rng.shuffle(&mut offered);
    }
    cx.sample(|| {
        format!(
            "{}: {:?}",
            LIBS[l],
            pick.iter().map(|i| TYPES[*i].name).collect::<Vec<_>>()
        )
    });
    Ok(())
}

fn lib_id_of(name: &str, deps: BTreeSet<Id>, types: Vec<Id>) -> Id {
    let mut d = vec![name.len() as u8];
    d.extend(name.as_bytes());
    d.push(deps.len() as u8);
    for x in deps {
        d.extend(x);
    }
    d.extend((types.len() as u16).to_le_bytes());
    for t in types {
        d.extend(t);
    }
    tagged(b"urn:ubideco:strict-types:lib:v01", &d)
}

/// Ids of the complete libraries
fn full_lib_ids(c: &Cvt, tids: &[TId]) -> Vec<Id> {
    let w = c.w;
    let mut out: Vec<Id> = vec![];
    for l in 0..LIBS.len() {
        let named = w.named(l);
        let closure = w.closure(named.iter().copied());
        let deps: BTreeSet<Id> = closure
            .iter()
            .filter(|t| w.nodes[**t].lib != l && w.nodes[**t].name.is_some())
            .map(|t| out[w.nodes[*t].lib])
            .collect();
        out.push(lib_id_of(
            LIBS[l],
            deps,
            named.iter().map(|t| c.ids[*t]).collect(),
        ));
    }
    let _ = tids;
    out
}

// ---------------------------------------------------------------------------------------------
// Rust types which can't be compiled

#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    Default,
    StrictType,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = TOP)]
pub struct TooDeep {
    pub field: TinyVec<Option<u8>>,
}
#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    Default,
    StrictType,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = TOP)]
pub struct SelfRef {
    pub num: u8,
    pub next: TinyVec<SelfRef>,
}
#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    Default,
    StrictType,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = TOP)]
pub struct MutualA {
    pub next: Option<Box<MutualB>>,
}
#[derive(
    Clone,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    Hash,
    Debug,
    Default,
    StrictType,
    StrictEncode,
    StrictDecode,
)]
#[strict_type(lib = TOP)]
pub struct MutualB(TinyVec<MutualA>, u8);

pub fn offences(cx: &mut Cx) -> R {
    let e = nat_env()?;
    let all = deps_of(&e.libs[..3]);
    let b = |d: &[(Dependency, HashSet<SemId>)]| LibBuilder::with(lname(TOP), d.to_vec());
    // unlisted dependencies, direct and indirect
    for (root, used) in [
        ("UsesMid", vec![MID, BASE]),
        ("UsesBase", vec![BASE]),
        ("UsesStd", vec!["Std"]),
        ("Everything", vec!["Std", BASE, MID]),
    ] {
        let entry = TYPES.iter().find(|e| e.name == root).unwrap();
        for drop in &used {
            let some: Vec<_> = all
                .iter()
                .filter(|d| d.0.name.as_str() != *drop)
                .cloned()
                .collect();
            let bl = (entry.transpile)(b(&some));
            match bl.compile_symbols() {
                Err(TranspileError::UnknownLib(l)) if l.as_str() == *drop => {
                    cx.count("rust offence")
                }
                x => fail!(
                    "{root} without the library {drop} gives {:?}",
                    x.map(|l| l.to_string())
                ),
            }
            match (entry.transpile)(b(&some)).compile() {
                Err(CompileError::UnknownLib(l)) if l.as_str() == *drop => cx.count("rust offence"),
                x => fail!(
                    "{root} without the library {drop} gives {:?}",
                    x.map(|l| l.to_string())
                ),
            }
            cx.eval(format!("{root}{drop}"));
        }
        // dependencies without some of the types used
        let mut d = all.clone();
        let name = *cx.rng.pick(&used);
        let k = all.iter().position(|d| d.0.name.as_str() == name).unwrap();
        let tid = e.w.find_named(entry.lib, root);
        let cands: Vec<TId> =
            e.w.closure([tid])
                .into_iter()
                .filter(|t| {
                    e.w.nodes[*t].name.is_some()
                        && e.w.libs[e.w.nodes[*t].lib] == all[k].0.name.as_str()
                })
                .collect();
        let ids = e.w.ids();
        let t = *cx.rng.pick(&cands);
        ck!(
            d[k].1.remove(&sid(&ids[t])),
            "types of the dependency {} miss {}",
            d[k].0,
            show_ty(&e.w, t)
        );
        match (entry.transpile)(b(&d)).compile() {
            Err(CompileError::DependencyMissesType(l, id, n))
                if l == d[k].0.name
                    && id == sid(&ids[t])
                    && Some(n.as_str()) == e.w.nodes[t].name.as_deref() =>
            {
                cx.count("rust offence")
            }
            x => fail!(
                "{root} without {} gives {:?}",
                show_ty(&e.w, t),
                x.map(|l| l.to_string())
            ),
        }
    }
    match b(&all).transpile::<TooDeep>().compile() {
        Err(CompileError::NestedInline(n, _, _)) if n.as_str() == "TooDeep" => {
            cx.count("rust offence")
        }
        x => fail!("too deep type gives {:?}", x.map(|l| l.to_string())),
    }
    let names: [(&str, fn(LibBuilder) -> LibBuilder, &[&str]); 3] = [
        ("SelfRef", |b| b.transpile::<SelfRef>(), &["SelfRef"]),
        (
            "MutualA",
            |b| b.transpile::<MutualA>(),
            &["MutualA", "MutualB"],
        ),
        (
            "MutualB",
            |b| b.transpile::<Own>().transpile::<MutualB>(),
            &["MutualA", "MutualB"],
        ),
    ];
    for (n, f, loops) in names {
        match f(b(&all)).compile() {
            Err(CompileError::UnknownType { unknown, .. }) if loops.contains(&unknown.as_str()) => {
                cx.count("rust offence")
            }
            x => fail!(
                "self-referencing type {n} gives {:?}",
                x.map(|l| l.to_string())
            ),
        }
    }
    Ok(())
}
