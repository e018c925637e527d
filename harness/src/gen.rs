//! Generators of type definitions, libraries, values and their near-miss modifications.
use std::collections::{BTreeSet, HashSet};

use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use strict_types::value::{Blob, EnumTag, StrictNum, StrictVal};

use crate::model::*;
use crate::rng::Rng;

#[derive(Copy, Clone, Debug)]
pub struct Opts {
    pub libs: u64,
    pub types: u64,
    /// Only the primitives which the typed reader supports
    pub decodable: bool,
    /// Permit definitions of the same type in several libraries
    pub aliases: bool,
    /// Permit exotic primitives (floats, non-zero, reserved)
    pub exotic: bool,
    /// Permit very wide definitions
    pub wide: bool,
    /// Permit sizes of collections which are too large to make values
    pub wild: bool,
}

impl Opts {
    pub const SMALL: Opts = Opts {
        libs: 1,
        types: 6,
        decodable: false,
        aliases: false,
        exotic: true,
        wide: true,
        wild: true,
    };
    pub const VALUES: Opts = Opts {
        libs: 1,
        types: 5,
        decodable: false,
        aliases: false,
        exotic: true,
        wide: true,
        wild: false,
    };
    pub const DECODE: Opts = Opts {
        libs: 1,
        types: 5,
        decodable: true,
        aliases: false,
        exotic: false,
        wide: true,
        wild: false,
    };
    pub const LIBS: Opts = Opts {
        libs: 4,
        types: 6,
        decodable: false,
        aliases: true,
        exotic: true,
        wide: true,
        wild: true,
    };
}

const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";

pub fn ident(r: &mut Rng, caps: bool) -> String {
    let first: &[u8] = if caps {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_"
    } else {
        b"abcdefghijklmnopqrstuvwxyz_"
    };
    let n = match r.below(20) {
        0 => 0,
        1 => 99,
        2 => r.below(99),
        _ => r.range(1, 7),
    };
    let mut s = String::from(*r.pick(first) as char);
    for _ in 0..n {
        s.push(*r.pick(ALNUM) as char);
    }
    s
}

fn unique(r: &mut Rng, caps: bool, seen: &mut BTreeSet<String>) -> String {
    loop {
        let pool: &[&str] = if caps {
            &["Data", "A", "Type_1", "None", "Some", "Z9"]
        } else {
            &["none", "some", "a", "b", "name", "value", "_0", "_1", "x1"]
        };
        let s = if r.chance(1, 3) {
            r.pick(pool).to_string()
        } else {
            ident(r, caps)
        };
        if seen.insert(s.clone()) {
            return s;
        }
        if seen.len() > 40 {
            let s = format!("{s}{}", seen.len());
            if s.len() <= 100 && seen.insert(s.clone()) {
                return s;
            }
        }
    }
}

pub struct WorldGen<'r> {
    pub r: &'r mut Rng,
    pub w: World,
    pub o: Opts,
    weight: Vec<u64>,
}

const MAX_WEIGHT: u64 = 300;

impl<'r> WorldGen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> Self {
        WorldGen {
            r,
            w: World::default(),
            o,
            weight: vec![],
        }
    }

    pub fn prim(&mut self) -> u8 {
        let r = &mut self.r;
        if self.o.decodable {
            return *r.pick(&[0u8, 0x40, 1, 1, 2, 3, 4, 5, 6, 7, 8, 0x41, 0x42, 0x44, 0x48]);
        }
        if self.o.exotic && r.chance(1, 25) {
            return *r.pick(&[0x81u8, 0x84, 0x90, 0xC0, 0xC2, 0xC4, 0xC8, 0xD0, 0xE0, 0xFD]);
        }
        if r.chance(1, 12) {
            return r.range(1, 0x7F) as u8;
        }
        *r.pick(&[
            0u8, 0x40, 1, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20, 0x20, 0x22, 0x26, 9, 0x41, 0x42, 0x43,
            0x44, 0x45, 0x48, 0x50, 0x60, 0x62, 0x66,
        ])
    }

    fn count(&mut self) -> usize {
        match self.r.below(40) {
            0 if self.o.wide => *self.r.pick(&[254usize, 255]),
            1 => self.r.range(8, 30) as usize,
            2..=8 => 1,
            9..=18 => 2,
            _ => self.r.range(2, 5) as usize,
        }
    }

    pub fn tags(&mut self, n: usize) -> Vec<u8> {
        let mut t: BTreeSet<u8> = BTreeSet::new();
        match self.r.below(4) {
            0 | 1 => t.extend((0..n).map(|i| i as u8)),
            2 if n <= 60 => {
                while t.len() < n {
                    t.insert(self.r.range(32, 127) as u8);
                }
            }
            _ => {
                if n > 0 && self.r.coin() {
                    t.insert(*self.r.pick(&[0u8, 255, 127, 128]));
                }
                while t.len() < n {
                    t.insert(self.r.u64() as u8);
                }
            }
        }
        t.into_iter().collect()
    }

    pub fn enumeration(&mut self) -> MTy {
        let n = self.count();
        let mut seen = BTreeSet::new();
        let tags = self.tags(n);
        MTy::Enum(
            tags.into_iter()
                .map(|t| (unique(self.r, false, &mut seen), t))
                .collect(),
        )
    }

    /// Enumeration of characters
    pub fn char_enum(&mut self) -> MTy {
        let mut t = BTreeSet::new();
        match self.r.below(4) {
            0 => t.extend(b'a'..=b'z'),
            1 => t.extend(32..=127),
            _ => {
                for _ in 0..self.r.range(1, 12) {
                    t.insert(self.r.range(32, 127) as u8);
                }
            }
        }
        MTy::Enum(t.into_iter().map(|c| (format!("c{c:02x}"), c)).collect())
    }

    pub fn sizing(&mut self) -> (u64, u64) {
        let wild = self.o.wild;
        let r = &mut self.r;
        if wild && r.chance(1, 4) {
            let mut any = || match r.below(5) {
                0 => *r.pick(&[0u64, 1, 255, 256, 300, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX]),
                1 => {
                    // one bit away from a limit
                    let bits = *r.pick(&[8u64, 16, 24, 32, 64]);
                    (u64::MAX >> (64 - bits)) ^ (1 << r.below(bits))
                }
                2 => {
                    let bits = *r.pick(&[8u64, 16, 24, 32, 64]);
                    (u64::MAX >> (64 - bits)) - r.below(3)
                }
                _ => r.biased(),
            };
            let (a, b) = (any(), any());
            return (a.min(b), a.max(b).max(1));
        }
        let min = match r.below(8) {
            0..=3 => 0,
            4 | 5 => 1,
            _ => r.range(1, 4),
        };
        let max = match r.below(12) {
            0..=5 => min + r.below(5),
            6 => 0xFF,
            7 => *r.pick(&[0x100u64, 0xFFFF]),
            8 => *r.pick(&[0x1_0000u64, 0xFF_FFFF]),
            9 => *r.pick(&[0x100_0000u64, 0xFFFF_FFFF]),
            10 => *r.pick(&[0x1_0000_0000u64, u64::MAX, u64::MAX - 1]),
            _ => 0xFFFF,
        };
        (min, max.max(1))
    }

    pub fn push(&mut self, name: Option<String>, lib: usize, ty: MTy) -> TId {
        let wt = self.weigh(&ty);
        self.w.nodes.push(Node { name, lib, ty });
        self.weight.push(wt);
        self.w.nodes.len() - 1
    }

    fn weigh(&self, ty: &MTy) -> u64 {
        let k = match ty {
            _ if self.o.wild => 1,
            MTy::Array(t, l) if !self.w.is_byte(*t) => *l as u64,
            MTy::List(_, min, _) | MTy::Set(_, min, _) | MTy::Map(_, _, min, _) => (*min).max(1),
            _ => 1,
        };
        ty.refs()
            .iter()
            .map(|t| self.weight[*t])
            .sum::<u64>()
            .saturating_mul(k)
            .saturating_add(1)
    }

    fn pick_named(&mut self, lib: usize) -> Option<TId> {
        let named: Vec<TId> = (0..self.w.nodes.len())
            .filter(|t| self.w.nodes[*t].name.is_some() && self.weight[*t] < MAX_WEIGHT / 2)
            .filter(|t| self.w.nodes[*t].lib <= lib)
            .collect();
        if named.is_empty() {
            return None;
        }
        // A type which is defined by several libraries can't be told apart inside of a single one
        let t = *self.r.pick(&named);
        Some(t)
    }

    /// `depth` is the number of inline levels which are still available
    pub fn reference(&mut self, lib: usize, depth: u32) -> Option<TId> {
        if depth == 0 || self.r.chance(2, 5) {
            if let Some(t) = self.pick_named(lib) {
                return Some(t);
            }
        }
        if depth == 0 {
            return None;
        }
        let ty = if self.r.chance(3, 5) {
            match self.r.below(10) {
                0 => MTy::Unicode,
                1 => self.enumeration(),
                2 => MTy::Prim(*self.r.pick(&[0x40, 1])),
                _ => MTy::Prim(self.prim()),
            }
        } else {
            self.definition(lib, depth - 1)
        };
        Some(self.push(None, lib, ty))
    }

    pub fn definition(&mut self, lib: usize, depth: u32) -> MTy {
        let mark = self.w.nodes.len();
        for _ in 0..6 {
            if let Some(ty) = self.try_definition(lib, depth) {
                if self.weigh(&ty) <= MAX_WEIGHT && self.sane(&ty) {
                    return ty;
                }
            }
            self.w.nodes.truncate(mark);
            self.weight.truncate(mark);
        }
        if self.r.coin() {
            self.enumeration()
        } else {
            MTy::Prim(self.prim())
        }
    }

    /// Collections of items with zero size may hold as many items as their length says without
    /// reading any data, which makes reading of untrusted lengths legitimately slow.
    fn sane(&self, ty: &MTy) -> bool {
        match ty {
            MTy::List(t, _, max) | MTy::Set(t, _, max) => *max <= 0xFF || self.w.min_size(*t) > 0,
            MTy::Map(k, v, _, max) => *max <= 0xFF || self.w.min_size(*k).max(self.w.min_size(*v)) > 0,
            _ => true,
        }
    }

    fn try_definition(&mut self, lib: usize, depth: u32) -> Option<MTy> {
        Some(match self.r.below(32) {
            0..=2 => MTy::Prim(self.prim()),
            3 => MTy::Unicode,
            4..=6 => self.enumeration(),
            7 => self.char_enum(),
            8..=10 => {
                let n = self.count();
                let mut seen = BTreeSet::new();
                let tags = self.tags(n);
                let mut v = vec![];
                for t in tags {
                    let name = unique(self.r, false, &mut seen);
                    let ty = if n > 40 {
                        self.simple(lib, depth)?
                    } else {
                        self.reference(lib, depth)?
                    };
                    v.push((name, t, ty));
                }
                MTy::Union(v)
            }
            11..=13 => {
                let none = if depth > 0 && self.r.chance(9, 10) {
                    self.push(None, lib, MTy::Prim(0))
                } else {
                    self.reference(lib, depth)?
                };
                let some = self.reference(lib, depth)?;
                MTy::Union(vec![("none".into(), 0, none), ("some".into(), 1, some)])
            }
            14..=16 => {
                let n = self.count();
                let mut v = vec![];
                for _ in 0..n {
                    let t = if n > 40 {
                        self.simple(lib, depth)?
                    } else {
                        self.reference(lib, depth)?
                    };
                    v.push(t);
                }
                MTy::Tuple(v)
            }
            17 => {
                // restricted string
                let first = self.char_enum_ref(lib, depth)?;
                let (min, max) = self.sizing();
                let t = if depth >= 2 || depth == 1 && self.r.coin() {
                    let rest = self.char_enum_ref(lib, depth - 1)?;
                    self.push(None, lib, MTy::List(rest, min, max))
                } else {
                    return None;
                };
                MTy::Tuple(vec![first, t])
            }
            18..=21 => {
                let n = self.count();
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..n {
                    let name = unique(self.r, false, &mut seen);
                    let t = if n > 40 {
                        self.simple(lib, depth)?
                    } else {
                        self.reference(lib, depth)?
                    };
                    v.push((name, t));
                }
                MTy::Struct(v)
            }
            22 | 23 => {
                let t = if self.r.coin() {
                    self.text_item(lib, depth)?
                } else {
                    self.reference(lib, depth)?
                };
                let len = if self.o.wild && self.r.chance(1, 3) {
                    self.r.biased() as u16
                } else if self.w.is_byte(t) {
                    *self.r.pick(&[0, 1, 4, 20, 32, 33, 255, 300])
                } else {
                    self.r.below(5) as u16
                };
                MTy::Array(t, len)
            }
            24..=27 => {
                let t = if self.r.coin() {
                    self.text_item(lib, depth)?
                } else {
                    self.reference(lib, depth)?
                };
                let (min, max) = self.sizing();
                MTy::List(t, min, max)
            }
            28 | 29 => {
                let t = self.reference(lib, depth)?;
                let (min, max) = self.sizing();
                MTy::Set(t, min, max)
            }
            _ => {
                let k = self.reference(lib, depth)?;
                let t = self.reference(lib, depth)?;
                let (min, max) = self.sizing();
                MTy::Map(k, t, min, max)
            }
        })
    }

    fn simple(&mut self, lib: usize, depth: u32) -> Option<TId> {
        if depth == 0 {
            return self.pick_named(lib).filter(|t| self.weight[*t] <= 1);
        }
        let p = self.prim();
        Some(self.push(None, lib, MTy::Prim(p)))
    }
    fn char_enum_ref(&mut self, lib: usize, depth: u32) -> Option<TId> {
        let named: Vec<TId> = self
            .w
            .all_named()
            .into_iter()
            .filter(|t| self.w.nodes[*t].lib <= lib && self.w.is_char_enum(*t))
            .collect();
        if !named.is_empty() && self.r.coin() {
            return Some(*self.r.pick(&named));
        }
        if depth == 0 {
            return None;
        }
        let e = self.char_enum();
        Some(self.push(None, lib, e))
    }
    /// Item of a byte or a text string
    fn text_item(&mut self, lib: usize, depth: u32) -> Option<TId> {
        match self.r.below(4) {
            0 => self.char_enum_ref(lib, depth),
            _ if depth == 0 => None,
            1 => Some(self.push(None, lib, MTy::Unicode)),
            _ => {
                let c = *self.r.pick(&[0x40, 0x40, 1]);
                Some(self.push(None, lib, MTy::Prim(c)))
            }
        }
    }

    fn clone_node(&mut self, t: TId, lib: usize) -> TId {
        let n = self.w.nodes[t].clone();
        if n.name.is_some() {
            return t;
        }
        let ty = n.ty.map_refs(|c| self.clone_node(c, lib));
        self.push(None, lib, ty)
    }

    pub fn world(mut self) -> World {
        let nlibs = self.r.range(1, self.o.libs) as usize;
        let mut lib_names = BTreeSet::new();
        for l in 0..nlibs {
            let name = unique(self.r, true, &mut lib_names);
            if name == "_" {
                self.w.libs.push(format!("Lib{l}"));
            } else {
                self.w.libs.push(name);
            }
            let mut names = BTreeSet::new();
            let n = self.r.range(1, self.o.types);
            for _ in 0..n {
                if self.o.aliases && l > 0 && self.r.chance(1, 8) {
                    let named = self.w.all_named();
                    let t = *self.r.pick(&named);
                    let node = self.w.nodes[t].clone();
                    let free = !self
                        .w
                        .nodes
                        .iter()
                        .any(|x| x.lib == l && x.name == node.name);
                    // references to the types which have this library as their only home stay valid
                    if node.lib != l && free && names.insert(node.name.clone().unwrap()) {
                        let ty = node.ty.map_refs(|c| self.clone_node(c, l));
                        self.push(node.name, l, ty);
                        continue;
                    }
                }
                let ty = self.definition(l, 3);
                let name = unique(self.r, true, &mut names);
                self.push(Some(name), l, ty);
            }
        }
        self.w
    }
}

pub fn world(r: &mut Rng, o: Opts) -> World {
    WorldGen::new(r, o).world()
}

// ---------------------------------------------------------------------------------------------

pub fn big(b: [u8; 128]) -> u1024 {
    u1024::from_le_bytes(b)
}
pub fn bigi(b: [u8; 128]) -> i1024 {
    i1024::from_le_bytes(b)
}

/// Number with the given sign-extended bytes in one of its representations
pub fn number(r: &mut Rng, code: u8, le: &[u8], any: bool) -> StrictNum {
    let cls = num_cls(code);
    let signed = matches!(cls, NumCls::SmallS | NumCls::LargeS);
    let neg = signed && le.last().is_some_and(|b| *b >= 0x80);
    let mut b = [if neg { 0xFF } else { 0 }; 128];
    b[..le.len()].copy_from_slice(le);
    let lo = u64::from_le_bytes(b[..8].try_into().unwrap());
    let mut reps = vec![];
    if !neg && b[8..].iter().all(|x| *x == 0) {
        reps.push(StrictNum::Uint(lo));
        if lo < 1 << 63 {
            reps.push(StrictNum::Int(lo as i64));
        }
    }
    if neg && b[8..].iter().all(|x| *x == 0xFF) && lo >= 1 << 63 {
        reps.push(StrictNum::Int(lo as i64));
    }
    let canon = match cls {
        NumCls::SmallU => StrictNum::Uint(lo),
        NumCls::SmallS => StrictNum::Int(lo as i64),
        NumCls::LargeU => StrictNum::BigUint(big(b)),
        _ => StrictNum::BigInt(bigi(b)),
    };
    if any && !reps.is_empty() && r.coin() {
        *r.pick(&reps)
    } else {
        canon
    }
}

pub fn char_any(r: &mut Rng) -> char {
    match r.below(8) {
        0 => *r.pick(&['é', 'ß', '\u{7FF}', '\u{80}', '\u{7F}']),
        1 => *r.pick(&['€', '\u{FFFF}', '\u{800}', '中']),
        2 => *r.pick(&['😀', '\u{10FFFF}', '\u{10000}']),
        3 => *r.pick(&['\0', '\n', '\t', ' ', '\u{1F}']),
        _ => r.range(32, 126) as u8 as char,
    }
}

pub struct ValGen<'a> {
    pub w: &'a World,
    /// Use any of representations accepted for a value, and not just the explicit one
    pub any: bool,
    pub budget: i64,
    /// Allow sizes up to the wide length prefixes
    pub large: bool,
    /// Allow collections of numbers with as many items
    pub long: bool,
}

impl<'a> ValGen<'a> {
    pub fn new(w: &'a World, any: bool) -> Self {
        ValGen {
            w,
            any,
            budget: 400,
            large: true,
            long: false,
        }
    }

    /// Distinct numbers filling a long collection, rarely
    fn many(&mut self, r: &mut Rng, it: TId, min: u64, max: u64) -> Option<Vec<StrictVal>> {
        if !self.long || max <= 0xFF || !r.chance(1, 25) {
            return None;
        }
        let MTy::Prim(c) = *self.w.ty(it) else {
            return None;
        };
        let size = num_size(c);
        if self.w.is_byte(it)
            || !(2..=8).contains(&size)
            || matches!(num_cls(c), NumCls::Other | NumCls::Unit)
        {
            return None;
        }
        let n = if size > 2 && r.chance(1, 3) {
            *r.pick(&[65535u64, 65536, 65537, 70000])
        } else {
            *r.pick(&[255u64, 256, 257, 300, 513])
        };
        let n = n.clamp(min, max);
        if n > 70_000 || size == 2 && n > 0xFFFF {
            return None;
        }
        let (start, step) = (r.u64(), r.u64() | 1);
        self.budget -= 200;
        let any = self.any;
        Some(
            (0..n)
                .map(|i| {
                    let b = start.wrapping_add(i.wrapping_mul(step)).to_le_bytes();
                    StrictVal::Number(number(r, c, &b[..size], any))
                })
                .collect(),
        )
    }

    fn len(&mut self, r: &mut Rng, min: u64, max: u64, cheap: bool) -> usize {
        let cap = if self.budget <= 0 { 0 } else { 5 };
        let mut n = match r.below(8) {
            0 | 1 => min,
            2 if max <= min + cap => max,
            3 if cheap && self.large && r.chance(1, 4) => {
                *r.pick(&[254u64, 255, 256, 257, 300, 65535, 65536, 70000])
            }
            _ => min + r.below(cap + 1),
        };
        n = n.clamp(min, max);
        if !cheap && n > min + 8 {
            n = min + 8;
        }
        n as usize
    }

    pub fn val(&mut self, r: &mut Rng, t: TId) -> Option<StrictVal> {
        use StrictVal as V;
        self.budget -= 1;
        let any = self.any;
        let ty = self.w.ty(t).clone();
        Some(match &ty {
            MTy::Prim(0) => {
                if any && r.chance(1, 3) {
                    match r.below(4) {
                        0 => V::Tuple(vec![]),
                        1 => V::List(vec![]),
                        2 => V::Map(vec![]),
                        _ => V::Struct(IndexMap::new()),
                    }
                } else {
                    V::Unit
                }
            }
            MTy::Prim(c) => {
                let size = num_size(*c);
                if size == 0 || size > 128 || matches!(num_cls(*c), NumCls::Other | NumCls::Unit) {
                    return None;
                }
                let mut b = vec![0u8; size];
                match r.below(6) {
                    0 => {}
                    1 => b.fill(0xFF),
                    2 => {
                        b.fill(0xFF);
                        b[size - 1] = 0x7F;
                    }
                    3 => b[size - 1] = 0x80,
                    4 => b[0] = r.u64() as u8,
                    _ => b = r.bytes(size),
                }
                V::Number(number(r, *c, &b, any))
            }
            MTy::Unicode => V::String(char_any(r).to_string()),
            MTy::Enum(vars) => {
                let (n, tag) = r.pick(vars).clone();
                match r.below(5) {
                    0 if any => V::Enum(EnumTag::Ord(tag)),
                    1 if any => V::String(n),
                    2 if any => V::Number(StrictNum::Uint(tag as u64)),
                    3 if any && tag < 0x80 => V::String((tag as char).to_string()),
                    _ => V::Enum(EnumTag::Name(vname(&n))),
                }
            }
            MTy::Union(vars) => {
                let mut cand: Vec<usize> = (0..vars.len()).collect();
                r.shuffle(&mut cand);
                if self.budget < 0 {
                    cand.sort_by_key(|i| self.w.ty(vars[*i].2).refs().len());
                }
                let is_opt = self.w.option_of(&ty).is_some();
                let self_ty = ty.clone();
                for i in cand {
                    let (n, tag, ty) = vars[i].clone();
                    let Some(v) = self.val(r, ty) else { continue };
                    if is_opt && any && r.chance(1, 3) {
                        let sugar = match (tag, &v) {
                            (0, V::Unit) => {
                                if r.coin() {
                                    V::Unit
                                } else {
                                    V::Tuple(vec![V::str("none"), V::Unit])
                                }
                            }
                            (1, v) => {
                                if r.coin() {
                                    V::Tuple(vec![V::str("some"), v.clone()])
                                } else {
                                    v.clone()
                                }
                            }
                            _ => V::Union(EnumTag::Ord(tag), Box::new(v.clone())),
                        };
                        // the short form may be ambiguous
                        let plain = V::Union(EnumTag::Ord(tag), Box::new(v.clone()));
                        if self.w.interp_ty(&sugar, &self_ty) == self.w.interp_ty(&plain, &self_ty)
                        {
                            return Some(sugar);
                        }
                    }
                    let tag = if any && r.chance(1, 3) {
                        EnumTag::Ord(tag)
                    } else {
                        EnumTag::Name(vname(&n))
                    };
                    return Some(V::Union(tag, Box::new(v)));
                }
                return None;
            }
            MTy::Tuple(f) => {
                if let Some((first, rest, min, max)) = self.w.is_rstring(&ty) {
                    let (a, b) = (
                        self.w.alphabet(first).unwrap(),
                        self.w.alphabet(rest).unwrap(),
                    );
                    let n = self.len(r, min, max, true);
                    let mut s = String::from(*r.pick(&a) as char);
                    for _ in 1..n {
                        s.push(*r.pick(&b) as char);
                    }
                    return Some(V::String(s));
                }
                let mut v = vec![];
                for t in f {
                    v.push(self.val(r, *t)?);
                }
                if any && r.chance(1, 4) {
                    if v.len() == 1 && !matches!(v[0], V::Tuple(_) | V::List(_)) {
                        v.pop().unwrap()
                    } else {
                        V::List(v)
                    }
                } else {
                    V::Tuple(v)
                }
            }
            MTy::Struct(f) => {
                let mut v = vec![];
                for (n, t) in f {
                    v.push((n.clone(), self.val(r, *t)?));
                }
                if any && r.chance(1, 3) {
                    r.shuffle(&mut v);
                }
                if any && r.chance(1, 4) {
                    V::Map(v.into_iter().map(|(n, x)| (V::String(n), x)).collect())
                } else {
                    V::Struct(v.into_iter().map(|(n, x)| (fname(&n), x)).collect())
                }
            }
            MTy::Array(it, len) => self.items(r, *it, *len as usize, true)?,
            MTy::List(it, min, max) => {
                let text =
                    self.w.is_byte(*it) || self.w.is_char(*it) || self.w.alphabet(*it).is_some();
                if let Some(v) = self.many(r, *it, *min, *max) {
                    return Some(V::List(v));
                }
                let n = self.len(r, *min, *max, text);
                self.items(r, *it, n, false)?
            }
            MTy::Set(it, min, max) => {
                if let Some(v) = self.many(r, *it, *min, *max) {
                    return Some(V::Set(v));
                }
                let n = self.len(r, *min, *max, false);
                let (mut v, mut seen) = (vec![], HashSet::new());
                for _ in 0..n * 4 {
                    if v.len() == n {
                        break;
                    }
                    let x = self.val(r, *it)?;
                    if seen.insert(self.w.interp(&x, *it)?) {
                        v.push(x);
                    }
                }
                if (v.len() as u64) < *min {
                    return None;
                }
                V::Set(v)
            }
            MTy::Map(k, it, min, max) => {
                if let Some(keys) = self.many(r, *k, *min, *max) {
                    let x = self.val(r, *it)?;
                    if self.w.interp(&x, *it)?.len() * keys.len() < 700_000 {
                        return Some(V::Map(keys.into_iter().map(|k| (k, x.clone())).collect()));
                    }
                }
                let n = self.len(r, *min, *max, false);
                let (mut v, mut seen) = (vec![], HashSet::new());
                for _ in 0..n * 4 {
                    if v.len() == n {
                        break;
                    }
                    let x = self.val(r, *k)?;
                    if seen.insert(self.w.interp(&x, *k)?) {
                        let y = self.val(r, *it)?;
                        v.push((x, y));
                    }
                }
                if (v.len() as u64) < *min {
                    return None;
                }
                V::Map(v)
            }
        })
    }

    fn items(&mut self, r: &mut Rng, it: TId, n: usize, array: bool) -> Option<StrictVal> {
        use StrictVal as V;
        if self.w.is_byte(it) {
            if self.any && n < 20 && r.chance(1, 5) {
                return Some(V::List((0..n).map(|_| V::num(r.u64() as u8)).collect()));
            }
            if self.any && r.chance(1, 5) {
                return Some(V::String(
                    (0..n).map(|_| r.range(0, 127) as u8 as char).collect(),
                ));
            }
            return Some(V::Bytes(Blob(r.bytes(n))));
        }
        if self.w.is_char(it) {
            let mut chars: Vec<char> = vec![];
            if array {
                chars.extend((0..n).map(|_| char_any(r)));
            } else {
                // sized in bytes
                let mut left = n;
                while left > 0 {
                    let c = char_any(r);
                    if c.len_utf8() <= left {
                        left -= c.len_utf8();
                        chars.push(c);
                    }
                }
            }
            if self.any && n < 20 && r.chance(1, 4) {
                return Some(V::List(
                    chars
                        .into_iter()
                        .map(|c| V::String(c.to_string()))
                        .collect(),
                ));
            }
            return Some(V::String(chars.into_iter().collect()));
        }
        if let Some(a) = self.w.alphabet(it) {
            let ascii = a.iter().all(|c| *c < 0x80);
            if ascii && (n > 20 || !self.any || r.chance(3, 4)) {
                return Some(V::String((0..n).map(|_| *r.pick(&a) as char).collect()));
            }
            let n = n.min(40).max(if array { n } else { 0 });
            let mut v = vec![];
            for _ in 0..n {
                v.push(self.val(r, it)?);
            }
            return Some(V::List(v));
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.val(r, it)?);
        }
        Some(V::List(v))
    }
}

/// Any value not related to a type
pub fn any_val(r: &mut Rng, depth: u32) -> StrictVal {
    use StrictVal as V;
    let k = if depth == 0 { r.below(7) } else { r.below(12) };
    match k {
        0 => V::Unit,
        1 => V::Number(StrictNum::Uint(r.biased())),
        2 => V::Number(match r.below(4) {
            0 => StrictNum::Int(r.biased() as i64),
            1 => StrictNum::BigUint(big(r.bytes(128).try_into().unwrap())),
            2 => StrictNum::BigInt(bigi(r.bytes(128).try_into().unwrap())),
            _ => StrictNum::Uint(r.biased()),
        }),
        3 => {
            let n = r.below(5);
            V::String((0..n).map(|_| char_any(r)).collect())
        }
        4 => {
            let n = r.us(5);
            V::Bytes(Blob(r.bytes(n)))
        }
        5 => V::Enum(any_tag(r)),
        6 => V::String(ident(r, false)),
        7 => V::Union(any_tag(r), Box::new(any_val(r, depth - 1))),
        8 => V::Struct(
            (0..r.below(4))
                .map(|_| (fname(&ident(r, false)), any_val(r, depth - 1)))
                .collect(),
        ),
        9 => V::Map(
            (0..r.below(4))
                .map(|_| (any_val(r, depth - 1), any_val(r, depth - 1)))
                .collect(),
        ),
        _ => {
            let v = (0..r.below(4)).map(|_| any_val(r, depth - 1)).collect();
            match r.below(3) {
                0 => V::List(v),
                1 => V::Set(v),
                _ => V::Tuple(v),
            }
        }
    }
}

pub fn any_tag(r: &mut Rng) -> EnumTag {
    if r.coin() {
        EnumTag::Ord(r.u64() as u8)
    } else {
        EnumTag::Name(vname(&ident(r, false)))
    }
}

pub fn count_vals(v: &StrictVal) -> usize {
    use StrictVal as V;
    1 + match v {
        V::List(x) | V::Set(x) | V::Tuple(x) => x.iter().map(count_vals).sum(),
        V::Struct(x) => x.values().map(count_vals).sum(),
        V::Map(x) => x.iter().map(|(a, b)| count_vals(a) + count_vals(b)).sum(),
        V::Union(_, x) => count_vals(x),
        _ => 0,
    }
}

/// Changes a single place of the value
pub fn mutate(r: &mut Rng, v: &mut StrictVal) {
    let n = r.us(count_vals(v));
    let mut k = n;
    at(v, &mut k, &mut |v| tweak(r, v));
}

fn at(v: &mut StrictVal, k: &mut usize, f: &mut dyn FnMut(&mut StrictVal)) -> bool {
    use StrictVal as V;
    if *k == 0 {
        f(v);
        return true;
    }
    *k -= 1;
    match v {
        V::List(x) | V::Set(x) | V::Tuple(x) => x.iter_mut().any(|y| at(y, k, f)),
        V::Struct(x) => x.values_mut().any(|y| at(y, k, f)),
        V::Map(x) => x.iter_mut().any(|(a, b)| at(a, k, f) || at(b, k, f)),
        V::Union(_, x) => at(x, k, f),
        _ => false,
    }
}

fn tweak(r: &mut Rng, v: &mut StrictVal) {
    use StrictVal as V;
    if r.chance(1, 12) {
        *v = any_val(r, 1);
        return;
    }
    match v {
        V::Unit => *v = any_val(r, 1),
        V::Number(n) => {
            let (neg, b) = num_parts(n);
            let lo = u64::from_le_bytes(b[..8].try_into().unwrap());
            *n = match r.below(8) {
                0 => StrictNum::Uint(lo.wrapping_add(1)),
                1 => StrictNum::Int((lo as i64).wrapping_neg()),
                2 => StrictNum::Uint(1u64 << r.below(64)),
                3 => StrictNum::Int(((1u64 << r.below(64)) as i64).wrapping_neg()),
                4 => StrictNum::Int((-(1i64 << r.below(62))).wrapping_sub(1)),
                5 => {
                    let mut x = b;
                    x[r.us(128)] ^= 1 << r.below(8);
                    if neg {
                        StrictNum::BigInt(bigi(x))
                    } else {
                        StrictNum::BigUint(big(x))
                    }
                }
                6 => {
                    // boundary of a width
                    let k = r.range(1, 127) as usize;
                    let mut x = [0u8; 128];
                    x[k] = *r.pick(&[1, 0x80]);
                    if r.coin() {
                        x[..k].fill(0xFF);
                    }
                    if r.coin() {
                        StrictNum::BigInt(bigi(x))
                    } else {
                        StrictNum::BigUint(big(x))
                    }
                }
                _ => {
                    let mut x = [0xFFu8; 128];
                    let k = r.range(1, 127) as usize;
                    x[k] = *r.pick(&[0xFE, 0x7F]);
                    StrictNum::BigInt(bigi(x))
                }
            };
        }
        V::String(s) => match r.below(6) {
            0 => s.push(char_any(r)),
            1 => {
                s.pop();
            }
            2 => s.clear(),
            3 => {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    let i = r.us(c.len());
                    c[i] = if r.coin() {
                        char_any(r)
                    } else {
                        r.range(32, 126) as u8 as char
                    };
                }
                *s = c.into_iter().collect();
            }
            4 => {
                let c = s.chars().next().unwrap_or('a');
                s.push(c);
            }
            _ => *v = V::Bytes(Blob(s.as_bytes().to_vec())),
        },
        V::Bytes(b) => match r.below(3) {
            0 => b.0.push(r.u64() as u8),
            1 => {
                b.0.pop();
            }
            _ => *v = V::List(b.0.iter().take(50).map(|x| V::num(*x)).collect()),
        },
        V::Enum(t) => *t = any_tag(r),
        V::Union(t, x) => {
            if r.chance(2, 3) {
                *t = if r.coin() {
                    EnumTag::Ord(r.below(4) as u8)
                } else {
                    any_tag(r)
                }
            } else {
                *v = (**x).clone()
            }
        }
        V::Struct(x) => match r.below(4) {
            0 => {
                x.pop();
            }
            1 => {
                x.insert(fname(&ident(r, false)), V::Unit);
            }
            2 => {
                let val = x.pop().map(|p| p.1).unwrap_or(V::Unit);
                x.insert(fname(&ident(r, false)), val);
            }
            _ => {
                let mut m: Vec<_> = x
                    .iter()
                    .map(|(n, v)| (V::String(n.to_string()), v.clone()))
                    .collect();
                if let (Some(p), true) = (m.first().cloned(), r.coin()) {
                    if m.len() > 1 && r.coin() {
                        m.pop();
                    }
                    m.push(p);
                }
                *v = V::Map(m);
            }
        },
        V::Map(x) => match r.below(3) {
            0 => {
                x.pop();
            }
            1 => {
                if !x.is_empty() {
                    let mut p = r.pick(x).clone();
                    if r.coin() {
                        p.0 = alt_form(p.0);
                    }
                    x.push(p);
                } else {
                    x.push((any_val(r, 0), any_val(r, 0)));
                }
            }
            _ => {
                if x.len() > 1 && r.coin() {
                    let k = x[0].0.clone();
                    let i = x.len() - 1;
                    x[i].0 = alt_form(k);
                } else {
                    x.push((any_val(r, 0), any_val(r, 0)))
                }
            }
        },
        V::List(x) | V::Set(x) | V::Tuple(x) => match r.below(7) {
            0 => {
                x.pop();
            }
            1 | 2 => {
                let p = if x.is_empty() {
                    any_val(r, 0)
                } else {
                    r.pick(x).clone()
                };
                let p = if r.coin() { alt_form(p) } else { p };
                x.push(p);
            }
            3 if x.len() > 1 => {
                let i = x.len() - 1;
                x[i] = alt_form(x[0].clone());
            }
            4 => *v = V::List(std::mem::take(x)),
            5 => *v = V::Set(std::mem::take(x)),
            _ => *v = V::Tuple(std::mem::take(x)),
        },
    }
}

/// Another form of the same value, if there is one
fn alt_form(v: StrictVal) -> StrictVal {
    use StrictVal as V;
    match v {
        V::Number(StrictNum::Uint(n)) if n < 1 << 63 => V::Number(StrictNum::Int(n as i64)),
        V::Number(StrictNum::Int(n)) if n >= 0 => V::Number(StrictNum::Uint(n as u64)),
        V::Tuple(mut t) if t.len() == 1 && !matches!(t[0], V::Tuple(_) | V::List(_)) => {
            t.pop().unwrap()
        }
        V::Tuple(t) => V::List(t),
        V::Enum(EnumTag::Name(n)) => V::String(n.to_string()),
        V::Union(t, x) => V::Union(t, Box::new(alt_form(*x))),
        V::Struct(f) => V::Map(
            f.into_iter()
                .map(|(n, v)| (V::String(n.to_string()), v))
                .collect(),
        ),
        V::Bytes(b) if b.len() < 64 => V::List(b.0.iter().map(|x| V::num(*x)).collect()),
        x => x,
    }
}

/// Changes bytes at a single place
pub fn mutate_bytes(r: &mut Rng, d: &mut Vec<u8>) {
    match r.below(9) {
        0 => {
            let n = r.us(d.len() + 1);
            d.truncate(n);
        }
        1 => {
            let n = r.range(1, 9) as usize;
            d.extend(r.bytes(n));
        }
        2 if !d.is_empty() => {
            let i = r.us(d.len());
            d[i] ^= 1 << r.below(8);
        }
        3 if !d.is_empty() => {
            let i = r.us(d.len());
            d[i] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xC3, 0xE2, 0xF0]);
        }
        4 if !d.is_empty() => {
            let i = r.us(d.len());
            d.remove(i);
        }
        5 => {
            let i = r.us(d.len() + 1);
            d.insert(i, r.u64() as u8);
        }
        6 if !d.is_empty() => {
            // inflated length
            let i = r.us(d.len());
            let e = (i + r.range(1, 8) as usize).min(d.len());
            d[i..e].fill(0xFF);
        }
        7 if d.len() > 1 => {
            // repeated fragment
            let i = r.us(d.len());
            let e = (i + r.range(1, 8) as usize).min(d.len());
            let f = d[i..e].to_vec();
            d.splice(e..e, f);
        }
        _ if !d.is_empty() => {
            let i = r.us(d.len());
            d[i] = d[i].wrapping_add(*r.pick(&[1, 255]));
        }
        _ => d.push(r.u64() as u8),
    }
}
