//! C19 (source text of libraries and type systems)
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::{Primitive, Sizing, Variant};
use strict_types::ast::{Field, UnionVariants, UnnamedFields};
use strict_types::stl::{std_stl, std_sym, strict_types_stl, strict_types_sym};
use strict_types::{SemId, SymbolicLib, SymbolicSys, TranspileRef, Ty, TypeLib, TypeLibId, TypeRef};

use super::base::*;
use super::libs::Parts;
use super::sys::map_ty;
use super::texts::{checksum, digits, read_id};
use crate::cx::{clip, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

pub const C19: Prop = Prop {
    id: "C19",
    cases: (14_000, 200_000),
    run: c19,
    rule: "texts of random libraries, their symbolic forms (also with definitions nested to any depth), assembled type \
           systems and their symbols are read by an independent parser and compared with the definitions; non-trivial: \
           each distinct text",
    need: &[
        ("library texts", 6_000), ("symbolic texts", 6_000), ("nested symbolic texts", 3_000), ("type system texts", 4_000),
        ("symbolic system texts", 4_000), ("symbols texts", 4_000), ("definitions", 200_000), ("imports", 3_000),
        ("deeply nested", 2_000), ("bundled", 1),
    ],
    level: "exploration",
    assume: &["names and mnemonics are read as they are printed"],
};

/// Type as the text gives it
#[derive(Clone, PartialEq, Eq, Debug)]
enum P {
    Word(String),
    Opt(Box<P>),
    Enum(Vec<(String, u8)>),
    Union(Vec<(String, u8, P)>),
    Fields(Vec<(Option<String>, P)>),
    Array(Box<P>, u64),
    List(Box<P>, u64, u64),
    Set(Box<P>, u64, u64),
    Map(Box<P>, Box<P>, u64, u64),
}

/// Tuples with a single field are written as the field, and structures with one as a named field
fn fields(items: Vec<(Option<String>, P)>) -> P {
    let mut items: Vec<_> = items
        .into_iter()
        .map(|(n, p)| match (n, p) {
            (None, P::Fields(mut f)) if f.len() == 1 => f.remove(0),
            x => x,
        })
        .collect();
    match &items[..] {
        [(None, _)] => items.remove(0).1,
        _ => P::Fields(items),
    }
}
fn opt(p: P) -> P {
    match p {
        P::Fields(mut f) if f.len() == 1 => {
            let (n, t) = f.remove(0);
            P::Fields(vec![(n, opt(t))])
        }
        p => P::Opt(Box::new(p)),
    }
}

/// What the text of the definition has to give
fn expected<Rf: TypeRef>(ty: &Ty<Rf>, r: &dyn Fn(&Rf) -> P) -> P {
    let b = |x: &Rf| Box::new(r(x));
    match ty {
        Ty::Primitive(p) if *p == Primitive::UNIT => P::Word("()".into()),
        Ty::Primitive(p) => P::Word(prim_word(p.into_code())),
        Ty::UnicodeChar => P::Word("Unicode".into()),
        Ty::Enum(v) => {
            let mut v: Vec<_> = v.iter().map(|x| (x.name.to_string(), x.tag)).collect();
            v.sort_by_key(|x| x.1);
            P::Enum(v)
        }
        Ty::Union(v) => {
            let mut v: Vec<_> = v.iter().map(|(x, t)| (x.name.to_string(), x.tag, r(t))).collect();
            v.sort_by_key(|x| x.1);
            match &v[..] {
                [(n, 0, _), (s, 1, t)] if n == "none" && s == "some" => opt(t.clone()),
                _ => P::Union(v),
            }
        }
        Ty::Tuple(f) => fields(f.iter().map(|t| (None, r(t))).collect()),
        Ty::Struct(f) => fields(f.iter().map(|f| (Some(f.name.to_string()), r(&f.ty))).collect()),
        Ty::Array(t, l) => P::Array(b(t), *l as u64),
        Ty::List(t, s) => P::List(b(t), s.min, s.max),
        Ty::Set(t, s) => P::Set(b(t), s.min, s.max),
        Ty::Map(k, t, s) => P::Map(b(k), b(t), s.min, s.max),
    }
}

/// Word of a primitive type, by its code: class in two upper bits, size in the rest
fn prim_word(code: u8) -> String {
    match code {
        0x40 => return "Byte".into(),
        0xC0 => return "F16b".into(),
        _ => {}
    }
    let size = code & 0x3F;
    let bytes = if size < 0x20 { size as u32 } else { 16 * (size as u32 - 0x20 + 2) };
    format!("{}{}", ["U", "I", "N", "F"][(code >> 6) as usize], bytes * 8)
}

// ---------------------------------------------------------------------------------------------
// Reading

struct Reader {
    toks: Vec<String>,
    at: usize,
}

fn lex(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut word = String::new();
    for c in s.chars() {
        if c.is_whitespace() || ",|()[]{}^?".contains(c) {
            if !word.is_empty() {
                out.push(std::mem::take(&mut word));
            }
            if !c.is_whitespace() {
                out.push(c.to_string());
            }
        } else {
            word.push(c);
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}

fn is_word(t: &str) -> bool {
    t != "->" && !",|()[]{}^?".contains(t)
}

type Rd<T> = Result<T, String>;

impl Reader {
    fn read(s: &str, canon: &dyn Fn(&str) -> String) -> Rd<P> {
        let mut r = Reader { toks: lex(s), at: 0 };
        let p = r.body(canon)?;
        if r.at != r.toks.len() {
            return Err(format!("unexpected `{}`", r.toks[r.at]));
        }
        Ok(p)
    }
    fn peek(&self, n: usize) -> &str {
        self.toks.get(self.at + n).map(String::as_str).unwrap_or("")
    }
    fn next(&mut self) -> String {
        self.at += 1;
        self.toks.get(self.at - 1).cloned().unwrap_or_default()
    }
    fn expect(&mut self, t: &str) -> Rd<()> {
        match self.next() {
            x if x == t => Ok(()),
            x => Err(format!("`{x}` instead of `{t}`")),
        }
    }

    fn body(&mut self, canon: &dyn Fn(&str) -> String) -> Rd<P> {
        let first = self.element(canon)?;
        match self.peek(0) {
            "|" => self.variants(first, canon),
            "," => {
                let mut items = vec![first];
                while self.peek(0) == "," {
                    self.next();
                    items.push(self.element(canon)?);
                }
                Ok(fields(items.into_iter().map(|(n, p, _)| (n, p)).collect()))
            }
            _ => Ok(fields(vec![(first.0, first.1)])),
        }
    }

    fn variants(&mut self, first: (Option<String>, P, String), canon: &dyn Fn(&str) -> String) -> Rd<P> {
        let mut items = vec![first];
        while self.peek(0) == "|" {
            self.next();
            if self.peek(0) == "(" && self.peek(1) == "|" && self.peek(2) == ")" {
                self.at += 3;
                if items.len() != 1 {
                    return Err("mark of a single variant after several ones".into());
                }
                break;
            }
            items.push(self.element(canon)?);
            if items.len() > 1000 {
                return Err("too many variants".into());
            }
        }
        let mut next = 0u16;
        let mut tagged = vec![];
        let union = items[0].0.is_some();
        for (name, ty, raw) in items {
            if name.is_some() != union {
                return Err("variants with types and without".into());
            }
            let text = name.unwrap_or(raw);
            let (n, tag) = match text.split_once('#') {
                Some((n, t)) => (n.to_string(), t.parse::<u8>().map_err(|e| format!("tag `{t}`: {e}"))? as u16),
                None => (text, next),
            };
            if tag > 255 {
                return Err("tag exceeds 255".into());
            }
            next = tag + 1;
            tagged.push((n, tag as u8, ty));
        }
        tagged.sort_by_key(|x| x.1);
        Ok(if union { P::Union(tagged) } else { P::Enum(tagged.into_iter().map(|x| (x.0, x.1)).collect()) })
    }

    /// Name, if it is there, type, and the type as it is written
    fn element(&mut self, canon: &dyn Fn(&str) -> String) -> Rd<(Option<String>, P, String)> {
        let t = self.peek(1).to_string();
        if is_word(self.peek(0)) && !self.peek(0).is_empty() && (t == "(" || t == "[" || t == "{" || (!t.is_empty() && is_word(&t))) {
            let name = self.next();
            let (n, p, _) = self.element(canon)?;
            let p = match n {
                Some(_) => P::Fields(vec![(n, p)]),
                None => p,
            };
            return Ok((Some(name), p, String::new()));
        }
        let raw = self.peek(0).to_string();
        let mut p = match self.next().as_str() {
            "(" if self.peek(0) == ")" => {
                self.next();
                P::Word("()".into())
            }
            "(" => {
                let p = self.body(canon)?;
                self.expect(")")?;
                p
            }
            "[" => {
                let t = Box::new(self.body(canon)?);
                let p = match self.sizing()? {
                    (Some(len), ..) => P::Array(t, len),
                    (None, a, b) => P::List(t, a, b),
                };
                self.expect("]")?;
                p
            }
            "{" => {
                let k = Box::new(self.body(canon)?);
                if self.peek(0) == "->" {
                    self.next();
                    let (_, a, b) = self.sizing()?;
                    let v = Box::new(self.body(canon)?);
                    self.expect("}")?;
                    P::Map(k, v, a, b)
                } else {
                    let (_, a, b) = self.sizing()?;
                    self.expect("}")?;
                    P::Set(k, a, b)
                }
            }
            w if is_word(w) && !w.is_empty() => P::Word(canon(w)),
            x => return Err(format!("unexpected `{x}`")),
        };
        while self.peek(0) == "?" {
            self.next();
            p = opt(p);
        }
        Ok((None, p, raw))
    }

    /// Exact size, or the range
    fn sizing(&mut self) -> Rd<(Option<u64>, u64, u64)> {
        if self.peek(0) != "^" {
            return Ok((None, 0, 0xFFFF));
        }
        self.next();
        let t = self.next();
        let num = |s: &str| -> Rd<u64> {
            match s.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16),
                None => s.parse(),
            }
            .map_err(|e| format!("number `{s}`: {e}"))
        };
        Ok(match t.split_once("..") {
            None => (Some(num(&t)?), num(&t)?, num(&t)?),
            Some((a, b)) => (
                None,
                if a.is_empty() { 0 } else { num(a)? },
                if b.is_empty() { 0xFFFF } else { num(b)? },
            ),
        })
    }
}

const STARTS: &[&str] = &["data ", "import ", "  use ", "typelib ", "typesys ", "--", "@"];

/// Blocks of the text: a line which starts a block and the ones which continue it
fn blocks(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for line in text.lines() {
        if line.trim().is_empty() {
            continue;
        }
        match out.last_mut() {
            Some(b) if !STARTS.iter().any(|s| line.starts_with(s)) => {
                b.push('\n');
                b.push_str(line);
            }
            _ => out.push(line.trim_end().to_string()),
        }
    }
    out
}

struct Doc {
    /// Other blocks, in their order
    rest: Vec<String>,
    defs: BTreeMap<String, P>,
}

fn read_doc(text: &str, head: &dyn Fn(&str) -> String, canon: &dyn Fn(&str) -> String) -> Rd<Doc> {
    let mut doc = Doc {
        rest: vec![],
        defs: empty_map(),
    };
    for b in blocks(text) {
        let Some(d) = b.strip_prefix("data ") else {
            doc.rest.push(b);
            continue;
        };
        let (name, def) = d.split_once(": ").ok_or_else(|| format!("definition without a colon: {b}"))?;
        let p = Reader::read(def, canon).map_err(|e| format!("{e} in {b}"))?;
        if doc.defs.insert(head(name.trim()), p).is_some() {
            return Err(format!("repeated definition: {b}"));
        }
    }
    Ok(doc)
}
fn empty_map<K, V>() -> BTreeMap<K, V> {
    BTreeMap::new()
}

// ---------------------------------------------------------------------------------------------

fn hexid(id: &[u8; 32]) -> String {
    id.iter().map(|b| format!("{b:02x}")).collect()
}
fn canon_id(w: &str) -> String {
    if let Some(id) = read_id::<SemId>(w) {
        return hexid(&id);
    }
    if let Some((l, t)) = w.split_once('.') {
        if let (Some(l), Some(t)) = (read_id::<TypeLibId>(l), read_id::<SemId>(t)) {
            return format!("{}.{}", hexid(&l), hexid(&t));
        }
    }
    w.to_string()
}
fn plain(w: &str) -> String {
    w.to_string()
}

fn depth(p: &P) -> usize {
    1 + match p {
        P::Word(_) | P::Enum(_) => 0,
        P::Opt(t) | P::Array(t, _) | P::List(t, ..) | P::Set(t, ..) => depth(t),
        P::Map(k, v, ..) => depth(k).max(depth(v)),
        P::Union(v) => v.iter().map(|x| depth(&x.2)).max().unwrap_or(0),
        P::Fields(v) => v.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
    }
}

fn compare(cx: &mut Cx, what: &str, doc: &Doc, want: &BTreeMap<String, P>, text: &str) -> R {
    for (n, p) in want {
        let Some(got) = doc.defs.get(n) else {
            fail!("{what} has no definition of {n}: {}", clip(text, 1500))
        };
        ck!(
            got == p,
            "definition of {n} in {what} reads as {}, expected {}; text {}",
            clip(&format!("{got:?}"), 700),
            clip(&format!("{p:?}"), 700),
            clip(text, 1500)
        );
        cx.count("definitions");
        if depth(p) > 4 {
            cx.count("deeply nested");
        }
    }
    if let Some(n) = doc.defs.keys().find(|n| !want.contains_key(*n)) {
        fail!("{what} has a definition of {n} which is not there: {}", clip(text, 1500))
    }
    Ok(())
}

fn sym_expected(ty: &Ty<TranspileRef>) -> P {
    expected(ty, &|r| match r {
        TranspileRef::Embedded(t) => sym_expected(t),
        TranspileRef::Named(n) => P::Word(n.to_string()),
        TranspileRef::Extern(s) => P::Word(format!("{}.{}", s.lib_name, s.ty_name)),
    })
}

macro_rules! inline {
    ($name:ident, $ty:ident, $next:ident) => {
        fn $name(r: &strict_types::typelib::$ty) -> P {
            use strict_types::typelib::$ty as X;
            match r {
                X::Named(id) => P::Word(hexid(&id.to_byte_array())),
                X::Extern(e) => P::Word(format!("{}.{}", hexid(&e.lib_id.to_byte_array()), hexid(&e.sem_id.to_byte_array()))),
                X::Inline(t) => expected(t, &$next),
            }
        }
    };
}
inline!(lib_ref, LibRef, inline_ref);
inline!(inline_ref, InlineRef, inline_ref1);
inline!(inline_ref1, InlineRef1, inline_ref2);
fn inline_ref2(r: &strict_types::typelib::InlineRef2) -> P {
    use strict_types::typelib::InlineRef2 as X;
    match r {
        X::Named(id) => P::Word(hexid(&id.to_byte_array())),
        X::Extern(e) => P::Word(format!("{}.{}", hexid(&e.lib_id.to_byte_array()), hexid(&e.sem_id.to_byte_array()))),
    }
}

fn imports(deps: impl IntoIterator<Item = (Id, String)>) -> BTreeSet<String> {
    deps.into_iter().map(|(id, n)| format!("import {n}#{}", checksum("stl", id).1)).collect()
}

fn reading(what: &str, text: &str, head: &dyn Fn(&str) -> String, canon: &dyn Fn(&str) -> String) -> R<Doc> {
    match read_doc(text, head, canon) {
        Ok(d) => Ok(d),
        Err(e) => fail!("{what} can't be read: {e}; text {}", clip(text, 1500)),
    }
}

/// Source text of a compiled library
fn library(cx: &mut Cx, lib: &TypeLib, id: &Id) -> R {
    let text = match cx.rng.below(4) {
        0 => format!("{lib:#}"),
        1 => format!("{lib:40}"),
        _ => format!("{lib}"),
    };
    cx.eval(&text);
    cx.count("library texts");
    let doc = reading("library text", &text, &plain, &canon_id)?;
    let want: BTreeMap<String, P> =
        lib.types.iter().map(|(n, t)| (n.to_string(), expected(t, &lib_ref))).collect();
    compare(cx, "library text", &doc, &want, &text)?;
    let head = doc.rest.first().and_then(|h| h.strip_prefix(&format!("typelib {} -- ", lib.name)));
    ck!(
        head.is_some_and(|h| read_id::<TypeLibId>(h) == Some(*id)),
        "library {} with id {} has header {:?}",
        lib.name,
        digits(id),
        doc.rest.first()
    );
    let deps: BTreeSet<String> = doc.rest[1..].iter().filter(|l| !l.starts_with("--")).cloned().collect();
    let want = imports(lib.dependencies.iter().map(|d| (d.id.to_byte_array(), d.name.to_string())));
    cx.add("imports", want.len() as u64);
    ck!(deps == want, "library text has imports {deps:?}, expected {want:?}: {}", clip(&text, 1500));
    Ok(())
}

/// Source text of a symbolic library
fn symbolic(cx: &mut Cx, lib: &SymbolicLib, want: &BTreeMap<String, P>, counter: &str) -> R {
    let alt = cx.rng.chance(1, 4);
    let text = match cx.rng.below(4) {
        _ if alt => format!("{lib:#}"),
        0 => format!("{lib:40}"),
        _ => format!("{lib}"),
    };
    cx.eval(&text);
    cx.count(counter);
    // in the alternate form external references are followed by a mnemonic of their id
    let canon = |w: &str| w.split('#').next().unwrap().to_string();
    let doc = reading("symbolic text", &text, &plain, if alt { &canon } else { &plain })?;
    compare(cx, "symbolic text", &doc, want, &text)?;
    let heads: Vec<&String> = doc.rest.iter().filter(|l| l.starts_with("typelib ")).collect();
    ck!(
        heads == [&format!("typelib {}", lib.name())],
        "symbolic library {} has headers {heads:?}",
        lib.name()
    );
    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut last = None;
    for l in &doc.rest {
        if l.starts_with("import ") {
            if got.insert(l.clone(), vec![]).is_some() {
                fail!("repeated {l}: {}", clip(&text, 1500));
            }
            last = Some(l);
        } else if let Some(u) = l.strip_prefix("  use ") {
            match last {
                Some(i) => got.get_mut(i).unwrap().push(u.to_string()),
                None => fail!("`use` out of an import: {}", clip(&text, 1500)),
            }
        }
    }
    let mut expect: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for d in lib.dependencies() {
        let key = format!("import {}#{}", d.name, checksum("stl", d.id.to_byte_array()).1);
        let mut uses: Vec<String> = lib
            .extern_types()
            .get(&d.name)
            .into_iter()
            .flat_map(|m| m.iter())
            .map(|(id, n)| format!("{n}#{}", checksum("semid", id.to_byte_array()).1))
            .collect();
        uses.sort();
        expect.insert(key, uses);
    }
    got.values_mut().for_each(|v| v.sort());
    cx.add("imports", expect.len() as u64);
    ck!(got == expect, "symbolic text imports {got:?}, expected {expect:?}: {}", clip(&text, 1500));
    ck!(lib.clone().to_string() == lib.to_string(), "copy of a library is printed differently");
    Ok(())
}

/// Puts definitions of named types in place of the references to them
fn embed(r: &mut Rng, types: &BTreeMap<String, Ty<TranspileRef>>, ty: &Ty<TranspileRef>, budget: &mut u32) -> Ty<TranspileRef> {
    let mut at = |x: &TranspileRef| -> TranspileRef {
        match x {
            TranspileRef::Named(n) if *budget > 0 && r.chance(2, 3) => match types.get(n.as_str()) {
                Some(t) => {
                    *budget -= 1;
                    TranspileRef::Embedded(Box::new(embed(r, types, t, budget)))
                }
                None => x.clone(),
            },
            TranspileRef::Embedded(t) => TranspileRef::Embedded(Box::new(embed(r, types, t, budget))),
            x => {
                if r.chance(1, 8) && *budget > 0 {
                    *budget -= 1;
                    return wrap(r, x.clone());
                }
                x.clone()
            }
        }
    };
    map_ty(ty, &mut |_, x| at(x))
}

fn opt_ty(x: TranspileRef) -> Ty<TranspileRef> {
    let v: BTreeMap<Variant, TranspileRef> =
        [(Variant::none(), TranspileRef::unit()), (Variant::some(), x)].into_iter().collect();
    Ty::Union(UnionVariants::try_from(v).expect("harness: option"))
}
fn tuple_of<const N: usize>(x: [TranspileRef; N]) -> UnnamedFields<TranspileRef> {
    Confined::from_checked(x.to_vec()).into()
}

/// Unnamed type around the other one
fn wrap(r: &mut Rng, x: TranspileRef) -> TranspileRef {
    let e = |t: Ty<TranspileRef>| TranspileRef::Embedded(Box::new(t));
    let sz = |r: &mut Rng| {
        let (a, b) = (*r.pick(&[0, 1, 5, 0xFFFF]), *r.pick(&[5u64, 0xFF, 0xFFFF, u64::MAX]));
        Sizing::new(a.min(b), a.max(b))
    };
    match r.below(9) {
        0 => e(opt_ty(x)),
        1 => {
            let inner = e(opt_ty(x));
            e(opt_ty(inner))
        },
        2 => e(Ty::Tuple(tuple_of([x]))),
        3 => e(Ty::Struct(
            Confined::from_checked(vec![Field { name: fname("a"), ty: x }]).into(),
        )),
        4 => e(Ty::Tuple(tuple_of([x.clone(), x]))),
        5 => {
            let s = sz(r);
            e(Ty::List(x, s))
        }
        6 => {
            let s = sz(r);
            e(Ty::Map(x.clone(), x, s))
        }
        7 => e(Ty::Array(x, *r.pick(&[0u16, 1, 5, 65535]))),
        _ => {
            let s = sz(r);
            e(Ty::Set(x, s))
        }
    }
}

fn systems(cx: &mut Cx, e: &Env) -> R {
    let names: BTreeMap<String, Id> = (0..e.w.nodes.len())
        .filter_map(|t| {
            let n = &e.w.nodes[t];
            Some((format!("{}.{}", e.w.libs[n.lib], n.name.as_ref()?), e.ids[t]))
        })
        .collect();
    let c = Cvt::new(&e.w);
    let mut want: BTreeMap<String, P> = BTreeMap::new();
    for t in 0..e.w.nodes.len() {
        let ty: Ty<SemId> = c.ty(e.w.nodes[t].lib, t);
        want.insert(hexid(&e.ids[t]), expected(&ty, &|id| P::Word(hexid(&id.to_byte_array()))));
    }
    let sys_id = World::sys_id(&e.ids.iter().copied().collect());
    let header = |what: &str, doc: &Doc| -> R {
        let h = doc.rest.first().and_then(|l| l.strip_prefix("typesys -- ")).and_then(read_id::<strict_types::TypeSysId>);
        ck!(h == Some(sys_id), "{what} with id {} has header {:?}", digits(&sys_id), doc.rest.first());
        Ok(())
    };

    let text = e.types().to_string();
    cx.eval(&text);
    cx.count("type system texts");
    let doc = reading("type system text", &text, &canon_id, &canon_id)?;
    header("type system", &doc)?;
    compare(cx, "type system text", &doc, &want, &text)?;

    // symbols may be given by any name of the type
    let canon = |w: &str| names.get(w).map(hexid).unwrap_or_else(|| canon_id(w));
    let text = e.sym.to_string();
    cx.eval(&text);
    cx.count("symbolic system texts");
    let doc = reading("symbolic system text", &text, &canon, &canon)?;
    header("symbolic system", &doc)?;
    compare(cx, "symbolic system text", &doc, &want, &text)?;
    let named: BTreeSet<&Id> = names.values().collect();
    let by_name = text
        .lines()
        .filter(|l| l.strip_prefix("data ").and_then(|l| l.split_once(": ")).is_some_and(|x| names.contains_key(x.0)))
        .count();
    ck!(
        by_name == named.len(),
        "symbolic system gives {by_name} named definitions, expected {}: {}",
        named.len(),
        clip(&text, 1500)
    );

    let text = e.sym.as_symbols().to_string();
    cx.eval(&text);
    cx.count("symbols texts");
    let mut libs = BTreeSet::new();
    let mut syms = BTreeMap::new();
    for l in text.lines() {
        if let Some((n, id)) = l.trim().split_once(" => ") {
            syms.insert(n.to_string(), read_id::<SemId>(id));
        } else if l.contains(" as ") {
            libs.insert(l.to_string());
        }
    }
    let want_libs: BTreeSet<String> = e
        .w
        .libs
        .iter()
        .enumerate()
        .map(|(i, n)| format!("{n}#{} as {n}", checksum("stl", e.lib_ids[i]).1))
        .collect();
    ck!(libs == want_libs, "symbols list libraries {libs:?}, expected {want_libs:?}");
    let want_syms: BTreeMap<String, Option<Id>> = names.iter().map(|(n, i)| (n.clone(), Some(*i))).collect();
    ck!(
        syms == want_syms,
        "symbols are printed as {}, expected {}",
        clip(&format!("{syms:?}"), 700),
        clip(&format!("{want_syms:?}"), 700)
    );
    let copy: SymbolicSys = e.sym.clone();
    ck!(
        copy.to_string() == e.sym.to_string() && copy.as_types().to_string() == e.types().to_string(),
        "copy of a type system is printed differently"
    );
    Ok(())
}

fn bundled(cx: &mut Cx) -> R {
    for (lib, sym) in [(std_stl(), std_sym()), (strict_types_stl(), strict_types_sym())] {
        let id = lib.id().to_byte_array();
        library(cx, &lib, &id)?;
        let back = must!(lib.to_symbolic(), "symbolic form of {}", lib.name);
        for s in [sym, back] {
            let want = s.types().iter().map(|(n, t)| (n.to_string(), sym_expected(t))).collect();
            symbolic(cx, &s, &want, "symbolic texts")?;
        }
        cx.count("bundled");
    }
    Ok(())
}

fn same_text<T: Display>(a: &T, b: &T) -> bool {
    a.to_string() == b.to_string()
}

fn c19(cx: &mut Cx) -> R {
    if cx.case == 0 {
        bundled(cx)?;
    }
    let o = if cx.rng.chance(1, 5) { Opts::LIBS } else { Opts { libs: 2, types: 5, ..Opts::LIBS } };
    let e = Env::gen(cx, o)?;
    for l in 0..e.libs.len() {
        library(cx, &e.libs[l], &e.lib_ids[l])?;
        let c = Cvt::new(&e.w);
        let mut parts = Parts::of(&c, l);
        let want = |p: &Parts| p.types.iter().map(|(n, t)| (n.clone(), sym_expected(t))).collect::<BTreeMap<_, _>>();
        let direct = must!(parts.lib(), "symbolic library");
        symbolic(cx, &direct, &want(&parts), "symbolic texts")?;
        let back = must!(e.libs[l].to_symbolic(), "symbolic form of {}", e.libs[l].name);
        if back == direct {
            ck!(same_text(&back, &direct), "equal symbolic libraries are printed differently: {back} and {direct}");
            cx.count("equal libraries");
        }
        let types = parts.types.clone();
        let mut budget = 12;
        for t in parts.types.values_mut() {
            *t = embed(&mut cx.rng, &types, t, &mut budget);
        }
        let nested = must!(parts.lib(), "symbolic library");
        symbolic(cx, &nested, &want(&parts), "nested symbolic texts")?;
        if parts.types != types {
            ck!(
                want(&parts) == parts.types.iter().map(|(n, _)| (n.clone(), sym_expected(&types[n]))).collect::<BTreeMap<_, _>>()
                    || nested.to_string() != direct.to_string(),
                "different libraries are printed alike: {nested}"
            );
        }
    }
    systems(cx, &e)
}
