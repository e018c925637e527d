//! C18 (type trees and layouts)
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::ByteArray;
use strict_encoding::{Sizing, StrictEncode, StrictWriter};
use strict_types::ast::ItemCase;
use strict_types::layout::MemoryLayout;
use strict_types::typesys::{NestedCase, TypeFqn, TypeInfo};
use strict_types::{SemId, SymbolicSys, SystemBuilder};

use super::base::*;
use crate::cx::{clip, short, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::Prop;

pub const C18: Prop = Prop {
    id: "C18",
    cases: (16_000, 200_000),
    run: c18,
    rule: "trees, layouts and layout texts of types of random libraries, of chains of nested and wrapped types and of wide \
           definitions are compared, entry by entry, with an independent depth-first walk of the definitions, in systems \
           assembled in different orders; non-trivial: each distinct type",
    need: &[
        ("trees", 12_000), ("entries", 100_000), ("optional parts", 2_000), ("wrapped parts", 5_000), ("strings", 2_000),
        ("shared types", 1_000), ("deep", 30), ("wide", 100), ("layout texts", 12_000),
    ],
    level: "exploration",
    assume: &[],
};

#[derive(Clone, Debug)]
enum Nest {
    NewType(TId),
    Option,
    Bytes,
    Ascii(TId),
    Unicode,
    RStr(TId, TId, u64, u64),
}

#[derive(Clone, Debug)]
struct Entry {
    depth: u32,
    t: TId,
    item: Option<(&'static str, u8, String)>,
    nested: Vec<Nest>,
}

/// Depth-first list of the parts. A type which only wraps another one (an unnamed tuple with a
/// single field, or an option) gives its place to the type it wraps; strings are not dived into.
fn walk(w: &World, t: TId, depth: u32, item: Option<(&'static str, u8, String)>, limit: usize, out: &mut Vec<Entry>) -> Option<()> {
    let mut t = t;
    let mut nested = vec![];
    loop {
        match w.ty(t) {
            MTy::Tuple(f) if f.len() == 1 => {
                nested.push(Nest::NewType(t));
                t = f[0];
            }
            ty => match w.option_of(ty) {
                Some((_, some)) => {
                    nested.push(Nest::Option);
                    t = some;
                }
                None => break,
            },
        }
    }
    let mut sub: Vec<(TId, (&'static str, u8, String))> = vec![];
    match w.ty(t) {
        MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => {}
        MTy::Union(v) => {
            for (i, (n, _, t)) in v.iter().enumerate() {
                sub.push((*t, ("variant", i as u8, n.clone())));
            }
        }
        MTy::Struct(v) => {
            for (i, (n, t)) in v.iter().enumerate() {
                sub.push((*t, ("field", i as u8, n.clone())));
            }
        }
        ty @ MTy::Tuple(f) => {
            if let Some((a, b, min, max)) = w.is_rstring(ty) {
                nested.push(Nest::RStr(a, b, min, max));
            } else {
                for (i, t) in f.iter().enumerate() {
                    sub.push((*t, ("pos", i as u8, String::new())));
                }
            }
        }
        MTy::Array(t, _) => {
            if !w.is_byte(*t) {
                sub.push((*t, ("array", 0, String::new())));
            }
        }
        MTy::List(t, ..) => {
            if w.is_char_enum(*t) {
                nested.push(Nest::Ascii(*t));
            } else if matches!(w.ty(*t), MTy::Prim(0x40) | MTy::Prim(1)) {
                nested.push(Nest::Bytes);
            } else if *w.ty(*t) == MTy::Unicode {
                nested.push(Nest::Unicode);
            } else {
                sub.push((*t, ("list", 0, String::new())));
            }
        }
        MTy::Set(t, ..) => sub.push((*t, ("set", 0, String::new()))),
        MTy::Map(k, v, ..) => {
            sub.push((*k, ("key", 0, String::new())));
            sub.push((*v, ("value", 0, String::new())));
        }
    }
    out.push(Entry { depth, t, item, nested });
    if out.len() > limit {
        return None;
    }
    for (t, item) in sub {
        walk(w, t, depth + 1, Some(item), limit, out)?;
    }
    Some(())
}

struct Names {
    /// Names under which the type may be known
    fqns: BTreeMap<Id, Vec<(String, String)>>,
}
impl Names {
    fn new(e: &Env) -> Names {
        let mut fqns = BTreeMap::<Id, Vec<_>>::new();
        for t in e.w.all_named() {
            let n = &e.w.nodes[t];
            fqns.entry(e.ids[t])
                .or_default()
                .push((e.w.libs[n.lib].clone(), n.name.clone().unwrap()));
        }
        Names { fqns }
    }
    fn check(&self, e: &Env, t: TId, fqn: &Option<TypeFqn>) -> R {
        let exp = self.fqns.get(&e.ids[t]);
        match (exp, fqn) {
            (None, None) => Ok(()),
            (Some(l), Some(f)) if l.contains(&(f.lib.to_string(), f.name.to_string())) => Ok(()),
            _ => fail!("name of {} in the tree is {fqn:?}, expected one of {exp:?}", e.show(t)),
        }
    }
}

fn check_entry(e: &Env, names: &Names, c: &Cvt, i: &TypeInfo, x: &Entry, at: usize) -> R {
    ck!(
        i.depth == x.depth,
        "entry {at}, {}, has depth {} instead of {}",
        e.show(x.t),
        i.depth,
        x.depth
    );
    let ty = c.ty::<SemId>(e.w.nodes[x.t].lib, x.t);
    ck!(
        i.ty == ty && i.ty.cls() == ty.cls(),
        "entry {at} has type {} instead of {}",
        short(&format!("{:?}", i.ty)),
        e.show(x.t)
    );
    names.check(e, x.t, &i.fqn)?;
    let item = i.item.as_ref().map(|x| match x {
        ItemCase::UnnamedField(p) => ("pos", *p, String::new()),
        ItemCase::NamedField(p, n) => ("field", *p, n.to_string()),
        ItemCase::UnionVariant(p, n) => ("variant", *p, n.to_string()),
        ItemCase::ArrayItem => ("array", 0, String::new()),
        ItemCase::ListItem => ("list", 0, String::new()),
        ItemCase::SetItem => ("set", 0, String::new()),
        ItemCase::MapKey => ("key", 0, String::new()),
        ItemCase::MapValue => ("value", 0, String::new()),
    });
    ck!(
        item == x.item,
        "entry {at}, {}, has the place {item:?} instead of {:?}",
        e.show(x.t),
        x.item
    );
    ck!(
        i.nested.len() == x.nested.len(),
        "entry {at}, {}, is wrapped as {:?} instead of {:?}",
        e.show(x.t),
        i.nested,
        x.nested
    );
    for (got, exp) in i.nested.iter().zip(&x.nested) {
        let ok = match (got, exp) {
            (NestedCase::NewType(f), Nest::NewType(t)) | (NestedCase::AsciiStr(f), Nest::Ascii(t)) => {
                names.check(e, *t, f)?;
                true
            }
            (NestedCase::RStr(f, g, s), Nest::RStr(a, b, min, max)) => {
                names.check(e, *a, f)?;
                names.check(e, *b, g)?;
                *s == Sizing::new(*min, *max)
            }
            (NestedCase::Option, Nest::Option)
            | (NestedCase::ByteStr, Nest::Bytes)
            | (NestedCase::UniStr, Nest::Unicode) => true,
            _ => false,
        };
        ck!(
            ok,
            "entry {at}, {}, is wrapped as {:?} instead of {:?}",
            e.show(x.t),
            i.nested,
            x.nested
        );
    }
    Ok(())
}

/// Line of the text: depth, predicate, subject, attributes
type Line = (usize, String, String, Vec<String>);

fn len_range(min: u64, max: u64) -> String {
    let m = match max {
        0xFF => "MAX8".into(),
        0xFFFF => "MAX16".into(),
        0xFF_FFFF => "MAX24".into(),
        0xFFFF_FFFF => "MAX32".into(),
        u64::MAX => "MAX64".into(),
        x => x.to_string(),
    };
    format!("len {min}..{m}")
}

fn line(e: &Env, x: &Entry) -> Line {
    let w = &e.w;
    let name = |t: TId| w.nodes[t].name.clone();
    let mut attrs = vec![];
    let own = name(x.t);
    let any = own.clone().unwrap_or_else(|| "_".into());
    let place = x.item.as_ref().map(|(k, p, n)| (*k, *p, n.as_str()));
    let subject = match place {
        Some(("pos", p, _)) => {
            if any == "_" {
                format!("_{p}")
            } else {
                any
            }
        }
        Some((k @ ("field" | "variant" | "key" | "value"), _, n)) => {
            if any != "_" {
                attrs.push(any);
            }
            if n.is_empty() { k.to_string() } else { n.to_string() }
        }
        Some(("list" | "set", ..)) if own.is_none() => "element".into(),
        _ => any,
    };
    let mut pred = match w.ty(x.t) {
        MTy::Prim(_) => "is",
        MTy::Unicode => "str",
        MTy::Enum(_) if w.is_char_enum(x.t) => "char",
        MTy::Array(t, _) if w.is_byte(*t) => "bytes",
        MTy::Struct(_) => "rec",
        ty => ty.class(),
    };
    match w.ty(x.t) {
        MTy::Prim(0) => attrs.push("Unit".into()),
        MTy::Prim(c) => attrs.push(strict_encoding::Primitive::from_code(*c).to_string()),
        MTy::Array(_, l) => attrs.push(format!("len {l}")),
        MTy::List(_, a, b) | MTy::Set(_, a, b) | MTy::Map(_, _, a, b) => attrs.push(len_range(*a, *b)),
        _ => {}
    }
    for n in &x.nested {
        match n {
            Nest::NewType(t) => attrs.push(match name(*t) {
                Some(n) => format!("aka {n}"),
                None => "wrapped".into(),
            }),
            Nest::Option => attrs.push("option".into()),
            Nest::Bytes => pred = "bytes",
            Nest::Unicode => pred = "str",
            Nest::Ascii(t) => {
                pred = "ascii";
                attrs.extend(name(*t).map(|n| format!("charset {n}")));
            }
            Nest::RStr(a, b, min, max) => {
                pred = "ascii";
                attrs.extend(name(*a).map(|n| format!("first {n}")));
                attrs.extend(name(*b).map(|n| format!("rest {n}")));
                attrs.push(len_range(*min, *max));
            }
        }
    }
    if let MTy::Enum(v) = w.ty(x.t) {
        attrs.extend(v.iter().map(|(n, t)| format!("{n} {t}")));
    }
    if let Some(("variant", p, _)) = place {
        attrs.push(format!("tag {p}"));
    }
    (x.depth as usize, pred.to_string(), subject, attrs)
}

/// Reads the text of the layout
pub fn read_text(text: &str) -> Result<Vec<Line>, String> {
    let mut out = vec![];
    let mut it = text.lines();
    while let Some(l) = it.next() {
        let body = l.trim_start_matches(' ');
        let indent = l.len() - body.len();
        // a type may be named with a lodash
        let body = body.strip_suffix(" -- _").unwrap_or(body);
        if indent % 2 != 0 {
            return Err(format!("odd indentation of '{l}'"));
        }
        let (head, mut attrs) = match body.split_once(", ") {
            Some((h, a)) if !body.ends_with('{') => (h, a.split(", ").map(str::to_string).collect()),
            _ => (body, vec![]),
        };
        let head = match head.strip_suffix(" {") {
            None => head,
            Some(head) => {
                loop {
                    let Some(l) = it.next() else {
                        return Err("unclosed list of attributes".into());
                    };
                    match l.trim() {
                        "}" => break,
                        "" => {}
                        l => attrs.extend(l.split(", ").map(str::to_string)),
                    }
                }
                head
            }
        };
        let Some((p, s)) = head.split_once(' ') else {
            return Err(format!("unexpected line '{l}'"));
        };
        out.push((indent / 2, p.to_string(), s.to_string(), attrs));
    }
    Ok(out)
}

fn layout_bytes(items: &[TypeInfo]) -> Vec<u8> {
    let mut b = (items.len() as u32).to_le_bytes().to_vec();
    for i in items {
        b.extend(enc(i));
    }
    b
}
fn enc<T: StrictEncode>(x: &T) -> Vec<u8> {
    x.strict_encode(StrictWriter::in_memory::<0xFFFF_FFFF>())
        .expect("in-memory encoding")
        .unbox()
        .unconfine()
}

fn check_tree(cx: &mut Cx, e: &Env, c: &Cvt, names: &Names, t: TId, other: &SymbolicSys) -> R<bool> {
    let mut exp = vec![];
    if walk(&e.w, t, 0, None, 6000, &mut exp).is_none() {
        cx.count("too large");
        return Ok(false);
    }
    let id = e.sem(t);
    let tree = must!(e.sym.type_tree(id), "tree of {}", e.show(t));
    ck!(*tree.get() == c.ty::<SemId>(e.w.nodes[t].lib, t), "tree of {} is of {:?}", e.show(t), tree.get());
    let mut items = vec![];
    for (at, i) in tree.iter().enumerate() {
        ck!(at < exp.len(), "tree of {} has more than {} entries: {i:?}", e.show(t), exp.len());
        check_entry(e, names, c, &i, &exp[at], at)
            .map_err(|f| crate::cx::Fail::from(format!("tree of {}: {}", e.show(t), f.msg)))?;
        items.push(i);
    }
    ck!(
        items.len() == exp.len(),
        "tree of {} has {} entries instead of {}: {}",
        e.show(t),
        items.len(),
        exp.len(),
        short(&format!("{items:?}"))
    );
    ck!((&tree).into_iter().eq(items.iter().cloned()), "iterations over the tree of {} differ", e.show(t));
    for x in &exp {
        cx.add("optional parts", x.nested.iter().filter(|n| matches!(n, Nest::Option)).count() as u64);
        cx.add("wrapped parts", x.nested.iter().filter(|n| matches!(n, Nest::NewType(_))).count() as u64);
        cx.add(
            "strings",
            x.nested.iter().filter(|n| !matches!(n, Nest::NewType(_) | Nest::Option)).count() as u64,
        );
    }
    let set: std::collections::BTreeSet<_> = exp.iter().filter(|x| e.w.nodes[x.t].name.is_some()).map(|x| x.t).collect();
    if set.len() < exp.iter().filter(|x| e.w.nodes[x.t].name.is_some()).count() {
        cx.count("shared types");
    }
    cx.count("trees");
    cx.add("entries", exp.len() as u64);
    cx.eval(e.key(t, b"tree"));

    // Layout
    let layout = tree.to_layout();
    ck!(
        enc(&layout) == layout_bytes(&items),
        "layout of {} has other entries than the tree",
        e.show(t)
    );
    ck!(
        MemoryLayout::from(&tree) == layout && MemoryLayout::from(tree) == layout,
        "layouts of the same tree of {} differ",
        e.show(t)
    );
    let text = layout.to_string();
    let got = read_text(&text).map_err(|m| format!("text of the layout of {}: {m}", e.show(t)))?;
    let lines: Vec<Line> = exp.iter().map(|x| line(e, x)).collect();
    for (i, (g, x)) in got.iter().zip(&lines).enumerate() {
        ck!(g == x, "line {i} of the layout of {} is {g:?} instead of {x:?}; text {}", e.show(t), clip(&text, 1500));
    }
    ck!(
        got.len() == lines.len(),
        "layout of {} has {} lines instead of {}",
        e.show(t),
        got.len(),
        lines.len()
    );
    ck!(
        tree.to_string() == text && layout.to_vesper().display().to_string() == text,
        "texts of the tree and of the layout of {} differ",
        e.show(t)
    );
    let again = must!(other.type_tree(id), "tree of {} in another system", e.show(t));
    ck!(
        again.to_layout() == layout,
        "layout of {} depends on the order of libraries",
        e.show(t)
    );
    cx.count("layout texts");
    cx.sample(|| text);
    Ok(true)
}

fn other_order(cx: &mut Cx, e: &Env) -> R<SymbolicSys> {
    let mut order: Vec<usize> = (0..e.libs.len()).collect();
    cx.rng.shuffle(&mut order);
    let mut b = SystemBuilder::new();
    for l in order {
        b = must!(b.import(e.libs[l].clone()), "import");
    }
    Ok(must!(b.finalize(), "assembly"))
}

/// Chain of types, each nested into the next one
fn chain(r: &mut crate::rng::Rng, n: usize, wraps: bool) -> World {
    let mut w = World {
        libs: vec!["Chain".into()],
        nodes: vec![],
    };
    let add = |w: &mut World, name: Option<String>, ty: MTy| {
        w.nodes.push(Node { name, lib: 0, ty });
        w.nodes.len() - 1
    };
    let mut t = add(&mut w, Some("Base".into()), MTy::Struct(vec![]));
    let u = add(&mut w, None, MTy::Prim(2));
    w.nodes[t].ty = MTy::Struct(vec![("f".into(), u)]);
    // nodes refer to the preceding ones only
    w.nodes.swap(t, u);
    t = 1;
    w.nodes[1].ty = MTy::Struct(vec![("f".into(), 0)]);
    for i in 0..n {
        let ty = if wraps {
            if r.chance(1, 4) {
                let unit = add(&mut w, None, MTy::Prim(0));
                MTy::Union(vec![("none".into(), 0, unit), ("some".into(), 1, t)])
            } else {
                MTy::Tuple(vec![t])
            }
        } else {
            match r.below(7) {
                0 => MTy::Struct(vec![("a".into(), t)]),
                1 => {
                    let x = add(&mut w, None, MTy::Unicode);
                    MTy::Tuple(vec![x, t])
                }
                2 => MTy::Array(t, 3),
                3 => MTy::List(t, 1, 0xFF_FFFF),
                4 => {
                    let k = add(&mut w, None, MTy::Prim(1));
                    MTy::Map(k, t, 0, 7)
                }
                5 => MTy::Tuple(vec![t]),
                _ => {
                    let unit = add(&mut w, None, MTy::Prim(0));
                    MTy::Union(vec![("none".into(), 0, unit), ("some".into(), 1, t)])
                }
            }
        };
        t = add(&mut w, Some(format!("T{i}")), ty);
    }
    w
}

fn c18(cx: &mut Cx) -> R {
    if cx.case == 0 {
        known_chain(cx)?;
    }
    if cx.case % 100 < 2 {
        let wraps = cx.case % 100 == 1;
        let n = if wraps { cx.rng.range(200, 255) } else { cx.rng.range(50, 400) } as usize;
        let e = Env::new(chain(&mut cx.rng, n, wraps))?;
        let c = Cvt::new(&e.w);
        let names = Names::new(&e);
        let other = other_order(cx, &e)?;
        let t = e.w.nodes.len() - 1;
        ck!(check_tree(cx, &e, &c, &names, t, &other)?, "harness: chain is too large");
        cx.count("deep");
        return Ok(());
    }
    let mut o = if cx.rng.coin() { Opts::LIBS } else { Opts::SMALL };
    o.types = 8;
    let e = Env::gen(cx, o)?;
    let c = Cvt::new(&e.w);
    let names = Names::new(&e);
    let other = other_order(cx, &e)?;
    let mut named = e.w.all_named();
    cx.rng.shuffle(&mut named);
    named.truncate(4);
    for t in named {
        if e.w.ty(t).refs().len() > 100 {
            cx.count("wide");
        }
        check_tree(cx, &e, &c, &names, t, &other)?;
    }
    let t = pick_type(cx, &e.w);
    check_tree(cx, &e, &c, &names, t, &other)?;
    // by name
    if let Some(n) = &e.w.nodes[t].name {
        let fqn = TypeFqn::with(lname(&e.w.libs[e.w.nodes[t].lib]), tname(n));
        let tree = must!(e.sym.type_tree(fqn), "tree of {}", e.show(t));
        ck!(
            Some(tree) == e.sym.type_tree(e.sem(t)),
            "trees by name and by id of {} differ",
            e.show(t)
        );
    }
    ck!(
        e.sym.type_tree(SemId::from_byte_array([0xE7; 32])).is_none(),
        "tree of an absent type is given"
    );
    Ok(())
}

/// More wrappers than an entry is able to hold
fn known_chain(cx: &mut Cx) -> R {
    let w = {
        let mut w = chain(&mut cx.rng, 0, true);
        for i in 0..256 {
            let t = w.nodes.len() - 1;
            w.nodes.push(Node {
                name: Some(format!("N{i}")),
                lib: 0,
                ty: MTy::Tuple(vec![t]),
            });
        }
        w
    };
    let e = Env::new(w)?;
    let t = e.w.nodes.len() - 1;
    let res = catch_unwind(AssertUnwindSafe(|| e.sym.type_tree(e.sem(t)).unwrap().iter().count()));
    if res.is_err() {
        let m = crate::last_panic();
        return cx.signed("newtype-chain-256", format!("tree of a type with 256 wrappers: {m}"));
    }
    Ok(())
}
