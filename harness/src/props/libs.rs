//! C08 (ill-formed libraries), C12 (symbolic form)
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, NonEmptyOrdMap};
use amplify::ByteArray;
use strict_encoding::{LibName, StrictDeserialize, StrictEncode, StrictWriter, TypeName};
use strict_types::ast::UnnamedFields;
use strict_types::typelib::{ExternTypes, SymbolError};
use strict_types::{
    CompileError, Dependency, LibRef, SemId, SymbolRef, SymbolicLib, TranspileRef, Ty, TypeLib,
    TypeLibId,
};

use super::base::*;
use super::sys::{map_ty, refs_of};
use crate::cx::{Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::Prop;

/// Parts of a symbolic library
#[derive(Clone, Debug)]
pub struct Parts {
    pub name: String,
    pub deps: BTreeMap<TypeLibId, String>,
    pub ext: BTreeMap<String, BTreeMap<SemId, String>>,
    pub types: BTreeMap<String, Ty<TranspileRef>>,
}

impl Parts {
    pub fn of(c: &Cvt, l: usize) -> Parts {
        Parts {
            name: c.w.libs[l].clone(),
            deps: c
                .w
                .deps(l)
                .into_iter()
                .map(|d| (c.lib_id(d), c.w.libs[d].clone()))
                .collect(),
            ext: c
                .extern_map(l)
                .into_iter()
                .map(|(n, m)| {
                    (
                        n.to_string(),
                        m.into_iter().map(|(i, n)| (i, n.to_string())).collect(),
                    )
                })
                .collect(),
            types: c
                .w
                .named(l)
                .into_iter()
                .map(|t| {
                    (
                        c.w.nodes[t].name.clone().unwrap(),
                        c.ty::<TranspileRef>(l, t),
                    )
                })
                .collect(),
        }
    }
    pub fn deps(&self) -> BTreeSet<Dependency> {
        self.deps
            .iter()
            .map(|(id, n)| Dependency::with(*id, lname(n)))
            .collect()
    }
    pub fn extern_types(&self) -> ExternTypes {
        let m: BTreeMap<LibName, _> = self
            .ext
            .iter()
            .map(|(n, m)| {
                let m: BTreeMap<SemId, TypeName> = m.iter().map(|(i, n)| (*i, tname(n))).collect();
                (lname(n), Confined::from_checked(m))
            })
            .collect();
        Confined::from_checked(m)
    }
    /// The library has no public constructor except of the one deserializing it
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = StrictWriter::in_memory::<MAX>();
        let deps: amplify::confinement::TinyOrdSet<Dependency> =
            Confined::from_checked(self.deps());
        let types: NonEmptyOrdMap<TypeName, Ty<TranspileRef>> = Confined::from_checked(
            self.types
                .iter()
                .map(|(n, t)| (tname(n), t.clone()))
                .collect::<BTreeMap<_, _>>(),
        );
        w = lname(&self.name).strict_encode(w).expect("harness: encode");
        w = deps.strict_encode(w).expect("harness: encode");
        w = self
            .extern_types()
            .strict_encode(w)
            .expect("harness: encode");
        w = types.strict_encode(w).expect("harness: encode");
        w.unbox().unconfine()
    }
    pub fn lib(&self) -> Result<SymbolicLib, String> {
        let b = Confined::try_from(self.bytes()).map_err(|e| format!("{e:?}"))?;
        SymbolicLib::from_strict_serialized::<MAX>(b).map_err(|e| format!("{e:?}"))
    }
}

/// Positions of the references in a symbolic type, in depth
fn ref_paths(ty: &Ty<TranspileRef>, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, r) in refs_of(ty).into_iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        if let TranspileRef::Embedded(t) = r {
            ref_paths(t, at, out);
        }
        at.pop();
    }
}
fn ref_at<'t>(ty: &'t Ty<TranspileRef>, path: &[usize]) -> &'t TranspileRef {
    let r = refs_of(ty)[path[0]];
    match (r, path.len()) {
        (_, 1) => r,
        (TranspileRef::Embedded(t), _) => ref_at(t, &path[1..]),
        _ => unreachable!(),
    }
}
fn replace(ty: &Ty<TranspileRef>, path: &[usize], by: &TranspileRef) -> Ty<TranspileRef> {
    map_ty(ty, &mut |i, r: &TranspileRef| {
        if i != path[0] {
            return r.clone();
        }
        match r {
            _ if path.len() == 1 => by.clone(),
            TranspileRef::Embedded(t) => {
                TranspileRef::Embedded(Box::new(replace(t, &path[1..], by)))
            }
            _ => unreachable!(),
        }
    })
}
fn named_in(ty: &Ty<TranspileRef>, out: &mut BTreeSet<String>) {
    for r in refs_of(ty) {
        match r {
            TranspileRef::Named(n) => {
                out.insert(n.to_string());
            }
            TranspileRef::Embedded(t) => named_in(t, out),
            TranspileRef::Extern(_) => {}
        }
    }
}
fn externs_in(ty: &Ty<TranspileRef>, out: &mut Vec<SymbolRef>) {
    for r in refs_of(ty) {
        match r {
            TranspileRef::Extern(e) => out.push(e.clone()),
            TranspileRef::Embedded(t) => externs_in(t, out),
            TranspileRef::Named(_) => {}
        }
    }
}
fn embed(ty: Ty<TranspileRef>) -> TranspileRef {
    TranspileRef::Embedded(Box::new(ty))
}

/// Type made of `n` unnamed types nested into each other
fn nest(cx: &mut Cx, n: usize, leaf: TranspileRef) -> TranspileRef {
    let mut r = leaf;
    for _ in 0..n {
        r = embed(match cx.rng.below(5) {
            0 => Ty::Array(r, cx.rng.below(4) as u16),
            1 => Ty::List(r, strict_encoding::Sizing::new(0, 255)),
            2 => Ty::Set(r, strict_encoding::Sizing::new(0, 3)),
            3 => Ty::Map(embed(Ty::BYTE), r, strict_encoding::Sizing::new(1, 3)),
            _ => Ty::Tuple(UnnamedFields::try_from(vec![r]).unwrap()),
        });
    }
    r
}

pub const C08: Prop = Prop {
    id: "C08",
    cases: (60_000, 2_000_000),
    run: c08,
    rule: "random well-formed symbolic libraries are compiled, and then again with a single offence put at a random place of \
           a random definition; the outcome is compared with the library defined or with the offence; derived Rust types \
           with offences are built and compiled; non-trivial: each distinct library with its offence",
    need: &[("compiled", 60_000), ("offence:undefined", 3_000), ("offence:loop", 3_000), ("offence:unlisted", 3_000),
        ("offence:other-version", 1_000), ("offence:listed only", 500), ("offence:dropped", 1_000), ("offence:deep", 3_000), ("not too deep", 1_000),
        ("rust offence", 100), ("repeated", 1_000)],
    level: "exploration",
    assume: &["symbolic libraries have no constructor other than deserialization and the builder"],
};

fn c08(cx: &mut Cx) -> R {
    if cx.case % 100 == 0 {
        super::native::offences(cx)?;
    }
    let w = world(
        &mut cx.rng,
        Opts {
            wide: cx.case % 8 == 0,
            ..Opts::LIBS
        },
    );
    cx.say(|| show_world(&w));
    let c = Cvt::new(&w);
    for l in 0..w.libs.len() {
        let parts = Parts::of(&c, l);
        let lib = must!(parts.lib(), "symbolic library");
        let tl = must!(
            lib.compile(),
            "compilation of a well-formed library {}",
            parts.name
        );
        same_lib(&tl, &c.type_lib(l))?;
        cx.count("compiled");
        cx.eval(c.lib_ids[l]);
    }
    // a single offence
    let l = cx.rng.us(w.libs.len());
    for _ in 0..2 {
        offence(cx, &c, l)?;
    }
    // changes of a compiled library
    let mut tl = c.type_lib(l);
    let dup = tl
        .types
        .keys()
        .nth(cx.rng.us(tl.types.len()))
        .unwrap()
        .clone();
    match tl.populate(dup.clone(), Ty::UNIT) {
        Err(CompileError::DuplicateName(n)) if n == dup => cx.count("repeated"),
        x => fail!("repeated definition of {dup} gives {x:?}"),
    }
    if let Some(d) = tl.dependencies.iter().next().cloned() {
        let other = TypeLibId::from_byte_array(<[u8; 32]>::try_from(cx.rng.bytes(32)).unwrap());
        for d in [d.clone(), Dependency::with(d.id, d.name.clone())] {
            match tl.import(d.clone()) {
                Err(CompileError::DuplicatedDependency(x)) if x.id == d.id => cx.count("repeated"),
                x => fail!("repeated dependency {d} gives {x:?}"),
            }
        }
        let _ = other;
    }
    same_lib(&tl, &c.type_lib(l))
}

/// Equality of all parts (equality of dependencies alone holds for equal names or equal ids)
pub fn same_lib(a: &TypeLib, b: &TypeLib) -> R {
    let d = |x: &TypeLib| {
        x.dependencies
            .iter()
            .map(|d| (d.id, d.name.to_string()))
            .collect::<Vec<_>>()
    };
    ck!(a.name == b.name, "library {} is named {}", b.name, a.name);
    ck!(
        d(a) == d(b),
        "library {} has dependencies {:?} instead of {:?}",
        b.name,
        d(a),
        d(b)
    );
    ck!(
        a.extern_types == b.extern_types,
        "library {} has external types {:?} instead of {:?}",
        b.name,
        a.extern_types,
        b.extern_types
    );
    for (n, ty) in &b.types {
        match a.types.get(n) {
            None => fail!("type {n} of {} is lost", b.name),
            Some(x) => ck!(x == ty, "{}.{n} is defined as {x} instead of {ty}", b.name),
        }
    }
    ck!(
        a.types.len() == b.types.len(),
        "library {} has {} types instead of {}",
        b.name,
        a.types.len(),
        b.types.len()
    );
    ck!(
        a == b && a.id() == b.id(),
        "equal libraries {} differ",
        b.name
    );
    Ok(())
}

fn offence(cx: &mut Cx, c: &Cvt, l: usize) -> R {
    let mut p = Parts::of(c, l);
    let names: Vec<String> = p.types.keys().cloned().collect();
    let target = cx.rng.pick(&names).clone();
    let ty = p.types[&target].clone();
    let mut paths = vec![];
    ref_paths(&ty, &mut vec![], &mut paths);
    // definitions without references become tuples
    let (ty, path) = if paths.is_empty() {
        (
            Ty::Tuple(UnnamedFields::try_from(vec![TranspileRef::unit()]).unwrap()),
            vec![0],
        )
    } else {
        (ty, cx.rng.pick(&paths).clone())
    };
    let depth = path.len();
    let rnd = |cx: &mut Cx| <[u8; 32]>::try_from(cx.rng.bytes(32)).unwrap();
    let new_name = |cx: &mut Cx, used: &dyn Fn(&str) -> bool| loop {
        let n = ident(&mut cx.rng, true);
        if !used(&n) && n != "_" {
            return n;
        }
    };
    let key = |p: &Parts, what: &str| {
        let mut k = p.bytes();
        k.extend(what.as_bytes());
        k
    };
    let kind = cx.rng.below(7);
    match kind {
        0 => {
            let un = new_name(cx, &|n| p.types.contains_key(n));
            p.types.insert(
                target.clone(),
                replace(&ty, &path, &TranspileRef::Named(tname(&un))),
            );
            cx.eval(key(&p, "undefined"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownType { unknown, within }) => {
                    ck!(
                        unknown.as_str() == un,
                        "undefined type {un} is reported as {unknown}"
                    );
                    ck!(
                        within == p.types[&target],
                        "undefined type {un} in {} is reported within {within}",
                        p.types[&target]
                    );
                    cx.count("offence:undefined");
                }
                x => fail!(
                    "reference to the undefined type {un} in {target} at {path:?} gives {x:?}"
                ),
            }
        }
        1 => {
            // types which reach the target
            let mut reach: BTreeSet<String> = [target.clone()].into();
            loop {
                let mut grown = false;
                for (n, t) in &p.types {
                    let mut s = BTreeSet::new();
                    named_in(t, &mut s);
                    if !reach.contains(n) && s.intersection(&reach).next().is_some() {
                        reach.insert(n.clone());
                        grown = true;
                    }
                }
                if !grown {
                    break;
                }
            }
            // reaching the target through the place replaced is of no help
            let mut q = p.clone();
            q.types
                .insert(target.clone(), replace(&ty, &path, &TranspileRef::unit()));
            let v: Vec<String> = reach.iter().cloned().collect();
            let to = cx.rng.pick(&v).clone();
            p.types.insert(
                target.clone(),
                replace(&ty, &path, &TranspileRef::Named(tname(&to))),
            );
            cx.eval(key(&p, "loop"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownType { unknown, within }) => {
                    ck!(
                        reach.contains(unknown.as_str()),
                        "loop of {target} and {to} is reported as {unknown}"
                    );
                    let mut s = BTreeSet::new();
                    named_in(&within, &mut s);
                    ck!(
                        s.contains(unknown.as_str()),
                        "{unknown} is reported within {within}, which doesn't use it"
                    );
                    cx.count("offence:loop");
                }
                x => fail!("loop of {target} and {to} gives {x:?}"),
            }
        }
        2 => {
            let lib = new_name(cx, &|n| p.deps.values().any(|d| d == n) || p.name == n);
            let id = rnd(cx);
            let r = SymbolRef::with(
                lname(&lib),
                tname("Type"),
                TypeLibId::from_byte_array(id),
                sid(&rnd(cx)),
            );
            if cx.rng.coin() {
                p.ext
                    .entry(lib.clone())
                    .or_default()
                    .insert(r.sem_id, "Type".into());
            }
            p.types.insert(
                target.clone(),
                replace(&ty, &path, &TranspileRef::Extern(r)),
            );
            cx.eval(key(&p, "unlisted"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownLib(n)) if n.as_str() == lib => {
                    cx.count("offence:unlisted")
                }
                x => fail!(
                    "reference to the unlisted library {lib} in {target} at {path:?} gives {x:?}"
                ),
            }
        }
        3 => {
            // listed library, but in another version
            let v: Vec<String> = p.deps.values().cloned().collect();
            if v.is_empty() {
                return Ok(());
            }
            let lib = cx.rng.pick(&v).clone();
            let (sem, name) = p.ext[&lib]
                .iter()
                .next()
                .map(|(a, b)| (*a, b.clone()))
                .unwrap();
            let r = SymbolRef::with(
                lname(&lib),
                tname(&name),
                TypeLibId::from_byte_array(rnd(cx)),
                sem,
            );
            p.types.insert(
                target.clone(),
                replace(&ty, &path, &TranspileRef::Extern(r)),
            );
            cx.eval(key(&p, "other-version"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownLib(n)) if n.as_str() == lib => {
                    cx.count("offence:other-version")
                }
                x => fail!(
                    "reference to another version of {lib} in {target} at {path:?} gives {x:?}"
                ),
            }
        }
        4 => {
            let v: Vec<TypeLibId> = p.deps.keys().cloned().collect();
            if v.is_empty() {
                return Ok(());
            }
            let id = *cx.rng.pick(&v);
            let lib = p.deps.remove(&id).unwrap();
            if cx.rng.coin() {
                p.ext.remove(&lib);
            }
            cx.eval(key(&p, "dropped"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownLib(n)) if n.as_str() == lib => {
                    cx.count("offence:dropped")
                }
                x => fail!("absence of the used dependency {lib} gives {x:?}"),
            }
        }
        5 => {
            // nothing of the library is in use, still it is a listed one
            let lib = new_name(cx, &|n| p.deps.values().any(|d| d == n) || p.name == n);
            p.ext.entry(lib.clone()).or_default().insert(sid(&rnd(cx)), "Type".into());
            cx.eval(key(&p, "listed only"));
            match must!(p.lib(), "symbolic library").compile() {
                Err(CompileError::UnknownLib(n)) if n.as_str() == lib => cx.count("offence:listed only"),
                x => fail!("types listed for the absent library {lib} give {x:?}"),
            }
        }
        _ => {
            // place at the depth N is inside of N-1 unnamed types
            let leaf = ref_at_or_unit(&ty, &path);
            let leaf = if matches!(leaf, TranspileRef::Embedded(_)) {
                embed(Ty::UNIT)
            } else {
                leaf
            };
            let inner = matches!(leaf, TranspileRef::Embedded(_)) as usize;
            let total = cx.rng.range(3, 8) as usize;
            let Some(n) = (total + 1).checked_sub(depth + inner) else {
                return Ok(());
            };
            let r = nest(cx, n, leaf);
            p.types.insert(target.clone(), replace(&ty, &path, &r));
            cx.eval(key(&p, "deep"));
            let res = must!(p.lib(), "symbolic library").compile();
            // `nest` of maps may add a level on its own
            let deepest = depth_of(&p.types[&target]);
            match res {
                Err(CompileError::NestedInline(n, _, _)) => {
                    ck!(
                        deepest > 3,
                        "{target} with {deepest} nested unnamed types is reported as too deep"
                    );
                    ck!(
                        n.as_str() == target,
                        "too deep type {target} is reported as {n}"
                    );
                    cx.count("offence:deep");
                }
                Ok(x) => {
                    ck!(
                        deepest <= 3,
                        "{target} with {deepest} nested unnamed types compiles"
                    );
                    ck!(
                        x.types.len() == p.types.len(),
                        "types of {} are lost",
                        p.name
                    );
                    cx.count("not too deep");
                }
                // references were replaced
                Err(CompileError::UnknownType { .. }) => {
                    fail!("too deep type {target} is reported as unknown")
                }
                x => fail!("too deep type {target} gives {x:?}"),
            }
        }
    }
    Ok(())
}

fn ref_at_or_unit(ty: &Ty<TranspileRef>, path: &[usize]) -> TranspileRef {
    ref_at(ty, path).clone()
}

fn depth_of(ty: &Ty<TranspileRef>) -> usize {
    refs_of(ty)
        .into_iter()
        .map(|r| match r {
            TranspileRef::Embedded(t) => 1 + depth_of(t),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

// ---------------------------------------------------------------------------------------------

pub const C12: Prop = Prop {
    id: "C12",
    cases: (50_000, 1_500_000),
    run: c12,
    rule: "random well-formed libraries are converted into the symbolic form, which is compared with the definitions, and \
           compiled back; non-trivial: each distinct library",
    need: &[("round trips", 50_000), ("with dependencies", 10_000), ("ill-formed", 3_000)],
    level: "exploration",
    assume: &["well-formed libraries list exactly the dependencies and external types they use"],
};

fn c12(cx: &mut Cx) -> R {
    let w = world(
        &mut cx.rng,
        Opts {
            wide: cx.case % 4 == 0,
            ..Opts::LIBS
        },
    );
    cx.say(|| show_world(&w));
    let c = Cvt::new(&w);
    for l in 0..w.libs.len() {
        let tl = c.type_lib(l);
        let parts = Parts::of(&c, l);
        let sym = must!(tl.to_symbolic(), "symbolic form of {}", tl.name);
        ck!(
            sym.name().as_str() == w.libs[l],
            "symbolic form is named {} instead of {}",
            sym.name(),
            w.libs[l]
        );
        let d: Vec<_> = sym
            .dependencies()
            .iter()
            .map(|d| (d.id, d.name.to_string()))
            .collect();
        let e: Vec<_> = parts.deps.clone().into_iter().collect();
        ck!(
            d == e,
            "dependencies of the symbolic form are {d:?} instead of {e:?}"
        );
        ck!(
            *sym.extern_types() == parts.extern_types(),
            "external types of the symbolic form"
        );
        for (n, ty) in &parts.types {
            let Some(t) = sym.types().get(&tname(n)) else {
                fail!("type {n} is absent in the symbolic form")
            };
            ck!(
                t == ty,
                "{}.{n} is {t:?} instead of {ty:?} in the symbolic form",
                w.libs[l]
            );
        }
        ck!(
            sym.types().len() == parts.types.len(),
            "types of the symbolic form"
        );
        ck!(
            must!(parts.lib(), "symbolic library") == sym,
            "symbolic form of {}",
            tl.name
        );
        let back = must!(
            sym.compile(),
            "compilation of the symbolic form of {}",
            tl.name
        );
        same_lib(&back, &tl)?;
        ck!(
            back.id() == c.lib_id(l),
            "id of {} compiled from its symbolic form",
            tl.name
        );
        let again = must!(back.to_symbolic(), "symbolic form");
        ck!(
            again == must!(tl.to_symbolic(), "symbolic form"),
            "second symbolic form differs"
        );
        cx.eval(c.lib_ids[l]);
        cx.count("round trips");
        if !parts.deps.is_empty() {
            cx.count("with dependencies");
        }
    }
    cx.sample(|| show_world(&w));
    // references which have no name are reported
    let l = cx.rng.us(w.libs.len());
    let mut tl = c.type_lib(l);
    let absent = sid(&<[u8; 32]>::try_from(cx.rng.bytes(32)).unwrap());
    match cx.rng.below(3) {
        0 => {
            let n = tl
                .types
                .keys()
                .nth(cx.rng.us(tl.types.len()))
                .unwrap()
                .clone();
            let mut types = tl.types.release();
            types.insert(n, Ty::Array(LibRef::Named(absent), 2));
            // other types are not the ones referenced any more
            types.retain(|_, t| refs_of(t).iter().all(|r| !matches!(r, LibRef::Inline(_))));
            tl.types = Confined::from_checked(types);
            match tl.to_symbolic() {
                Err(SymbolError::UnknownType(_)) => cx.count("ill-formed"),
                x => fail!(
                    "reference to an absent type gives {:?}",
                    x.map(|l| l.to_string())
                ),
            }
        }
        _ => {
            if tl.dependencies.is_empty() {
                return Ok(());
            }
            let d = tl.dependencies.iter().next().unwrap().clone();
            if cx.rng.coin() {
                let mut deps = tl.dependencies.release();
                deps.remove(&d);
                tl.dependencies = Confined::from_checked(deps);
            } else {
                let mut m = tl.extern_types.release();
                m.remove(&d.name);
                tl.extern_types = Confined::from_checked(m);
            }
            match tl.to_symbolic() {
                Err(SymbolError::UnknownLib(id)) if id == d.id => cx.count("ill-formed"),
                x => fail!(
                    "use of the unlisted library {d} gives {:?}",
                    x.map(|l| l.to_string())
                ),
            }
        }
    }
    Ok(())
}
