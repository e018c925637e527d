//! C05 (semantic ids), C06 (ids of libraries and type systems)
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2};
use strict_types::typesys::TypeSystem;
use strict_types::{
    Dependency, LibRef, SemId, SystemBuilder, TranspileRef, Ty, TypeLib, TypeLibId,
};

use super::base::*;
use crate::cx::{Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::Prop;

pub const C05: Prop = Prop {
    id: "C05",
    cases: (60_000, 400_000),
    run: c05,
    rule: "the id of every type of a random set of libraries is computed by the real code in each form of the type \
           (library, inline, symbolic, type system) and compared with an independent implementation of the specified hash; \
           then a single aspect of one definition is changed, and the ids have to be different; non-trivial: each distinct \
           definition",
    need: &[("id compared", 100_000), ("changed", 8_000), ("change:name", 300), ("change:tag", 300), ("change:bound", 300), ("change:order", 200), ("change:reference", 200), ("change:class", 200)],
    level: "exploration",
    assume: &["the hash is collision-resistant; the layout of the data hashed is as the reference model has it"],
};

fn inline_depth(w: &World, t: TId) -> usize {
    w.ty(t)
        .refs()
        .into_iter()
        .filter(|r| w.nodes[*r].name.is_none())
        .map(|r| 1 + inline_depth(w, r))
        .max()
        .unwrap_or(0)
}

/// Ids of the type by all means
fn real_ids(c: &Cvt, t: TId) -> Vec<(&'static str, SemId)> {
    let n = &c.w.nodes[t];
    let lib = n.lib;
    let mut out = vec![];
    let depth = inline_depth(c.w, t);
    match &n.name {
        Some(name) => {
            let name = tname(name);
            out.push(("library", c.ty::<LibRef>(lib, t).sem_id_named(&name)));
            if depth <= 2 {
                out.push(("inline", c.ty::<InlineRef>(lib, t).sem_id_named(&name)));
            }
            if depth <= 1 {
                out.push(("inline 1", c.ty::<InlineRef1>(lib, t).sem_id_named(&name)));
            }
            if depth == 0 {
                out.push(("inline 2", c.ty::<InlineRef2>(lib, t).sem_id_named(&name)));
            }
            // Symbolic references to own types have no id yet
            if all_refs(c.w, t)
                .into_iter()
                .all(|r| c.w.nodes[r].lib != lib)
            {
                out.push(("symbolic", c.ty::<TranspileRef>(lib, t).sem_id_named(&name)));
            }
        }
        None => {
            out.push(("library", c.ty::<LibRef>(lib, t).sem_id_unnamed()));
            if depth <= 2 {
                out.push(("inline", c.ty::<InlineRef>(lib, t).sem_id_unnamed()));
            }
            if depth <= 1 {
                out.push(("inline 1", c.ty::<InlineRef1>(lib, t).sem_id_unnamed()));
            }
            if depth == 0 {
                out.push(("inline 2", c.ty::<InlineRef2>(lib, t).sem_id_unnamed()));
                out.push(("system", c.ty::<SemId>(lib, t).sem_id_unnamed()));
            }
            if all_refs(c.w, t)
                .into_iter()
                .all(|r| c.w.nodes[r].lib != lib)
            {
                out.push((
                    "symbolic",
                    TranspileRef::Embedded(Box::new(c.ty::<TranspileRef>(lib, t))).id(),
                ));
            }
        }
    }
    out
}

/// Named types referenced from inside of the definition
pub fn all_refs(w: &World, t: TId) -> BTreeSet<TId> {
    let mut out = BTreeSet::new();
    for r in w.ty(t).refs() {
        if w.nodes[r].name.is_some() {
            out.insert(r);
        } else {
            out.extend(all_refs(w, r));
        }
    }
    out
}

/// Pairs of different definitions in which an item is moved in or out of an embedded type
fn regroupings() -> Vec<(&'static str, Ty<LibRef>, Ty<LibRef>)> {
    use strict_types::ast::{EnumVariants, NamedFields, UnionVariants, UnnamedFields};
    use strict_types::ast::Field;
    use strict_encoding::Variant;
    let (a, b, c) = (|| LibRef::Named(sid(&[1; 32])), || LibRef::Named(sid(&[2; 32])), || LibRef::Named(sid(&[3; 32])));
    let tup = |v: Vec<LibRef>| Ty::Tuple(UnnamedFields::try_from(v).unwrap());
    let tup1 = |v: Vec<InlineRef>| LibRef::Inline(Ty::Tuple(UnnamedFields::try_from(v).unwrap()));
    let st = |v: Vec<(&'static str, LibRef)>| {
        Ty::Struct(NamedFields::try_from(v.into_iter().map(|(n, ty)| Field { name: fname(n), ty }).collect::<Vec<_>>()).unwrap())
    };
    let st1 = |v: Vec<(&'static str, InlineRef)>| {
        LibRef::Inline(Ty::Struct(
            NamedFields::try_from(v.into_iter().map(|(n, ty)| Field { name: fname(n), ty }).collect::<Vec<_>>()).unwrap(),
        ))
    };
    let un = |v: Vec<(&'static str, u8, LibRef)>| {
        Ty::Union(
            UnionVariants::try_from(v.into_iter().map(|(n, t, ty)| (Variant::named(t, vname(n)), ty)).collect::<BTreeMap<_, _>>()).unwrap(),
        )
    };
    let un1 = |v: Vec<(&'static str, u8, InlineRef)>| {
        LibRef::Inline(Ty::Union(
            UnionVariants::try_from(v.into_iter().map(|(n, t, ty)| (Variant::named(t, vname(n)), ty)).collect::<BTreeMap<_, _>>()).unwrap(),
        ))
    };
    let en1 = |v: &[(&'static str, u8)]| {
        LibRef::Inline(Ty::Enum(
            EnumVariants::try_from(v.iter().map(|(n, t)| Variant::named(*t, vname(n))).collect::<BTreeSet<_>>()).unwrap(),
        ))
    };
    let (ia, ib, ic) = (|| InlineRef::Named(sid(&[1; 32])), || InlineRef::Named(sid(&[2; 32])), || InlineRef::Named(sid(&[3; 32])));
    vec![
        ("inline-tuple-grouping", tup(vec![tup1(vec![ia(), ib()]), c()]), tup(vec![tup1(vec![ia(), ib(), ic()])])),
        (
            "inline-struct-grouping",
            st(vec![("x", st1(vec![("y", ia())])), ("z", b())]),
            st(vec![("x", st1(vec![("y", ia()), ("z", ib())]))]),
        ),
        (
            "inline-union-grouping",
            un(vec![("a", 0, un1(vec![("b", 1, ia())])), ("c", 2, b())]),
            un(vec![("a", 0, un1(vec![("b", 1, ia()), ("c", 2, ib())]))]),
        ),
        (
            "inline-enum-grouping",
            st(vec![("x", en1(&[("a", 0)])), ("y", LibRef::Inline(Ty::UnicodeChar))]),
            st(vec![("x", en1(&[("a", 0), ("y", strict_types::Cls::Unicode as u8)]))]),
        ),
        // control: the same items, not embedded
        ("", tup(vec![a(), b(), c()]), tup(vec![a(), c(), b()])),
    ]
}

fn c05_grouping(cx: &mut Cx) -> R {
    for (sig, x, y) in regroupings() {
        assert_ne!(x, y);
        cx.count("grouping pair");
        let name = tname("X");
        if x.sem_id_named(&name) == y.sem_id_named(&name) {
            cx.signed(sig, format!("different definitions {x} and {y} of type X have the same id {}", x.sem_id_named(&name)))?;
        }
        // as a part of an unnamed type
        if x.sem_id_unnamed() == y.sem_id_unnamed() {
            cx.signed(sig, format!("different unnamed types {x} and {y} have the same id {}", x.sem_id_unnamed()))?;
        }
    }
    Ok(())
}

fn c06_grouping(cx: &mut Cx) -> R {
    for (sig, x, y) in regroupings() {
        cx.count("grouping pair");
        let mut id = vec![];
        for ty in [&x, &y] {
            let lib = TypeLib {
                name: lname("Lib"),
                dependencies: Default::default(),
                extern_types: Default::default(),
                types: Confined::with_key_value(tname("X"), ty.clone()),
            };
            id.push(lib.id());
        }
        if id[0] == id[1] {
            cx.signed(sig, format!("libraries with the type X defined as {x} and as {y} have the same id {}", id[0]))?;
        }
    }
    Ok(())
}

fn c05(cx: &mut Cx) -> R {
    if cx.case == 0 {
        c05_grouping(cx)?;
    }
    let w = world(&mut cx.rng, Opts::LIBS);
    cx.say(|| show_world(&w));
    let c = Cvt::new(&w);
    for t in 0..w.nodes.len() {
        for (form, id) in real_ids(&c, t) {
            cx.eval(c.ids[t]);
            cx.count("id compared");
            cx.count(&format!("form:{form}"));
            ck!(
                id == c.sem(t),
                "id of {} in the {form} form is {id}, expected {}",
                show_ty(&w, t),
                c.sem(t)
            );
        }
    }
    cx.sample(|| {
        format!(
            "{} has id {}",
            show_ty(&w, w.nodes.len() - 1),
            c.sem(w.nodes.len() - 1)
        )
    });
    // well-known types
    ck!(
        SemId::unit() == sid(&tagged(b"urn:ubideco:strict-types:typ:v01", &[0, 0])),
        "id of unit"
    );

    // the keys of the type system
    let e = Env::new(w.clone())?;
    let used = e.w.closure(e.w.all_named());
    for t in &used {
        let ty = must!(
            e.types().get(c.sem(*t)),
            "type {} in the system",
            e.show(*t)
        );
        ck!(
            *ty == c.ty::<SemId>(0, *t),
            "definition of {} under its id is {ty}",
            e.show(*t)
        );
    }

    for _ in 0..3 {
        let t = cx.rng.us(w.nodes.len());
        let mut m = w.clone();
        let Some(kind) = change(cx, &mut m, t) else {
            continue;
        };
        let c2 = Cvt::new(&m);
        if c2.ids[t] == c.ids[t] {
            // regrouping of unnamed items is not committed to
            cx.count("not a change");
            continue;
        }
        let a = real_ids(&c, t);
        for (form, id) in real_ids(&c2, t) {
            if let Some((_, old)) = a.iter().find(|x| x.0 == form) {
                cx.count("changed");
                cx.count(&format!("change:{kind}"));
                cx.eval(c2.ids[t]);
                ck!(
                    id != *old,
                    "{} and {} have the same id {id} in the {form} form",
                    show_ty(&w, t),
                    show_ty(&m, t)
                );
                ck!(
                    id == c2.sem(t),
                    "id of {} in the {form} form is {id}, expected {}",
                    show_ty(&m, t),
                    c2.sem(t)
                );
            }
        }
    }
    Ok(())
}

/// Changes a single aspect of the definition
pub fn change(cx: &mut Cx, w: &mut World, t: TId) -> Option<&'static str> {
    let r = &mut cx.rng;
    if w.nodes[t].name.is_some() && r.chance(1, 5) {
        let lib = w.nodes[t].lib;
        let name = ident(r, true);
        if w.named(lib)
            .iter()
            .any(|x| w.nodes[*x].name.as_ref() == Some(&name))
        {
            return None;
        }
        w.nodes[t].name = Some(name);
        return Some("name");
    }
    let weight_ok = |w: &World, t: TId| w.nodes[t].name.is_some();
    let prior: Vec<TId> = (0..t)
        .filter(|x| weight_ok(w, *x) && w.nodes[*x].lib <= w.nodes[t].lib)
        .collect();
    let mut ty = w.nodes[t].ty.clone();
    if !prior.is_empty() && !ty.refs().is_empty() && r.chance(1, 4) {
        let n = r.us(ty.refs().len());
        let by = *r.pick(&prior);
        let mut i = 0;
        let mut same = false;
        ty = ty.map_refs(|x| {
            i += 1;
            if i == n + 1 {
                same = x == by;
                by
            } else {
                x
            }
        });
        if same {
            return None;
        }
        w.nodes[t].ty = ty;
        return Some("reference");
    }
    let kind = match &mut ty {
        MTy::Prim(c) => {
            *c = *r.pick(&[0u8, 1, 2, 4, 8, 16, 0x40, 0x41, 0x42, 0x44, 0x48]);
            "primitive"
        }
        MTy::Unicode => {
            ty = MTy::Prim(0x40);
            "class"
        }
        MTy::Enum(v) => {
            let i = r.us(v.len());
            match r.below(4) {
                0 => {
                    let n = ident(r, false);
                    if v.iter().any(|x| x.0 == n) {
                        return None;
                    }
                    v[i].0 = n;
                    "name"
                }
                1 => {
                    let tag = r.u64() as u8;
                    if v.iter().any(|x| x.1 == tag) {
                        return None;
                    }
                    v[i].1 = tag;
                    v.sort_by_key(|x| x.1);
                    "tag"
                }
                2 if v.len() > 1 => {
                    let j = r.us(v.len());
                    let (a, b) = (v[i].0.clone(), v[j].0.clone());
                    v[i].0 = b;
                    v[j].0 = a;
                    "order"
                }
                _ if v.len() > 1 => {
                    v.remove(i);
                    "count"
                }
                _ => return None,
            }
        }
        MTy::Union(v) => {
            let i = r.us(v.len());
            match r.below(4) {
                0 => {
                    let n = ident(r, false);
                    if v.iter().any(|x| x.0 == n) {
                        return None;
                    }
                    v[i].0 = n;
                    "name"
                }
                1 => {
                    let tag = r.u64() as u8;
                    if v.iter().any(|x| x.1 == tag) {
                        return None;
                    }
                    v[i].1 = tag;
                    v.sort_by_key(|x| x.1);
                    "tag"
                }
                2 if v.len() > 1 => {
                    let j = r.us(v.len());
                    let (a, b) = (v[i].2, v[j].2);
                    v[i].2 = b;
                    v[j].2 = a;
                    "order"
                }
                _ if v.len() > 1 => {
                    v.remove(i);
                    "count"
                }
                _ => return None,
            }
        }
        MTy::Struct(v) => {
            let i = r.us(v.len());
            match r.below(4) {
                0 => {
                    let n = ident(r, false);
                    if v.iter().any(|x| x.0 == n) {
                        return None;
                    }
                    v[i].0 = n;
                    "name"
                }
                1 => {
                    let j = r.us(v.len());
                    v.swap(i, j);
                    "order"
                }
                2 if v.len() > 1 => {
                    v.remove(i);
                    "count"
                }
                _ => {
                    ty = MTy::Tuple(v.iter().map(|x| x.1).collect());
                    "class"
                }
            }
        }
        MTy::Tuple(v) => {
            let i = r.us(v.len());
            match r.below(3) {
                0 => {
                    let j = r.us(v.len());
                    v.swap(i, j);
                    "order"
                }
                1 if v.len() > 1 => {
                    v.remove(i);
                    "count"
                }
                _ => {
                    ty = MTy::Struct(
                        v.iter()
                            .enumerate()
                            .map(|(i, x)| (format!("f{i}"), *x))
                            .collect(),
                    );
                    "class"
                }
            }
        }
        MTy::Array(t, l) => match r.below(3) {
            0 => {
                ty = MTy::List(*t, *l as u64, *l as u64);
                "class"
            }
            1 => {
                *l ^= 1;
                "bound"
            }
            _ => {
                *l ^= 0x100;
                "bound"
            }
        },
        MTy::List(_, a, b) | MTy::Set(_, a, b) | MTy::Map(_, _, a, b) => match r.below(5) {
            0 if *a > 0 => {
                *a -= 1;
                "bound"
            }
            1 if *b < u64::MAX => {
                *b += 1;
                "bound"
            }
            2 if *a < *b => {
                *a += 1;
                "bound"
            }
            3 => {
                let x = *b | 1 << r.below(64);
                if x == *b {
                    return None;
                }
                *b = x;
                "bound"
            }
            _ => {
                ty = match ty {
                    MTy::List(t, a, b) => MTy::Set(t, a, b),
                    MTy::Set(t, a, b) => MTy::List(t, a, b),
                    MTy::Map(k, v, a, b) => MTy::Map(v, k, a, b),
                    x => x,
                };
                "class"
            }
        },
    };
    if ty == w.nodes[t].ty {
        return None;
    }
    w.nodes[t].ty = ty;
    Some(kind)
}

// ---------------------------------------------------------------------------------------------

pub const C06: Prop = Prop {
    id: "C06",
    cases: (50_000, 1_000_000),
    run: c06,
    rule: "ids of random libraries and type systems, built in several ways, are compared with an independent implementation \
           of the specified hash; then one part of the contents is changed, and the id has to be different; non-trivial: each \
           distinct library or system",
    need: &[("library id", 10_000), ("system id", 5_000), ("library change", 20_000), ("system change", 5_000), ("dependency change", 2_000)],
    level: "exploration",
    assume: &["the hash is collision-resistant; the layout of the data hashed is as the reference model has it"],
};

pub fn sys_ids(sys: &TypeSystem) -> BTreeSet<Id> {
    sys.as_inner_keys()
}

pub trait Keys {
    fn as_inner_keys(&self) -> BTreeSet<Id>;
}
impl Keys for TypeSystem {
    fn as_inner_keys(&self) -> BTreeSet<Id> {
        use amplify::Wrapper;
        self.as_inner().keys().map(|k| k.to_byte_array()).collect()
    }
}

fn c06(cx: &mut Cx) -> R {
    if cx.case == 0 {
        c06_grouping(cx)?;
    }
    let e = Env::gen(cx, Opts::LIBS)?;
    let c = Cvt::new(&e.w);
    for l in 0..e.w.libs.len() {
        let lib = &e.libs[l];
        let id = lib.id();
        cx.eval(id.to_byte_array());
        cx.count("library id");
        ck!(
            id == c.lib_id(l),
            "id of {} is {id}, expected {}",
            lib.name,
            c.lib_id(l)
        );
        cx.sample(|| format!("library {} has id {id}", lib.name));

        // another history of construction
        let mut types: Vec<_> = lib
            .types
            .iter()
            .map(|(n, t)| (n.clone(), t.clone()))
            .collect();
        cx.rng.shuffle(&mut types);
        let mut deps: Vec<Dependency> = lib.dependencies.iter().cloned().collect();
        cx.rng.shuffle(&mut deps);
        let (n, t) = types.pop().unwrap();
        let mut other = TypeLib {
            name: lib.name.clone(),
            dependencies: Default::default(),
            extern_types: lib.extern_types.clone(),
            types: Confined::with_key_value(n, t),
        };
        for d in deps {
            must!(other.import(d), "import of a dependency");
        }
        for (n, t) in types {
            must!(other.populate(n, t), "adding a type");
        }
        ck!(
            other == *lib && other.id() == id,
            "library built in another order has id {}",
            other.id()
        );
        ck!(
            other.to_dependency() == lib.to_dependency() && Dependency::from(&other).id == id,
            "dependency of library {}",
            lib.name
        );
        let (dep, ids) = other.to_dependency_types();
        ck!(
            dep.id == id && dep.name == lib.name,
            "dependency of library {}",
            lib.name
        );
        let exp: BTreeSet<SemId> = e.w.named(l).into_iter().map(|t| e.sem(t)).collect();
        ck!(
            ids.into_iter().collect::<BTreeSet<_>>() == exp,
            "types of library {}",
            lib.name
        );
        let bytes = must!(lib.to_strict_serialized::<MAX>(), "serialize library");
        let back = must!(
            TypeLib::from_strict_serialized::<MAX>(bytes),
            "deserialize library"
        );
        ck!(back.id() == id, "library read back has id {}", back.id());

        // changes
        for _ in 0..6 {
            let mut m = lib.clone();
            let what = change_lib(cx, &mut m);
            let Some(what) = what else { continue };
            cx.count("library change");
            cx.count(&format!("{what} change"));
            let id2 = m.id();
            cx.eval(id2.to_byte_array());
            ck!(
                id2 != id,
                "library {} changed in its {what} has the same id {id}: {lib:?} and {m:?}",
                lib.name
            );
        }
    }

    // type systems
    let mut b = SystemBuilder::new();
    let n = cx.rng.range(1, e.libs.len() as u64) as usize;
    for lib in &e.libs[..n] {
        b = must!(b.import(lib.clone()), "import");
    }
    let part = must!(b.finalize(), "assembly of first {n} libraries").into_type_system();
    for sys in [e.types().clone(), part.clone()] {
        let ids = sys_ids(&sys);
        let exp = World::sys_id(&ids);
        cx.count("system id");
        cx.eval(exp);
        ck!(
            sys.id().to_byte_array() == exp,
            "id of the type system {} differs from the specified",
            sys.id()
        );
        ck!(
            sys.count_types().into_u32() as usize == ids.len(),
            "number of types {}",
            sys.count_types()
        );
        // a different order of construction
        let mut keys: Vec<SemId> = ids.iter().map(sid).collect();
        cx.rng.shuffle(&mut keys);
        let mut acc = TypeSystem::new();
        for k in keys {
            must!(acc.extend(must!(sys.extract([k]), "extract {k}")), "extend");
        }
        ck!(
            acc == sys && acc.id() == sys.id(),
            "system assembled from parts has id {}",
            acc.id()
        );
    }
    let all = sys_ids(e.types());
    for _ in 0..4 {
        let t = cx.rng.us(e.w.nodes.len());
        if !all.contains(&e.ids[t]) {
            continue;
        }
        let sub = must!(e.types().extract([e.sem(t)]), "extract {}", e.show(t));
        let ids = sys_ids(&sub);
        cx.count("system change");
        cx.eval(World::sys_id(&ids));
        ck!(
            sub.id().to_byte_array() == World::sys_id(&ids),
            "id of the type subsystem {} differs from the specified",
            sub.id()
        );
        ck!(
            (sub.id() == e.types().id()) == (ids == all),
            "subsystem has the same id as the whole system"
        );
        ck!(
            (sub.id() == part.id()) == (ids == sys_ids(&part)),
            "different systems have the same id"
        );
    }
    ck!(
        e.sym.id() == e.types().id(),
        "symbolic system has id {}",
        e.sym.id()
    );
    Ok(())
}

fn change_lib(cx: &mut Cx, m: &mut TypeLib) -> Option<&'static str> {
    let r = &mut cx.rng;
    Some(match r.below(6) {
        0 => {
            let n = lname(&ident(r, true));
            if n == m.name {
                return None;
            }
            m.name = n;
            "name"
        }
        1 => {
            let d: Vec<Dependency> = m.dependencies.iter().cloned().collect();
            let mut d: BTreeMap<TypeLibId, Dependency> = d.into_iter().map(|d| (d.id, d)).collect();
            if r.coin() && !d.is_empty() {
                let k = *r.pick(&d.keys().cloned().collect::<Vec<_>>());
                d.remove(&k);
            } else {
                let id = TypeLibId::from_byte_array(<[u8; 32]>::try_from(r.bytes(32)).unwrap());
                let name = lname(&ident(r, true));
                // two dependencies of the same name are the same dependency for the library
                if d.values().any(|x| x.name == name) {
                    return None;
                }
                d.insert(id, Dependency::with(id, name));
            }
            m.dependencies = Confined::from_checked(d.into_values().collect());
            "dependency"
        }
        2 => {
            let d: Vec<Dependency> = m.dependencies.iter().cloned().collect();
            if d.is_empty() {
                return None;
            }
            let i = r.us(d.len());
            let mut d = d;
            let mut id = d[i].id.to_byte_array();
            id[r.us(32)] ^= 1 << r.below(8);
            d[i].id = TypeLibId::from_byte_array(id);
            m.dependencies = Confined::from_checked(d.into_iter().collect());
            "dependency"
        }
        3 => {
            let mut t: BTreeMap<_, _> = m.types.clone().release();
            let k = r.pick(&t.keys().cloned().collect::<Vec<_>>()).clone();
            let v = t.remove(&k).unwrap();
            let n = tname(&ident(r, true));
            if n == k || t.contains_key(&n) {
                return None;
            }
            t.insert(n, v);
            m.types = Confined::from_checked(t);
            "type name"
        }
        4 => {
            let mut t: BTreeMap<_, _> = m.types.clone().release();
            let k = r.pick(&t.keys().cloned().collect::<Vec<_>>()).clone();
            let v = t[&k].clone();
            let new: Ty<LibRef> = match &v {
                Ty::List(x, s) => Ty::Set(x.clone(), *s),
                Ty::Array(x, l) => Ty::Array(x.clone(), l.wrapping_add(1)),
                Ty::Primitive(_) => Ty::UnicodeChar,
                _ => Ty::U8,
            };
            t.insert(k, new);
            m.types = Confined::from_checked(t);
            "definition"
        }
        _ => {
            let mut t: BTreeMap<_, _> = m.types.clone().release();
            if t.len() > 1 && r.coin() {
                let k = r.pick(&t.keys().cloned().collect::<Vec<_>>()).clone();
                t.remove(&k);
            } else {
                let n = tname(&ident(r, true));
                if t.contains_key(&n) {
                    return None;
                }
                t.insert(n, Ty::UNIT);
            }
            m.types = Confined::from_checked(t);
            "type set"
        }
    })
}
