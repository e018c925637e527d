//! C09 (assembly), C10 (extraction and merging), C11 (names and ids)
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::{ByteArray, Wrapper};
use strict_encoding::StrictSerialize;
use strict_types::typelib::{ExternRef, LibRef};
use strict_types::typesys::{Error as TError, TypeFqn, TypeSystem};
use strict_types::typify::TypeSpec;
use strict_types::{SemId, SymbolicSys, SystemBuilder, Ty, TypeLib};

use super::base::*;
use super::ids::sys_ids;
use crate::cx::{Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::Prop;

/// References of the type in their order, independently of the iterators of the library
pub fn refs_of<'t, Rf: strict_types::TypeRef>(ty: &'t Ty<Rf>) -> Vec<&'t Rf> {
    match ty {
        Ty::Primitive(_) | Ty::UnicodeChar | Ty::Enum(_) => vec![],
        Ty::Union(v) => v.as_inner().values().collect(),
        Ty::Struct(f) => f.as_inner().iter().map(|f| &f.ty).collect(),
        Ty::Tuple(f) => f.as_inner().iter().collect(),
        Ty::Array(t, _) | Ty::List(t, _) | Ty::Set(t, _) => vec![t],
        Ty::Map(k, v, _) => vec![k, v],
    }
}

pub fn assemble(libs: &[&TypeLib]) -> Result<SymbolicSys, Vec<TError>> {
    let mut b = SystemBuilder::new();
    for lib in libs {
        b = b.import((*lib).clone()).map_err(|e| vec![e])?;
    }
    b.finalize()
}

/// Checks that the type system has exactly the given types
pub fn check_system(c: &Cvt, sys: &TypeSystem, exp: &BTreeSet<TId>) -> R {
    let keys = sys_ids(sys);
    let exp_ids: BTreeSet<Id> = exp.iter().map(|t| c.ids[*t]).collect();
    for t in exp {
        let Some(ty) = sys.get(c.sem(*t)) else {
            fail!("type system misses {}", show_ty(c.w, *t));
        };
        ck!(
            *ty == c.ty::<SemId>(0, *t),
            "{} is defined as {ty} in the type system",
            show_ty(c.w, *t)
        );
        ck!(
            sys.find(c.sem(*t)) == Some(ty) && sys[c.sem(*t)] == *ty,
            "{} is found differently",
            show_ty(c.w, *t)
        );
    }
    if let Some(x) = keys.difference(&exp_ids).next() {
        fail!("unexpected type {} in the type system", sys[sid(x)]);
    }
    for (id, ty) in sys.as_inner().iter() {
        for r in refs_of(ty) {
            ck!(
                sys.get(*r).is_some(),
                "type {r} referenced from {id} is absent in the type system"
            );
        }
    }
    Ok(())
}

pub const C09: Prop = Prop {
    id: "C09",
    cases: (40_000, 1_000_000),
    run: c09,
    rule: "random sets of libraries are imported in several orders, and with some of them missing, replaced or damaged; the \
           resulting types and symbols, or errors, are compared with the definitions; non-trivial: each distinct set and order",
    need: &[("assembled", 10_000), ("refused", 4_000), ("missing named", 4_000), ("same-named library", 200), ("absent type named", 4_000), ("with aliases", 500)],
    level: "exploration",
    assume: &["the definitions are well-formed libraries made directly from their public parts"],
};

fn c09(cx: &mut Cx) -> R {
    let w = world(&mut cx.rng, Opts::LIBS);
    cx.say(|| show_world(&w));
    let c = Cvt::new(&w);
    let libs: Vec<TypeLib> = (0..w.libs.len()).map(|l| c.type_lib(l)).collect();
    let n = libs.len();
    let exp = w.closure(w.all_named());
    let mut first: Option<SymbolicSys> = None;
    for _ in 0..3 {
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        let refs: Vec<&TypeLib> = order.iter().map(|i| &libs[*i]).collect();
        let sym = must!(
            assemble(&refs),
            "assembly of {} libraries in the order {order:?}",
            n
        );
        cx.count("assembled");
        cx.eval(format!("{:?}{order:?}", c.lib_ids));
        check_system(&c, sym.as_types(), &exp)?;
        if let Some(f) = &first {
            ck!(
                *f == sym,
                "type system depends on the order {order:?} of import"
            );
            let (a, b) = (
                f.to_strict_serialized::<MAX>(),
                sym.to_strict_serialized::<MAX>(),
            );
            ck!(
                must!(a, "serialize") == must!(b, "serialize"),
                "bytes depend on the order of import"
            );
        }
        first = Some(sym);
    }
    let sym = first.unwrap();
    let distinct: BTreeSet<_> = w
        .all_named()
        .iter()
        .map(|t| w.nodes[*t].name.clone())
        .map(|n| n.unwrap())
        .collect();
    if distinct.len() < w.all_named().len() {
        cx.count("with aliases");
    }
    // each name of each library is among the symbols
    for t in w.all_named() {
        let node = &w.nodes[t];
        let fqn = TypeFqn::with(lname(&w.libs[node.lib]), tname(node.name.as_ref().unwrap()));
        ck!(
            sym.resolve(fqn.clone()) == Some(&c.sem(t)),
            "{fqn} resolves to {:?}",
            sym.resolve(fqn.clone())
        );
    }
    cx.sample(|| format!("{} libraries, {} types", n, exp.len()));

    // incomplete set of libraries
    let set: Vec<usize> = (0..n).filter(|_| cx.rng.coin()).collect();
    check_subset(cx, &c, &libs, &set, None)?;
    if n > 1 {
        let miss = cx.rng.us(n);
        let set: Vec<usize> = (0..n).filter(|l| *l != miss).collect();
        check_subset(cx, &c, &libs, &set, None)?;
        // a different library with the same name
        let mut fake = libs[miss].clone();
        let mut name = ident(&mut cx.rng, true);
        while fake.types.contains_key(&tname(&name)) {
            name = ident(&mut cx.rng, true);
        }
        must!(fake.populate(tname(&name), Ty::UNIT), "harness: populate");
        let used = (0..n).any(|l| l != miss && w.deps(l).contains(&miss));
        if used {
            cx.count("same-named library");
            check_subset(cx, &c, &libs, &set, Some(fake))?;
        }
    }

    // reference to an absent type at any place
    for _ in 0..2 {
        let l = cx.rng.us(n);
        let mut lib = libs[l].clone();
        let absent = sid(&<[u8; 32]>::try_from(cx.rng.bytes(32)).unwrap());
        let deps: Vec<_> = lib.dependencies.iter().map(|d| d.id).collect();
        let leaf = if !deps.is_empty() && cx.rng.coin() {
            LibRef::Extern(ExternRef::with(*cx.rng.pick(&deps), absent))
        } else {
            LibRef::Named(absent)
        };
        let named: Vec<_> = lib.types.keys().cloned().collect();
        let target = cx.rng.pick(&named).clone();
        let mut types: BTreeMap<_, _> = lib.types.release();
        let old = types[&target].clone();
        let Some(bad) = replace_ref(cx, &old, leaf) else {
            continue;
        };
        types.insert(target.clone(), bad);
        lib.types = Confined::from_checked(types);
        let mut refs: Vec<&TypeLib> = libs
            .iter()
            .enumerate()
            .filter(|(i, _)| *i != l)
            .map(|(_, l)| l)
            .collect();
        refs.push(&lib);
        cx.rng.shuffle(&mut refs);
        cx.eval(absent.to_byte_array());
        match assemble(&refs) {
            Ok(_) => fail!(
                "type system with an absent type {absent} inside of {}.{target} is assembled",
                lib.name
            ),
            Err(errs) => {
                let named = errs.iter().any(|e| match e {
                    TError::InnerTypeAbsent { unknown, .. } => *unknown == absent,
                    TError::UnknownType(id) => *id == absent,
                    _ => false,
                });
                ck!(
                    named,
                    "absent type {absent} inside of {}.{target} is not named: {errs:?}",
                    lib.name
                );
                cx.count("absent type named");
            }
        }
    }
    Ok(())
}

/// Replaces a random reference of the definition
fn replace_ref(cx: &mut Cx, ty: &Ty<LibRef>, by: LibRef) -> Option<Ty<LibRef>> {
    use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2};
    macro_rules! conv {
        ($fn:ident, $from:ident, $leaf:expr) => {{
            let leaf: LibRef = $leaf;
            match leaf {
                LibRef::Named(id) => $from::Named(id),
                LibRef::Extern(e) => $from::Extern(e),
                LibRef::Inline(_) => unreachable!(),
            }
        }};
    }
    let n = refs_of(ty).len();
    if n == 0 {
        return Some(Ty::Tuple(
            strict_types::ast::UnnamedFields::try_from(vec![by]).unwrap(),
        ));
    }
    let k = cx.rng.us(n);
    let dive = cx.rng.chance(3, 4);
    Some(map_ty(ty, &mut |i, r: &LibRef| {
        if i != k {
            return r.clone();
        }
        match r {
            LibRef::Inline(t) if dive && !refs_of(t).is_empty() => {
                let k = refs_of(t).len() - 1;
                LibRef::Inline(map_ty(t, &mut |i, r: &InlineRef| {
                    if i != k {
                        return r.clone();
                    }
                    match r {
                        InlineRef::Inline(t) if !refs_of(t).is_empty() => {
                            InlineRef::Inline(map_ty(t, &mut |i, r: &InlineRef1| {
                                if i != 0 {
                                    return r.clone();
                                }
                                match r {
                                    InlineRef1::Inline(t) if !refs_of(t).is_empty() => {
                                        InlineRef1::Inline(map_ty(t, &mut |i, r: &InlineRef2| {
                                            if i == 0 {
                                                conv!(f, InlineRef2, by.clone())
                                            } else {
                                                r.clone()
                                            }
                                        }))
                                    }
                                    _ => conv!(f, InlineRef1, by.clone()),
                                }
                            }))
                        }
                        _ => conv!(f, InlineRef, by.clone()),
                    }
                }))
            }
            _ => by.clone(),
        }
    }))
}

/// Maps references of the type, independently of the translation in the library
pub fn map_ty<A: strict_types::TypeRef, B: strict_types::TypeRef>(
    ty: &Ty<A>,
    f: &mut dyn FnMut(usize, &A) -> B,
) -> Ty<B> {
    use strict_types::ast::{Field, NamedFields, UnionVariants, UnnamedFields};
    let mut i = 0;
    let mut g = |r: &A| {
        i += 1;
        f(i - 1, r)
    };
    match ty {
        Ty::Primitive(p) => Ty::Primitive(*p),
        Ty::UnicodeChar => Ty::UnicodeChar,
        Ty::Enum(v) => Ty::Enum(v.clone()),
        Ty::Union(v) => Ty::Union(
            UnionVariants::try_from(
                v.as_inner()
                    .iter()
                    .map(|(k, r)| (k.clone(), g(r)))
                    .collect::<BTreeMap<_, _>>(),
            )
            .unwrap(),
        ),
        Ty::Struct(v) => Ty::Struct(
            NamedFields::try_from(
                v.as_inner()
                    .iter()
                    .map(|x| Field {
                        name: x.name.clone(),
                        ty: g(&x.ty),
                    })
                    .collect::<Vec<_>>(),
            )
            .unwrap(),
        ),
        Ty::Tuple(v) => Ty::Tuple(
            UnnamedFields::try_from(v.as_inner().iter().map(|x| g(x)).collect::<Vec<_>>()).unwrap(),
        ),
        Ty::Array(r, l) => Ty::Array(g(r), *l),
        Ty::List(r, s) => Ty::List(g(r), *s),
        Ty::Set(r, s) => Ty::Set(g(r), *s),
        Ty::Map(k, r, s) => {
            let k = g(k);
            Ty::Map(k, g(r), *s)
        }
    }
}

fn check_subset(cx: &mut Cx, c: &Cvt, libs: &[TypeLib], set: &[usize], fake: Option<TypeLib>) -> R {
    let w = c.w;
    let missing: BTreeSet<Id> = set
        .iter()
        .flat_map(|l| w.deps(*l))
        .filter(|d| !set.contains(d))
        .map(|d| c.lib_ids[d])
        .collect();
    let mut refs: Vec<&TypeLib> = set.iter().map(|l| &libs[*l]).collect();
    refs.extend(&fake);
    cx.rng.shuffle(&mut refs);
    cx.eval(format!("{:?}{set:?}{}", c.lib_ids, fake.is_some()));
    match assemble(&refs) {
        Ok(sym) => {
            ck!(
                missing.is_empty(),
                "type system is assembled without {} of the dependencies: {:?}",
                missing.len(),
                refs.iter().map(|l| l.name.to_string()).collect::<Vec<_>>()
            );
            cx.count("assembled");
            let exp = w.closure(
                w.all_named()
                    .into_iter()
                    .filter(|t| set.contains(&w.nodes[*t].lib)),
            );
            if fake.is_none() {
                check_system(c, sym.as_types(), &exp)?;
            }
        }
        Err(errs) => {
            ck!(
                !missing.is_empty(),
                "complete set of libraries is refused: {errs:?}"
            );
            cx.count("refused");
            let named: BTreeSet<Id> = errs
                .iter()
                .filter_map(|e| match e {
                    TError::AbsentImport(d) => Some(d.id.to_byte_array()),
                    _ => None,
                })
                .collect();
            ck!(
                named == missing,
                "{} missing dependencies are reported instead of {}",
                named.len(),
                missing.len()
            );
            cx.add("missing named", named.len() as u64);
            for e in errs {
                let _ = e.to_string();
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C10: Prop = Prop {
    id: "C10",
    cases: (40_000, 1_000_000),
    run: c10,
    rule: "random sets of types are extracted from random type systems and compared with the closure of their definitions; \
           members of the types are typified, serialized and read in the extract and in the whole system; extracts are merged \
           in both orders; non-trivial: each distinct set of types",
    need: &[("extracted", 15_000), ("values compared", 10_000), ("merged", 10_000), ("absent refused", 5_000)],
    level: "exploration",
    assume: &["the whole type systems are assembled correctly (C09)"],
};

fn c10(cx: &mut Cx) -> R {
    let e = Env::gen(
        cx,
        Opts {
            decodable: cx.case % 2 == 0,
            exotic: cx.case % 2 == 1,
            wild: false,
            ..Opts::LIBS
        },
    )?;
    let c = Cvt::new(&e.w);
    let sys = e.types();
    let all: Vec<TId> = e.w.closure(e.w.all_named()).into_iter().collect();
    let mut parts: Vec<(TypeSystem, BTreeSet<TId>)> = vec![];
    for _ in 0..3 {
        let n = match cx.rng.below(6) {
            0 => 0,
            1..=3 => 1,
            _ => cx.rng.us(all.len()) + 1,
        };
        let roots: Vec<TId> = (0..n).map(|_| *cx.rng.pick(&all)).collect();
        let sub = must!(
            sys.extract(roots.iter().map(|t| e.sem(*t))),
            "extract of {n} types"
        );
        let exp = e.w.closure(roots.clone());
        check_system(&c, &sub, &exp)?;
        cx.count("extracted");
        cx.eval(World::sys_id(&sys_ids(&sub)));
        ck!(
            sub.count_types().into_u32() as usize == sys_ids(&sub).len(),
            "count of types in the extract"
        );
        for t in roots.iter().take(3) {
            let any = cx.rng.coin();
            let Some(mut v) = ValGen::new(&e.w, any).val(&mut cx.rng, *t) else {
                continue;
            };
            if cx.rng.chance(1, 4) {
                mutate(&mut cx.rng, &mut v);
            }
            cx.count("values compared");
            let (a, b) = (
                sub.typify(v.clone(), e.sem(*t)),
                sys.typify(v.clone(), e.sem(*t)),
            );
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    ck!(
                        a == b,
                        "{} typified differently in the extract",
                        show_val(&v)
                    );
                    let (x, y) = (
                        must!(ser(&sub, &a), "serialize"),
                        must!(ser(sys, &b), "serialize"),
                    );
                    ck!(
                        x == y,
                        "{} serialized differently in the extract",
                        show_val(&v)
                    );
                    ck!(
                        sub.strict_deserialize_type(e.sem(*t), &x)
                            == sys.strict_deserialize_type(e.sem(*t), &y),
                        "{} read differently in the extract",
                        show_val(&v)
                    );
                }
                (Err(_), Err(_)) => {}
                (a, b) => fail!(
                    "{} is typified to {a:?} in the extract and to {b:?} in the system",
                    show_val(&v)
                ),
            }
        }
        parts.push((sub, exp));
    }
    cx.sample(|| format!("extract of {} types out of {}", parts[0].1.len(), all.len()));

    // absent types
    let absent = sid(&<[u8; 32]>::try_from(cx.rng.bytes(32)).unwrap());
    let mut ids: Vec<SemId> = vec![absent];
    for _ in 0..cx.rng.below(4) {
        let t = *cx.rng.pick(&all);
        ids.push(e.sem(t));
    }
    cx.rng.shuffle(&mut ids);
    ck!(sys.extract(ids).is_err(), "absent type is extracted");
    for (sub, exp) in &parts {
        let t = *cx.rng.pick(&all);
        let present = exp.iter().any(|x| c.ids[*x] == c.ids[t]);
        ck!(
            sub.extract([e.sem(t)]).is_ok() == present,
            "extract of {} from a part",
            e.show(t)
        );
        if !present {
            cx.count("absent refused");
        }
    }
    cx.count("absent refused");
    // merging
    for i in 0..3 {
        for j in 0..3 {
            let mut m = parts[i].0.clone();
            must!(m.extend(parts[j].0.clone()), "extend");
            let exp: BTreeSet<TId> = parts[i].1.union(&parts[j].1).cloned().collect();
            check_system(&c, &m, &exp)?;
            let mut o = parts[j].0.clone();
            must!(o.extend(parts[i].0.clone()), "extend");
            ck!(o == m && o.id() == m.id(), "union depends on the order");
            cx.count("merged");
        }
        let mut m = sys.clone();
        must!(m.extend(parts[i].0.clone()), "extend with an own part");
        ck!(
            m == *sys && m.id() == sys.id(),
            "extending with an own part changes the system"
        );
        let mut m = parts[i].0.clone();
        must!(m.extend(sys.clone()), "extend with the whole");
        ck!(m == *sys, "a part extended with the whole is not the whole");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C11: Prop = Prop {
    id: "C11",
    cases: (50_000, 1_000_000),
    run: c11,
    rule: "in random symbolic systems (directly assembled, or read back) each combination of a library and a type name, each \
           id, and unknown names and ids are looked up in all ways and compared with the definitions; non-trivial: each \
           distinct definition",
    need: &[("names resolved", 40_000), ("unknown names", 40_000), ("ids looked up", 100_000), ("aliases", 300)],
    level: "exploration",
    assume: &["libraries of the generated types are accepted by the type system builder"],
};

fn c11(cx: &mut Cx) -> R {
    let e = Env::gen(cx, Opts::LIBS)?;
    let mut sym = e.sym.clone();
    match cx.rng.below(3) {
        0 => {
            use strict_encoding::StrictDeserialize;
            let bytes = must!(sym.to_strict_serialized::<MAX>(), "serialize");
            sym = must!(
                SymbolicSys::from_strict_serialized::<MAX>(bytes),
                "deserialize"
            );
        }
        1 => {
            sym = SymbolicSys::new(sym.as_types().clone(), sym.as_symbols().clone());
        }
        _ => {}
    }
    let w = &e.w;
    let mut map = BTreeMap::<(String, String), TId>::new();
    for t in w.all_named() {
        map.insert(
            (
                w.libs[w.nodes[t].lib].clone(),
                w.nodes[t].name.clone().unwrap(),
            ),
            t,
        );
    }
    let mut names: BTreeSet<String> = map.keys().map(|k| k.1.clone()).collect();
    let mut libs: BTreeSet<String> = w.libs.iter().cloned().collect();
    libs.insert(format!(
        "Z{}",
        ident(&mut cx.rng, true)
            .chars()
            .take(50)
            .collect::<String>()
    ));
    for n in names.clone() {
        // near misses
        if cx.rng.chance(1, 4) {
            let mut c: Vec<char> = n.chars().collect();
            match cx.rng.below(3) {
                0 => c.push('0'),
                1 if c.len() > 1 => {
                    c.pop();
                }
                _ => {
                    let l = c.last_mut().unwrap();
                    *l = if l.is_ascii_lowercase() {
                        l.to_ascii_uppercase()
                    } else {
                        'Q'
                    };
                }
            }
            if c.len() <= 100 {
                names.insert(c.into_iter().collect());
            }
        }
    }
    for lib in &libs {
        for name in &names {
            let fqn = TypeFqn::with(lname(lib), tname(name));
            let text = format!("{lib}.{name}");
            ck!(
                fqn.to_string() == text,
                "fully-qualified name {text} is printed as {fqn}"
            );
            let got = sym.resolve(fqn.clone()).copied();
            let exp = map.get(&(lib.clone(), name.clone())).map(|t| e.sem(*t));
            ck!(got == exp, "{text} resolves to {got:?} instead of {exp:?}");
            ck!(
                sym.as_symbols().get(fqn.clone()).copied() == exp,
                "{text} is found differently among the symbols"
            );
            ck!(
                sym.to_sem_id(TypeSpec::Fqn(fqn.clone())) == exp,
                "id of the specification {text}"
            );
            let by_name = sym.get(TypeSpec::Fqn(fqn.clone()));
            ck!(
                by_name == exp.and_then(|id| e.types().get(id)),
                "definition of {text} is {by_name:?}"
            );
            match exp {
                Some(id) => {
                    cx.count("names resolved");
                    cx.eval(id.to_byte_array());
                    let leak: &'static str = Box::leak(text.clone().into_boxed_str());
                    ck!(
                        TypeFqn::from(leak) == fqn,
                        "{text} is parsed as {}",
                        TypeFqn::from(leak)
                    );
                    ck!(
                        sym.get(leak) == by_name && sym.to_sem_id(leak) == Some(id),
                        "textual specification {text}"
                    );
                    ck!(sym.as_symbols()[leak] == id, "symbol {text}");
                    ck!(
                        sym.get(TypeSpec::SemId(id)) == by_name && sym.get(id) == by_name,
                        "definition by id of {text}"
                    );
                    let tree = must!(sym.type_tree(leak), "type tree of {text}");
                    ck!(
                        tree.get() == &e.types()[id],
                        "root of the type tree of {text}"
                    );
                    ck!(
                        TypeSpec::from(leak).to_string() == text
                            && TypeSpec::from(id).to_string() == id.to_string(),
                        "specification of {text} is printed as {} and {}",
                        TypeSpec::from(leak),
                        TypeSpec::from(id)
                    );
                }
                None => {
                    cx.count("unknown names");
                    ck!(
                        sym.type_tree(TypeSpec::Fqn(fqn)).is_none(),
                        "type tree of the unknown {text}"
                    );
                }
            }
        }
    }
    let mut homes = BTreeMap::<Id, Vec<TId>>::new();
    for t in w.all_named() {
        homes.entry(e.ids[t]).or_default().push(t);
    }
    let used = w.closure(w.all_named());
    for t in used {
        let id = e.sem(t);
        cx.count("ids looked up");
        let found = sym.lookup(id);
        ck!(found == sym.as_symbols().lookup(id), "lookup of {id}");
        match (found, homes.get(&e.ids[t])) {
            (None, None) => {}
            (Some(fqn), Some(h)) => {
                ck!(
                    h.iter().any(|t| fqn.lib.as_str() == w.libs[w.nodes[*t].lib]
                        && Some(fqn.name.as_str()) == w.nodes[*t].name.as_deref()),
                    "{} is known as {fqn}",
                    e.show(t)
                );
                ck!(
                    sym.resolve(fqn.clone()) == Some(&id),
                    "{fqn} does not resolve back"
                );
                if h.len() > 1 {
                    cx.count("aliases");
                }
            }
            (a, b) => fail!(
                "{} has name {a:?}, while it is defined by name in {} libraries",
                e.show(t),
                b.map(|b| b.len()).unwrap_or(0)
            ),
        }
    }
    for _ in 0..3 {
        let mut id = e.ids[cx.rng.us(w.nodes.len())];
        id[cx.rng.us(32)] ^= 1 << cx.rng.below(8);
        let id = sid(&id);
        ck!(
            sym.lookup(id).is_none() && sym.get(id).is_none() && sym.type_tree(id).is_none(),
            "unknown id {id} is found"
        );
    }
    cx.sample(|| format!("{} names", map.len()));
    Ok(())
}
