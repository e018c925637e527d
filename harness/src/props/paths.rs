//! C16 (traversal of types), C17 (paths and accessors of values)
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::Confined;
use strict_encoding::{FieldName, Primitive, VariantName};
use strict_types::ast::{ItemCase, Path as TyPath, Step as TyStep};
use strict_types::typelib::LibRef;
use strict_types::value::{
    EnumTag, KeyStep, Path, PathError, Step, StrictNum, StrictVal,
};
use strict_types::{Cls, SemId, TranspileRef, Ty};

use super::base::*;
use crate::cx::{Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

pub const C16: Prop = Prop {
    id: "C16",
    cases: (60_000, 1_500_000),
    run: c16,
    rule: "each type of random libraries is iterated and queried in each of the forms (with ids, library and symbolic \
           references), all positions, names and tags included; random type paths, existing ones and such with a wrong \
           step at a random place, are followed and compared with the definition; non-trivial: each distinct definition \
           and path",
    need: &[
        ("types", 100_000),
        ("path", 20_000),
        ("wrong path", 10_000),
        ("deep path", 2_000),
        ("full width", 100),
        ("option", 1_000),
        ("newtype", 500),
    ],
    level: "exploration",
    assume: &[],
};

/// References of the definition, in their order
fn places(ty: &MTy) -> Vec<(TId, ItemCase)> {
    match ty {
        MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => vec![],
        MTy::Union(v) => {
            let mut v = v.clone();
            v.sort_by_key(|x| x.1);
            v.iter()
                .enumerate()
                .map(|(i, (n, _, t))| (*t, ItemCase::UnionVariant(i as u8, vname(n))))
                .collect()
        }
        MTy::Tuple(f) => f
            .iter()
            .enumerate()
            .map(|(i, t)| (*t, ItemCase::UnnamedField(i as u8)))
            .collect(),
        MTy::Struct(f) => f
            .iter()
            .enumerate()
            .map(|(i, (n, t))| (*t, ItemCase::NamedField(i as u8, fname(n))))
            .collect(),
        MTy::Array(t, _) => vec![(*t, ItemCase::ArrayItem)],
        MTy::List(t, _, _) => vec![(*t, ItemCase::ListItem)],
        MTy::Set(t, _, _) => vec![(*t, ItemCase::SetItem)],
        MTy::Map(k, t, _, _) => vec![(*k, ItemCase::MapKey), (*t, ItemCase::MapValue)],
    }
}

fn check_iter<Rf: MkRef>(c: &Cvt, lib: usize, t: TId, what: &str) -> R {
    let mty = c.w.ty(t);
    let ty: Ty<Rf> = c.ty(lib, t);
    let exp: Vec<(Rf, ItemCase)> = places(mty)
        .into_iter()
        .map(|(t, i)| (Rf::mk(c, lib, t), i))
        .collect();
    let show = || show_ty(c.w, t);
    let got: Vec<(Rf, Option<ItemCase>)> =
        ty.type_refs().map(|(r, i)| (r.clone(), i)).collect();
    let want: Vec<(Rf, Option<ItemCase>)> =
        exp.iter().map(|(r, i)| (r.clone(), Some(i.clone()))).collect();
    ck!(got == want, "iteration over {} ({what}) gives {got:?}", show());
    let got: Vec<_> = ty.iter().map(|(r, i)| (r.clone(), i)).collect();
    ck!(got == want, "iteration over {} ({what}) gives {got:?}", show());
    let got: Vec<_> = (&ty).into_iter().map(|(r, i)| (r.clone(), i)).collect();
    ck!(got == want, "iteration over {} ({what}) gives {got:?}", show());
    let got: Vec<Rf> = ty.clone().into_iter().collect();
    let refs: Vec<Rf> = exp.iter().map(|x| x.0.clone()).collect();
    ck!(got == refs, "consuming iteration over {} ({what}) gives {got:?}", show());
    // iterators stay at the end
    let mut it = ty.type_refs();
    while it.next().is_some() {}
    ck!(it.next().is_none() && it.next().is_none(), "iterator over {} restarts", show());
    let n = ty.count_type_refs();
    ck!(n as usize == exp.len(), "{} ({what}) counts {n} references of {}", show(), exp.len());
    for pos in 0..=255u8 {
        let r = exp.get(pos as usize);
        ck!(
            ty.ty_at(pos) == r.map(|x| &x.0),
            "type at {pos} of {} ({what}) is {:?}",
            show(),
            ty.ty_at(pos)
        );
        ck!(
            ty.case_at(pos) == r.map(|x| x.1.clone()),
            "place at {pos} of {} ({what}) is {:?}",
            show(),
            ty.case_at(pos)
        );
    }

    // Lookups
    match (&ty, mty) {
        (Ty::Enum(e), MTy::Enum(v)) => {
            let mut v = v.clone();
            v.sort_by_key(|x| x.1);
            let got: Vec<_> = e.iter().map(|x| (x.name.to_string(), x.tag)).collect();
            ck!(got == v, "variants of {} are {got:?}", show());
            for (n, tag) in &v {
                let n = vname(n);
                ck!(
                    e.tag_by_name(&n) == Some(*tag) && e.has_name(&n) && e.by_name(&n).map(|x| x.tag) == Some(*tag),
                    "variant {n} of {}",
                    show()
                );
            }
            for tag in 0..=255u8 {
                let n = v.iter().find(|x| x.1 == tag).map(|x| vname(&x.0));
                ck!(
                    e.name_by_tag(tag) == n.as_ref()
                        && e.has_tag(tag) == n.is_some()
                        && e.by_tag(tag).map(|x| &x.name) == n.as_ref(),
                    "variant {tag} of {}",
                    show()
                );
            }
            let n = VariantName::from("absentName");
            if !v.iter().any(|x| x.0 == n.as_str()) {
                ck!(
                    e.tag_by_name(&n).is_none() && !e.has_name(&n) && e.by_name(&n).is_none(),
                    "absent variant of {} is found",
                    show()
                );
            }
        }
        (Ty::Union(u), MTy::Union(v)) => {
            let mut v = v.clone();
            v.sort_by_key(|x| x.1);
            for (pos, (n, tag, t)) in v.iter().enumerate() {
                let (n, r) = (vname(n), Rf::mk(c, lib, *t));
                ck!(
                    u.tag_by_name(&n) == Some(*tag)
                        && u.ty_by_name(&n) == Some(&r)
                        && u.by_name(&n).map(|(v, r)| (v.tag, r.clone())) == Some((*tag, r.clone()))
                        && u.name_by_pos(pos as u8) == Some(&n)
                        && u.ty_by_pos(pos as u8) == Some(&r),
                    "variant {n} of {} ({what})",
                    show()
                );
            }
            for tag in 0..=255u8 {
                let x = v.iter().find(|x| x.1 == tag).map(|x| (vname(&x.0), Rf::mk(c, lib, x.2)));
                ck!(
                    u.name_by_tag(tag).cloned() == x.clone().map(|x| x.0)
                        && u.ty_by_tag(tag).cloned() == x.clone().map(|x| x.1)
                        && u.has_tag(tag) == x.is_some()
                        && u.by_tag(tag).map(|(v, r)| (v.name.clone(), r.clone())) == x,
                    "variant {tag} of {} ({what})",
                    show()
                );
            }
            ck!(
                u.unwrap_first().tag == v[0].1 && u.unwrap_last().tag == v[v.len() - 1].1,
                "first and last variants of {}",
                show()
            );
            let n = VariantName::from("absentName");
            if !v.iter().any(|x| x.0 == n.as_str()) {
                ck!(
                    u.tag_by_name(&n).is_none() && u.ty_by_name(&n).is_none() && u.by_name(&n).is_none(),
                    "absent variant of {} is found",
                    show()
                );
            }
        }
        (Ty::Struct(s), MTy::Struct(f)) => {
            for (n, t) in f {
                ck!(
                    s.ty_by_name(&fname(n)) == Some(&Rf::mk(c, lib, *t)),
                    "field {n} of {} ({what})",
                    show()
                );
            }
            let n = FieldName::from("absentName");
            if !f.iter().any(|x| x.0 == n.as_str()) {
                ck!(s.ty_by_name(&n).is_none(), "absent field of {} is found", show());
            }
        }
        _ => {}
    }

    // Queries
    let (cls, prim, coll) = match mty {
        MTy::Prim(_) => (Cls::Primitive, true, false),
        MTy::Unicode => (Cls::Unicode, true, false),
        MTy::Enum(_) => (Cls::Enum, false, false),
        MTy::Union(_) => (Cls::Union, false, false),
        MTy::Tuple(_) => (Cls::Tuple, false, false),
        MTy::Struct(_) => (Cls::Struct, false, false),
        MTy::Array(..) => (Cls::Array, false, true),
        MTy::List(..) => (Cls::List, false, true),
        MTy::Set(..) => (Cls::Set, false, true),
        MTy::Map(..) => (Cls::Map, false, true),
    };
    ck!(ty.cls() == cls, "class of {} is {}", show(), ty.cls());
    ck!(
        ty.is_primitive() == prim && ty.is_collection() == coll,
        "{} is reported as {}primitive and {}collection",
        show(),
        if ty.is_primitive() { "" } else { "not " },
        if ty.is_collection() { "" } else { "not " }
    );
    let one_field = matches!(mty, MTy::Tuple(f) if f.len() == 1);
    ck!(ty.is_newtype() == one_field, "{} is newtype: {}", show(), ty.is_newtype());
    // a tuple with one field may be seen either as such or as its field
    if !one_field {
        let compound = matches!(mty, MTy::Enum(_))
            || matches!(mty, MTy::Union(_)) && c.w.option_of(mty).is_none()
            || matches!(mty, MTy::Tuple(f) if f.len() > 1)
            || matches!(mty, MTy::Struct(f) if f.len() > 1);
        ck!(ty.is_compound() == compound, "{} is compound: {}", show(), ty.is_compound());
    }
    let byte = |m: &MTy| matches!(m, MTy::Prim(0x40) | MTy::Prim(0x01));
    ck!(ty.is_byte() == byte(mty), "{} is byte: {}", show(), ty.is_byte());
    ck!(
        ty.is_unicode_char() == (*mty == MTy::Unicode),
        "{} is character: {}",
        show(),
        ty.is_unicode_char()
    );
    if !matches!(mty, MTy::Tuple(_)) {
        let chars = matches!(mty, MTy::Enum(v) if v.iter().all(|x| (32..=127).contains(&x.1)));
        ck!(ty.is_char_enum() == chars, "{} is char enum: {}", show(), ty.is_char_enum());
    }
    let some = match mty {
        MTy::Union(v) if v.len() == 2 => {
            let none = v.iter().any(|x| x.1 == 0 && x.0 == "none");
            v.iter().find(|x| x.1 == 1 && x.0 == "some" && none).map(|x| Rf::mk(c, lib, x.2))
        }
        _ => None,
    };
    ck!(
        ty.as_some() == some.as_ref() && ty.is_option() == some.is_some(),
        "{} is option: {:?}",
        show(),
        ty.as_some()
    );
    let arr = match mty {
        MTy::Array(t, _) => c.w.nodes[*t].name.is_none() && byte(c.w.ty(*t)),
        _ => false,
    };
    ck!(ty.is_byte_array() == arr, "{} ({what}) is byte array: {}", show(), ty.is_byte_array());
    for (t, i) in places(mty) {
        let r = Rf::mk(c, lib, t);
        let inl = c.w.nodes[t].name.is_none();
        ck!(
            r.is_byte() == (inl && byte(c.w.ty(t)))
                && r.is_unicode_char() == (inl && *c.w.ty(t) == MTy::Unicode),
            "reference at {i:?} of {} ({what}) is byte: {}, character: {}",
            show(),
            r.is_byte(),
            r.is_unicode_char()
        );
    }
    Ok(())
}

fn c16(cx: &mut Cx) -> R {
    let o = if cx.rng.coin() { Opts::LIBS } else { Opts::VALUES };
    let w = world(&mut cx.rng, o);
    cx.say(|| show_world(&w));
    let c = Cvt::new(&w);
    for t in 0..w.nodes.len() {
        let lib = w.nodes[t].lib;
        check_iter::<SemId>(&c, lib, t, "ids")?;
        check_iter::<TranspileRef>(&c, lib, t, "symbolic")?;
        if w.nodes[t].name.is_some() {
            check_iter::<LibRef>(&c, lib, t, "library")?;
        }
        cx.count("types");
        if places(w.ty(t)).len() == 255 {
            cx.count("full width");
        }
        if w.option_of(w.ty(t)).is_some() {
            cx.count("option");
        }
        if matches!(w.ty(t), MTy::Tuple(f) if f.len() == 1) {
            cx.count("newtype");
        }
        cx.eval(c.ids[t]);
    }
    // Primitive constants
    for (ty, code) in [
        (Ty::<SemId>::UNIT, 0u8),
        (Ty::BYTE, 0x40),
        (Ty::U8, 1),
        (Ty::U16, 2),
        (Ty::U24, 3),
        (Ty::U32, 4),
        (Ty::U40, 5),
        (Ty::U48, 6),
        (Ty::U56, 7),
        (Ty::U64, 8),
        (Ty::U128, 16),
        (Ty::U256, 0x20),
        (Ty::U512, 0x22),
        (Ty::U1024, 0x26),
        (Ty::I8, 0x41),
        (Ty::I16, 0x42),
        (Ty::I24, 0x43),
        (Ty::I32, 0x44),
        (Ty::I64, 0x48),
        (Ty::I128, 0x50),
        (Ty::I256, 0x60),
        (Ty::I512, 0x62),
        (Ty::I1024, 0x66),
    ] {
        ck!(
            ty == Ty::Primitive(Primitive::from_code(code)),
            "primitive {code:#x} is {ty:?}"
        );
    }

    // Paths through nested types, with some of the names removed
    let mut deep = w.clone();
    let keep = cx.rng.below(3);
    for n in deep.nodes.iter_mut() {
        if keep == 0 || (keep == 1 && cx.rng.chance(2, 3)) {
            n.name = None;
        }
    }
    let dc = Cvt {
        w: &deep,
        ids: c.ids.clone(),
        lib_ids: c.lib_ids.clone(),
    };
    for _ in 0..8 {
        let root = pick_type(cx, &w);
        if size_of(&deep, root, 3000) >= 3000 {
            continue;
        }
        let lib = deep.nodes[root].lib;
        let ty: Ty<TranspileRef> = dc.ty(lib, root);
        for _ in 0..4 {
            path_case(cx, &dc, lib, root, &ty)?;
        }
    }
    Ok(())
}

fn key(c: &Cvt, root: TId, extra: &[u8]) -> Vec<u8> {
    let mut k = c.ids[root].to_vec();
    k.extend(extra);
    k
}

fn size_of(w: &World, t: TId, limit: usize) -> usize {
    let mut n = 1;
    for r in w.ty(t).refs() {
        if n >= limit {
            break;
        }
        n += if w.nodes[r].name.is_none() { size_of(w, r, limit - n) } else { 1 };
    }
    n
}

/// A step leading to the place, by one of its descriptions
fn step(r: &mut Rng, ty: &MTy, k: usize) -> (TyStep, TId) {
    match ty {
        MTy::Union(v) => {
            let (n, tag, t) = &v[k];
            (if r.coin() { TyStep::Variant(vname(n)) } else { TyStep::UnnamedField(*tag) }, *t)
        }
        MTy::Struct(f) => {
            let (n, t) = &f[k];
            (if r.coin() { TyStep::NamedField(fname(n)) } else { TyStep::UnnamedField(k as u8) }, *t)
        }
        MTy::Tuple(f) => (TyStep::UnnamedField(k as u8), f[k]),
        MTy::Array(t, _) => (TyStep::Index, *t),
        MTy::List(t, _, _) => (TyStep::List, *t),
        MTy::Set(t, _, _) => (TyStep::Set, *t),
        MTy::Map(a, b, _, _) => {
            if k == 0 {
                (TyStep::MapKey, *a)
            } else {
                (TyStep::MapValue, *b)
            }
        }
        MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => unreachable!("no places"),
    }
}

fn any_step(r: &mut Rng) -> TyStep {
    match r.below(9) {
        0 => TyStep::NamedField(fname(&ident(r, false))),
        1 => TyStep::UnnamedField(r.biased() as u8),
        2 => TyStep::Variant(vname(&ident(r, false))),
        3 => TyStep::Index,
        4 => TyStep::List,
        5 => TyStep::Set,
        6 => TyStep::MapKey,
        7 => TyStep::MapValue,
        _ => TyStep::UnnamedField(r.below(5) as u8),
    }
}

/// Definition at the end of the step, if any
fn follow(ty: &MTy, s: &TyStep) -> Option<TId> {
    match (ty, s) {
        (MTy::Union(v), TyStep::Variant(n)) => v.iter().find(|x| x.0 == n.as_str()).map(|x| x.2),
        (MTy::Union(v), TyStep::UnnamedField(tag)) => v.iter().find(|x| x.1 == *tag).map(|x| x.2),
        (MTy::Struct(f), TyStep::NamedField(n)) => f.iter().find(|x| x.0 == n.as_str()).map(|x| x.1),
        (MTy::Struct(f), TyStep::UnnamedField(k)) => f.get(*k as usize).map(|x| x.1),
        (MTy::Tuple(f), TyStep::UnnamedField(k)) => f.get(*k as usize).copied(),
        (MTy::Array(t, _), TyStep::Index)
        | (MTy::List(t, _, _), TyStep::List)
        | (MTy::Set(t, _, _), TyStep::Set)
        | (MTy::Map(t, _, _, _), TyStep::MapKey)
        | (MTy::Map(_, t, _, _), TyStep::MapValue) => Some(*t),
        _ => None,
    }
}

fn path_case(cx: &mut Cx, c: &Cvt, lib: usize, root: TId, ty: &Ty<TranspileRef>) -> R {
    let mut path = TyPath::new();
    let mut t = root;
    let max = cx.rng.below(12);
    for _ in 0..max {
        let refs = c.w.ty(t).refs();
        let inl: Vec<usize> =
            (0..refs.len()).filter(|k| c.w.nodes[refs[*k]].name.is_none()).collect();
        if inl.is_empty() {
            break;
        }
        // prefer the branches which go deeper
        let mut k = *cx.rng.pick(&inl);
        for _ in 0..3 {
            if c.w.ty(refs[k]).refs().is_empty() {
                k = *cx.rng.pick(&inl);
            }
        }
        let (s, next) = step(&mut cx.rng, c.w.ty(t), k);
        path.push(s).unwrap();
        t = next;
    }
    let text: String = path.iter().map(|s| s.to_string()).collect();
    ck!(path.to_string() == text, "path {text} is shown as {path}");
    match ty.at_path(&path) {
        Ok(got) => {
            let exp: Ty<TranspileRef> = c.ty(lib, t);
            ck!(*got == exp, "path {path} within {} leads to {got:?}", show_ty(c.w, root))
        }
        Err(e) => fail!("path {path} within {}: {e}", show_ty(c.w, root)),
    }
    cx.count("path");
    if path.len() > 3 {
        cx.count("deep path");
    }
    cx.eval(key(c, root, text.as_bytes()));

    // One wrong step
    let at = cx.rng.us(path.len() + 1);
    let mut steps: Vec<TyStep> = path.iter().cloned().collect();
    let bad = any_step(&mut cx.rng);
    if at == steps.len() {
        steps.push(bad);
    } else if cx.rng.coin() {
        steps[at] = bad;
    } else {
        steps.insert(at, bad);
    }
    let wrong = TyPath::from(Confined::try_from(steps.clone()).unwrap());
    let mut t = Some(root);
    let mut stop = 0;
    for (i, s) in steps.iter().enumerate() {
        t = follow(c.w.ty(t.unwrap()), s).filter(|t| c.w.nodes[*t].name.is_none());
        if t.is_none() {
            stop = i + 1;
            break;
        }
    }
    match (ty.at_path(&wrong), t) {
        (Ok(got), Some(t)) => {
            let exp: Ty<TranspileRef> = c.ty(lib, t);
            ck!(*got == exp, "path {wrong} within {} leads to {got:?}", show_ty(c.w, root))
        }
        (Err(e), None) => {
            ck!(e.ty == ty, "path {wrong} within {}: error mentions {:?}", show_ty(c.w, root), e.ty);
            ck!(
                e.path.iter().eq(steps[..stop].iter()),
                "path {wrong} within {} fails at {} instead of step {stop}",
                show_ty(c.w, root),
                e.path
            );
            cx.count("wrong path");
            cx.eval(key(c, root, wrong.to_string().as_bytes()));
        }
        (Ok(got), None) => fail!("wrong path {wrong} within {} leads to {got:?}", show_ty(c.w, root)),
        (Err(e), Some(_)) => fail!("path {wrong} within {}: {e}", show_ty(c.w, root)),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C17: Prop = Prop {
    id: "C17",
    cases: (200_000, 5_000_000),
    run: c17,
    rule: "random values of any shape are addressed by paths made of random steps to existing components and of steps \
           modified at a random place, and by all accessors, which are compared with an independent walk over the value; \
           non-trivial: each distinct value and path",
    need: &[
        ("path", 200_000),
        ("long path", 3_000),
        ("wrong path", 200_000),
        ("accessor", 100_000),
        ("refused accessor", 100_000),
    ],
    level: "exploration",
    assume: &[],
};

fn key_of(v: &StrictVal) -> Option<KeyStep> {
    Some(match v {
        StrictVal::Number(StrictNum::Uint(n)) => KeyStep::Number(*n as u128),
        StrictVal::Enum(EnumTag::Ord(n)) => KeyStep::Number(*n as u128),
        StrictVal::Bytes(b) => KeyStep::TinyBlob(Confined::try_from(b.0.clone()).ok()?),
        StrictVal::String(s) => KeyStep::TinyString(Confined::try_from(s.clone()).ok()?),
        _ => return None,
    })
}

/// Whether the map key is the one in the path; `None` for the numbers which have other
/// representations
fn key_match(k: &KeyStep, v: &StrictVal) -> Option<bool> {
    if let (KeyStep::Number(_), StrictVal::Number(StrictNum::Int(_) | StrictNum::BigUint(_) | StrictNum::BigInt(_))) = (k, v) {
        return None;
    }
    Some(key_of(v).as_ref() == Some(k))
}

enum Walk<'v> {
    Found(&'v StrictVal),
    /// Number of the step and explanation
    Wrong(PathError),
    Unknown,
}

fn walk<'v>(v: &'v StrictVal, p: &[Step]) -> Walk<'v> {
    let mut v = v;
    for s in p {
        v = match (v, s) {
            (StrictVal::Tuple(f), Step::UnnamedField(n)) => match f.get(*n as usize) {
                Some(v) => v,
                None => return Walk::Wrong(PathError::FieldNoOutOfBounds(*n, f.len())),
            },
            (StrictVal::Struct(f), Step::NamedField(n)) => {
                match f.iter().find(|x| x.0 == n) {
                    Some((_, v)) => v,
                    None => return Walk::Wrong(PathError::UnknownFieldName(n.clone())),
                }
            }
            (StrictVal::List(l), Step::Index(n)) | (StrictVal::Set(l), Step::Index(n)) => {
                match l.get(*n as usize) {
                    Some(v) => v,
                    None => return Walk::Wrong(PathError::CollectionIndexOutOfBounds(*n, l.len())),
                }
            }
            (StrictVal::Map(m), Step::Key(k)) => {
                let mut found = None;
                for (key, v) in m {
                    match key_match(k, key) {
                        None => return Walk::Unknown,
                        Some(true) => {
                            found = Some(v);
                            break;
                        }
                        Some(false) => {}
                    }
                }
                match found {
                    Some(v) => v,
                    None => return Walk::Wrong(PathError::UnknownKey(k.clone())),
                }
            }
            _ => return Walk::Wrong(PathError::TypeMismatch(s.clone(), v.clone())),
        }
    }
    Walk::Found(v)
}

fn wrong_step(r: &mut Rng) -> Step {
    match r.below(6) {
        0 => Step::NamedField(fname(&ident(r, false))),
        1 => Step::UnnamedField(if r.coin() { r.below(6) as u8 } else { r.biased() as u8 }),
        2 => Step::Index(if r.coin() { r.below(6) as u32 } else { r.biased() as u32 }),
        3 => Step::Key(KeyStep::Number(if r.coin() {
            r.below(6) as u128
        } else {
            (r.biased() as u128) << (r.below(2) * 64)
        })),
        4 => {
            let n = r.us(4);
            Step::Key(KeyStep::TinyBlob(Confined::try_from(r.bytes(n)).unwrap()))
        }
        _ => Step::Key(KeyStep::TinyString(Confined::try_from(ident(r, false)).unwrap())),
    }
}

/// Any value, with a preference for the nested ones
fn nested(r: &mut Rng, depth: u32) -> StrictVal {
    if depth == 0 || r.chance(1, 8) {
        return any_val(r, 1);
    }
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        7 => r.us(12),
        _ => r.range(2, 4) as usize,
    };
    let mut kids: Vec<StrictVal> = (0..n).map(|_| any_val(r, 0)).collect();
    if n > 0 {
        let k = r.us(n);
        kids[k] = nested(r, depth - 1);
        if r.coin() {
            let k = r.us(n);
            kids[k] = nested(r, depth - 1);
        }
    }
    match r.below(7) {
        0 => StrictVal::Tuple(kids),
        1 | 2 => StrictVal::Struct(
            kids.into_iter()
                .map(|v| (fname(&if r.chance(1, 3) { "a".into() } else { ident(r, false) }), v))
                .collect(),
        ),
        3 => StrictVal::List(kids),
        4 => StrictVal::Set(kids),
        5 => {
            let v = kids.into_iter().map(|v| {
                let k = match r.below(8) {
                    0 => StrictVal::Number(StrictNum::Uint(r.below(4))),
                    1 => StrictVal::Number(StrictNum::Uint(r.biased())),
                    2 => StrictVal::Enum(EnumTag::Ord(r.below(6) as u8)),
                    3 => StrictVal::Enum(EnumTag::Name(vname(&ident(r, false)))),
                    4 => {
                        let n = r.us(4);
                        StrictVal::bytes(r.bytes(n))
                    }
                    5 => StrictVal::String(ident(r, false)),
                    6 => StrictVal::String("12".into()),
                    _ => any_val(r, 1),
                };
                (k, v)
            });
            StrictVal::Map(v.collect())
        }
        _ => {
            let v = kids.into_iter().next().unwrap_or(StrictVal::Unit);
            StrictVal::Union(any_tag(r), Box::new(v))
        }
    }
}

fn existing(r: &mut Rng, v: &StrictVal) -> Vec<Step> {
    let mut p = vec![];
    let mut v = v;
    for _ in 0..r.range(0, 8) {
        let (s, next) = match v {
            StrictVal::Tuple(f) if !f.is_empty() => {
                let k = r.us(f.len().min(256));
                (Step::UnnamedField(k as u8), &f[k])
            }
            StrictVal::Struct(f) if !f.is_empty() => {
                let (n, v) = f.get_index(r.us(f.len())).unwrap();
                (Step::NamedField(n.clone()), v)
            }
            StrictVal::List(l) | StrictVal::Set(l) if !l.is_empty() => {
                let k = r.us(l.len());
                (Step::Index(k as u32), &l[k])
            }
            StrictVal::Map(m) if !m.is_empty() => {
                let (k, v) = &m[r.us(m.len())];
                match key_of(k) {
                    Some(k) => (Step::Key(k), v),
                    None => break,
                }
            }
            _ => break,
        };
        p.push(s);
        v = next;
    }
    p
}

fn check_path(cx: &mut Cx, v: &StrictVal, steps: &[Step]) -> R {
    let got = v.at_path(steps);
    let path = must!(Confined::try_from(steps.to_vec()), "path");
    let path = Path::from(path);
    let text: String = steps.iter().map(|s| s.to_string()).collect();
    ck!(path.to_string() == text, "path {text} is shown as {path}");
    let other = v.at_path(&path);
    ck!(
        got.as_ref().ok().map(|x| *x as *const StrictVal) == other.as_ref().ok().map(|x| *x as *const StrictVal),
        "path {path} and the same steps lead to different components of {}",
        show_val(v)
    );
    match (got, walk(v, steps)) {
        (_, Walk::Unknown) => return Ok(()),
        (Ok(a), Walk::Found(b)) => {
            ck!(
                std::ptr::eq(a, b),
                "path {path} within {} leads to {} instead of {}",
                show_val(v),
                show_val(a),
                show_val(b)
            );
            cx.count("path");
            if steps.len() > 3 {
                cx.count("long path");
            }
        }
        (Err(a), Walk::Wrong(b)) => {
            ck!(
                a == b,
                "wrong path {path} within {} is reported as {a} instead of {b}",
                show_val(v)
            );
            cx.count("wrong path");
        }
        (Ok(a), Walk::Wrong(b)) => fail!(
            "wrong path {path} within {} ({b}) leads to {}",
            show_val(v),
            show_val(a)
        ),
        (Err(a), Walk::Found(b)) => fail!(
            "path {path} within {} to {} is reported as wrong: {a}",
            show_val(v),
            show_val(b)
        ),
    }
    cx.eval(format!("{v:?}{steps:?}"));
    Ok(())
}

/// Runs an accessor which panics if the value is of another kind
fn acc<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    if r.is_none() {
        crate::last_panic();
    }
    r
}

fn accessors(cx: &mut Cx, v: &StrictVal) -> R {
    let mut inner = v;
    while let StrictVal::Tuple(f) = inner {
        if f.len() != 1 {
            break;
        }
        inner = &f[0];
    }
    let show = || show_val(v);
    ck!(std::ptr::eq(v.skip_wrapper(), inner), "{} without wrappers is {}", show(), show_val(v.skip_wrapper()));
    macro_rules! same {
        ($name:literal, $got:expr, $exp:expr) => {{
            let (got, exp) = ($got, $exp);
            ck!(got == exp, "{} of {} is {:?} instead of {:?}", $name, show(), got, exp);
            cx.count(if exp.is_some() { "accessor" } else { "refused accessor" });
        }};
    }
    same!(
        "number",
        acc(|| *v.unwrap_num()),
        match inner {
            StrictVal::Number(n) => Some(*n),
            _ => None,
        }
    );
    let uint = match inner {
        StrictVal::Number(StrictNum::Uint(n)) => Some(*n),
        _ => None,
    };
    same!("u64", acc(|| v.unwrap_uint::<u64>()), uint);
    same!("u8", acc(|| v.unwrap_uint::<u8>()), uint.and_then(|n| u8::try_from(n).ok()));
    same!("u16", acc(|| v.unwrap_uint::<u16>()), uint.and_then(|n| u16::try_from(n).ok()));
    same!("u32", acc(|| v.unwrap_uint::<u32>()), uint.and_then(|n| u32::try_from(n).ok()));
    same!(
        "bytes",
        acc(|| v.unwrap_bytes().to_vec()),
        match inner {
            StrictVal::Bytes(b) => Some(b.0.clone()),
            _ => None,
        }
    );
    same!(
        "string",
        acc(|| v.unwrap_string()),
        match inner {
            StrictVal::String(s) => Some(s.clone()),
            StrictVal::Bytes(b) => String::from_utf8(b.0.clone()).ok(),
            StrictVal::List(l) => l
                .iter()
                .map(|x| {
                    let mut x = x;
                    // characters are plain enumerations
                    if !matches!(x, StrictVal::Enum(_)) {
                        return None;
                    }
                    x = x.skip_wrapper();
                    match x {
                        StrictVal::Enum(EnumTag::Ord(c)) => Some(*c),
                        _ => None,
                    }
                })
                .collect::<Option<Vec<u8>>>()
                .and_then(|b| String::from_utf8(b).ok()),
            _ => None,
        }
    );
    for no in [0u16, 1, 2, 11, 12, 255, 256, 65535] {
        same!(
            "tuple field",
            acc(|| v.unwrap_tuple(no) as *const StrictVal),
            match inner {
                StrictVal::Tuple(f) => f.get(no as usize).map(|x| x as *const _),
                _ => None,
            }
        );
        same!(
            "item",
            acc(|| v.unwrap_pos(no as usize) as *const StrictVal),
            match inner {
                StrictVal::List(f) | StrictVal::Set(f) => f.get(no as usize).map(|x| x as *const _),
                _ => None,
            }
        );
    }
    for n in ["a", "b", "x1", "absentName"] {
        same!(
            "field",
            acc(|| v.unwrap_struct(n) as *const StrictVal),
            match inner {
                StrictVal::Struct(f) => f.iter().find(|x| x.0.as_str() == n).map(|x| x.1 as *const _),
                _ => None,
            }
        );
    }
    let tag = match inner {
        StrictVal::Enum(t) => Some(t.clone()),
        _ => None,
    };
    same!("tag", acc(|| v.unwrap_enum_tag().clone()), tag.clone());
    same!(
        "boolean",
        acc(|| v.unwrap_enum::<strict_encoding::stl::Bool>()),
        match &tag {
            Some(EnumTag::Ord(0)) => Some(strict_encoding::stl::Bool::False),
            Some(EnumTag::Ord(1)) => Some(strict_encoding::stl::Bool::True),
            Some(EnumTag::Name(n)) if n.as_str() == "false" => Some(strict_encoding::stl::Bool::False),
            Some(EnumTag::Name(n)) if n.as_str() == "true" => Some(strict_encoding::stl::Bool::True),
            _ => None,
        }
    );
    same!(
        "variant",
        acc(|| {
            let (t, v) = v.unwrap_union();
            (t.clone(), v as *const StrictVal)
        }),
        match inner {
            StrictVal::Union(t, v) => Some((t.clone(), &**v as *const _)),
            _ => None,
        }
    );
    same!(
        "option",
        acc(|| v.unwrap_option().map(|x| x as *const StrictVal)),
        match inner {
            StrictVal::Union(EnumTag::Ord(0), x) if **x == StrictVal::Unit => Some(None),
            StrictVal::Union(EnumTag::Ord(1), x) => Some(Some(&**x as *const _)),
            StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "none" && **x == StrictVal::Unit => Some(None),
            StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "some" => Some(Some(&**x as *const _)),
            _ => None,
        }
    );
    if let StrictVal::Map(m) = inner {
        for k in m.iter().map(|x| x.0.clone()).chain([StrictVal::num(77u8), StrictVal::Unit]) {
            let exp = m.iter().find(|x| x.0 == k).map(|x| &x.1 as *const StrictVal);
            same!("entry", acc(|| v.unwrap_key(k.clone()) as *const StrictVal), exp);
        }
    } else {
        same!("entry", acc(|| v.unwrap_key(7u8) as *const StrictVal), None);
    }
    Ok(())
}

pub fn constructors(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (a, b) = (any_val(r, 2), any_val(r, 1));
    let n = r.biased();
    let s = ident(r, false);
    macro_rules! same {
        ($got:expr, $exp:expr) => {{
            let (got, exp): (StrictVal, StrictVal) = ($got, $exp);
            ck!(got == exp, "{} constructs {} instead of {}", stringify!($got), show_val(&got), show_val(&exp));
        }};
    }
    let un = |n: u64| StrictVal::Number(StrictNum::Uint(n));
    let sn = |n: i64| StrictVal::Number(StrictNum::Int(n));
    same!(StrictVal::num(n), un(n));
    same!(StrictVal::num(n as u8), un(n as u8 as u64));
    same!(StrictVal::num(n as u16), un(n as u16 as u64));
    same!(StrictVal::num(n as u32), un(n as u32 as u64));
    same!(StrictVal::num(n as i8), sn(n as i8 as i64));
    same!(StrictVal::num(n as i16), sn(n as i16 as i64));
    same!(StrictVal::num(n as i32), sn(n as i32 as i64));
    same!(StrictVal::num(n as i64), sn(n as i64));
    same!(StrictVal::from(n), un(n));
    same!(StrictVal::from(n as u8), un(n as u8 as u64));
    same!(StrictVal::from(n as u16), un(n as u16 as u64));
    same!(StrictVal::from(n as u32), un(n as u32 as u64));
    same!(StrictVal::from(n as i8), sn(n as i8 as i64));
    same!(StrictVal::from(n as i16), sn(n as i16 as i64));
    same!(StrictVal::from(n as i32), sn(n as i32 as i64));
    same!(StrictVal::from(n as i64), sn(n as i64));
    same!(StrictVal::from(s.as_str()), StrictVal::String(s.clone()));
    same!(StrictVal::str(&s), StrictVal::String(s.clone()));
    same!(StrictVal::from(&a), a.clone());
    same!(StrictVal::from(()), StrictVal::Unit);
    same!(StrictVal::bytes(s.as_bytes()), StrictVal::Bytes(strict_types::value::Blob(s.clone().into_bytes())));
    same!(StrictVal::newtype(&a), StrictVal::Tuple(vec![a.clone()]));
    same!(StrictVal::tuple([&a, &b]), StrictVal::Tuple(vec![a.clone(), b.clone()]));
    same!(StrictVal::list([&b, &a]), StrictVal::List(vec![b.clone(), a.clone()]));
    same!(StrictVal::set([&a, &b]), StrictVal::Set(vec![a.clone(), b.clone()]));
    same!(
        StrictVal::map([(&a, &b), (&b, &a)]),
        StrictVal::Map(vec![(a.clone(), b.clone()), (b.clone(), a.clone())])
    );
    same!(
        StrictVal::struc([("second", &a), ("first", &b)]),
        StrictVal::Struct([(fname("second"), a.clone()), (fname("first"), b.clone())].into_iter().collect())
    );
    same!(StrictVal::enumer(n as u8), StrictVal::Enum(EnumTag::Ord(n as u8)));
    same!(StrictVal::enumer("name"), StrictVal::Enum(EnumTag::Name(vname("name"))));
    same!(StrictVal::bool(n & 1 == 1), StrictVal::Enum(EnumTag::Ord((n & 1) as u8)));
    same!(StrictVal::union(n as u8, &a), StrictVal::Union(EnumTag::Ord(n as u8), Box::new(a.clone())));
    same!(StrictVal::union("some", &a), StrictVal::Union(EnumTag::Name(vname("some")), Box::new(a.clone())));
    same!(StrictVal::some(&a), StrictVal::Union(EnumTag::Name(vname("some")), Box::new(a.clone())));
    same!(StrictVal::none(), StrictVal::Union(EnumTag::Name(vname("none")), Box::new(StrictVal::Unit)));
    same!(StrictVal::from(Some(&a)), StrictVal::Union(EnumTag::Name(vname("some")), Box::new(a.clone())));
    same!(StrictVal::from(None::<u8>), StrictVal::Union(EnumTag::Name(vname("none")), Box::new(StrictVal::Unit)));
    Ok(())
}

fn c17(cx: &mut Cx) -> R {
    let depth = cx.rng.below(7) as u32;
    let v = nested(&mut cx.rng, depth);
    cx.say(|| format!("{v:?}"));
    for _ in 0..3 {
        let p = existing(&mut cx.rng, &v);
        check_path(cx, &v, &p)?;
        let mut bad = p.clone();
        let s = wrong_step(&mut cx.rng);
        let at = cx.rng.us(bad.len() + 1);
        match cx.rng.below(4) {
            0 if at < bad.len() => bad[at] = s,
            1 => bad.insert(at, s),
            2 if at < bad.len() => {
                bad.remove(at);
            }
            3 if bad.len() > 1 => {
                let k = cx.rng.us(bad.len());
                bad.swap(at.min(p.len() - 1), k)
            }
            _ => bad.push(s),
        }
        check_path(cx, &v, &bad)?;
        // out of the bounds by one, and overflows
        if at < p.len() {
            let len = match walk(&v, &p[..at]) {
                Walk::Found(StrictVal::Tuple(x) | StrictVal::List(x) | StrictVal::Set(x)) => x.len() as u64,
                _ => 0,
            };
            let n = *cx.rng.pick(&[len, len.wrapping_sub(1), len + 256, 255, u32::MAX as u64]);
            let mut bad = p.clone();
            bad[at] = match &p[at] {
                Step::UnnamedField(_) => Step::UnnamedField(n as u8),
                Step::Index(_) => Step::Index(n as u32),
                s => s.clone(),
            };
            check_path(cx, &v, &bad)?;
        }
    }
    if cx.case % 8 == 0 {
        accessors(cx, &v)?;
        for _ in 0..3 {
            let v = any_val(&mut cx.rng, 1);
            let mut v = if cx.rng.chance(1, 5) {
                StrictVal::List((0..4).map(|_| StrictVal::Enum(EnumTag::Ord(cx.rng.below(130) as u8))).collect())
            } else if cx.rng.chance(1, 5) {
                let t = cx.rng.pick(&["none", "some", "other"]).to_string();
                let t = if cx.rng.coin() { EnumTag::Name(vname(&t)) } else { EnumTag::Ord(cx.rng.below(3) as u8) };
                StrictVal::Union(t, Box::new(if cx.rng.coin() { StrictVal::Unit } else { v }))
            } else if cx.rng.chance(1, 5) {
                let t = cx.rng.pick(&["true", "false", "other"]).to_string();
                StrictVal::Enum(if cx.rng.coin() { EnumTag::Name(vname(&t)) } else { EnumTag::Ord(cx.rng.below(3) as u8) })
            } else {
                v
            };
            for _ in 0..cx.rng.below(3) {
                v = StrictVal::Tuple(vec![v]);
            }
            accessors(cx, &v)?;
        }
        constructors(cx)?;
    }
    cx.sample(|| format!("{v}"));
    Ok(())
}
