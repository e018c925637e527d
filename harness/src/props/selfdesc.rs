//! C26 (binary forms of the objects of the crate conform to the library describing them)
use std::fmt::Debug;
use std::sync::OnceLock;

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::{LibName, StrictDecode, StrictEncode, StrictReader, StrictType, StrictWriter, TypeName};
use strict_types::ast;
use strict_types::layout::MemoryLayout;
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::typesys::{SymTy, Symbols, TypeFqn, TypeSymbol};
use strict_types::value::{EnumTag, KeyStep, Path, Step, StrictVal};
use strict_types::{
    Dependency, LibBuilder, SemId, SemVer, SymbolRef, SymbolicSys, SystemBuilder, Ty, TypeLib, TypeLibId, TypeSysId,
    TypeSystem,
};

use super::base::*;
use super::containers::same;
use crate::alloc;
use crate::cx::{hex, short, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

pub const C26: Prop = Prop {
    id: "C26",
    cases: (6_000, 150_000),
    run: c26,
    rule: "native encodings of libraries, type systems, symbols, layouts, ids and paths of random definitions are read with \
           the types of the bundled library and of its extension with the remaining types of the crate, compared with the \
           contents of the object and written back; the same for changed encodings which are accepted natively; \
           non-trivial: each distinct sequence of bytes",
    need: &[
        ("TypeLib", 5_000), ("SymbolicSys", 5_000), ("MemoryLayout", 5_000), ("Symbols", 4_000), ("TypeSystem", 4_000),
        ("Path", 4_000), ("type step", 4_000), ("SymbolRef", 2_000), ("changed and accepted", 5_000),
        ("changed and rejected", 20_000), ("types with contents compared", 20_000),
    ],
    level: "exploration",
    assume: &[],
};

struct Own {
    /// system of the bundled library
    bundled: SymbolicSys,
    /// the library, extended with the other types
    ext: SymbolicSys,
    /// another extension, since there are two types with the same name
    ext2: SymbolicSys,
}

fn system(libs: impl IntoIterator<Item = TypeLib>) -> Result<SymbolicSys, String> {
    let mut b = SystemBuilder::new();
    for lib in libs {
        b = b.import(lib).map_err(|e| format!("import: {e}"))?;
    }
    b.finalize().map_err(|e| format!("assembly: {e:?}"))
}

fn own() -> &'static Result<Own, String> {
    static OWN: OnceLock<Result<Own, String>> = OnceLock::new();
    OWN.get_or_init(|| {
        let new = || LibBuilder::with(LibName::from("StrictTypes"), [std_stl().to_dependency_types()]);
        let ext = new()
            .transpile::<TypeLib>()
            .transpile::<SymbolicSys>()
            .transpile::<MemoryLayout>()
            .transpile::<SymTy>()
            .transpile::<TypeSymbol>()
            .transpile::<SymbolRef>()
            .transpile::<SemVer>()
            .transpile::<Path>()
            .compile()
            .map_err(|e| format!("extended library: {e}"))?;
        let ext2 = new()
            .transpile::<TypeLib>()
            .transpile::<ast::Step>()
            .compile()
            .map_err(|e| format!("extended library: {e}"))?;
        Ok(Own {
            bundled: system([std_stl(), strict_types_stl()])?,
            ext: system([std_stl(), ext])?,
            ext2: system([std_stl(), ext2])?,
        })
    })
}

fn native<T: StrictEncode>(obj: &T) -> Result<Vec<u8>, String> {
    let w = obj.strict_encode(StrictWriter::in_memory::<MAX>()).map_err(|e| e.to_string())?;
    Ok(w.unbox().unconfine())
}

fn native_read<T: StrictDecode>(d: &[u8]) -> Result<T, String> {
    let mut r = StrictReader::in_memory::<MAX>(d);
    let x = T::strict_decode(&mut r).map_err(|e| e.to_string())?;
    match r.into_cursor().position() as usize == d.len() {
        true => Ok(x),
        false => Err("not consumed".into()),
    }
}

fn described(sys: &TypeSystem, id: SemId, d: &[u8]) -> Result<StrictVal, String> {
    let tv = sys.strict_deserialize_type(id, d).map_err(|e| format!("{e:?}"))?;
    let out = ser(sys, &tv).map_err(|e| format!("write: {e}"))?;
    if out != d {
        return Err(format!("written as {}", hex(&out)));
    }
    // The value read is a value of the type
    let v = tv.as_val().clone();
    let again = sys.typify(v.clone(), id).map_err(|e| format!("typify: {e:?}"))?;
    let out = ser(sys, &again).map_err(|e| format!("write: {e}"))?;
    match out == d {
        true => Ok(v),
        false => Err(format!("typified value is written as {}", hex(&out))),
    }
}

fn check<T>(cx: &mut Cx, sys: &SymbolicSys, what: &'static str, obj: &T) -> R<Option<StrictVal>>
where
    T: StrictEncode + StrictDecode + StrictType + PartialEq + Debug,
{
    let name = T::strict_name().map(|n| n.to_string());
    let name = format!("StrictTypes.{}", name.expect("harness: named type"));
    let fqn = TypeFqn::with(lname("StrictTypes"), tname(name.strip_prefix("StrictTypes.").unwrap()));
    let id = match sys.resolve(fqn) {
        Some(id) => *id,
        None => fail!("there is no type {name} in the library"),
    };
    let types = sys.as_types();
    let d = must!(native(obj), "encoding of {what}");
    let back: T = must!(native_read(&d), "reading of {what} {}", hex(&d));
    ck!(same(&back, obj), "{what} {} is read as {}", short(&format!("{obj:?}")), short(&format!("{back:?}")));
    cx.count(what);
    cx.eval(&d);
    cx.say(|| format!("{name} {}", hex(&d)));
    let v = must!(described(types, id, &d), "{name} {obj:?}: reading of {} as a value", hex(&d));
    for _ in 0..4 {
        let mut x = d.clone();
        mutate_bytes(&mut cx.rng, &mut x);
        cx.eval(&x);
        let (got, mem) = alloc::observe(|| native_read::<T>(&x));
        ck!(
            alloc::within(mem, x.len()),
            "reading {} bytes as {name} reserved {} bytes at once, {} in total: {}",
            x.len(),
            mem.max_single,
            mem.peak,
            hex(&x)
        );
        if let Ok(o) = got {
            let again = must!(native(&o), "encoding of {name}");
            ck!(again == x, "{name} read from {} is encoded as {}", hex(&x), hex(&again));
            cx.count("changed and accepted");
            must!(described(types, id, &x), "{name} {}: reading of {} as a value", short(&format!("{o:?}")), hex(&x));
        } else {
            // The description doesn't tell of all the requirements
            let _ = described(types, id, &x);
            cx.count("changed and rejected");
        }
    }
    Ok(Some(v))
}

fn field<'v>(v: &'v StrictVal, name: &str) -> Option<&'v StrictVal> {
    match v {
        StrictVal::Struct(f) => f.iter().find(|(n, _)| n.as_str() == name).map(|(_, v)| v),
        _ => None,
    }
}
fn bytes(v: &StrictVal) -> Option<&[u8]> {
    match v {
        StrictVal::Bytes(b) => Some(&b.0),
        StrictVal::Tuple(f) if f.len() == 1 => bytes(&f[0]),
        _ => None,
    }
}
fn text(v: &StrictVal) -> Option<&str> {
    match v {
        StrictVal::String(s) => Some(s),
        StrictVal::Tuple(f) if f.len() == 1 => text(&f[0]),
        _ => None,
    }
}
fn entries(v: &StrictVal) -> Option<&[(StrictVal, StrictVal)]> {
    match v {
        StrictVal::Map(m) => Some(m),
        StrictVal::Tuple(f) if f.len() == 1 => entries(&f[0]),
        _ => None,
    }
}
fn items(v: &StrictVal) -> Option<&[StrictVal]> {
    match v {
        StrictVal::Set(m) | StrictVal::List(m) => Some(m),
        StrictVal::Tuple(f) if f.len() == 1 => items(&f[0]),
        _ => None,
    }
}
fn class(t: &MTy) -> &'static str {
    match t {
        MTy::Prim(_) => "primitive",
        MTy::Unicode => "unicode",
        MTy::Enum(_) => "enum",
        MTy::Union(_) => "union",
        MTy::Tuple(_) => "tuple",
        MTy::Struct(_) => "struct",
        MTy::Array(..) => "array",
        MTy::List(..) => "list",
        MTy::Set(..) => "set",
        MTy::Map(..) => "map",
    }
}
fn is_class(v: &StrictVal, t: &MTy) -> bool {
    matches!(v, StrictVal::Union(EnumTag::Name(n), _) if n.as_str() == class(t))
}

fn type_step(r: &mut Rng) -> ast::Step {
    match r.below(8) {
        0 => ast::Step::NamedField(fname(&ident(r, false))),
        1 => ast::Step::UnnamedField(r.biased() as u8),
        2 => ast::Step::Variant(vname(&ident(r, false))),
        3 => ast::Step::Index,
        4 => ast::Step::List,
        5 => ast::Step::Set,
        6 => ast::Step::MapKey,
        _ => ast::Step::MapValue,
    }
}

/// Path having numeric keys up to the limit
pub fn value_path(r: &mut Rng, limit: u128) -> Path {
    let n = r.below(6) as usize;
    let mut p = Path::new();
    for _ in 0..n {
        let s = match r.below(6) {
            0 => Step::NamedField(fname(&ident(r, false))),
            1 => Step::UnnamedField(r.biased() as u8),
            2 => Step::Index(r.biased() as u32),
            3 if limit > 0 => {
                let n = r.biased() as u128 * if r.coin() { 1 } else { u64::MAX as u128 };
                Step::Key(KeyStep::Number(n.min(limit)))
            }
            3 | 4 => {
                let n = *r.pick(&[0usize, 1, 5, 32, 255]);
                let b = r.bytes(n);
                Step::Key(KeyStep::TinyBlob(Confined::try_from(b).unwrap()))
            }
            _ => {
                let s: String = (0..r.below(6)).map(|_| char_any(r)).collect();
                Step::Key(KeyStep::TinyString(Confined::try_from(s).unwrap()))
            }
        };
        p.push(s).expect("harness: path");
    }
    p
}

/// Binary form of the path, according to the specification
pub fn path_bytes(p: &Path) -> Vec<u8> {
    let mut d = (p.iter().count() as u16).to_le_bytes().to_vec();
    for s in p {
        match s {
            Step::NamedField(n) => {
                d.push(0);
                crate::wire::name(&mut d, n.as_str());
            }
            Step::UnnamedField(n) => d.extend([1, *n]),
            Step::Index(n) => {
                d.push(2);
                d.extend(n.to_le_bytes());
            }
            Step::Key(KeyStep::Number(n)) => {
                d.extend([3, 0]);
                d.extend(n.to_le_bytes());
            }
            Step::Key(KeyStep::TinyBlob(b)) => {
                d.extend([3, 1, b.len() as u8]);
                d.extend(b.as_slice());
            }
            Step::Key(KeyStep::TinyString(s)) => {
                d.extend([3, 2, s.len() as u8]);
                d.extend(s.as_bytes());
            }
            _ => panic!("harness: step"),
        }
    }
    d
}

/// Binary form of the step in a type, according to the specification
fn type_step_bytes(s: &ast::Step) -> Vec<u8> {
    use ast::Step as S;
    let mut d = vec![];
    match s {
        S::NamedField(n) => {
            d.push(0);
            crate::wire::name(&mut d, n.as_str());
        }
        S::UnnamedField(n) => d.extend([1, *n]),
        S::Variant(n) => {
            d.push(2);
            crate::wire::name(&mut d, n.as_str());
        }
        S::Index => d.push(3),
        S::List => d.push(4),
        S::Set => d.push(5),
        S::MapKey => d.push(6),
        S::MapValue => d.push(7),
    }
    d
}

fn c26(cx: &mut Cx) -> R {
    let own = match own() {
        Ok(own) => own,
        Err(e) => fail!("library of the types of the crate: {e}"),
    };
    let mut o = Opts::LIBS;
    o.types = 4;
    o.libs = 2;
    let e = Env::gen(cx, o)?;
    let sys = &own.bundled;

    for l in 0..e.w.libs.len() {
        let lib = &e.libs[l];
        // The extension has the same type
        let s = if cx.rng.coin() { sys } else { &own.ext };
        let Some(v) = check(cx, s, "TypeLib", lib)? else { continue };
        ck!(
            field(&v, "name").and_then(text) == Some(e.w.libs[l].as_str()),
            "name of the library {} in the value {}",
            e.w.libs[l],
            show_val(&v)
        );
        let deps = field(&v, "dependencies").and_then(items).unwrap_or_default();
        let mut got: Vec<(Vec<u8>, String)> = deps
            .iter()
            .filter_map(|d| {
                Some((field(d, "id").and_then(bytes)?.to_vec(), field(d, "name").and_then(text)?.to_string()))
            })
            .collect();
        let mut exp: Vec<(Vec<u8>, String)> = e.w.deps(l)
            .into_iter()
            .map(|d| (e.lib_ids[d].to_vec(), e.w.libs[d].clone()))
            .collect();
        got.sort();
        exp.sort();
        ck!(got == exp, "dependencies of {} in the value {}", e.w.libs[l], show_val(&v));
        let types = field(&v, "types").and_then(entries).unwrap_or_default();
        let named = e.w.named(l);
        ck!(types.len() == named.len(), "number of types of {} in the value {}", e.w.libs[l], show_val(&v));
        for t in named {
            let n = e.w.nodes[t].name.as_deref().unwrap();
            let ty = types.iter().find(|(k, _)| text(k) == Some(n));
            ck!(
                ty.is_some_and(|x| is_class(&x.1, e.w.ty(t))),
                "type {n} = {} in the value {}",
                e.show(t),
                show_val(&v)
            );
            cx.count("types with contents compared");
        }
        for dep in &lib.dependencies {
            check::<Dependency>(cx, sys, "Dependency", dep)?;
        }
    }
    let v = check(cx, sys, "SymbolicSys", &e.sym)?.unwrap();
    let all = e.w.closure(e.w.all_named());
    let types = field(&v, "types").and_then(entries).unwrap_or_default();
    for t in &all {
        let ty = types.iter().find(|(k, _)| bytes(k) == Some(&e.ids[*t]));
        ck!(
            ty.is_some_and(|x| is_class(&x.1, e.w.ty(*t))),
            "type {} in the value of the system {}",
            e.show(*t),
            short(&show_val(&v))
        );
        cx.count("types with contents compared");
    }
    check::<TypeSystem>(cx, sys, "TypeSystem", e.types())?;
    check::<Symbols>(cx, sys, "Symbols", e.sym.as_symbols())?;

    let t = pick_type(cx, &e.w);
    let id = e.sem(t);
    let v = check::<SemId>(cx, sys, "SemId", &id)?.unwrap();
    ck!(bytes(&v) == Some(&e.ids[t]), "id {id} in the value {}", show_val(&v));
    check::<TypeLibId>(cx, sys, "TypeLibId", &TypeLibId::from_byte_array(e.lib_ids[0]))?;
    check::<TypeSysId>(cx, sys, "TypeSysId", &e.sym.id())?;
    let ty: &Ty<SemId> = &e.types()[id];
    let v = check::<Ty<SemId>>(cx, sys, "Ty", ty)?.unwrap();
    ck!(is_class(&v, e.w.ty(t)), "type {} in the value {}", e.show(t), show_val(&v));
    let fqn = e.w.nodes[t].name.as_ref().map(|n| TypeFqn::with(lname(&e.w.libs[e.w.nodes[t].lib]), tname(n)));
    if let Some(fqn) = &fqn {
        check(cx, sys, "TypeFqn", fqn)?;
        check(cx, sys, "TypeSymbol", &TypeSymbol::with(id, fqn.clone()))?;
        let r = SymbolRef::with(fqn.lib.clone(), fqn.name.clone(), TypeLibId::from_byte_array(e.lib_ids[0]), id);
        check(cx, sys, "SymbolRef", &r)?;
        check::<LibName>(cx, sys, "names", &fqn.lib)?;
        check::<TypeName>(cx, sys, "names", &fqn.name)?;
    }
    check(cx, sys, "TypeSymbol", &TypeSymbol::unnamed(id))?;
    check(cx, &own.ext, "SymTy", &SymTy::with(fqn, ty.clone()))?;
    let tree = must!(e.sym.type_tree(id).ok_or("no tree"), "tree of {}", e.show(t));
    let layout = MemoryLayout::from(&tree);
    check(cx, sys, "MemoryLayout", &layout)?;

    let p = value_path(&mut cx.rng, 0);
    let v = check(cx, &own.ext, "Path", &p)?.unwrap();
    ck!(
        items(&v).map(|l| l.len()) == Some(p.iter().count()),
        "path {p:?} in the value {}",
        show_val(&v)
    );
    let exp = path_bytes(&p);
    ck!(native(&p).as_ref() == Ok(&exp), "path {p:?} is encoded as {:?} and not {}", native(&p), hex(&exp));
    let p = type_step(&mut cx.rng);
    check(cx, &own.ext2, "type step", &p)?;
    let exp = type_step_bytes(&p);
    ck!(native(&p).as_ref() == Ok(&exp), "step {p:?} is encoded as {:?} and not {}", native(&p), hex(&exp));
    // numbers wider than supported by the reader of values
    let p = value_path(&mut cx.rng, u128::MAX);
    let exp = path_bytes(&p);
    ck!(native(&p).as_ref() == Ok(&exp), "path {p:?} is encoded as {:?} and not {}", native(&p), hex(&exp));
    ck!(native_read::<Path>(&exp).as_ref() == Ok(&p), "path {p:?} is read as {:?}", native_read::<Path>(&exp));
    Ok(())
}
