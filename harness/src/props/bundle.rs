//! C23 (bundled libraries)
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use amplify::confinement::Confined;
use sha2::{Digest, Sha256};
use strict_encoding::stl::*;
use strict_encoding::{FieldName, Ident, LibName, StrictDeserialize, StrictSerialize, StrictType, TypeName, VariantName, U1, U5};
use strict_types::layout::MemoryLayout;
use strict_types::stl::{
    std_stl, std_sym, strict_types_stl, strict_types_sym, LIB_ID_STD, LIB_ID_STRICT_TYPES,
};
use strict_types::typesys::TypeFqn;
use strict_types::{
    LibBuilder, SemId, StlFormat, SymbolRef, SymbolicLib, SymbolicSys, SystemBuilder, TypeLib, TypeSymbol, TypeSysId,
};

use super::base::*;
use super::libs::same_lib;
use crate::cx::{hex, short, Cx, R};
use crate::model::*;
use crate::Prop;

pub const C23: Prop = Prop {
    id: "C23",
    cases: (560, 10_000),
    run: c23,
    rule: "the bundled libraries are built in this and other processes, from their types listed in random orders and with \
           repetitions, with the command-line tools and with the library functions, and compared with the published \
           artefacts, constants and ids; non-trivial: each distinct history (order, process, tool with its arguments)",
    need: &[
        ("artefacts", 6), ("tool runs", 20), ("refused tool runs", 5), ("processes", 50), ("orders of Std", 50),
        ("orders of StrictTypes", 50), ("orders of import", 50), ("threads", 20), ("resolved references", 500), ("layouts", 50),
    ],
    level: "exploration",
    assume: &["published artefacts are the files in the directory stl of the source tree"],
};

// Published in the documentation of the libraries, and in those libraries which depend on these
const STD_ID: &str = "stl:gonrTQ8L-cFSvdEs-F6MHXnS-MDplxjy-8_lZ5j5-_lY8MWo#delete-roman-hair";
const STRICT_TYPES_ID: &str = "stl:6Z6S5ztA-l3_RfoW-uOIW~K0-04t7R_3-KIiByhE-1W4rPFA#henry-heart-survive";
const SYS_ID: &str = "sts:C23wmi5~-tKVKlvP-gsCN3kG-j_tJn5J-l0XvsKF-hRhNUf8#episode-fiction-samuel";

/// Name of a type and its compilation
type Step = (fn() -> String, fn(LibBuilder) -> LibBuilder);
macro_rules! steps {
    ($($t:ty),+ $(,)?) => { &[$( (|| <$t as StrictType>::strict_name().expect("named").to_string(), |b| b.transpile::<$t>()) ),+] };
}
const STD: &[Step] = steps![
    Bool, U1, U2, U3, U4, U5, U6, U7, AsciiSym, AsciiPrintable, Alpha, AlphaDot, AlphaDash, AlphaLodash, AlphaCaps,
    AlphaCapsDot, AlphaCapsDash, AlphaCapsLodash, AlphaSmall, AlphaSmallDot, AlphaSmallDash, AlphaSmallLodash, Dec, DecDot,
    HexDecCaps, HexDecSmall, AlphaNum, AlphaCapsNum, AlphaNumDot, AlphaNumDash, AlphaNumLodash,
];
const STRICT_TYPES: &[Step] = steps![
    Ident, TypeName, FieldName, VariantName, LibName, SymbolRef, TypeLib, TypeSysId, TypeSymbol, SymbolicSys, MemoryLayout,
];

const STD_HEADER: &str = "
  Description: Strict types standard library
  Author: Dr Maxim Orlovsky <orlovsky@ubideco.org>
  Copyright (C) 2023-2024 UBIDECO Institute. All rights reserved.
  License: Apache-2.0";
const STRICT_TYPES_HEADER: &str = "
  Description: Confined generalized algebraic data types (GADT)
  Author: Dr Maxim Orlovsky <orlovsky@ubideco.org>
  Copyright (C) 2023-2024 UBIDECO Institute. All rights reserved.
  License: Apache-2.0";
const LAYOUT_HEADER: &str = "{-
  Description: Data type layout in Vesper language
  Author: Dr Maxim Orlovsky <orlovsky@ubideco.org>
  Copyright (C) 2024 UBIDECO Institute. All rights reserved.
  License: Apache-2.0
-}

StrictTypes vesper lexicon=types

";

fn sha(d: impl AsRef<[u8]>) -> String {
    hex(&Sha256::digest(d.as_ref()))
}
fn artefacts() -> PathBuf {
    PathBuf::from("/repo/stl")
}
fn bytes<T: StrictSerialize>(x: &T) -> Result<Vec<u8>, String> {
    x.to_strict_serialized::<MAX>().map(|b| b.release()).map_err(|e| e.to_string())
}
fn system(libs: &[TypeLib]) -> Result<SymbolicSys, String> {
    let mut b = SystemBuilder::new();
    for lib in libs {
        b = b.import(lib.clone()).map_err(|e| format!("import of {}: {e}", lib.name))?;
    }
    b.finalize().map_err(|e| format!("assembly: {e:?}"))
}

fn names(libs: &[TypeLib]) -> Vec<TypeFqn> {
    let all = libs.iter().flat_map(|l| l.types.keys().map(|n| TypeFqn::with(l.name.clone(), n.clone())));
    all.collect()
}

/// Everything which has to be the same in each run
fn facts() -> Result<BTreeMap<String, String>, String> {
    let mut f = BTreeMap::new();
    let libs = [std_stl(), strict_types_stl()];
    for (lib, sym) in [(&libs[0], std_sym()), (&libs[1], strict_types_sym())] {
        let n = lib.name.to_string();
        f.insert(format!("{n} id"), lib.id().to_string());
        f.insert(format!("{n} bytes"), sha(bytes(lib)?));
        f.insert(format!("{n} text"), sha(lib.to_string()));
        f.insert(format!("{n} armor"), sha(armor::AsciiArmor::to_ascii_armored_string(lib)));
        f.insert(format!("{n} symbolic bytes"), sha(bytes(&sym)?));
        f.insert(format!("{n} symbolic text"), sha(sym.to_string()));
        f.insert(format!("{n} compiled"), sym.clone().compile().map_err(|e| e.to_string())?.id().to_string());
        f.insert(
            format!("{n} converted"),
            sha(lib.to_symbolic().map_err(|e| e.to_string())?.to_string()),
        );
    }
    let sys = system(&libs)?;
    f.insert("system id".into(), sys.id().to_string());
    f.insert("system bytes".into(), sha(bytes(&sys)?));
    f.insert("system text".into(), sha(sys.to_string()));
    f.insert("system types".into(), sys.as_types().count_types().to_string());
    for fqn in names(&libs) {
        let id = sys.resolve(fqn.clone()).ok_or_else(|| format!("{fqn} is absent"))?;
        let tree = sys.type_tree(fqn.clone()).ok_or_else(|| format!("no tree of {fqn}"))?;
        let n: usize = tree.iter().count();
        f.insert(format!("{fqn}"), format!("{id} {n}"));
    }
    let tree = sys.type_tree("StrictTypes.TypeLib").ok_or("no tree of StrictTypes.TypeLib")?;
    f.insert("layout".into(), sha(tree.to_string()));
    Ok(f)
}
fn own_facts() -> R<&'static BTreeMap<String, String>> {
    static F: OnceLock<Result<BTreeMap<String, String>, String>> = OnceLock::new();
    match F.get_or_init(facts) {
        Ok(f) => Ok(f),
        Err(m) => fail!("bundled libraries: {m}"),
    }
}
fn libs() -> &'static [TypeLib; 2] {
    static L: OnceLock<[TypeLib; 2]> = OnceLock::new();
    L.get_or_init(|| [std_stl(), strict_types_stl()])
}

pub fn probe_facts() -> ! {
    match facts() {
        Ok(f) => {
            for (k, v) in f {
                println!("{k}={v}");
            }
            std::process::exit(0)
        }
        Err(m) => {
            println!("{m}");
            std::process::exit(1)
        }
    }
}

fn same_facts(f: &BTreeMap<String, String>, what: &str) -> R {
    let own = own_facts()?;
    for (k, v) in own {
        ck!(f.get(k) == Some(v), "{k} is {:?} in {what}, and {v} in this process", f.get(k));
    }
    ck!(f.len() == own.len(), "{what} has other facts");
    Ok(())
}

fn constants(cx: &mut Cx) -> R {
    let f = own_facts()?;
    for (k, v) in [
        ("Std id", STD_ID), ("StrictTypes id", STRICT_TYPES_ID), ("system id", SYS_ID), ("Std compiled", STD_ID),
        ("StrictTypes compiled", STRICT_TYPES_ID),
    ] {
        ck!(f[k] == v, "{k} is {} instead of the published {v}", f[k]);
    }
    ck!(LIB_ID_STD == STD_ID, "constant LIB_ID_STD is {LIB_ID_STD}");
    ck!(LIB_ID_STRICT_TYPES == STRICT_TYPES_ID, "constant LIB_ID_STRICT_TYPES is {LIB_ID_STRICT_TYPES}");
    cx.eval(b"constants");
    let names = |l: &[Step]| l.iter().map(|(n, _)| n()).collect::<BTreeSet<_>>();
    for (k, list) in [STD, STRICT_TYPES].iter().enumerate() {
        let have: BTreeSet<String> = libs()[k].types.keys().map(|n| n.to_string()).collect();
        for n in names(list) {
            ck!(have.contains(&n), "{} has no type {n}", libs()[k].name);
        }
    }
    Ok(())
}

fn read_artefact(name: &str) -> R<Vec<u8>> {
    match std::fs::read(artefacts().join(name)) {
        Ok(d) => Ok(d),
        Err(e) => fail!("published artefact {name}: {e}"),
    }
}

fn published(cx: &mut Cx) -> R {
    for (lib, id) in [(&libs()[0], STD_ID), (&libs()[1], STRICT_TYPES_ID)] {
        let n = format!("{}@0.1.0", lib.name);
        let d = read_artefact(&format!("{n}.stl"))?;
        let conf = Confined::try_from(d.clone()).expect("harness: size");
        let read: TypeLib = must!(TypeLib::from_strict_serialized::<MAX>(conf), "read {n}.stl");
        ck!(read.id().to_string() == id, "{n}.stl has a library with id {}", read.id());
        same_lib(&read, lib)?;
        ck!(must!(bytes(lib), "serialize {n}") == d, "{n} is serialized differently from {n}.stl");
        cx.count("artefacts");

        let d = String::from_utf8_lossy(&read_artefact(&format!("{n}.sta"))?).into_owned();
        let read: TypeLib = must!(<TypeLib as armor::AsciiArmor>::from_ascii_armored_str(d.trim_end()), "read {n}.sta");
        ck!(read.id().to_string() == id, "{n}.sta has a library with id {}", read.id());
        same_lib(&read, lib)?;
        ck!(
            d.lines().any(|l| l == format!("Id: {id}")),
            "{n}.sta does not state id {id}"
        );
        ck!(
            format!("{}\n", armor::AsciiArmor::to_ascii_armored_string(lib)) == d,
            "{n} is armored differently from {n}.sta"
        );
        cx.count("artefacts");

        let d = String::from_utf8_lossy(&read_artefact(&format!("{n}.sty"))?).into_owned();
        let header = if lib.name.as_str() == "Std" { STD_HEADER } else { STRICT_TYPES_HEADER };
        let sym: SymbolicLib = must!(lib.to_symbolic(), "symbolic form");
        let exp = format!("{{-\n  Id: {:+}\n  Name: {}\n  Version: 0.1.0{header}\n-}}\n\n{sym}\n", lib.id(), lib.name);
        ck!(exp == d, "source of {n} differs from {n}.sty: {}", first_difference(&exp, &d));
        cx.count("artefacts");
        cx.eval(&n);
    }
    let d = String::from_utf8_lossy(&read_artefact("TypeLib.vesper")?).into_owned();
    let sys = must!(system(libs()), "system of the bundled libraries");
    let tree = must!(sys.type_tree("StrictTypes.TypeLib"), "tree of TypeLib");
    let exp = format!("{LAYOUT_HEADER}{tree}");
    ck!(exp == d, "layout of TypeLib differs from TypeLib.vesper: {}", first_difference(&exp, &d));
    let exp = format!("{LAYOUT_HEADER}{}", tree.to_layout());
    ck!(
        exp == d,
        "memory layout of TypeLib differs from TypeLib.vesper: {}",
        first_difference(&exp, &d)
    );
    cx.count("layouts");
    cx.eval(b"TypeLib.vesper");
    Ok(())
}

fn first_difference(a: &str, b: &str) -> String {
    for (k, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return short(&format!("line {}: {x:?} and {y:?}", k + 1));
        }
    }
    format!("lengths {} and {}", a.len(), b.len())
}

/// Every reference made anywhere in the system leads to a type
fn complete(cx: &mut Cx, sys: &SymbolicSys) -> R {
    let mut queue: Vec<SemId> = names(libs()).into_iter().filter_map(|n| sys.resolve(n).copied()).collect();
    let mut seen = BTreeSet::new();
    while let Some(id) = queue.pop() {
        if !seen.insert(id) {
            continue;
        }
        let Some(ty) = sys.as_types().get(id) else {
            fail!("type {id} is absent from the system of bundled libraries");
        };
        queue.extend(ty.type_refs().map(|(id, _)| *id));
        cx.count("resolved references");
    }
    ck!(
        seen.len() == sys.as_types().count_types().into_usize(),
        "system of bundled libraries has {} types, and {} are reached",
        sys.as_types().count_types(),
        seen.len()
    );
    for lib in libs() {
        for name in lib.types.keys() {
            let fqn = TypeFqn::with(lib.name.clone(), name.clone());
            ck!(sys.get(fqn.clone()).is_some(), "{fqn} is absent from the system of bundled libraries");
        }
    }
    Ok(())
}

struct Run {
    ok: bool,
    out: Vec<u8>,
    err: String,
    files: BTreeMap<String, Vec<u8>>,
}
fn tool(cx: &Cx, name: &str, args: &[&str], dirs: &[&str]) -> Run {
    let exe = std::env::current_exe().expect("harness: own path");
    let exe = exe.parent().expect("directory").join(name);
    let cwd = cx.scratch.join("tool");
    let _ = std::fs::remove_dir_all(&cwd);
    std::fs::create_dir_all(&cwd).expect("harness: scratch");
    for d in dirs {
        std::fs::create_dir_all(cwd.join(d)).expect("harness: scratch");
    }
    let out = Command::new(&exe).args(args).current_dir(&cwd).stdin(Stdio::null()).output().expect("harness: tool");
    let mut files = BTreeMap::new();
    collect(&cwd, &cwd, &mut files);
    let _ = std::fs::remove_dir_all(&cwd);
    Run {
        ok: out.status.success(),
        out: out.stdout,
        err: String::from_utf8_lossy(&out.stderr).into_owned(),
        files,
    }
}
fn collect(base: &Path, dir: &Path, files: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).expect("harness: scratch") {
        let p = e.expect("harness: scratch").path();
        if p.is_dir() {
            collect(base, &p, files);
        } else {
            let n = p.strip_prefix(base).expect("prefix").to_string_lossy().into_owned();
            files.insert(n, std::fs::read(&p).expect("harness: scratch"));
        }
    }
}

fn tools(cx: &mut Cx) -> R {
    let (name, lib) = if cx.rng.coin() { ("std-stl", "Std") } else { ("strict-stl", "StrictTypes") };
    let f = *cx.rng.pick(&["stl", "sta", "sty"]);
    let flag = if cx.rng.chance(1, 4) { f.to_string() } else { format!("--{f}") };
    let file = format!("{lib}@0.1.0.{f}");
    match cx.rng.below(6) {
        0 => {
            // prints the source
            let r = tool(cx, name, &[], &[]);
            ck!(r.ok, "{name}: {}", r.err);
            let exp = read_artefact(&format!("{lib}@0.1.0.sty"))?;
            ck!(r.out == exp, "{name} prints something different from {lib}@0.1.0.sty");
            ck!(r.files.is_empty(), "{name} creates files {:?}", r.files.keys());
            cx.eval(name);
        }
        1 | 2 => {
            let r = tool(cx, name, &[&flag], &["stl"]);
            ck!(r.ok, "{name} {flag}: {}", r.err);
            let exp = BTreeMap::from([(format!("stl/{file}"), read_artefact(&file)?)]);
            ck!(
                r.files == exp,
                "{name} {flag} creates {:?} with contents different from the published",
                r.files.keys()
            );
            cx.eval(format!("{name} {flag}"));
        }
        3 => {
            let dir = *cx.rng.pick(&[".", "other", "some/place"]);
            let r = tool(cx, name, &[&flag, dir], &[dir]);
            ck!(r.ok, "{name} {flag} {dir}: {}", r.err);
            let path = if dir == "." { file.clone() } else { format!("{dir}/{file}") };
            let exp = BTreeMap::from([(path, read_artefact(&file)?)]);
            ck!(
                r.files == exp,
                "{name} {flag} {dir} creates {:?} with contents different from the published",
                r.files.keys()
            );
            cx.eval(format!("{name} {flag} {dir}"));
        }
        4 => {
            let r = tool(cx, "strict-vesper", &[], &["stl"]);
            ck!(r.ok, "strict-vesper: {}", r.err);
            let exp = BTreeMap::from([("stl/TypeLib.vesper".to_string(), read_artefact("TypeLib.vesper")?)]);
            ck!(
                r.files == exp,
                "strict-vesper creates {:?} with contents different from the published",
                r.files.keys()
            );
            cx.eval("strict-vesper");
        }
        _ => {
            // nothing may look like a success
            let (args, dirs): (&[&str], &[&str]) = match cx.rng.below(4) {
                0 => (&["--bin"], &["stl"]),
                1 => (&["--stl", "x", "y"], &["x", "y", "stl"]),
                2 => (&["--stl"], &[]),
                _ => (&["--sty", "absent/place"], &["stl"]),
            };
            let r = tool(cx, name, args, dirs);
            ck!(!r.ok, "{name} {args:?} reports a success");
            ck!(r.files.is_empty(), "{name} {args:?} creates {:?}", r.files.keys());
            cx.eval(format!("{name} {args:?}"));
            cx.count("refused tool runs");
        }
    }
    cx.count("tool runs");
    Ok(())
}

fn other_process(cx: &mut Cx) -> R {
    let exe = std::env::current_exe().expect("harness: own path");
    let out = Command::new(exe).args(["probe", "facts"]).output().expect("harness: probe");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    ck!(
        out.status.success(),
        "bundled libraries in another process: {} {}",
        short(&text),
        short(&String::from_utf8_lossy(&out.stderr))
    );
    let f = text
        .lines()
        .filter_map(|l| l.split_once('='))
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect();
    cx.count("processes");
    cx.eval(format!("process {}", cx.case));
    same_facts(&f, "another process")
}

fn build(cx: &mut Cx, which: usize, partial: bool) -> R {
    let list = [STD, STRICT_TYPES][which];
    let name = ["Std", "StrictTypes"][which];
    let mut order: Vec<usize> = (0..list.len()).collect();
    cx.rng.shuffle(&mut order);
    if partial {
        let n = 1 + cx.rng.us(list.len());
        order.truncate(n);
    } else {
        for _ in 0..cx.rng.below(6) {
            let k = cx.rng.us(list.len());
            let at = cx.rng.us(order.len());
            order.insert(at, k);
        }
    }
    let deps = if which == 0 { vec![] } else { vec![libs()[0].to_dependency_types()] };
    let mut b = LibBuilder::with(lname(name), deps);
    for k in &order {
        b = (list[*k].1)(b);
    }
    let shown: Vec<String> = order.iter().map(|k| (list[*k].0)()).collect();
    let lib = must!(b.compile(), "compile {name} from {shown:?}");
    let full = &libs()[which];
    if partial {
        for (n, ty) in &lib.types {
            ck!(full.types.get(n) == Some(ty), "{name}.{n} compiled from {shown:?} is different");
        }
        for n in &shown {
            ck!(lib.types.keys().any(|k| k.as_str() == n), "{name} compiled from {shown:?} has no type {n}");
        }
        cx.count("parts");
    } else {
        ck!(lib.id() == full.id(), "{name} compiled from {shown:?} has id {}", lib.id());
        same_lib(&lib, full)?;
    }
    cx.count(&format!("orders of {name}"));
    cx.eval(format!("{name} {shown:?}"));
    cx.sample(|| format!("{name} from {shown:?}"));
    Ok(())
}

fn import(cx: &mut Cx) -> R {
    let own = own_facts()?;
    let mut order = vec![0, 1];
    cx.rng.shuffle(&mut order);
    for _ in 0..cx.rng.below(3) {
        order.push(cx.rng.us(2));
    }
    let list: Vec<TypeLib> = order.iter().map(|k| libs()[*k].clone()).collect();
    let sys = must!(system(&list), "system from {order:?}");
    ck!(sys.id().to_string() == own["system id"], "system imported in the order {order:?} has id {}", sys.id());
    ck!(
        sha(must!(bytes(&sys), "serialize")) == own["system bytes"],
        "system imported in the order {order:?} has different contents"
    );
    complete(cx, &sys)?;
    // layouts do not depend on anything but the type
    let fqn = cx.rng.pick(&names(libs())).clone();
    let tree = must!(sys.type_tree(fqn.clone()), "tree of {fqn}");
    let n = tree.iter().count();
    let id = must!(sys.resolve(fqn.clone()), "{fqn}");
    ck!(own[&fqn.to_string()] == format!("{id} {n}"), "tree of {fqn} has {n} entries");
    cx.count("layouts");
    cx.count("orders of import");
    cx.eval(format!("{order:?} {fqn}"));
    Ok(())
}

fn threads(cx: &mut Cx) -> R {
    let all: Vec<_> = (0..4).map(|_| std::thread::spawn(facts)).collect();
    for h in all {
        match h.join() {
            Ok(Ok(f)) => same_facts(&f, "another thread")?,
            Ok(Err(m)) => fail!("bundled libraries in another thread: {m}"),
            Err(_) => fail!("bundled libraries in another thread: panic"),
        }
        cx.count("threads");
    }
    cx.eval(format!("threads {}", cx.case));
    Ok(())
}

/// Files written by the library functions
fn saved(cx: &mut Cx) -> R {
    let (lib, header) = if cx.rng.coin() { (&libs()[0], STD_HEADER) } else { (&libs()[1], STRICT_TYPES_HEADER) };
    let f = *cx.rng.pick(&[StlFormat::Binary, StlFormat::Armored, StlFormat::Source]);
    let dir = cx.scratch.join("saved");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("harness: scratch");
    must!(lib.serialize(f, Some(&dir), "0.1.0", Some(header)), "save {} as {f}", lib.name);
    let name = format!("{}@0.1.0.{f}", lib.name);
    let mut files = BTreeMap::new();
    collect(&dir, &dir, &mut files);
    let exp = BTreeMap::from([(name.clone(), read_artefact(&name)?)]);
    ck!(files == exp, "saving {} as {f} gives files {:?} different from the published", lib.name, files.keys());
    let _ = std::fs::remove_dir_all(&dir);
    cx.count("saved");
    cx.eval(&name);
    Ok(())
}

fn c23(cx: &mut Cx) -> R {
    match cx.case {
        0 => constants(cx)?,
        1 => published(cx)?,
        _ => {}
    }
    match cx.case % 8 {
        0 => other_process(cx),
        1 => tools(cx),
        2 => build(cx, 0, false),
        3 => build(cx, 1, false),
        4 => import(cx),
        5 => {
            let k = cx.rng.us(2);
            if cx.rng.coin() { saved(cx) } else { build(cx, k, true) }
        }
        6 => tools(cx),
        _ => {
            if cx.case % 32 == 7 { threads(cx) } else { build(cx, (cx.case / 8 % 2) as usize, false) }
        }
    }
}
