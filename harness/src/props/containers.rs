//! C13 (binary containers)
use std::fmt::Debug;

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::typesys::Symbols;
use strict_types::{SymbolicLib, SymbolicSys, TypeLib, TypeSystem};

use super::base::*;
use super::libs::Parts;
use crate::alloc;
use crate::cx::{hex, short, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::wire::Wire;
use crate::Prop;

pub const C13: Prop = Prop {
    id: "C13",
    cases: (8_000, 400_000),
    run: c13,
    rule: "libraries, symbolic libraries, type systems, symbols and symbolic systems of random definitions are serialized and \
           compared with an independent encoder, read back and compared; then bytes changed at one or more places are read, \
           observing the verdict, bytes of the object read and the memory reserved; non-trivial: each distinct sequence of bytes",
    need: &[
        ("TypeLib bytes", 5_000), ("SymbolicLib bytes", 5_000), ("TypeSystem bytes", 5_000), ("Symbols bytes", 5_000),
        ("SymbolicSys bytes", 5_000), ("changed bytes rejected", 100_000), ("changed bytes accepted", 20_000),
        ("files", 1_000), ("nesting probes", 1),
    ],
    level: "exploration",
    assume: &["zeroed memory reserved lazily by the raw reader of the strict_encoding dependency is not counted"],
};

pub trait Container: StrictSerialize + StrictDeserialize + PartialEq + Debug + Clone {
    const WHAT: &'static str;
    fn ident(&self) -> Option<Id>;
}
impl Container for TypeLib {
    const WHAT: &'static str = "TypeLib";
    fn ident(&self) -> Option<Id> {
        Some(self.id().to_byte_array())
    }
}
impl Container for SymbolicLib {
    const WHAT: &'static str = "SymbolicLib";
    fn ident(&self) -> Option<Id> {
        None
    }
}
impl Container for TypeSystem {
    const WHAT: &'static str = "TypeSystem";
    fn ident(&self) -> Option<Id> {
        Some(self.id().to_byte_array())
    }
}
impl Container for Symbols {
    const WHAT: &'static str = "Symbols";
    fn ident(&self) -> Option<Id> {
        None
    }
}
impl Container for SymbolicSys {
    const WHAT: &'static str = "SymbolicSys";
    fn ident(&self) -> Option<Id> {
        Some(self.id().to_byte_array())
    }
}

/// Equality which does not depend on the comparison provided by the object
pub fn same<T: PartialEq + Debug>(a: &T, b: &T) -> bool {
    a == b && format!("{a:?}") == format!("{b:?}")
}

fn read<T: Container>(d: &[u8]) -> Result<T, String> {
    let d = Confined::try_from(d.to_vec()).expect("harness: size");
    T::from_strict_serialized::<MAX>(d).map_err(|e| e.to_string())
}

fn round<T: Container>(cx: &mut Cx, obj: &T, exp: &[u8]) -> R {
    let what = T::WHAT;
    let got = must!(obj.to_strict_serialized::<MAX>(), "serialize {what}").release();
    ck!(
        got == exp,
        "{what} {} is serialized to {}, expected {}",
        short(&format!("{obj:?}")),
        hex(&got),
        hex(exp)
    );
    let len = must!(obj.strict_serialized_len::<MAX>(), "length of {what}");
    ck!(len == exp.len(), "{what}: serialized length is {len} instead of {}", exp.len());
    let back: T = must!(read::<T>(&got), "read {what} {}", hex(&got));
    ck!(
        same(&back, obj),
        "{what} {} is read back as {}",
        short(&format!("{obj:?}")),
        short(&format!("{back:?}"))
    );
    ck!(back.ident() == obj.ident(), "{what} read back has a different id");
    let again = must!(back.to_strict_serialized::<MAX>(), "serialize {what}").release();
    ck!(again == exp, "{what} read back is serialized to {}", hex(&again));
    cx.count(&format!("{what} bytes"));
    cx.eval(exp);
    if cx.rng.chance(1, 16) {
        let file = cx.scratch.join("object");
        must!(obj.strict_serialize_to_file::<MAX>(&file), "write {what} into a file");
        ck!(
            std::fs::read(&file).expect("harness: file") == exp,
            "{what} is written into a file differently"
        );
        let back: T = must!(T::strict_deserialize_from_file::<MAX>(&file), "read {what} from a file");
        ck!(same(&back, obj), "{what} is read differently from a file");
        cx.count("files");
    }
    for _ in 0..6 {
        let mut d = exp.to_vec();
        let n = if cx.rng.chance(3, 4) { 1 } else { cx.rng.range(2, 5) };
        for _ in 0..n {
            mutate_bytes(&mut cx.rng, &mut d);
        }
        hostile::<T>(cx, &d)?;
    }
    if cx.rng.chance(1, 8) {
        let n = cx.rng.us(200);
        let d = cx.rng.bytes(n);
        hostile::<T>(cx, &d)?;
    }
    Ok(())
}

fn hostile<T: Container>(cx: &mut Cx, d: &[u8]) -> R {
    let what = T::WHAT;
    cx.say(|| format!("{what} {}", hex(d)));
    let (got, mem) = alloc::observe(|| read::<T>(d));
    ck!(
        alloc::within(mem, d.len()),
        "reading {} bytes as {what} reserved {} bytes at once, {} in total: {}",
        d.len(),
        mem.max_single,
        mem.peak,
        hex(d)
    );
    cx.eval(d);
    match got {
        Err(_) => cx.count("changed bytes rejected"),
        Ok(obj) => {
            cx.count("changed bytes accepted");
            let back = must!(obj.to_strict_serialized::<MAX>(), "serialize {what}").release();
            ck!(
                back == d,
                "{what} read from {} is serialized to {}",
                hex(d),
                hex(&back)
            );
            let again: T = must!(read::<T>(&back), "read {what} again");
            ck!(same(&again, &obj), "{what} {} is read differently", hex(d));
            ck!(again.ident() == obj.ident(), "{what} {} has different ids", hex(d));
            cx.sample(|| format!("{what} {}", hex(d)));
        }
    }
    Ok(())
}

fn c13(cx: &mut Cx) -> R {
    if cx.case == 0 {
        nesting(cx)?;
    }
    let mut o = Opts::LIBS;
    o.libs = 3;
    let e = Env::gen(cx, o)?;
    let wire = Wire {
        w: &e.w,
        ids: &e.ids,
        lib_ids: &e.lib_ids,
    };
    let c = Cvt {
        w: &e.w,
        ids: e.ids.clone(),
        lib_ids: e.lib_ids.clone(),
    };
    for l in 0..e.w.libs.len() {
        round(cx, &e.libs[l], &wire.lib(l))?;
        let exp = wire.symbolic(l);
        // There are two ways to a symbolic library
        let sym = if cx.rng.coin() {
            must!(e.libs[l].to_symbolic(), "symbolic form")
        } else {
            must!(Parts::of(&c, l).lib(), "symbolic library")
        };
        round(cx, &sym, &exp)?;
    }
    let all = e.w.closure(e.w.all_named());
    let sys = wire.system(&all);
    let symbols = wire.symbols(&all);
    round(cx, e.types(), &sys)?;
    round(cx, e.sym.as_symbols(), &symbols)?;
    let both: Vec<u8> = symbols.iter().chain(&sys).copied().collect();
    round(cx, &e.sym, &both)?;

    let t = pick_type(cx, &e.w);
    if !matches!(e.w.ty(t), MTy::Prim(_)) {
        let part = must!(e.types().extract([e.sem(t)]), "extract");
        round(cx, &part, &wire.system(&e.w.closure([t])))?;
    }
    Ok(())
}

const SIG_NESTING: &str = "symbolic-lib-nesting";
const DEPTH: usize = 200_000;

/// Symbolic library with embedded types nested very deeply
fn nested_bytes() -> Vec<u8> {
    let mut d = vec![];
    crate::wire::name(&mut d, "Lib");
    d.extend([0, 0]);
    d.extend(1u64.to_le_bytes());
    crate::wire::name(&mut d, "Type");
    d.push(5);
    d.push(1);
    for _ in 0..DEPTH {
        d.extend([0, 5, 1]);
    }
    d.extend([0, 0, 0]);
    d
}

/// Run in a process of its own
pub fn probe_nesting() -> ! {
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let r = read::<SymbolicLib>(&nested_bytes());
            println!("{}", if r.is_ok() { "read" } else { "refused" });
            use std::io::Write;
            let _ = std::io::stdout().flush();
            std::process::exit(0)
        })
        .expect("thread");
    let _ = h.join();
    std::process::exit(3)
}

fn nesting(cx: &mut Cx) -> R {
    let exe = std::env::current_exe().expect("harness: own path");
    let out = std::process::Command::new(exe)
        .args(["probe", "nesting"])
        .output()
        .expect("harness: probe");
    cx.count("nesting probes");
    cx.eval(b"nesting");
    if out.status.success() {
        return Ok(());
    }
    cx.signed(
        SIG_NESTING,
        format!(
            "reading of a symbolic library having {DEPTH} unnamed types nested into each other ends the process: {}",
            short(&String::from_utf8_lossy(&out.stderr))
        ),
    )
}
