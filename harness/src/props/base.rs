//! Shared parts of the property monitors
use strict_types::value::typify::TypedVal;
use strict_types::value::StrictVal;
use strict_types::{SemId, SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::cx::{short, Cx, R};
use crate::gen::*;
use crate::model::*;

pub const MAX: usize = 0xFF_FFFF;

/// Definitions with everything made out of them
pub struct Env {
    pub w: World,
    pub ids: Vec<Id>,
    pub lib_ids: Vec<Id>,
    pub libs: Vec<TypeLib>,
    pub sym: SymbolicSys,
}

impl Env {
    pub fn new(w: World) -> R<Env> {
        let (ids, lib_ids, libs) = {
            let c = Cvt::new(&w);
            let libs: Vec<TypeLib> = (0..w.libs.len()).map(|l| c.type_lib(l)).collect();
            (c.ids, c.lib_ids, libs)
        };
        let mut b = SystemBuilder::new();
        for lib in &libs {
            b = must!(b.import(lib.clone()), "import of library {}", lib.name);
        }
        let sym = must!(b.finalize(), "assembly of the type system");
        Ok(Env {
            w,
            ids,
            lib_ids,
            libs,
            sym,
        })
    }
    pub fn gen(cx: &mut Cx, o: Opts) -> R<Env> {
        let w = world(&mut cx.rng, o);
        cx.say(|| show_world(&w));
        Env::new(w)
    }
    pub fn types(&self) -> &TypeSystem {
        self.sym.as_types()
    }
    pub fn sem(&self, t: TId) -> SemId {
        sid(&self.ids[t])
    }
    pub fn key(&self, t: TId, extra: &[u8]) -> Vec<u8> {
        let mut k = self.ids[t].to_vec();
        k.extend(extra);
        k
    }
    pub fn show(&self, t: TId) -> String {
        show_ty(&self.w, t)
    }
}

pub fn show_world(w: &World) -> String {
    let mut s = String::new();
    for (l, n) in w.libs.iter().enumerate() {
        s.push_str(&format!("lib {n}:\n"));
        for t in w.named(l) {
            s.push_str(&format!(
                "    data {} : {}\n",
                w.nodes[t].name.as_ref().unwrap(),
                show_def(w, t)
            ));
        }
    }
    s
}
pub fn show_ty(w: &World, t: TId) -> String {
    match &w.nodes[t].name {
        Some(n) => format!("{}.{n} = {}", w.libs[w.nodes[t].lib], show_def(w, t)),
        None => show_def(w, t),
    }
}
pub fn show_def(w: &World, t: TId) -> String {
    let r = |t: TId| match &w.nodes[t].name {
        Some(n) => format!("{}.{n}", w.libs[w.nodes[t].lib]),
        None => format!("({})", show_def(w, t)),
    };
    match w.ty(t) {
        MTy::Prim(c) => format!("Prim({c:#04x})"),
        MTy::Unicode => "Unicode".into(),
        MTy::Enum(v) => short(&format!("enum{:?}", v)),
        MTy::Union(v) => {
            let v: Vec<_> = v
                .iter()
                .map(|(n, tag, t)| format!("{n}:{tag} {}", r(*t)))
                .collect();
            short(&format!("union[{}]", v.join(" | ")))
        }
        MTy::Tuple(f) => {
            let v: Vec<_> = f.iter().map(|t| r(*t)).collect();
            short(&format!("tuple[{}]", v.join(", ")))
        }
        MTy::Struct(f) => {
            let v: Vec<_> = f.iter().map(|(n, t)| format!("{n} {}", r(*t))).collect();
            short(&format!("struct[{}]", v.join(", ")))
        }
        MTy::Array(t, l) => format!("[{} ^ {l}]", r(*t)),
        MTy::List(t, a, b) => format!("[{} ^ {a}..={b}]", r(*t)),
        MTy::Set(t, a, b) => format!("{{{} ^ {a}..={b}}}", r(*t)),
        MTy::Map(k, t, a, b) => format!("{{{} -> {} ^ {a}..={b}}}", r(*k), r(*t)),
    }
}

/// Picks a type, with preference to the named ones which have content
pub fn pick_type(cx: &mut Cx, w: &World) -> TId {
    let n = w.nodes.len();
    if cx.rng.chance(1, 4) {
        return cx.rng.us(n);
    }
    let named = w.all_named();
    if cx.rng.coin() {
        // the last ones are the most complex
        return *named.last().unwrap();
    }
    *cx.rng.pick(&named)
}

pub fn show_val(v: &StrictVal) -> String {
    short(&format!("{v:?}"))
}

pub fn note_classes(cx: &mut Cx, w: &World, t: TId, prefix: &str) {
    let mut classes: Vec<&'static str> = w
        .closure([t])
        .into_iter()
        .map(|t| {
            let ty = w.ty(t);
            if w.is_rstring(ty).is_some() {
                "rstring"
            } else if w.option_of(ty).is_some() {
                "option"
            } else {
                ty.class()
            }
        })
        .collect();
    classes.sort();
    classes.dedup();
    for c in classes {
        cx.count(&format!("{prefix}{c}"));
    }
}

/// Serializes the typed value
pub fn ser(sys: &TypeSystem, v: &TypedVal) -> Result<Vec<u8>, String> {
    sys.strict_serialize_value::<MAX>(v)
        .map(|b| b.release())
        .map_err(|e| e.to_string())
}
