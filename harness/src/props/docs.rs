//! C21 (conversion of JSON, YAML and TOML documents)
use std::panic::{catch_unwind, AssertUnwindSafe};

use strict_types::value::{EnumTag, StrictNum, StrictVal};

use super::base::*;
use crate::cx::{clip, hex, Cx, R};
use crate::gen::*;
use crate::rng::Rng;
use crate::Prop;

pub const C21: Prop = Prop {
    id: "C21",
    cases: (100_000, 5_000_000),
    run: c21,
    rule: "random JSON, YAML and TOML documents, and documents describing members of random types, are converted by the real \
           code; the results are compared with an independent walk of the document, and typified and serialized ones with \
           the independent encoding; non-trivial: each distinct document",
    need: &[
        ("json", 20_000), ("yaml", 20_000), ("toml", 10_000), ("from text", 10_000), ("negative", 2_000), ("above i64", 1_000),
        ("nested", 10_000), ("typed json", 8_000), ("typed yaml", 8_000), ("typed toml", 3_000), ("typed refused", 2_000),
        ("unsupported documents", 500),
    ],
    level: "exploration",
    assume: &["objects have no repeated keys"],
};

/// Document, independent of the format
#[derive(Clone, PartialEq, Debug)]
enum Doc {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    List(Vec<Doc>),
    Map(Vec<(Doc, Doc)>),
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Format {
    Json,
    Yaml,
    Toml,
}

fn to_json(d: &Doc) -> Option<serde_json::Value> {
    use serde_json::Value as V;
    Some(match d {
        Doc::Null => V::Null,
        Doc::Bool(b) => V::Bool(*b),
        Doc::Int(n) if *n < 0 => V::from(i64::try_from(*n).ok()?),
        Doc::Int(n) => V::from(u64::try_from(*n).ok()?),
        Doc::Str(s) => V::String(s.clone()),
        Doc::List(l) => V::Array(l.iter().map(to_json).collect::<Option<_>>()?),
        Doc::Map(m) => V::Object(
            m.iter()
                .map(|(k, v)| match k {
                    Doc::Str(s) => Some((s.clone(), to_json(v)?)),
                    _ => None,
                })
                .collect::<Option<_>>()?,
        ),
    })
}
fn to_yaml(d: &Doc) -> Option<serde_yaml::Value> {
    use serde_yaml::Value as V;
    Some(match d {
        Doc::Null => V::Null,
        Doc::Bool(b) => V::Bool(*b),
        Doc::Int(n) if *n < 0 => V::from(i64::try_from(*n).ok()?),
        Doc::Int(n) => V::from(u64::try_from(*n).ok()?),
        Doc::Str(s) => V::String(s.clone()),
        Doc::List(l) => V::Sequence(l.iter().map(to_yaml).collect::<Option<_>>()?),
        Doc::Map(m) => {
            V::Mapping(m.iter().map(|(k, v)| Some((to_yaml(k)?, to_yaml(v)?))).collect::<Option<_>>()?)
        }
    })
}
fn to_toml(d: &Doc) -> Option<toml::Value> {
    use toml::Value as V;
    Some(match d {
        Doc::Null => return None,
        Doc::Bool(b) => V::Boolean(*b),
        Doc::Int(n) => V::Integer(i64::try_from(*n).ok()?),
        Doc::Str(s) => V::String(s.clone()),
        Doc::List(l) => V::Array(l.iter().map(to_toml).collect::<Option<_>>()?),
        Doc::Map(m) => V::Table(
            m.iter()
                .map(|(k, v)| match k {
                    Doc::Str(s) => Some((s.clone(), to_toml(v)?)),
                    _ => None,
                })
                .collect::<Option<_>>()?,
        ),
    })
}

/// Contents of the document in the order in which the format has them
fn of_json(v: &serde_json::Value) -> Doc {
    use serde_json::Value as V;
    match v {
        V::Null => Doc::Null,
        V::Bool(b) => Doc::Bool(*b),
        V::Number(n) => Doc::Int(n.to_string().parse().expect("harness: integer")),
        V::String(s) => Doc::Str(s.clone()),
        V::Array(l) => Doc::List(l.iter().map(of_json).collect()),
        V::Object(m) => Doc::Map(m.iter().map(|(k, v)| (Doc::Str(k.clone()), of_json(v))).collect()),
    }
}
fn of_yaml(v: &serde_yaml::Value) -> Doc {
    use serde_yaml::Value as V;
    match v {
        V::Null => Doc::Null,
        V::Bool(b) => Doc::Bool(*b),
        V::Number(n) => Doc::Int(n.to_string().parse().expect("harness: integer")),
        V::String(s) => Doc::Str(s.clone()),
        V::Sequence(l) => Doc::List(l.iter().map(of_yaml).collect()),
        V::Mapping(m) => Doc::Map(m.iter().map(|(k, v)| (of_yaml(k), of_yaml(v))).collect()),
        V::Tagged(_) => unreachable!("harness: tag"),
    }
}
fn of_toml(v: &toml::Value) -> Doc {
    use toml::Value as V;
    match v {
        V::Boolean(b) => Doc::Bool(*b),
        V::Integer(n) => Doc::Int(*n as i128),
        V::String(s) => Doc::Str(s.clone()),
        V::Array(l) => Doc::List(l.iter().map(of_toml).collect()),
        V::Table(m) => Doc::Map(m.iter().map(|(k, v)| (Doc::Str(k.clone()), of_toml(v))).collect()),
        _ => unreachable!("harness: fraction or date"),
    }
}

/// Does the value have exactly the contents of the document
fn matches(v: &StrictVal, d: &Doc) -> bool {
    match (v, d) {
        (StrictVal::Unit, Doc::Null) => true,
        (StrictVal::Enum(EnumTag::Ord(t)), Doc::Bool(b)) => *t == *b as u8,
        (StrictVal::Number(StrictNum::Uint(x)), Doc::Int(n)) => *x as i128 == *n,
        (StrictVal::Number(StrictNum::Int(x)), Doc::Int(n)) => *x as i128 == *n,
        (StrictVal::String(x), Doc::Str(s)) => x == s,
        (StrictVal::List(x), Doc::List(l)) => x.len() == l.len() && x.iter().zip(l).all(|(x, d)| matches(x, d)),
        (StrictVal::Map(x), Doc::Map(m)) => {
            x.len() == m.len() && x.iter().zip(m).all(|((a, b), (k, d))| matches(a, k) && matches(b, d))
        }
        _ => false,
    }
}
/// The value for the model of membership
fn model_val(d: &Doc, signed: bool) -> StrictVal {
    match d {
        Doc::Null => StrictVal::Unit,
        Doc::Bool(b) => StrictVal::Enum(EnumTag::Ord(*b as u8)),
        Doc::Int(n) if *n < 0 || signed => StrictVal::Number(StrictNum::Int(*n as i64)),
        Doc::Int(n) => StrictVal::Number(StrictNum::Uint(*n as u64)),
        Doc::Str(s) => StrictVal::String(s.clone()),
        Doc::List(l) => StrictVal::List(l.iter().map(|x| model_val(x, signed)).collect()),
        Doc::Map(m) => StrictVal::Map(m.iter().map(|(k, v)| (model_val(k, signed), model_val(v, signed))).collect()),
    }
}

/// Converts the document with the real code; gives the converted value and the contents which it
/// has to have
fn convert(cx: &mut Cx, d: &Doc, f: Format) -> Option<(StrictVal, Doc)> {
    let text = cx.rng.coin();
    Some(match f {
        Format::Json => {
            let mut v = to_json(d)?;
            if text {
                v = serde_json::from_str(&v.to_string()).ok()?;
                cx.count("from text");
            }
            let d = of_json(&v);
            (StrictVal::from(v), d)
        }
        Format::Yaml => {
            let mut v = to_yaml(d)?;
            if text {
                // some of the strings are not read back as they are written
                let back: serde_yaml::Value = serde_yaml::from_str(&serde_yaml::to_string(&v).ok()?).ok()?;
                if back == v {
                    v = back;
                    cx.count("from text");
                }
            }
            let d = of_yaml(&v);
            (StrictVal::from(v), d)
        }
        Format::Toml => {
            let mut v = to_toml(d)?;
            if text && matches!(d, Doc::Map(_)) {
                v = toml::from_str(&toml::to_string(&v).ok()?).ok()?;
                cx.count("from text");
            }
            let d = of_toml(&v);
            (StrictVal::from(v), d)
        }
    })
}

fn depth(d: &Doc) -> usize {
    1 + match d {
        Doc::List(l) => l.iter().map(depth).max().unwrap_or(0),
        Doc::Map(m) => m.iter().map(|(k, v)| depth(k).max(depth(v))).max().unwrap_or(0),
        _ => 0,
    }
}
fn has(d: &Doc, p: &dyn Fn(i128) -> bool) -> bool {
    match d {
        Doc::Int(n) => p(*n),
        Doc::List(l) => l.iter().any(|x| has(x, p)),
        Doc::Map(m) => m.iter().any(|(k, v)| has(k, p) || has(v, p)),
        _ => false,
    }
}

fn conversion(cx: &mut Cx, d: &Doc, f: Format) -> R<Option<(StrictVal, Doc)>> {
    let Some((v, d)) = convert(cx, d, f) else {
        return Ok(None);
    };
    cx.count(match f {
        Format::Json => "json",
        Format::Yaml => "yaml",
        Format::Toml => "toml",
    });
    cx.eval(format!("{f:?}{d:?}"));
    if depth(&d) > 2 {
        cx.count("nested");
    }
    if has(&d, &|n| n < 0) {
        cx.count("negative");
    }
    if has(&d, &|n| n > i64::MAX as i128) {
        cx.count("above i64");
    }
    cx.say(|| format!("{f:?} {d:?}"));
    ck!(
        matches(&v, &d),
        "{f:?} document {} is converted into {}",
        clip(&format!("{d:?}"), 1000),
        show_val(&v)
    );
    Ok(Some((v, d)))
}

fn any_doc(r: &mut Rng, depth: u32, toml: bool, keys: bool) -> Doc {
    let n = if depth == 0 { r.below(5) } else { r.below(9) };
    match n {
        0 if !toml => Doc::Null,
        1 => Doc::Bool(r.coin()),
        2 | 0 => Doc::Int(match r.below(4) {
            0 => r.biased() as i64 as i128,
            1 => *r.pick(&[0, -1, 1, i64::MIN as i128, i64::MAX as i128, -129, -32769, i32::MIN as i128 - 1]),
            2 if !toml => *r.pick(&[u64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128 - 1]),
            _ if toml => r.biased() as i64 as i128,
            _ => r.biased() as i128,
        }),
        3 => Doc::Str(ident(r, false)),
        4 => {
            let n = r.below(6);
            Doc::Str((0..n).map(|_| char_any(r)).collect())
        }
        5 | 6 => Doc::List((0..r.below(5)).map(|_| any_doc(r, depth - 1, toml, keys)).collect()),
        _ => {
            let mut m: Vec<(Doc, Doc)> = vec![];
            for _ in 0..r.below(5) {
                let k = if keys && r.coin() { any_doc(r, depth.min(2) - 1, false, false) } else { Doc::Str(ident(r, false)) };
                if m.iter().all(|x| x.0 != k) {
                    m.push((k, any_doc(r, depth - 1, toml, keys)));
                }
            }
            Doc::Map(m)
        }
    }
}

/// Document describing the value, if there is a natural one
fn describe(r: &mut Rng, v: &StrictVal) -> Option<Doc> {
    let list = |r: &mut Rng, v: &[StrictVal]| v.iter().map(|x| describe(r, x)).collect::<Option<Vec<_>>>().map(Doc::List);
    Some(match v {
        StrictVal::Unit => Doc::Null,
        StrictVal::Number(n) => Doc::Int(match n {
            StrictNum::Uint(x) => *x as i128,
            StrictNum::Int(x) => *x as i128,
            StrictNum::BigUint(x) => {
                let b = x.to_le_bytes();
                if b[8..].iter().any(|x| *x != 0) {
                    return None;
                }
                u64::from_le_bytes(b[..8].try_into().unwrap()) as i128
            }
            StrictNum::BigInt(x) => {
                let b = x.to_le_bytes();
                let n = i64::from_le_bytes(b[..8].try_into().unwrap());
                if b[8..].iter().any(|x| *x != if n < 0 { 0xFF } else { 0 }) {
                    return None;
                }
                n as i128
            }
            _ => return None,
        }),
        StrictVal::String(s) => Doc::Str(s.clone()),
        StrictVal::Bytes(b) => match String::from_utf8(b.0.clone()) {
            Ok(s) if r.coin() => Doc::Str(s),
            _ => Doc::List(b.0.iter().map(|x| Doc::Int(*x as i128)).collect()),
        },
        StrictVal::Enum(EnumTag::Name(n)) => Doc::Str(n.to_string()),
        StrictVal::Enum(EnumTag::Ord(n)) if *n < 2 && r.coin() => Doc::Bool(*n == 1),
        StrictVal::Enum(EnumTag::Ord(n)) => Doc::Int(*n as i128),
        StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "some" => describe(r, x)?,
        StrictVal::Union(EnumTag::Name(n), x) if n.as_str() == "none" && **x == StrictVal::Unit => Doc::Null,
        StrictVal::Union(EnumTag::Ord(0), x) if **x == StrictVal::Unit => Doc::Null,
        StrictVal::Union(EnumTag::Ord(1), x) => describe(r, x)?,
        StrictVal::Union(..) | StrictVal::Set(_) => return None,
        StrictVal::List(x) | StrictVal::Tuple(x) => list(r, x)?,
        StrictVal::Struct(x) => {
            Doc::Map(x.iter().map(|(k, v)| Some((Doc::Str(k.to_string()), describe(r, v)?))).collect::<Option<_>>()?)
        }
        StrictVal::Map(x) => {
            Doc::Map(x.iter().map(|(k, v)| Some((describe(r, k)?, describe(r, v)?))).collect::<Option<_>>()?)
        }
    })
}

/// Fractional numbers and dates, which values can't hold, and tags of YAML
fn unsupported(cx: &mut Cx) -> R {
    let depth = cx.rng.below(4);
    let n = cx.rng.below(5);
    let f = *cx.rng.pick(&[0.5, -1.25, 1e300, f64::NAN, f64::INFINITY, 0.0]);
    let wrap = cx.rng.u64();
    let list = |d: u64| wrap >> d & 1 == 0;
    cx.count("unsupported documents");
    let (sig, r) = match n {
        0 => {
            // an integer which exceeds 64 bits is a fractional number for the format
            let mut v = match serde_json::Number::from_f64(f) {
                Some(n) => serde_json::Value::Number(n),
                None => serde_json::from_str("18446744073709551616").expect("harness: number"),
            };
            for d in 0..depth {
                v = if list(d) { serde_json::json!([1, v]) } else { serde_json::json!({"a": 1, "b": v}) };
            }
            ("json-fraction", catch_unwind(AssertUnwindSafe(|| StrictVal::from(v))))
        }
        1 => {
            let mut v = serde_yaml::Value::from(f);
            for d in 0..depth {
                v = if list(d) {
                    serde_yaml::Value::Sequence(vec![v])
                } else {
                    serde_yaml::Value::Mapping([(serde_yaml::Value::from("a"), v)].into_iter().collect())
                };
            }
            ("yaml-fraction", catch_unwind(AssertUnwindSafe(|| StrictVal::from(v))))
        }
        2 | 3 => {
            let mut v = if n == 2 {
                toml::Value::Float(f)
            } else {
                toml::Value::Datetime("1979-05-27T07:32:00Z".parse().expect("harness: date"))
            };
            for d in 0..depth {
                v = if list(d) {
                    toml::Value::Array(vec![v])
                } else {
                    toml::Value::Table([("a".to_string(), v)].into_iter().collect())
                };
            }
            (
                if n == 2 { "toml-fraction" } else { "toml-date" },
                catch_unwind(AssertUnwindSafe(|| StrictVal::from(v))),
            )
        }
        _ => {
            let inner = serde_yaml::Value::from(cx.rng.u64());
            let tagged = |t: &str| {
                serde_yaml::Value::Tagged(Box::new(serde_yaml::value::TaggedValue {
                    tag: serde_yaml::value::Tag::new(t),
                    value: inner.clone(),
                }))
            };
            let (a, b) = (StrictVal::from(tagged("first")), StrictVal::from(tagged("second")));
            if a == b {
                return cx.signed("yaml-tag", format!("tags of YAML values are lost: `!first 1` is converted into {a}"));
            }
            return Ok(());
        }
    };
    match r {
        Ok(_) => Ok(()),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            cx.signed(sig, format!("conversion panics: {msg}"))
        }
    }
}

fn c21(cx: &mut Cx) -> R {
    if cx.case % 16 == 0 {
        unsupported(cx)?;
    }
    for f in [Format::Json, Format::Yaml, Format::Toml] {
        let depth = if cx.rng.chance(1, 100) { 25 } else { cx.rng.range(0, 4) as u32 };
        let mut d = any_doc(&mut cx.rng, depth.min(4), f == Format::Toml, f == Format::Yaml);
        for _ in 4..depth {
            d = if cx.rng.coin() { Doc::List(vec![d]) } else { Doc::Map(vec![(Doc::Str("a".into()), d)]) };
        }
        conversion(cx, &d, f)?;
    }
    if cx.case % 2 != 0 {
        return Ok(());
    }
    let o = if cx.rng.coin() { Opts::DECODE } else { Opts::VALUES };
    let e = Env::gen(cx, o)?;
    let sys = e.types();
    for _ in 0..6 {
        let t = pick_type(cx, &e.w);
        let any = cx.rng.coin();
        let mut g = ValGen::new(&e.w, any);
        g.large = false;
        let Some(v) = g.val(&mut cx.rng, t) else { continue };
        let Some(exp) = e.w.interp(&v, t) else { panic!("harness: not a member") };
        let Some(doc) = describe(&mut cx.rng, &v) else {
            cx.count("no document for a value");
            continue;
        };
        for f in [Format::Json, Format::Yaml, Format::Toml] {
            let Some((got, d)) = conversion(cx, &doc, f)? else { continue };
            let said = e.w.interp(&model_val(&d, f == Format::Toml), t);
            if said.as_ref() != Some(&exp) {
                cx.count("document of another value");
            }
            match (sys.typify(got, e.sem(t)), said) {
                (Err(_), None) => cx.count("typed refused"),
                (Ok(x), None) => fail!("{f:?} document {d:?} which is not of type {} is typified as {x}", e.show(t)),
                (Err(x), Some(_)) => fail!("{f:?} document {d:?} is not typified as {}: {x:?}", e.show(t)),
                (Ok(tv), Some(exp)) => {
                    cx.count(match f {
                        Format::Json => "typed json",
                        Format::Yaml => "typed yaml",
                        Format::Toml => "typed toml",
                    });
                    let bytes = must!(ser(sys, &tv), "serialize");
                    ck!(
                        bytes == exp,
                        "{f:?} document {} of type {} is serialized as {}, expected {}",
                        clip(&format!("{d:?}"), 1000),
                        e.show(t),
                        hex(&bytes),
                        hex(&exp)
                    );
                }
            }
        }
    }
    Ok(())
}
