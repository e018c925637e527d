//! C20 (text of values)
use strict_types::typify::TypedVal;
use strict_types::value::{EnumTag, StrictNum, StrictVal};

use super::base::*;
use crate::cx::{clip, hex, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

pub const C20: Prop = Prop {
    id: "C20",
    cases: (80_000, 3_000_000),
    run: c20,
    rule: "texts of random untyped values of any nesting and of members of random types (both typified and deserialized) are \
           read by an independent parser and compared with the value; members of the same type with different encodings \
           have to have different texts; non-trivial: each distinct text",
    need: &[
        ("untyped", 100_000), ("typified", 40_000), ("deserialized", 15_000), ("pairs", 60_000), ("untyped pairs", 60_000),
        ("map", 5_000), ("set", 5_000), ("struct", 5_000), ("union", 10_000), ("big number", 2_000), ("bytes", 5_000),
        ("compound key", 2_000), ("compound content", 2_000), ("negative", 2_000), ("special text", 5_000),
    ],
    level: "exploration",
    assume: &["text has no quotation marks", "structures have no repeated field names"],
};

/// Value as the text gives it
#[derive(Clone, PartialEq, Eq, Debug)]
enum V {
    Unit,
    /// Numbers and numeric tags
    Num(String),
    Str(String),
    /// Byte strings and big numbers
    Bytes(Vec<u8>),
    Word(String),
    None,
    Union(String, Box<V>),
    List(Vec<V>),
    Braces(Vec<V>),
    Map(Vec<(V, V)>),
    Fields(Vec<V>),
    Named(Vec<(String, V)>),
}

fn tag_text(t: &EnumTag) -> V {
    match t {
        EnumTag::Name(n) => V::Word(n.as_str().to_string()),
        EnumTag::Ord(n) => V::Num(format!("{}", *n as u32)),
    }
}

/// What the text of the value has to give; `None` for the values which can't be told apart (tuples
/// and structures without fields)
fn expected(cx: &mut Cx, v: &StrictVal) -> Option<V> {
    let compound = |v: &StrictVal| matches!(v, StrictVal::Struct(_)) || matches!(v, StrictVal::Tuple(f) if f.len() > 1);
    let list = |cx: &mut Cx, v: &[StrictVal]| v.iter().map(|x| expected(cx, x)).collect::<Option<Vec<V>>>();
    Some(match v {
        StrictVal::Unit => V::Unit,
        StrictVal::Number(n) => match n {
            StrictNum::Uint(x) => V::Num(x.to_string()),
            StrictNum::Int(x) => {
                if *x < 0 {
                    cx.count("negative");
                }
                V::Num(x.to_string())
            }
            StrictNum::BigUint(x) => {
                cx.count("big number");
                let mut b = x.to_le_bytes();
                b.reverse();
                V::Bytes(b.to_vec())
            }
            StrictNum::BigInt(x) => {
                cx.count("big number");
                let mut b = x.to_le_bytes();
                b.reverse();
                V::Bytes(b.to_vec())
            }
            _ => return None,
        },
        StrictVal::String(s) => {
            if s.contains('"') {
                return None;
            }
            if s.contains(|c: char| !c.is_ascii_alphanumeric()) {
                cx.count("special text");
            }
            V::Str(s.clone())
        }
        StrictVal::Bytes(b) => {
            cx.count("bytes");
            V::Bytes(b.0.clone())
        }
        StrictVal::Enum(t) => tag_text(t),
        StrictVal::Union(t, c) => {
            cx.count("union");
            if compound(c) {
                cx.count("compound content");
            }
            let none = match t {
                EnumTag::Ord(n) => *n == 0,
                EnumTag::Name(n) => n.as_str() == "none",
            };
            if none && **c == StrictVal::Unit {
                return Some(V::None);
            }
            let t = match tag_text(t) {
                V::Word(s) | V::Num(s) => s,
                _ => unreachable!(),
            };
            V::Union(t, Box::new(expected(cx, c)?))
        }
        StrictVal::List(x) => V::List(list(cx, x)?),
        StrictVal::Set(x) => {
            cx.count("set");
            V::Braces(list(cx, x)?)
        }
        StrictVal::Map(x) if x.is_empty() => V::Braces(vec![]),
        StrictVal::Map(x) => {
            cx.count("map");
            if x.iter().any(|(k, _)| compound(k)) {
                cx.count("compound key");
            }
            V::Map(x.iter().map(|(k, v)| Some((expected(cx, k)?, expected(cx, v)?))).collect::<Option<_>>()?)
        }
        StrictVal::Tuple(x) if x.is_empty() => return None,
        StrictVal::Tuple(x) if x.len() == 1 => expected(cx, &x[0])?,
        StrictVal::Tuple(x) => V::Fields(list(cx, x)?),
        StrictVal::Struct(x) if x.is_empty() => return None,
        StrictVal::Struct(x) => {
            cx.count("struct");
            V::Named(x.iter().map(|(n, v)| Some((n.as_str().to_string(), expected(cx, v)?))).collect::<Option<_>>()?)
        }
    })
}

// ---------------------------------------------------------------------------------------------
// Reading

#[derive(Clone, PartialEq, Eq, Debug)]
enum Tok {
    Str(String),
    Word(String),
    Arrow,
    Sign(char),
}

type Rd<T> = Result<T, String>;

fn lex(s: &str) -> Rd<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            ' ' => i += 1,
            '"' => {
                let end = c[i + 1..].iter().position(|x| *x == '"').ok_or("unclosed string")? + i + 1;
                out.push(Tok::Str(c[i + 1..end].iter().collect()));
                i = end + 1;
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                out.push(Tok::Arrow);
                i += 2;
            }
            x if x.is_ascii_alphanumeric() || x == '_' || x == '-' => {
                let start = i;
                i += 1;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                out.push(Tok::Word(c[start..i].iter().collect()));
            }
            x if "(),[]{}.~".contains(x) => {
                out.push(Tok::Sign(x));
                i += 1;
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(out)
}

struct Reader {
    toks: Vec<Tok>,
    at: usize,
}

impl Reader {
    fn read(s: &str) -> Rd<V> {
        let mut r = Reader { toks: lex(s)?, at: 0 };
        let v = r.body()?;
        if r.at != r.toks.len() {
            return Err(format!("unexpected {:?}", r.toks[r.at]));
        }
        Ok(v)
    }
    fn sign(&self, n: usize, c: char) -> bool {
        self.toks.get(self.at + n) == Some(&Tok::Sign(c))
    }
    fn close(&mut self, c: char) -> Rd<()> {
        if !self.sign(0, c) {
            return Err(format!("{:?} instead of {c}", self.toks.get(self.at)));
        }
        self.at += 1;
        Ok(())
    }
    /// Fields of a tuple or a structure
    fn body(&mut self) -> Rd<V> {
        let mut items = vec![self.item()?];
        while self.sign(0, ',') {
            self.at += 1;
            items.push(self.item()?);
        }
        Ok(Self::fold(items)?.remove(0))
    }
    /// Value or a field with a name
    fn item(&mut self) -> Rd<(Option<String>, V)> {
        if let (Some(Tok::Word(w)), Some(next)) = (self.toks.get(self.at), self.toks.get(self.at + 1)) {
            let starts = match next {
                Tok::Str(_) | Tok::Word(_) => true,
                Tok::Sign(c) => "([{~".contains(*c),
                Tok::Arrow => false,
            };
            if starts {
                let w = w.clone();
                self.at += 1;
                return Ok((Some(w), self.value()?));
            }
        }
        Ok((None, self.value()?))
    }
    /// Unites fields into a single value
    fn fold(items: Vec<(Option<String>, V)>) -> Rd<Vec<V>> {
        if items.iter().all(|x| x.0.is_some()) {
            return Ok(vec![V::Named(items.into_iter().map(|(n, v)| (n.unwrap(), v)).collect())]);
        }
        if items.iter().any(|x| x.0.is_some()) {
            return Err("fields with names and without".into());
        }
        let mut v: Vec<V> = items.into_iter().map(|x| x.1).collect();
        Ok(vec![if v.len() == 1 { v.remove(0) } else { V::Fields(v) }])
    }
    fn value(&mut self) -> Rd<V> {
        let t = self.toks.get(self.at).cloned().ok_or("unexpected end")?;
        self.at += 1;
        let mut v = match t {
            Tok::Str(s) => V::Str(s),
            Tok::Word(w) => match w.strip_prefix("0x") {
                Some(h) => {
                    if h.len() % 2 != 0 || !h.is_ascii() {
                        return Err(format!("odd {w}"));
                    }
                    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16));
                    V::Bytes(b.collect::<Result<_, _>>().map_err(|e| format!("{w}: {e}"))?)
                }
                None if w.starts_with('-') || w.starts_with(|c: char| c.is_ascii_digit()) => V::Num(w),
                None => V::Word(w),
            },
            Tok::Sign('~') => V::None,
            Tok::Sign('(') if self.sign(0, ',') && self.sign(1, ')') => {
                self.at += 2;
                V::Unit
            }
            Tok::Sign('(') => {
                let v = self.body()?;
                self.close(')')?;
                v
            }
            Tok::Sign('[') => {
                let mut v = vec![];
                while !self.sign(0, ']') {
                    if !v.is_empty() {
                        self.close(',')?;
                    }
                    v.push(self.value()?);
                }
                self.at += 1;
                V::List(v)
            }
            Tok::Sign('{') => self.braces()?,
            t => return Err(format!("unexpected {t:?}")),
        };
        while self.sign(0, '.') {
            self.at += 1;
            let Some(Tok::Word(w)) = self.toks.get(self.at) else {
                return Err("no tag after the dot".into());
            };
            v = V::Union(w.clone(), Box::new(v));
            self.at += 1;
        }
        Ok(v)
    }
    /// Set, or a map, with keys without parentheses
    fn braces(&mut self) -> Rd<V> {
        let mut items: Vec<(Option<String>, V)> = vec![];
        let mut entries: Vec<(V, V)> = vec![];
        loop {
            if self.sign(0, '}') {
                self.at += 1;
                break;
            }
            if !items.is_empty() || !entries.is_empty() {
                self.close(',')?;
            }
            items.push(self.item()?);
            if self.toks.get(self.at) == Some(&Tok::Arrow) {
                self.at += 1;
                let k = Self::fold(std::mem::take(&mut items))?.remove(0);
                entries.push((k, self.value()?));
            }
        }
        if entries.is_empty() {
            if items.iter().any(|x| x.0.is_some()) {
                return Err("name inside of a set".into());
            }
            return Ok(V::Braces(items.into_iter().map(|x| x.1).collect()));
        }
        if !items.is_empty() {
            return Err("map entry without a value".into());
        }
        Ok(V::Map(entries))
    }
}

// ---------------------------------------------------------------------------------------------

/// Compares the text with the value; gives `false` if the value is out of the scope
fn check(cx: &mut Cx, v: &StrictVal, counter: &str) -> R<bool> {
    let Some(want) = expected(cx, v) else {
        cx.count("out of scope");
        return Ok(false);
    };
    let text = v.to_string();
    cx.eval(&text);
    cx.count(counter);
    cx.say(|| text.clone());
    match Reader::read(&text) {
        Err(e) => fail!("text `{}` of {} can't be read: {e}", clip(&text, 1200), show_val(v)),
        Ok(got) => ck!(
            got == want,
            "text `{}` of {} is read as {}, expected {}",
            clip(&text, 1200),
            show_val(v),
            clip(&format!("{got:?}"), 800),
            clip(&format!("{want:?}"), 800)
        ),
    }
    Ok(true)
}

fn untyped(cx: &mut Cx) -> R {
    let depth = cx.rng.range(0, 5) as u32;
    let mut v = any_val(&mut cx.rng, depth);
    unquote(&mut v);
    fill(&mut cx.rng, &mut v);
    if !check(cx, &v, "untyped")? {
        return Ok(());
    }
    // difference in a single place
    let mut o = v.clone();
    mutate(&mut cx.rng, &mut o);
    unquote(&mut o);
    fill(&mut cx.rng, &mut o);
    if o != v && check(cx, &o, "untyped")? {
        if expected(cx, &o) != expected(cx, &v) {
            cx.count("untyped pairs");
            ck!(v.to_string() != o.to_string(), "{} and {} are both printed as {v}", show_val(&v), show_val(&o));
        }
    }
    Ok(())
}

fn unquote(v: &mut StrictVal) {
    match v {
        StrictVal::String(s) => *s = s.replace('"', "'"),
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => x.iter_mut().for_each(unquote),
        StrictVal::Struct(x) => x.values_mut().for_each(unquote),
        StrictVal::Map(x) => x.iter_mut().for_each(|(k, v)| {
            unquote(k);
            unquote(v)
        }),
        StrictVal::Union(_, x) => unquote(x),
        _ => {}
    }
}
/// Tuples and structures without fields do not exist in the type system
fn fill(r: &mut Rng, v: &mut StrictVal) {
    match v {
        StrictVal::Tuple(x) if x.is_empty() => x.push(any_val(r, 0)),
        StrictVal::Struct(x) if x.is_empty() => {
            x.insert(fname("a"), StrictVal::Unit);
        }
        _ => {}
    }
    match v {
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => x.iter_mut().for_each(|x| fill(r, x)),
        StrictVal::Struct(x) => x.values_mut().for_each(|x| fill(r, x)),
        StrictVal::Map(x) => x.iter_mut().for_each(|(k, v)| {
            fill(r, k);
            fill(r, v)
        }),
        StrictVal::Union(_, x) => fill(r, x),
        StrictVal::String(_) => unquote(v),
        _ => {}
    }
}

fn c20(cx: &mut Cx) -> R {
    for _ in 0..4 {
        untyped(cx)?;
    }
    if cx.case % 4 != 0 {
        return Ok(());
    }
    let o = if cx.rng.coin() { Opts::DECODE } else { Opts::VALUES };
    let e = Env::gen(cx, o)?;
    let sys = e.types();
    for _ in 0..4 {
        let t = pick_type(cx, &e.w);
        // encodings with the texts of the same type
        let mut seen: Vec<(Vec<u8>, String, TypedVal)> = vec![];
        for _ in 0..4 {
            let mut g = ValGen::new(&e.w, false);
            let Some(v) = g.val(&mut cx.rng, t) else {
                cx.count("type without values");
                break;
            };
            let tv = must!(sys.typify(v, e.sem(t)), "typify");
            let bytes = must!(ser(sys, &tv), "serialize");
            let mut forms = vec![];
            if check(cx, tv.as_val(), "typified")? {
                forms.push(tv);
            }
            if let Scan::Ok(_) = e.w.scan(&bytes, 0, t) {
                let back = must!(sys.strict_deserialize_type(e.sem(t), &bytes), "deserialize {}", hex(&bytes));
                if check(cx, back.as_val(), "deserialized")? {
                    forms.push(back);
                }
            }
            for tv in forms {
                let text = tv.as_val().to_string();
                ck!(
                    tv.to_string() == format!("{text}@{}", tv.as_orig()),
                    "typed value is printed as {tv}, and its content as {text}"
                );
                seen.push((bytes.clone(), text, tv));
            }
        }
        for (i, a) in seen.iter().enumerate() {
            for b in &seen[..i] {
                if a.0 != b.0 {
                    cx.count("pairs");
                    ck!(
                        a.1 != b.1,
                        "different values of type {} are printed as {}: {} and {}",
                        e.show(t),
                        clip(&a.1, 800),
                        show_val(a.2.as_val()),
                        show_val(b.2.as_val())
                    );
                }
            }
        }
    }
    Ok(())
}
