//! C14 (armored texts and files), C15 (identifiers), C24 (self-describing formats)
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};
use std::str::FromStr;

use amplify::confinement::Confined;
use amplify::ByteArray;
use armor::AsciiArmor;
use baid64::{Baid64Display, Baid64ParseError, DisplayBaid64};
use serde::de::DeserializeOwned;
use serde::Serialize;
use sha2::{Digest, Sha256};
use strict_encoding::{Ident, StrictDeserialize};
use indexmap::IndexMap;
use strict_types::value::{Blob, EnumTag, StrictNum, StrictVal};
use strict_types::typesys::{SymTy, Symbols, TypeFqn, TypeSymbol};
use strict_types::{
    BuildFragment, Dependency, PreFragment, SemId, SemVer, StlFormat, SymbolRef, SymbolicLib,
    SymbolicSys, Ty, TypeLib, TypeLibId, TypeSysId, TypeSystem, Urn,
};

use super::base::*;
use super::containers::same;
use super::selfdesc::value_path;
use crate::cx::{clip, hex, short, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::wire::Wire;
use crate::Prop;

pub const C14: Prop = Prop {
    id: "C14",
    cases: (12_000, 300_000),
    run: c14,
    rule: "armored texts of random libraries, type systems and symbolic systems are checked against independently computed \
           contents, parsed back, and parsed after alterations of the payload, checksum, id or structure; files are written in \
           each format into a scratch directory and read back; non-trivial: each distinct text",
    need: &[
        ("armor read back", 12_000), ("altered text rejected", 60_000), ("altered text accepted", 1_000),
        ("foreign payload", 2_000), ("files read back", 3_000), ("source files", 1_500), ("several dependencies", 500),
    ],
    level: "exploration",
    assume: &["collisions of SHA-256 are not found", "the checksum line of the altered text is still there"],
};

const VERSIONS: &[&str] = &["0.1.0", "1.0.0", "2.10.3-beta.1", "65535.0.1"];
const HEADERS: &[Option<&str>] = &[None, None, Some("\n  License: Apache-2.0"), Some("")];

fn ids_text<T: Display>(id: &T) -> String {
    id.to_string()
}

struct Armored {
    what: &'static str,
    title: &'static str,
    id: String,
    bytes: Vec<u8>,
    text: String,
}

fn check_armor<T>(cx: &mut Cx, obj: &T, a: &Armored) -> R
where
    T: AsciiArmor + PartialEq + Debug,
    T::Err: Display,
{
    let text = &a.text;
    ck!(
        text.starts_with(&format!("-----BEGIN {}-----\n", a.title))
            && text.ends_with(&format!("\n-----END {}-----\n", a.title)),
        "armor of {} has wrong plates: {}",
        a.what,
        clip(text, 300)
    );
    let head: Vec<&str> = text.lines().take_while(|l| !l.is_empty()).collect();
    ck!(
        head.contains(&format!("Id: {}", a.id).as_str()),
        "armor of {} does not show the id {}: {}",
        a.what,
        a.id,
        clip(text, 300)
    );
    let sum: String = Sha256::digest(&a.bytes).iter().map(|b| format!("{b:02x}")).collect();
    ck!(
        head.contains(&format!("Check-SHA256: {sum}").as_str()),
        "armor of {} does not have the checksum {sum} of its contents: {}",
        a.what,
        clip(text, 300)
    );
    let back = match T::from_ascii_armored_str(text) {
        Ok(b) => b,
        Err(e) => fail!("armor of {} can't be read back: {e}; {}", a.what, clip(text, 500)),
    };
    ck!(
        same(&back, obj),
        "{} {} is read from armor as {}",
        a.what,
        short(&format!("{obj:?}")),
        short(&format!("{back:?}"))
    );
    cx.count("armor read back");
    cx.eval(text);
    for _ in 0..8 {
        let t = alter(&mut cx.rng, text);
        if t == *text {
            continue;
        }
        cx.say(|| t.clone());
        cx.eval(&t);
        tampered(cx, obj, a, &t, "altered text")?;
    }
    Ok(())
}

fn tampered<T>(cx: &mut Cx, obj: &T, a: &Armored, t: &str, kind: &str) -> R
where
    T: AsciiArmor + PartialEq + Debug,
    T::Err: Display,
{
    match T::from_ascii_armored_str(t) {
        Err(_) => cx.count(&format!("{kind} rejected")),
        Ok(back) => {
            cx.count(&format!("{kind} accepted"));
            ck!(
                same(&back, obj),
                "altered armor of {} is accepted and gives {} instead of {}; text {}",
                a.what,
                short(&format!("{back:?}")),
                short(&format!("{obj:?}")),
                clip(t, 800)
            );
        }
    }
    Ok(())
}

/// Alters the text, keeping the checksum line
fn alter(r: &mut Rng, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(str::to_string).collect();
    let gap = lines.iter().position(|l| l.is_empty()).unwrap();
    let n = lines.len();
    let body = gap + 1..n - 2;
    let edit = |r: &mut Rng, s: &mut String| {
        let mut c: Vec<char> = s.chars().collect();
        if c.is_empty() {
            c.push('0');
        }
        let i = r.us(c.len());
        let pool: Vec<char> =
            "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~ :,\té"
                .chars()
                .collect();
        match r.below(4) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *r.pick(&pool)),
            2 if i + 1 < c.len() => c.swap(i, i + 1),
            _ => c[i] = *r.pick(&pool),
        }
        *s = c.into_iter().collect();
    };
    match r.below(12) {
        0..=3 => {
            // payload
            let i = body.start + r.us(body.len());
            edit(r, &mut lines[i]);
        }
        4 => {
            let i = lines.iter().position(|l| l.starts_with("Check-SHA256")).unwrap();
            let mut v = lines[i][14..].to_string();
            edit(r, &mut v);
            lines[i] = format!("Check-SHA256: {v}");
        }
        5 | 6 => {
            let i = lines.iter().position(|l| l.starts_with("Id:")).unwrap();
            edit(r, &mut lines[i]);
        }
        7 => {
            let i = body.start + r.us(body.len());
            lines.remove(i);
        }
        8 => {
            let i = body.start + r.us(body.len());
            let l = lines[i].clone();
            lines.insert(i, l);
        }
        9 => {
            let (i, j) = (body.start + r.us(body.len()), body.start + r.us(body.len()));
            lines.swap(i, j);
        }
        10 => {
            // header or plate
            let i = *r.pick(&[0, gap, n - 1, n - 2]);
            edit(r, &mut lines[i]);
        }
        _ => {
            let cut = r.us(text.len());
            let mut t = text.to_string();
            while !t.is_char_boundary(cut) {
                t.pop();
            }
            t.truncate(cut);
            return if t.contains("Check-SHA256") && t.lines().count() > gap + 1 {
                t
            } else {
                text.replace('\n', "\r\n")
            };
        }
    }
    lines.join("\n") + "\n"
}

/// Puts payload and checksum of another object under the id of this one
fn foreign(a: &Armored, b: &Armored) -> String {
    let mine: Vec<&str> = a.text.lines().filter(|l| l.starts_with("Id:")).collect();
    b.text
        .lines()
        .map(|l| if l.starts_with("Id:") { mine[0] } else { l })
        .collect::<Vec<_>>()
        .join("\n")
        + "\n"
}

fn c14(cx: &mut Cx) -> R {
    let mut o = Opts::LIBS;
    o.types = 4;
    let e = Env::gen(cx, o)?;
    let wire = Wire {
        w: &e.w,
        ids: &e.ids,
        lib_ids: &e.lib_ids,
    };
    let mut libs = vec![];
    for l in 0..e.w.libs.len() {
        let lib = &e.libs[l];
        let a = Armored {
            what: "library",
            title: "STRICT TYPE LIB",
            id: ids_text(&TypeLibId::from_byte_array(e.lib_ids[l])),
            bytes: wire.lib(l),
            text: lib.to_ascii_armored_string(),
        };
        ck!(
            a.text.contains(&format!("\nName: {}\n", e.w.libs[l])),
            "armor of library {} does not show its name",
            e.w.libs[l]
        );
        for d in e.w.deps(l) {
            ck!(
                a.text.contains(&format!("{}#", e.w.libs[d])),
                "armor of library {} does not show the dependency {}",
                e.w.libs[l],
                e.w.libs[d]
            );
        }
        if e.w.deps(l).len() > 1 {
            cx.count("several dependencies");
        }
        check_armor(cx, lib, &a)?;
        files(cx, &e, l, &a)?;
        libs.push(a);
    }
    for i in 1..libs.len() {
        let (a, b) = (&libs[i - 1], &libs[i]);
        if a.id != b.id {
            cx.count("foreign payload");
            let t = foreign(a, b);
            cx.eval(&t);
            ck!(
                TypeLib::from_ascii_armored_str(&t).is_err(),
                "armor with the id {} of another library is accepted: {}",
                a.id,
                clip(&t, 500)
            );
        }
    }
    let all = e.w.closure(e.w.all_named());
    let sid_of = |set: &BTreeSet<TId>| {
        TypeSysId::from_byte_array(World::sys_id(&set.iter().map(|t| e.ids[*t]).collect())).to_string()
    };
    let a = Armored {
        what: "type system",
        title: "STRICT TYPE SYSTEM",
        id: sid_of(&all),
        bytes: wire.system(&all),
        text: e.types().to_ascii_armored_string(),
    };
    check_armor(cx, e.types(), &a)?;
    let t = pick_type(cx, &e.w);
    let part_set = e.w.closure([t]);
    let part = must!(e.types().extract([e.sem(t)]), "extract");
    let p = Armored {
        what: "type system",
        title: "STRICT TYPE SYSTEM",
        id: sid_of(&part_set),
        bytes: wire.system(&part_set),
        text: part.to_ascii_armored_string(),
    };
    check_armor(cx, &part, &p)?;
    if a.id != p.id {
        cx.count("foreign payload");
        for (x, y) in [(&a, &p), (&p, &a)] {
            ck!(
                TypeSystem::from_ascii_armored_str(&foreign(x, y)).is_err(),
                "armor with the id {} of another type system is accepted",
                x.id
            );
        }
    }
    let mut bytes = wire.symbols(&all);
    bytes.extend(&a.bytes);
    let s = Armored {
        what: "symbolic system",
        title: "STRICT SYMBOLIC TYPES",
        id: a.id.clone(),
        bytes,
        text: e.sym.to_ascii_armored_string(),
    };
    check_armor(cx, &e.sym, &s)?;
    // Armors are not confused with each other
    ck!(
        TypeSystem::from_ascii_armored_str(&s.text).is_err()
            && SymbolicSys::from_ascii_armored_str(&a.text).is_err()
            && TypeLib::from_ascii_armored_str(&a.text).is_err()
            && TypeSystem::from_ascii_armored_str(&libs[0].text).is_err(),
        "armor of another kind of object is accepted"
    );
    cx.sample(|| libs[0].text.clone());
    Ok(())
}

fn files(cx: &mut Cx, e: &Env, l: usize, a: &Armored) -> R {
    let lib = &e.libs[l];
    let ver = *cx.rng.pick(VERSIONS);
    let header = *cx.rng.pick(HEADERS);
    let dir = cx.scratch.join(format!("files{}", cx.rng.below(3)));
    let _ = std::fs::remove_dir_all(&dir);
    let fmt = *cx.rng.pick(&[StlFormat::Binary, StlFormat::Armored, StlFormat::Source]);
    ck!(
        lib.serialize(fmt, Some(&dir), ver, header).is_err(),
        "writing into a missing directory is reported as a success"
    );
    std::fs::create_dir_all(&dir).expect("harness: directory");
    // an earlier longer file has to be replaced
    let name = format!("{}@{ver}.{}", lib.name, match fmt {
        StlFormat::Binary => "stl",
        StlFormat::Armored => "sta",
        StlFormat::Source => "sty",
    });
    if cx.rng.coin() {
        std::fs::write(dir.join(&name), vec![b'x'; 100_000]).expect("harness: file");
    }
    must!(lib.serialize(fmt, Some(&dir), ver, header), "write library {name}");
    let names: Vec<String> = std::fs::read_dir(&dir)
        .expect("harness: directory")
        .map(|f| f.unwrap().file_name().into_string().unwrap())
        .collect();
    ck!(names == [name.clone()], "library is written as {names:?} instead of {name}");
    let file = dir.join(&name);
    let data = std::fs::read(&file).expect("harness: file");
    match fmt {
        StlFormat::Binary => {
            ck!(data == a.bytes, "contents of {name} are not the encoded library");
            let back = must!(
                TypeLib::strict_deserialize_from_file::<MAX>(&file),
                "read library file {name}"
            );
            ck!(same(&back, lib), "library read from {name} is different");
            cx.count("files read back");
        }
        StlFormat::Armored => {
            let text = String::from_utf8(data).map_err(|e| e.to_string())?;
            ck!(text.starts_with(&a.text), "contents of {name} are not the armored library");
            match TypeLib::from_ascii_armored_str(&text) {
                Ok(back) => ck!(same(&back, lib), "library read from {name} is different"),
                Err(err) => fail!("library file {name} can't be read: {err}"),
            }
            cx.count("files read back");
        }
        StlFormat::Source => {
            let text = String::from_utf8(data).map_err(|e| e.to_string())?;
            let sym = must!(lib.to_symbolic(), "symbolic form");
            let exp = format!(
                "{{-\n  Id: {}\n  Name: {}\n  Version: {ver}{}\n-}}\n\n{sym}\n",
                a.id,
                lib.name,
                header.unwrap_or_default()
            );
            ck!(
                text == exp,
                "source file of {name} is {}, expected {}",
                clip(&text, 600),
                clip(&exp, 600)
            );
            must!(sym.serialize(Some(&dir), ver, header), "write symbolic library");
            let text = std::fs::read_to_string(&file).expect("harness: file");
            let exp = format!(
                "{{-\n  Name: {}\n  Version: {ver}{}\n-}}\n\n{sym}\n",
                lib.name,
                header.unwrap_or_default()
            );
            ck!(
                text == exp,
                "source file of symbolic {name} is {}, expected {}",
                clip(&text, 600),
                clip(&exp, 600)
            );
            cx.count("source files");
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C15: Prop = Prop {
    id: "C15",
    cases: (20_000, 1_000_000),
    run: c15,
    rule: "random and special ids of each kind are printed in each form and parsed; texts with altered characters, foreign \
           prefixes or mnemonics are parsed and compared with an independent reading; names, formats and versions are printed \
           and read back independently; non-trivial: each distinct text",
    need: &[
        ("parsed back", 200_000), ("altered rejected", 200_000), ("altered accepted", 5_000), ("foreign prefix", 50_000),
        ("foreign mnemonic", 50_000), ("versions", 15_000), ("urns", 30_000), ("formats", 15_000),
    ],
    level: "exploration",
    assume: &["texts whose 24-bit checksum collides by chance are excluded by computing the checksum"],
};

pub(super) trait TextId: DisplayBaid64 + FromStr<Err = Baid64ParseError> + Display + Copy + PartialEq + Debug {
    const KIND: &'static str;
    const SCHEME: &'static str;
    fn make(b: Id) -> Self;
    fn raw(&self) -> Id;
}
macro_rules! text_id {
    ($t:ident, $hri:literal) => {
        impl TextId for $t {
            const KIND: &'static str = stringify!($t);
            const SCHEME: &'static str = $hri;
            fn make(b: Id) -> Self {
                $t::from_byte_array(b)
            }
            fn raw(&self) -> Id {
                self.to_byte_array()
            }
        }
    };
}
text_id!(SemId, "semid");
text_id!(TypeLibId, "stl");
text_id!(TypeSysId, "sts");

const SCHEMES: [&str; 3] = ["semid", "stl", "sts"];
const ALPHABET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~";

/// Independent encoding of 256 bits into 43 digits
pub(super) fn digits(b: &Id) -> String {
    let mut s = String::new();
    for i in 0..43 {
        let mut v = 0u8;
        for k in 0..6 {
            let bit = i * 6 + k;
            let x = if bit < 256 { b[bit / 8] >> (7 - bit % 8) & 1 } else { 0 };
            v = v << 1 | x;
        }
        s.push(ALPHABET[v as usize] as char);
    }
    s
}
fn undigits(s: &str) -> Option<Id> {
    let v: Option<Vec<u8>> = s
        .bytes()
        .map(|c| ALPHABET.iter().position(|a| *a == c).map(|p| p as u8))
        .collect();
    let v = v?;
    if v.len() != 43 || v[42] & 3 != 0 {
        return None;
    }
    let mut b = [0u8; 32];
    for bit in 0..256 {
        let x = v[bit / 6] >> (5 - bit % 6) & 1;
        b[bit / 8] |= x << (7 - bit % 8);
    }
    Some(b)
}
fn chunked(d: &str) -> String {
    let mut s = d[..8].to_string();
    for c in d.as_bytes()[8..].chunks(7) {
        s.push('-');
        s.push_str(std::str::from_utf8(c).unwrap());
    }
    s
}
/// The checksum and its words, by the library implementing them
pub(super) fn checksum(scheme: &'static str, id: Id) -> ([u8; 4], String) {
    let d = Baid64Display::<32>::new(scheme, id);
    (d.checksum(), d.mnemonic().to_string())
}

fn one_id<T: TextId>(cx: &mut Cx) -> R {
    let raw: Id = match cx.rng.below(8) {
        0 => [*cx.rng.pick(&[0u8, 0xFF, 1, 0x80]); 32],
        1 => {
            let mut b = [0u8; 32];
            b[cx.rng.us(32)] = 1 << cx.rng.below(8);
            b
        }
        _ => cx.rng.bytes(32).try_into().unwrap(),
    };
    let id = T::make(raw);
    let d = digits(&raw);
    let (sum, words) = checksum(T::SCHEME, raw);
    let full = format!("{}:{}#{words}", T::SCHEME, chunked(&d));
    let printed = id.to_string();
    ck!(printed == full, "{} is printed as {printed}, expected {full}", T::KIND);
    ck!(
        format!("{id:+}") == full && id.to_baid64_string() == full && id.to_baid64_mnemonic() == words,
        "{} {full} is printed as {id:+} and {} with {}",
        T::KIND,
        id.to_baid64_string(),
        id.to_baid64_mnemonic()
    );
    let bare = format!("{id:-#}");
    ck!(bare == chunked(&d), "{} without prefix and mnemonic is printed as {bare}", T::KIND);
    let forms = [
        full.clone(),
        format!("{id:-}"),
        format!("{id:#}"),
        bare.clone(),
        d.clone(),
        format!("{}:{d}", T::SCHEME),
        format!("{d}#{words}"),
        format!("{}:{d}#{words}", T::SCHEME),
    ];
    for f in &forms {
        match T::from_str(f) {
            Ok(back) => ck!(back == id && back.raw() == raw, "{f} is parsed as {back}"),
            Err(e) => fail!("{f} is not parsed: {e}"),
        }
        cx.count("parsed back");
        cx.eval(f);
    }
    // distinct ids
    let mut other = raw;
    other[cx.rng.us(32)] ^= 1 << cx.rng.below(8);
    let o = T::make(other);
    ck!(
        o != id && o.to_string() != printed && format!("{o:-#}") != bare,
        "{printed} and another id are printed alike"
    );
    // other kinds of ids
    for s in SCHEMES.iter().chain(&["", "stlx", "st"]).filter(|s| **s != T::SCHEME) {
        let t = full.replacen(T::SCHEME, s, 1);
        ck!(T::from_str(&t).is_err(), "{t} is parsed as {}", T::KIND);
        cx.count("foreign prefix");
        cx.eval(&t);
        if SCHEMES.contains(s) {
            // checksums depend on the kind
            let (fsum, fwords) = checksum(s, raw);
            if fsum != sum {
                for t in [format!("{d}#{fwords}"), format!("{}:{d}#{fwords}", T::SCHEME)] {
                    ck!(T::from_str(&t).is_err(), "{t} with a mnemonic of {s} is parsed as {}", T::KIND);
                    cx.count("foreign mnemonic");
                    cx.eval(&t);
                }
            }
        }
    }
    let (osum, owords) = checksum(T::SCHEME, other);
    if osum != sum {
        let t = format!("{d}#{owords}");
        ck!(T::from_str(&t).is_err(), "{t} with a wrong mnemonic is parsed");
        cx.count("foreign mnemonic");
        let t = full.replacen(&chunked(&d), &chunked(&digits(&other)), 1);
        ck!(T::from_str(&t).is_err(), "{t} with a changed bit is parsed");
    }
    // alterations
    for _ in 0..12 {
        let src = cx.rng.pick(&forms).clone();
        let mut c: Vec<char> = src.chars().collect();
        for _ in 0..=cx.rng.below(2) {
            let i = cx.rng.us(c.len());
            let x = match cx.rng.below(6) {
                0 => *cx.rng.pick(&['-', '#', ':', ' ', '=', '+', '/', 'é', '\0']),
                _ => *cx.rng.pick(ALPHABET) as char,
            };
            match cx.rng.below(5) {
                0 => {
                    c.remove(i);
                }
                1 => c.insert(i, x),
                2 if i + 1 < c.len() => c.swap(i, i + 1),
                _ => c[i] = x,
            }
        }
        let t: String = c.into_iter().collect();
        if t == src {
            continue;
        }
        cx.eval(&t);
        let got = T::from_str(&t);
        match read_id::<T>(&t) {
            None => {
                // mnemonic words may have several forms; nothing else than the same id is possible
                if let Ok(x) = got {
                    ck!(
                        t.contains('#') && x == id,
                        "altered text {t} of {full} is parsed as {x}"
                    );
                    cx.count("altered accepted");
                } else {
                    cx.count("altered rejected");
                }
            }
            Some(exp) => match got {
                Ok(x) => {
                    ck!(x.raw() == exp, "{t} is parsed as {x}");
                    cx.count("altered accepted");
                }
                Err(e) => fail!("{t} is not parsed: {e}"),
            },
        }
    }
    Ok(())
}

/// Independent reading of an identifier; `None` if it is invalid or has unknown words
pub(super) fn read_id<T: TextId>(t: &str) -> Option<Id> {
    let (scheme, rest) = match t.rsplit_once(':') {
        Some((s, r)) => (Some(s), r),
        None => (None, t),
    };
    if scheme.is_some_and(|s| s != T::SCHEME) {
        return None;
    }
    let (d, words) = match rest.split_once('#') {
        Some((d, w)) => (d, Some(w)),
        None => (rest, None),
    };
    let d = d.replace('-', "");
    if d.len() == 48 {
        // embedded checksum
        return None;
    }
    let id = undigits(&d)?;
    match words {
        Some(w) if w != checksum(T::SCHEME, id).1 => None,
        _ => Some(id),
    }
}

fn c15(cx: &mut Cx) -> R {
    one_id::<SemId>(cx)?;
    one_id::<TypeLibId>(cx)?;
    one_id::<TypeSysId>(cx)?;

    // Urns
    let raw: Id = cx.rng.bytes(32).try_into().unwrap();
    let (t, l) = (SemId::from_byte_array(raw), TypeLibId::from_byte_array(raw));
    for (u, exp, alt) in [
        (Urn::from(t), format!("urn:sten:id:{t}"), format!("urn:sten:id:{t:#}")),
        (Urn::from(l), format!("urn:sten:lib:{l}"), format!("urn:sten:lib:{l:#}")),
    ] {
        ck!(
            u.to_string() == exp && format!("{u:#}") == alt,
            "{u:?} is printed as {u} and {u:#}"
        );
        cx.count("urns");
        cx.eval(&exp);
    }
    ck!(
        Urn::from(t).to_string()["urn:sten:id:".len()..].parse::<SemId>().ok() == Some(t)
            && Urn::from(l).to_string()["urn:sten:lib:".len()..].parse::<TypeLibId>().ok() == Some(l),
        "URN does not name its id"
    );

    // References
    let (lib, ty) = (ident(&mut cx.rng, true), ident(&mut cx.rng, true));
    let r = SymbolRef::with(lname(&lib), tname(&ty), l, t);
    ck!(
        r.to_string() == format!("{lib}.{ty}") && format!("{r:#}") == format!("{lib}.{ty}#{t:#}"),
        "reference to {lib}.{ty} is printed as {r} and {r:#}"
    );
    let dep = Dependency::with(l, lname(&lib));
    ck!(
        dep.to_string() == format!("{lib}#{}", checksum("stl", raw).1),
        "dependency {lib} is printed as {dep}"
    );

    // Formats
    for (f, s) in [
        (StlFormat::Source, "sty"),
        (StlFormat::Binary, "stl"),
        (StlFormat::Armored, "sta"),
    ] {
        ck!(
            f.to_string() == s && StlFormat::from_str(s) == Ok(f),
            "format {f:?} is printed as {f}"
        );
        cx.count("formats");
    }
    let mut bad = cx.rng.pick(&["stl", "sta", "sty"]).to_string();
    match cx.rng.below(4) {
        0 => bad = bad.to_uppercase(),
        1 => bad.insert(cx.rng.us(3), 't'),
        2 => bad = bad[..cx.rng.us(3)].to_string(),
        _ => bad.push(' '),
    }
    match StlFormat::from_str(&bad) {
        Ok(f) => fail!("unknown format '{bad}' is taken for {f}"),
        Err(e) => ck!(e.to_string().contains(&bad), "unknown format '{bad}' is reported as {e}"),
    }

    // Versions
    let r = &mut cx.rng;
    let mut v = SemVer::new(r.u64() as u16, r.below(30) as u16, r.biased() as u16);
    let (mut pre, mut build) = (vec![], vec![]);
    let word = |r: &mut Rng| {
        let caps = r.coin();
        ident(r, caps)
    };
    for _ in 0..r.below(4) {
        pre.push(if r.coin() {
            let w = word(r);
            (w.clone(), PreFragment::Ident(Ident::try_from(w).unwrap()))
        } else {
            let n = match r.below(3) {
                0 => u128::MAX - r.below(2) as u128,
                1 => r.below(10) as u128,
                _ => (r.u64() as u128) << 64 | r.u64() as u128,
            };
            (n.to_string(), PreFragment::Digits(n))
        });
    }
    for _ in 0..r.below(4) {
        let w = word(r);
        let i = Ident::try_from(w.clone()).unwrap();
        build.push((w, if r.coin() { BuildFragment::Ident(i) } else { BuildFragment::Digits(i) }));
    }
    v.pre = Confined::from_checked(pre.iter().map(|x| x.1.clone()).collect());
    v.build = Confined::from_checked(build.iter().map(|x| x.1.clone()).collect());
    let join = |v: Vec<String>, sep: &str| {
        if v.is_empty() {
            String::new()
        } else {
            format!("{sep}{}", v.join("."))
        }
    };
    let exp = format!(
        "{}.{}.{}{}{}",
        v.major,
        v.minor,
        v.patch,
        join(pre.into_iter().map(|x| x.0).collect(), "-"),
        join(build.into_iter().map(|x| x.0).collect(), "+")
    );
    ck!(v.to_string() == exp, "version {exp} is printed as {v}");
    cx.count("versions");
    cx.eval(&exp);
    cx.sample(|| format!("{t} {exp}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C24: Prop = Prop {
    id: "C24",
    cases: (9_000, 150_000),
    run: c24,
    rule: "libraries, symbolic libraries, type systems, symbols, ids and their parts of random definitions are written as JSON \
           (text and value) and YAML and read back; then documents changed at one place are read; non-trivial: each distinct \
           document",
    need: &[
        ("read back", 40_000), ("changed rejected", 20_000), ("changed accepted", 500), ("malformed id", 3_000),
        ("malformed name", 3_000), ("missing part", 3_000), ("binary forms", 40_000), ("plain values", 15_000),
        ("changed value rejected", 1_000), ("changed value accepted", 3_000), ("malformed byte string", 5_000),
    ],
    level: "exploration",
    assume: &["bounds on the size of collections are not enforced by the deserialization of the amplify dependency"],
};

fn serde_round<T>(cx: &mut Cx, what: &'static str, obj: &T, yaml: bool) -> R<serde_json::Value>
where
    T: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let text = must!(serde_json::to_string(obj), "{what} as JSON");
    let back: T = must!(serde_json::from_str(&text), "{what} from JSON {}", clip(&text, 1000));
    ck!(
        same(&back, obj),
        "{what} {} is read from JSON as {}",
        short(&format!("{obj:?}")),
        short(&format!("{back:?}"))
    );
    cx.count("read back");
    cx.eval(&text);
    let val = must!(serde_json::to_value(obj), "{what} as JSON value");
    let back: T = must!(serde_json::from_value(val.clone()), "{what} from JSON value");
    ck!(same(&back, obj), "{what} is read from JSON value as {back:?}");
    let pretty = must!(serde_json::to_string_pretty(obj), "{what} as JSON");
    let back: T = must!(serde_json::from_str(&pretty), "{what} from JSON");
    ck!(same(&back, obj), "{what} is read from JSON as {back:?}");
    if yaml {
        let text = match serde_yaml::to_string(obj) {
            Ok(text) => text,
            Err(e) if e.to_string().contains("nested enums") => {
                cx.count("not representable in YAML");
                return Ok(val);
            }
            Err(e) => fail!("{what} can't be written as YAML: {e}"),
        };
        let back: T = must!(serde_yaml::from_str(&text), "{what} from YAML {}", clip(&text, 1000));
        ck!(
            same(&back, obj),
            "{what} {} is read from YAML as {}",
            short(&format!("{obj:?}")),
            short(&format!("{back:?}"))
        );
        cx.count("read back");
        cx.eval(&text);
    }
    // a format which doesn't describe itself
    let data = must!(bincode::serialize(obj), "{what} in binary form");
    let mut left = &data[..];
    let back: T = must!(bincode::deserialize_from(&mut left), "{what} from binary form {}", hex(&data));
    ck!(left.is_empty(), "{what}: {} bytes of the binary form {} are left", left.len(), hex(&data));
    ck!(
        same(&back, obj),
        "{what} {} is read from binary form as {}",
        short(&format!("{obj:?}")),
        short(&format!("{back:?}"))
    );
    cx.count("binary forms");
    Ok(val)
}

/// Places of the document: (path, is it a key)
fn places(v: &serde_json::Value, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    match v {
        serde_json::Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i);
                places(x, at, out);
                at.pop();
            }
        }
        serde_json::Value::Object(m) => {
            for (i, x) in m.values().enumerate() {
                at.push(i);
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn place<'v>(v: &'v mut serde_json::Value, at: &[usize]) -> &'v mut serde_json::Value {
    let Some(i) = at.first() else { return v };
    match v {
        serde_json::Value::Array(a) => place(&mut a[*i], &at[1..]),
        serde_json::Value::Object(m) => place(m.values_mut().nth(*i).unwrap(), &at[1..]),
        _ => unreachable!(),
    }
}

fn change_doc(r: &mut Rng, v: &mut serde_json::Value) {
    use serde_json::{json, Value as J};
    let mut all = vec![];
    places(v, &mut vec![], &mut all);
    let at = r.pick(&all).clone();
    let p = place(v, &at);
    let junk = |r: &mut Rng| match r.below(9) {
        0 => J::Null,
        1 => json!(true),
        2 => json!(-1),
        3 => json!(u64::MAX),
        4 => json!(1.5),
        5 => json!("é\u{0}"),
        6 => json!(""),
        7 => json!([]),
        _ => json!({}),
    };
    match p {
        J::Object(m) if !m.is_empty() && r.chance(2, 3) => {
            let k = m.keys().nth(r.us(m.len())).unwrap().clone();
            match r.below(3) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = m.remove(&k).unwrap();
                    let mut k = k;
                    match r.below(3) {
                        0 => k.push('!'),
                        1 => k.insert(0, '1'),
                        _ => k.clear(),
                    }
                    m.insert(k, x);
                }
                _ => {
                    let j = junk(r);
                    m.insert(ident(r, false), j);
                }
            }
        }
        J::Array(a) if !a.is_empty() && r.chance(2, 3) => {
            let i = r.us(a.len());
            match r.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                2 => a.clear(),
                _ => {
                    let j = junk(r);
                    a.push(j)
                }
            }
        }
        J::String(s) if r.chance(3, 4) => match r.below(5) {
            0 => s.push('x'),
            1 => {
                s.pop();
            }
            2 => s.insert(0, ' '),
            3 => *s = s.repeat(30),
            _ => s.clear(),
        },
        J::Number(_) if r.chance(2, 3) => *p = json!(*r.pick(&[0i64, -1, 256, 65536, 1 << 40])),
        _ => *p = junk(r),
    }
}

fn hostile_doc<T>(cx: &mut Cx, what: &'static str, val: &serde_json::Value) -> R
where
    T: Serialize + DeserializeOwned + PartialEq + Debug,
{
    for _ in 0..3 {
        let mut v = val.clone();
        change_doc(&mut cx.rng, &mut v);
        if v == *val {
            continue;
        }
        let text = v.to_string();
        cx.say(|| format!("{what} {text}"));
        cx.eval(&text);
        match serde_json::from_str::<T>(&text) {
            Err(_) => cx.count("changed rejected"),
            Ok(obj) => {
                cx.count("changed accepted");
                // An accepted document is an object which can be written and read
                let again = must!(serde_json::to_string(&obj), "{what} as JSON");
                let back: T = must!(serde_json::from_str(&again), "{what} from JSON");
                ck!(same(&back, &obj), "{what} {} is read as {back:?}", clip(&again, 800));
            }
        }
        let y = clip(&text, 200_000);
        let _ = serde_yaml::from_str::<T>(&y);
    }
    Ok(())
}

fn reject<T: DeserializeOwned + Debug>(cx: &mut Cx, what: &str, v: serde_json::Value) -> R {
    cx.count(what);
    cx.eval(v.to_string());
    if let Ok(x) = serde_json::from_value::<T>(v.clone()) {
        fail!("document with a {what} {} is read as {}", clip(&v.to_string(), 800), short(&format!("{x:?}")));
    }
    Ok(())
}

fn c24(cx: &mut Cx) -> R {
    let mut o = Opts::LIBS;
    o.types = 4;
    o.libs = 3;
    o.wide = cx.rng.chance(1, 4);
    let e = Env::gen(cx, o)?;
    let yaml = cx.rng.coin();
    for (l, lib) in e.libs.iter().enumerate() {
        let v = serde_round::<TypeLib>(cx, "library", lib, yaml)?;
        let back: TypeLib = serde_json::from_value(v.clone()).unwrap();
        ck!(back.id().to_byte_array() == e.lib_ids[l], "library read back has id {}", back.id());
        hostile_doc::<TypeLib>(cx, "library", &v)?;
        let sym = must!(lib.to_symbolic(), "symbolic form");
        let sv = serde_round::<SymbolicLib>(cx, "symbolic library", &sym, yaml)?;
        hostile_doc::<SymbolicLib>(cx, "symbolic library", &sv)?;
        for key in ["name", "dependencies", "types"] {
            let mut x = v.clone();
            x.as_object_mut().unwrap().remove(key).expect("harness: key");
            reject::<TypeLib>(cx, "missing part", x)?;
        }
        let mut x = v.clone();
        x["name"] = bad_name(&mut cx.rng).into();
        reject::<TypeLib>(cx, "malformed name", x)?;
        for dep in &lib.dependencies {
            let dv = serde_round(cx, "dependency", dep, true)?;
            let mut x = dv.clone();
            x["id"] = bad_id(&mut cx.rng, dv["id"].as_str().unwrap_or_default()).into();
            reject::<Dependency>(cx, "malformed id", x)?;
        }
    }
    let v = serde_round(cx, "type system", e.types(), yaml)?;
    let back: TypeSystem = serde_json::from_value(v.clone()).unwrap();
    ck!(back.id() == e.types().id(), "type system read back has id {}", back.id());
    hostile_doc::<TypeSystem>(cx, "type system", &v)?;
    let v = serde_round(cx, "symbols", e.sym.as_symbols(), yaml)?;
    hostile_doc::<Symbols>(cx, "symbols", &v)?;
    let v = serde_round(cx, "symbolic system", &e.sym, yaml)?;
    let back: SymbolicSys = serde_json::from_value(v.clone()).unwrap();
    ck!(back.id() == e.sym.id(), "symbolic system read back has id {}", back.id());
    hostile_doc::<SymbolicSys>(cx, "symbolic system", &v)?;

    let t = pick_type(cx, &e.w);
    let id = e.sem(t);
    let v = serde_round(cx, "id", &id, true)?;
    let text = v.as_str().map(str::to_string);
    ck!(text.is_some(), "id is written as {v}");
    let bad = bad_id(&mut cx.rng, text.as_deref().unwrap());
    reject::<SemId>(cx, "malformed id", bad.into())?;
    serde_round(cx, "library id", &TypeLibId::from_byte_array(e.lib_ids[0]), true)?;
    serde_round(cx, "type system id", &e.sym.id(), true)?;
    if let Some(n) = &e.w.nodes[t].name {
        let fqn = TypeFqn::with(lname(&e.w.libs[e.w.nodes[t].lib]), tname(n));
        let v = serde_round(cx, "name", &fqn, true)?;
        let mut x = v;
        x["name"] = bad_name(&mut cx.rng).into();
        reject::<TypeFqn>(cx, "malformed name", x)?;
        serde_round(cx, "symbol", &TypeSymbol::with(id, fqn.clone()), true)?;
        serde_round(cx, "named type", &SymTy::with(Some(fqn), e.types()[id].clone()), yaml)?;
    }
    serde_round(cx, "symbol", &TypeSymbol::unnamed(id), true)?;
    let p = value_path(&mut cx.rng, u64::MAX as u128);
    serde_round(cx, "path", &p, true)?;
    blobs(cx)?;
    for _ in 0..2 {
        let v = any_val(&mut cx.rng, 3);
        plain_value(cx, &v)?;
    }
    serde_round::<Ty<SemId>>(cx, "type", &e.types()[id], yaml)?;
    cx.sample(|| serde_json::to_string(&e.libs[0]).unwrap());
    Ok(())
}

/// Byte strings are hexadecimal texts, unless the format is binary
fn blobs(cx: &mut Cx) -> R {
    let n = *cx.rng.pick(&[0usize, 1, 2, 31, 255, 256, 1000]);
    let b = Blob(cx.rng.bytes(n));
    let v = serde_round(cx, "byte string", &b, true)?;
    ck!(v.as_str() == Some(&hex_text(&b.0)), "byte string {:?} is written as {v}", b.0);
    let data = must!(bincode::serialize(&b), "byte string in binary form");
    let mut exp = (n as u64).to_le_bytes().to_vec();
    exp.extend(&b.0);
    ck!(data == exp, "byte string {} is written in binary form as {}", hex(&b.0), hex(&data));
    // malformed texts
    let mut s = hex_text(&b.0);
    match cx.rng.below(3) {
        0 => s.push('0'),
        1 => s.insert(0, 'g'),
        _ => s.push_str(" 1"),
    }
    reject::<Blob>(cx, "malformed byte string", s.into())
}

fn hex_text(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// Values of all kinds, regardless of types
fn any_val(r: &mut Rng, depth: u32) -> StrictVal {
    let n = if depth == 0 { r.below(7) } else { r.below(13) };
    let some = |r: &mut Rng, max: u64| -> Vec<StrictVal> { (0..r.below(max)).map(|_| any_val(r, depth - 1)).collect() };
    let tag = |r: &mut Rng| match r.coin() {
        true => EnumTag::Ord(r.biased() as u8),
        false => EnumTag::Name(vname(&ident(r, false))),
    };
    match n {
        0 => StrictVal::Unit,
        1 => StrictVal::num(r.biased()),
        2 => StrictVal::num(r.biased() as i64),
        3 => StrictVal::String(ident(r, false)),
        4 => StrictVal::String((0..r.below(6)).map(|_| char_any(r)).collect()),
        5 => {
            let n = r.us(8);
            StrictVal::bytes(r.bytes(n))
        }
        6 => StrictVal::Enum(tag(r)),
        7 => StrictVal::Union(tag(r), Box::new(any_val(r, depth - 1))),
        8 => StrictVal::List(some(r, 4)),
        9 => StrictVal::Set(some(r, 4)),
        10 => StrictVal::Tuple(some(r, 4)),
        11 => StrictVal::Map((0..r.below(4)).map(|_| (any_val(r, depth - 1), any_val(r, depth - 1))).collect()),
        _ => {
            let mut f = IndexMap::new();
            for _ in 0..r.below(4) {
                f.insert(fname(&ident(r, false)), any_val(r, depth - 1));
            }
            StrictVal::Struct(f)
        }
    }
}

/// Document of the value
fn doc_of(v: &StrictVal) -> serde_json::Value {
    use serde_json::{json, Value as J};
    let all = |l: &[StrictVal]| J::Array(l.iter().map(doc_of).collect());
    let tag = |t: &EnumTag| match t {
        EnumTag::Ord(n) => json!(n),
        EnumTag::Name(n) => json!(n.as_str()),
    };
    match v {
        StrictVal::Unit => J::Null,
        StrictVal::Number(StrictNum::Uint(n)) => json!(n),
        StrictVal::Number(StrictNum::Int(n)) => json!(n),
        StrictVal::Number(_) => panic!("harness: big number"),
        StrictVal::String(s) => json!(s),
        StrictVal::Bytes(b) => json!(hex_text(&b.0)),
        StrictVal::Struct(f) => J::Object(f.iter().map(|(n, v)| (n.as_str().to_string(), doc_of(v))).collect()),
        StrictVal::Enum(t) => tag(t),
        StrictVal::Union(t, v) => json!([tag(t), doc_of(v)]),
        StrictVal::List(l) | StrictVal::Set(l) | StrictVal::Tuple(l) => all(l),
        StrictVal::Map(m) => J::Array(m.iter().map(|(k, v)| json!([doc_of(k), doc_of(v)])).collect()),
    }
}

/// Plain documents do not tell kinds of values, but nothing of the contents is lost
fn plain_value(cx: &mut Cx, v: &StrictVal) -> R {
    let exp = doc_of(v);
    cx.say(|| format!("{v:?}"));
    let got = must!(serde_json::to_value(v), "{v:?} as JSON value");
    ck!(got == exp, "{v:?} is written as {got} and not as {exp}");
    let text = must!(serde_json::to_string(v), "{v:?} as JSON");
    // order of fields is the part of the text
    let read: StrictVal = must!(serde_json::from_str(&text), "value from JSON {text}");
    let again = must!(serde_json::to_string(&read), "{read:?} as JSON");
    ck!(again == text, "{v:?} is written as {text}, read as {read:?} and written again as {again}");
    ck!(scalars(&read, &exp), "{text} is read as {read:?}");
    let yaml = must!(serde_yaml::to_string(v), "{v:?} as YAML");
    let read: StrictVal = must!(serde_yaml::from_str(&yaml), "value from YAML {yaml}");
    let again = must!(serde_yaml::to_string(&read), "{read:?} as YAML");
    ck!(again == yaml, "{v:?} is written as {yaml}, read as {read:?} and written again as {again}");
    ck!(scalars(&read, &exp), "{yaml} is read as {read:?}");
    cx.count("plain values");
    cx.eval(&text);
    let mut junk = exp.clone();
    change_doc(&mut cx.rng, &mut junk);
    let text = junk.to_string();
    if let Ok(v) = serde_json::from_str::<StrictVal>(&text) {
        ck!(doc_of_any(&v).as_ref() == Some(&junk), "{text} is read as {v:?}");
        cx.count("changed value accepted");
    } else {
        cx.count("changed value rejected");
    }
    Ok(())
}

fn doc_of_any(v: &StrictVal) -> Option<serde_json::Value> {
    std::panic::catch_unwind(|| doc_of(v)).ok()
}

/// Units, numbers, texts and named fields are not mistaken for anything else
fn scalars(v: &StrictVal, d: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (v, d) {
        (StrictVal::Unit, J::Null) => true,
        (StrictVal::Number(StrictNum::Uint(n)), J::Number(m)) => m.as_u64() == Some(*n),
        (StrictVal::Number(StrictNum::Int(n)), J::Number(m)) => *n < 0 && m.as_i64() == Some(*n),
        (StrictVal::String(s), J::String(t)) => s == t,
        (StrictVal::Struct(f), J::Object(m)) => {
            f.len() == m.len() && f.iter().all(|(n, v)| m.get(n.as_str()).is_some_and(|d| scalars(v, d)))
        }
        (StrictVal::List(l) | StrictVal::Set(l) | StrictVal::Tuple(l), J::Array(a)) => {
            l.len() == a.len() && l.iter().zip(a).all(|(v, d)| scalars(v, d))
        }
        (StrictVal::Union(_, v), J::Array(a)) => a.len() == 2 && scalars(v, &a[1]),
        (StrictVal::Map(m), J::Array(a)) => {
            m.len() == a.len()
                && m.iter().zip(a).all(|((k, v), d)| {
                    d.as_array().is_some_and(|d| d.len() == 2 && scalars(k, &d[0]) && scalars(v, &d[1]))
                })
        }
        _ => false,
    }
}

fn bad_name(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => format!("1{}", ident(r, true)),
        2 => format!("{} ", ident(r, true)),
        3 => "A".repeat(101),
        _ => format!("Ж{}", ident(r, true)),
    }
}
fn bad_id(r: &mut Rng, id: &str) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => id[..id.len() - 1].to_string(),
        2 => format!("{id}0"),
        3 => format!("{id}00"),
        _ => {
            let mut b = id.to_string();
            b.replace_range(3..4, "g");
            b
        }
    }
}
