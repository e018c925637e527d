//! C22 (streams)
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{self, ErrorKind, Read, Write};

use amplify::confinement::Confined;
use strict_encoding::{
    DecodeError, DeserializeError, SerializeError, StreamReader, StreamWriter, StrictDeserialize,
    StrictReader, StrictSerialize, StrictWriter,
};
use strict_types::typesys::TypeFqn;
use strict_types::value::decode::Error;
use strict_types::value::typify::TypedVal;
use strict_types::{StlFormat, SymbolicLib, TypeLib};

use super::base::*;
use super::libs::Parts;
use crate::cx::{hex, short, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Prop;

pub const C22: Prop = Prop {
    id: "C22",
    cases: (3_000, 300_000),
    run: c22,
    rule: "typed values and containers are written to and read from instrumented streams which split, interrupt, end, fill up \
           or fail at every byte position (at sampled ones, if the encoding is longer than 300 bytes); the events recorded by \
           the stream and the results are checked; libraries are saved to places which can't be written; non-trivial: each \
           distinct pair of a type with an encoding",
    need: &[
        ("value writes", 10_000), ("value reads", 8_000), ("container writes", 4_000), ("container reads", 4_000),
        ("write failures", 200_000), ("read failures", 200_000), ("ends of stream", 200_000), ("full writers", 200_000),
        ("concatenated reads", 4_000), ("interruptions", 200_000), ("size limits", 100_000), ("exact size limits", 5_000),
        ("failing files", 200), ("lost output probes", 3),
    ],
    level: "fault_enumeration",
    assume: &[
        "a read or a write which is reported as interrupted is to be repeated, as the contract of the standard library says",
        "strict_deserialize of the strict_encoding dependency is not used, since it refuses any stream",
    ],
};

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::NotFound,
];

/// What happens when position is reached
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum End {
    /// Nothing, the stream is long enough
    Never,
    /// End of the stream or no more place in it
    Full(usize),
    Fail(usize, ErrorKind),
}

/// Instrumented stream, which is both a reader and a writer
struct Pipe {
    data: Vec<u8>,
    pos: usize,
    end: End,
    /// 0 for no splitting
    max_chunk: usize,
    interrupt: bool,
    rng: Rng,
    interrupted: u64,
    calls: u64,
    after_failure: u64,
    failed: bool,
    just: bool,
}
impl Pipe {
    fn new(data: Vec<u8>, rng: &mut Rng, end: End, plain: bool) -> Pipe {
        Pipe {
            data,
            pos: 0,
            end,
            max_chunk: if plain { 0 } else { *rng.pick(&[0, 1, 1, 2, 3, 5, 100]) },
            interrupt: !plain && rng.coin(),
            rng: Rng::new(rng.below(u64::MAX)),
            interrupted: 0,
            calls: 0,
            after_failure: 0,
            failed: false,
            just: false,
        }
    }
    /// Number of bytes to transfer now
    fn step(&mut self, len: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.failed {
            self.after_failure += 1;
        }
        if len == 0 {
            return Ok(0);
        }
        if self.interrupt && !self.just && self.rng.chance(1, 3) {
            self.just = true;
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.just = false;
        let mut n = len;
        if self.max_chunk > 0 {
            n = n.min(1 + self.rng.us(self.max_chunk));
        }
        match self.end {
            End::Never => {}
            End::Full(at) | End::Fail(at, _) if self.pos < at => n = n.min(at - self.pos),
            End::Full(_) => {
                self.failed = true;
                n = 0
            }
            End::Fail(_, kind) => {
                self.failed = true;
                return Err(io::Error::new(kind, "injected"));
            }
        }
        Ok(n)
    }
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(buf.len().min(self.data.len() - self.pos))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?;
        self.data.extend(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn decode_kind(e: &DecodeError) -> Option<ErrorKind> {
    match e {
        DecodeError::Io(e) => Some(e.kind()),
        _ => None,
    }
}
fn value_kind(e: &Error) -> Option<ErrorKind> {
    match e {
        Error::Decode(e) => decode_kind(e),
        _ => None,
    }
}

/// Positions of faults: all of them if there are not too many
fn positions(cx: &mut Cx, len: usize) -> Vec<usize> {
    if len <= 300 {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..20).chain(len - 20..len).collect();
    for _ in 0..40 {
        v.push(cx.rng.us(len));
    }
    v
}

/// Checks of an operation writing `exp`
fn writes(cx: &mut Cx, what: &str, exp: &[u8], op: &dyn Fn(&mut Pipe) -> io::Result<()>) -> R {
    for plain in [true, false, false] {
        let mut p = Pipe::new(vec![], &mut cx.rng, End::Never, plain);
        if let Err(e) = op(&mut p) {
            fail!(
                "{what} {} can't be written to a stream which takes up to {} bytes at once and has interrupted {} times: {e}",
                hex(exp),
                p.max_chunk,
                p.interrupted
            );
        }
        ck!(p.data == exp, "{what} {} is written as {}", hex(exp), hex(&p.data));
        cx.add("interruptions", p.interrupted);
    }
    // exactly as much place as needed
    let mut p = Pipe::new(vec![], &mut cx.rng, End::Full(exp.len()), true);
    must!(op(&mut p), "write {what} {} to a writer having place for it", hex(exp));
    ck!(p.data == exp, "{what} {} is written as {}", hex(exp), hex(&p.data));

    for k in positions(cx, exp.len()) {
        for full in [true, false] {
            let kind = if full {
                ErrorKind::WriteZero
            } else {
                *cx.rng.pick(KINDS)
            };
            let end = if full { End::Full(k) } else { End::Fail(k, kind) };
            let plain = cx.rng.coin();
            let mut p = Pipe::new(vec![], &mut cx.rng, end, plain);
            let got = op(&mut p);
            cx.add("interruptions", p.interrupted);
            cx.count(if full { "full writers" } else { "write failures" });
            ck!(
                exp.starts_with(&p.data),
                "{what} {}: written {} before the failure at {k}",
                hex(exp),
                hex(&p.data)
            );
            match got {
                Ok(()) => fail!(
                    "{what} {}: {kind:?} at byte {k} of the writer is not reported, written {}",
                    hex(exp),
                    hex(&p.data)
                ),
                Err(e) => ck!(
                    e.kind() == kind,
                    "{what} {}: {kind:?} at byte {k} of the writer is reported as {e:?}",
                    hex(exp)
                ),
            }
        }
    }
    Ok(())
}

/// Checks of an operation reading `exp`, which returns kind of the input-output error
fn reads(cx: &mut Cx, what: &str, exp: &[u8], op: &dyn Fn(&mut Pipe) -> Result<(), (String, Option<ErrorKind>)>) -> R {
    for plain in [true, false, false] {
        // something which follows
        let mut d = exp.to_vec();
        let n = cx.rng.us(20);
        d.extend(cx.rng.bytes(n));
        let mut p = Pipe::new(d, &mut cx.rng, End::Never, plain);
        if let Err((e, _)) = op(&mut p) {
            fail!(
                "{what} {} can't be read from a stream which gives up to {} bytes at once and has interrupted {} times: {e}",
                hex(exp),
                p.max_chunk,
                p.interrupted
            );
        }
        ck!(
            p.pos == exp.len(),
            "reading {what} {} took {} bytes instead of {}",
            hex(exp),
            p.pos,
            exp.len()
        );
        cx.add("interruptions", p.interrupted);
    }
    for k in positions(cx, exp.len()) {
        for full in [true, false] {
            let kind = if full {
                ErrorKind::UnexpectedEof
            } else {
                *cx.rng.pick(KINDS)
            };
            let end = if full { End::Full(k) } else { End::Fail(k, kind) };
            let plain = cx.rng.coin();
            let mut p = Pipe::new(exp.to_vec(), &mut cx.rng, end, plain);
            let got = op(&mut p);
            cx.add("interruptions", p.interrupted);
            cx.count(if full { "ends of stream" } else { "read failures" });
            match got {
                Ok(()) => fail!("{what} {} is read though there was {kind:?} at byte {k}", hex(exp)),
                Err((e, got)) => ck!(
                    got == Some(kind),
                    "{what} {}: {kind:?} at byte {k} of the reader is reported as {e}",
                    hex(exp)
                ),
            }
        }
    }
    Ok(())
}

macro_rules! limits {
    ($f:ident, $($l:literal)+) => { $( $f!($l); )+ };
}
macro_rules! all_limits {
    ($f:ident) => {
        limits!($f, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 31 32 33 47 48 63 64 65 255 256 257)
    };
}

fn limit_verdict(cx: &mut Cx, what: &str, exp: &[u8], limit: usize, ok: bool) -> R {
    cx.count("size limits");
    if exp.len() == limit {
        cx.count("exact size limits");
    }
    ck!(
        ok == (exp.len() <= limit),
        "{what} of {} bytes is {} though the limit is {limit}: {}",
        exp.len(),
        if ok { "accepted" } else { "refused" },
        hex(exp)
    );
    Ok(())
}

fn value(cx: &mut Cx, e: &Env, t: TId) -> R<Option<(TypedVal, Vec<u8>)>> {
    let sys = e.types();
    let mut g = ValGen::new(&e.w, cx.rng.coin());
    g.large = cx.rng.chance(1, 30);
    let Some(v) = g.val(&mut cx.rng, t) else {
        return Ok(None);
    };
    let exp = e.w.interp(&v, t).expect("harness: member");
    let tv = must!(sys.typify(v.clone(), e.sem(t)), "typify {} as {}", show_val(&v), e.show(t));
    cx.say(|| format!("type {}\n  value {}", e.show(t), show_val(&v)));
    let what = format!("{} : {}", show_val(&v), e.show(t));
    writes(cx, &what, &exp, &|p| sys.strict_write_value(&tv, p))?;
    #[allow(deprecated)]
    if cx.rng.chance(1, 8) {
        writes(cx, &what, &exp, &|p| sys.strict_write_type(&tv, p))?;
        let b = must!(sys.strict_serialize_type::<MAX>(&tv), "serialize {what}");
        let b = must!(b.to_strict_serialized::<MAX>(), "serialize {what}").release();
        ck!(b == exp, "{what} is serialized to {}", hex(&b));
    }
    cx.count("value writes");
    macro_rules! limit {
        ($l:literal) => {
            match sys.strict_serialize_value::<$l>(&tv) {
                Ok(b) => {
                    ck!(b.as_slice() == &exp[..], "{what} is serialized to {}", hex(&b));
                    limit_verdict(cx, &what, &exp, $l, true)?
                }
                Err(SerializeError::Confinement(_)) => limit_verdict(cx, &what, &exp, $l, false)?,
                Err(err) => fail!("{what} is refused because of limit {}: {err:?}", $l),
            }
        };
    }
    all_limits!(limit);

    match e.w.scan(&exp, 0, t) {
        Scan::Ok(_) => {}
        Scan::Unsupported => {
            cx.count("unsupported");
            return Ok(None);
        }
        Scan::Bad => panic!("harness: encoding"),
    }
    let seen: RefCell<Option<TypedVal>> = RefCell::new(None);
    let fqn = e.w.nodes[t].name.as_ref().map(|n| TypeFqn::with(lname(&e.w.libs[e.w.nodes[t].lib]), tname(n)));
    let by_name = cx.rng.coin();
    reads(cx, &what, &exp, &|p| {
        let mut d = StreamReader::new::<MAX>(p);
        let got = match &fqn {
            Some(n) if by_name => e.sym.strict_read_type(n.clone(), &mut d),
            _ => sys.strict_read_type(e.sem(t), &mut d),
        };
        let v = got.map_err(|e| (format!("{e:?}"), value_kind(&e)))?;
        *seen.borrow_mut() = Some(v);
        Ok(())
    })?;
    let seen = seen.into_inner().expect("harness: value read");
    ck!(
        e.w.interp(seen.as_val(), t).as_ref() == Some(&exp),
        "{what} is read as {}",
        show_val(seen.as_val())
    );
    cx.count("value reads");
    macro_rules! limit {
        ($l:literal) => {{
            let mut d = StreamReader::new::<$l>(&exp[..]);
            let ok = sys.strict_read_type(e.sem(t), &mut d).is_ok();
            limit_verdict(cx, &what, &exp, $l, ok)?;
        }};
    }
    all_limits!(limit);
    cx.eval(e.key(t, &exp));
    cx.sample(|| what);
    Ok(Some((seen, exp)))
}

trait Obj: StrictSerialize + StrictDeserialize + PartialEq + Debug + Clone {}
impl<T: StrictSerialize + StrictDeserialize + PartialEq + Debug + Clone> Obj for T {}

fn get<T: Obj>(p: &mut Pipe) -> Result<T, DecodeError> {
    T::strict_decode(&mut StrictReader::with(StreamReader::new::<MAX>(p)))
}

fn container<T: Obj>(cx: &mut Cx, what: &str, obj: &T) -> R {
    let exp = must!(obj.to_strict_serialized::<MAX>(), "serialize {what}").release();
    if exp.len() > 3000 {
        cx.count("large containers skipped");
        return Ok(());
    }
    cx.say(|| format!("{what} {}", hex(&exp)));
    writes(cx, what, &exp, &|p| {
        obj.strict_encode(StrictWriter::with(StreamWriter::new::<MAX>(p))).map(|_| ())
    })?;
    cx.count("container writes");
    let seen: RefCell<Option<T>> = RefCell::new(None);
    reads(cx, what, &exp, &|p| {
        let v = get::<T>(p).map_err(|e| (format!("{e:?}"), decode_kind(&e)))?;
        *seen.borrow_mut() = Some(v);
        Ok(())
    })?;
    ck!(
        seen.into_inner().as_ref() == Some(obj),
        "{what} {} is read differently from a stream",
        hex(&exp)
    );
    cx.count("container reads");
    // trailing data
    let mut d = exp.clone();
    d.push(cx.rng.below(256) as u8);
    let got = T::from_strict_serialized::<MAX>(Confined::try_from(d).expect("harness: size"));
    ck!(
        matches!(got, Err(DeserializeError::DataNotEntirelyConsumed)),
        "{what} {} followed by a byte is read with the result {}",
        hex(&exp),
        short(&format!("{got:?}"))
    );
    macro_rules! limit {
        ($l:literal) => {{
            let ok = obj.to_strict_serialized::<$l>().is_ok();
            limit_verdict(cx, what, &exp, $l, ok)?;
            let mut r = StrictReader::with(StreamReader::new::<$l>(&exp[..]));
            let ok = T::strict_decode(&mut r).is_ok();
            limit_verdict(cx, what, &exp, $l, ok)?;
        }};
    }
    limits!(limit, 0 8 16 32 40 41 42 43 44 45 46 47 48 64 65 66 67 68 69 70 71 72 100 128 255 256 257);
    cx.eval(&exp);
    Ok(())
}

/// Saving a library into a place where it can't be written
fn files(cx: &mut Cx, lib: &TypeLib) -> R {
    let base = cx.scratch.join("saves");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("harness: scratch");
    let sym: SymbolicLib = must!(lib.to_symbolic(), "symbolic form");
    for f in [StlFormat::Binary, StlFormat::Armored, StlFormat::Source] {
        let name = format!("{}@1.0.{f}", lib.name);
        let dir = base.join(format!("{f}"));
        for how in ["full", "directory", "missing", "good"] {
            let _ = std::fs::remove_dir_all(&dir);
            if how != "missing" {
                std::fs::create_dir(&dir).expect("harness: scratch");
            }
            match how {
                "full" => std::os::unix::fs::symlink("/dev/full", dir.join(&name)).expect("harness: link"),
                "directory" => std::fs::create_dir(dir.join(&name)).expect("harness: scratch"),
                _ => {}
            }
            let got = lib.serialize(f, Some(&dir), "1.0", None);
            ck!(
                got.is_ok() == (how == "good"),
                "library {} saved as {f} in a {how} place: {got:?}",
                lib.name
            );
            cx.count(if how == "good" { "files" } else { "failing files" });
            if how == "full" {
                let kind = got.expect_err("checked").raw_os_error();
                ck!(kind == Some(28), "no space on device is reported as {kind:?}");
            }
            if f == StlFormat::Source {
                let got = sym.serialize(Some(&dir), "1.0", None);
                ck!(
                    got.is_ok() == (how == "good"),
                    "symbolic library {} saved in a {how} place: {got:?}",
                    lib.name
                );
            }
            if how == "good" && f == StlFormat::Binary {
                let d = std::fs::read(dir.join(&name)).expect("harness: file");
                ck!(
                    d == must!(lib.to_strict_serialized::<MAX>(), "serialize").release(),
                    "file with a library has {}",
                    hex(&d)
                );
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    Ok(())
}

/// Prints a library with one small type; the binary form has no end of line
pub fn probe_stdout(format: &str) -> ! {
    let lib = small_lib();
    let f = format.parse::<StlFormat>().expect("format");
    match lib.serialize(f, None::<&str>, "1.0", None) {
        Ok(()) => eprintln!("reported: ok"),
        Err(e) => eprintln!("reported: {:?}", e.raw_os_error()),
    }
    std::process::exit(0)
}
fn small_lib() -> TypeLib {
    let mut w = World::default();
    w.libs.push("Lib".to_string());
    w.nodes.push(Node {
        lib: 0,
        name: Some("Type".to_string()),
        ty: MTy::Prim(1),
    });
    Cvt::new(&w).type_lib(0)
}
fn stdout_probes(cx: &mut Cx) -> R {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("harness: own path");
    for f in ["stl", "sta", "sty"] {
        for full in [true, false] {
            let out: Stdio = if full {
                std::fs::OpenOptions::new().write(true).open("/dev/full").expect("harness: /dev/full").into()
            } else {
                Stdio::piped()
            };
            let out = Command::new(&exe)
                .args(["probe", "stdout", f])
                .stdout(out)
                .stderr(Stdio::piped())
                .output()
                .expect("harness: probe");
            let err = String::from_utf8_lossy(&out.stderr).into_owned();
            let exp = if full { "reported: Some(28)" } else { "reported: ok" };
            ck!(
                err.lines().any(|l| l == exp),
                "library is printed as {f} to {}: {}",
                if full { "a full device" } else { "a pipe" },
                short(&err)
            );
            if !full && f == "stl" {
                let b = must!(small_lib().to_strict_serialized::<MAX>(), "serialize").release();
                ck!(out.stdout == b, "library is printed as {}", hex(&out.stdout));
            }
            cx.count("lost output probes");
        }
    }
    Ok(())
}

fn c22(cx: &mut Cx) -> R {
    if cx.case == 0 {
        stdout_probes(cx)?;
    }
    let o = if cx.rng.chance(1, 4) { Opts::VALUES } else { Opts::DECODE };
    let e = Env::gen(cx, o)?;
    let mut all = vec![];
    for _ in 0..6 {
        let t = pick_type(cx, &e.w);
        if let Some((v, d)) = value(cx, &e, t)? {
            all.push((t, v, d));
        }
    }
    // several values one after another
    if all.len() > 1 {
        let d: Vec<u8> = all.iter().flat_map(|(.., d)| d.clone()).collect();
        for same in [true, false] {
            let plain = cx.rng.coin();
            let mut p = Pipe::new(d.clone(), &mut cx.rng, End::Never, plain);
            if same {
                let mut r = StreamReader::new::<MAX>(&mut p);
                for (t, v, _) in &all {
                    let got = must!(e.types().strict_read_type(e.sem(*t), &mut r), "read from {}", hex(&d));
                    ck!(&got == v, "read {} instead of {} from {}", show_val(got.as_val()), show_val(v.as_val()), hex(&d));
                }
            } else {
                let mut pos = 0;
                for (t, v, x) in &all {
                    let mut r = StreamReader::new::<MAX>(&mut p);
                    let got = must!(e.types().strict_read_type(e.sem(*t), &mut r), "read from {}", hex(&d));
                    ck!(&got == v, "read {} instead of {} from {}", show_val(got.as_val()), show_val(v.as_val()), hex(&d));
                    pos += x.len();
                    ck!(p.pos == pos, "stream {} is at {} instead of {pos}", hex(&d), p.pos);
                }
            }
            ck!(p.pos == d.len(), "stream {} is at {}", hex(&d), p.pos);
            cx.count("concatenated reads");
        }
    }

    if cx.rng.chance(1, 2) {
        let mut o = Opts::LIBS;
        o.libs = 2;
        o.types = 3;
        o.wide = false;
        let e = Env::gen(cx, o)?;
        let c = Cvt::new(&e.w);
        let lib = cx.rng.us(e.libs.len());
        let sym = must!(Parts::of(&c, lib).lib(), "symbolic library");
        container(cx, "TypeLib", &e.libs[lib])?;
        container(cx, "SymbolicLib", &sym)?;
        container(cx, "TypeSystem", e.types())?;
        container(cx, "Symbols", e.sym.as_symbols())?;
        container(cx, "SymbolicSys", &e.sym)?;
        // several objects one after another
        let mut p = Pipe::new(vec![], &mut cx.rng, End::Never, false);
        fn put<T: Obj>(p: &mut Pipe, o: &T) -> io::Result<()> {
            o.strict_encode(StrictWriter::with(StreamWriter::new::<MAX>(p))).map(|_| ())
        }
        must!(put(&mut p, &e.sym), "write");
        must!(put(&mut p, &e.libs[lib]), "write");
        must!(put(&mut p, &sym), "write");
        p.pos = 0;
        ck!(must!(get::<strict_types::SymbolicSys>(&mut p), "read a symbolic system") == e.sym, "symbolic system is read differently");
        ck!(must!(get::<TypeLib>(&mut p), "read a library") == e.libs[lib], "library is read differently");
        ck!(must!(get::<SymbolicLib>(&mut p), "read a symbolic library") == sym, "symbolic library is read differently");
        ck!(p.pos == p.data.len(), "stream is at {}", p.pos);
        cx.count("concatenated reads");
        if cx.rng.chance(1, 20) {
            files(cx, &e.libs[lib])?;
        }
    }
    Ok(())
}
