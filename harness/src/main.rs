mod alloc;
#[macro_use]
mod cx;
mod gen;
mod model;
mod props;
mod rng;
mod wire;

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use cx::{clip, Cx, Fail};
use serde_json::json;

#[global_allocator]
static ALLOC: alloc::Monitor = alloc::Monitor;

pub struct Prop {
    pub id: &'static str,
    pub cases: (u64, u64),
    pub run: fn(&mut Cx) -> cx::R,
    pub rule: &'static str,
    /// Observations without which the run is inconclusive
    pub need: &'static [(&'static str, u64)],
    pub level: &'static str,
    pub assume: &'static [&'static str],
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
const CASE_CPU_LIMIT: f64 = 60.0;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut map = BTreeMap::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else {
            continue;
        };
        let Some((id, rest)) = rest.split_once(' ') else {
            continue;
        };
        let Some(rest) = rest.strip_prefix("sig=") else {
            continue;
        };
        let (sig, descr) = rest.split_once(' ').unwrap_or((rest, ""));
        if id == prop {
            map.insert(sig.to_string(), descr.to_string());
        }
    }
    map
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => check(&args[2]),
        Some("worker") => worker(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("case") => one_case(
            &args[2],
            args[3].parse().unwrap(),
            args[4].parse().unwrap(),
            false,
        ),
        Some("probe") => props::probe(&args[2..]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: vmon check ID | replay FILE | case ID SEED CASE | list");
            exit(2)
        }
    }
}

fn prop(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<no message>".into());
        if let Ok(mut p) = PANIC.lock() {
            *p = Some((loc, msg));
        }
    }));
}

/// Takes message of the last caught panic
pub fn last_panic() -> String {
    PANIC
        .lock()
        .unwrap()
        .take()
        .map(|(l, m)| format!("panic at {l}: {m}"))
        .unwrap_or_default()
}

fn new_cx(p: &Prop, thorough: bool, verbose: bool, scratch: PathBuf) -> Cx {
    Cx {
        rng: rng::Rng::new(0),
        prop: p.id.to_string(),
        case: 0,
        thorough,
        evals: 0,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        known: known_findings(p.id).into_keys().collect::<BTreeSet<_>>(),
        known_hit: BTreeMap::new(),
        scratch,
        verbose,
    }
}

enum Outcome {
    Held,
    Violated(Fail),
    Harness(String),
}

fn run_case(p: &Prop, cx: &mut Cx, seed: u64, case: u64) -> Outcome {
    cx.rng = rng::Rng::for_case(seed, p.id, case);
    cx.case = case;
    match catch_unwind(AssertUnwindSafe(|| (p.run)(cx))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(f)) => Outcome::Violated(f),
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                if msg.contains("Os { code") {
                    return Outcome::Harness(format!("panic in the harness at {loc}: {msg}"));
                }
                // Inputs are fixed by the seed, so what the monitor relied on has not been given by the code
                // observed: for instance, a constructor refused valid parts of a definition
                Outcome::Violated(Fail::from(format!(
                    "the monitor can't go on at {loc}: {}",
                    clip(&msg, 1500)
                )))
            } else {
                Outcome::Violated(Fail::from(format!("panic at {loc}: {}", clip(&msg, 1500))))
            }
        }
    }
}

fn with_stack(f: impl FnOnce() + Send + 'static) {
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .expect("thread");
    if h.join().is_err() {
        exit(70)
    }
}

fn one_case(id: &str, seed: u64, case: u64, thorough: bool) {
    let p = prop(id);
    install_hook();
    with_stack(move || {
        let scratch = std::env::temp_dir().join(format!("vmon-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).unwrap();
        let mut cx = new_cx(p, thorough, true, scratch.clone());
        let out = run_case(p, &mut cx, seed, case);
        let _ = std::fs::remove_dir_all(&scratch);
        println!("observed: {:?}", cx.counters);
        match out {
            Outcome::Held => println!("case {case}: held ({} evaluations)", cx.evals),
            Outcome::Violated(f) => {
                println!("case {case}: VIOLATED: {}", f.msg);
                exit(1)
            }
            Outcome::Harness(m) => {
                println!("case {case}: HARNESS ERROR: {m}");
                exit(2)
            }
        }
    });
}

fn replay(file: &str) {
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("JSON");
    println!("recorded: {}", v["message"].as_str().unwrap_or_default());
    one_case(
        v["property"].as_str().unwrap(),
        v["seed"].as_u64().unwrap(),
        v["case"].as_u64().unwrap(),
        v["tier"] == "thorough",
    )
}

fn worker(a: &[String]) {
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let w: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let soft: u64 = a[6].parse().unwrap();
    install_hook();
    with_stack(move || {
        let prog = std::fs::File::create(dir.join(format!("prog.{w}"))).unwrap();
        let scratch = dir.join(format!("scratch.{w}"));
        std::fs::create_dir_all(&scratch).unwrap();
        let mut cx = new_cx(p, thorough, false, scratch);
        let total = if thorough { p.cases.1 } else { p.cases.0 } / divide();
        let start = Instant::now();
        let mut outcome = Outcome::Held;
        let mut case = w;
        let mut done = 0u64;
        let mut early = false;
        while case < total {
            prog.write_all_at(&(case + 1).to_le_bytes(), 0).unwrap();
            outcome = run_case(p, &mut cx, seed, case);
            done += 1;
            if !matches!(outcome, Outcome::Held) {
                break;
            }
            if start.elapsed().as_secs() > soft {
                early = true;
                break;
            }
            case += n;
        }
        let (status, msg, sig) = match outcome {
            Outcome::Held => ("held", String::new(), None),
            Outcome::Violated(f) => ("violated", f.msg, f.sig),
            Outcome::Harness(m) => ("harness", m, None),
        };
        let d: Vec<u8> = cx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(dir.join(format!("distinct.{w}")), d).unwrap();
        let res = json!({"status": status, "message": msg, "sig": sig, "case": case, "done": done,
            "early": early, "evals": cx.evals, "counters": cx.counters, "samples": cx.samples,
            "known": cx.known_hit});
        std::fs::write(dir.join(format!("res.{w}")), res.to_string()).unwrap();
    });
}

/// Reduces the number of cases, for trials with many changed trees only
fn divide() -> u64 {
    std::env::var("VMON_DIVIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

fn read_prog(dir: &Path, w: u64) -> Option<u64> {
    let b = std::fs::read(dir.join(format!("prog.{w}"))).ok()?;
    Some(u64::from_le_bytes(b.try_into().ok()?).checked_sub(1)?)
}

struct Running {
    w: u64,
    child: Child,
    case: Option<u64>,
    cpu0: f64,
}

fn check(id: &str) {
    let p = prop(id);
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let (soft, hard) = if thorough { (2400, 3600) } else { (180, 480) };
    let n: u64 = std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(8)
        .clamp(2, 8);
    let dir = std::env::temp_dir().join(format!("vmon-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let start = Instant::now();
    let exe = std::env::current_exe().expect("own path");

    let mut running: Vec<Running> = (0..n)
        .map(|w| {
            let err = std::fs::File::create(dir.join(format!("err.{w}"))).unwrap();
            let child = Command::new(&exe)
                .args([
                    "worker",
                    id,
                    &seed.to_string(),
                    tier,
                    &w.to_string(),
                    &n.to_string(),
                ])
                .arg(&dir)
                .arg(soft.to_string())
                .stderr(err)
                .stdout(std::process::Stdio::null())
                .spawn()
                .expect("worker");
            Running {
                w,
                child,
                case: None,
                cpu0: 0.0,
            }
        })
        .collect();

    // (case, message, signature)
    let mut violations: Vec<(u64, String)> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut rest = vec![];
        for mut r in running {
            match r.child.try_wait().expect("wait") {
                Some(st) if st.success() => {}
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let err = std::fs::read_to_string(dir.join(format!("err.{}", r.w)))
                        .unwrap_or_default();
                    let case = read_prog(&dir, r.w);
                    match (st.signal(), case) {
                        (Some(9), _) => inconclusive.push(format!("worker {} was killed", r.w)),
                        (Some(s), Some(case)) => violations.push((
                            case,
                            format!("process died with signal {s}: {}", clip(&err, 1000)),
                        )),
                        _ => inconclusive.push(format!(
                            "worker {} ended with {st}: {}",
                            r.w,
                            clip(&err, 600)
                        )),
                    }
                }
                None => {
                    let case = read_prog(&dir, r.w);
                    let cpu = cpu_secs(r.child.id()).unwrap_or(0.0);
                    if case != r.case {
                        r.case = case;
                        r.cpu0 = cpu;
                    } else if cpu - r.cpu0 > CASE_CPU_LIMIT {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        violations.push((
                            case.unwrap_or_default(),
                            format!("did not terminate within {CASE_CPU_LIMIT} s of CPU time"),
                        ));
                        continue;
                    }
                    if start.elapsed().as_secs() > hard {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        inconclusive
                            .push(format!("worker {} exceeded the wall-clock watchdog", r.w));
                        continue;
                    }
                    rest.push(r);
                }
            }
        }
        running = rest;
    }

    let mut counters = BTreeMap::<String, u64>::new();
    let mut distinct = HashSet::<u64>::new();
    let mut samples = vec![];
    let mut known = BTreeMap::<String, String>::new();
    let (mut evals, mut done, mut early) = (0u64, 0u64, false);
    for w in 0..n {
        if let Ok(d) = std::fs::read(dir.join(format!("distinct.{w}"))) {
            distinct.extend(
                d.chunks(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap())),
            );
        }
        let Ok(text) = std::fs::read_to_string(dir.join(format!("res.{w}"))) else {
            continue;
        };
        let v: serde_json::Value = serde_json::from_str(&text).expect("worker result");
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for (k, m) in v["known"].as_object().unwrap() {
            known.insert(k.clone(), m.as_str().unwrap().to_string());
        }
        if samples.len() < 6 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(2).cloned());
        }
        evals += v["evals"].as_u64().unwrap();
        done += v["done"].as_u64().unwrap();
        early |= v["early"].as_bool().unwrap();
        match v["status"].as_str().unwrap() {
            "violated" => violations.push((
                v["case"].as_u64().unwrap(),
                v["message"].as_str().unwrap().into(),
            )),
            "harness" => inconclusive.push(format!(
                "case {}: {}",
                v["case"],
                v["message"].as_str().unwrap()
            )),
            _ => {}
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    violations.sort();

    for (sig, msg) in &known {
        println!(
            "KNOWN-FINDING: property={id} {sig}: {}",
            clip(msg, 300).replace('\n', " ")
        );
    }
    for (c, m) in &violations {
        println!("case {c}: {}", clip(m, 2000));
    }
    if violations.is_empty() && inconclusive.is_empty() && divide() == 1 {
        for (k, min) in p.need {
            let got = counters.get(*k).copied().unwrap_or_default();
            if got < *min {
                inconclusive.push(format!(
                    "observed only {got} of `{k}`, at least {min} needed"
                ));
            }
        }
    }

    let evidence = json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "cases_run": done,
            "stopped_early": early,
            "workers": n,
            "observed": counters,
            "inconclusive": inconclusive,
            "known_findings": known,
        },
        "assumptions": p.assume,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let ev = verif_dir().join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    std::fs::write(
        ev.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence");

    if let Some((case, msg)) = violations.first() {
        let rd = verif_dir().join("replays");
        std::fs::create_dir_all(&rd).expect("replay directory");
        let file = rd.join(format!("{id}-{tier}-{seed}-{case}.json"));
        let body =
            json!({"property": id, "seed": seed, "tier": tier, "case": case, "message": msg});
        std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).expect("replay");
        println!("VIOLATION property={id} replay={}", file.display());
        let _ = std::io::stdout().flush();
        exit(1)
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE property={id}");
        for m in inconclusive {
            println!("  {m}");
        }
        exit(2)
    }
    println!(
        "{id}: held on {evals} evaluations ({} distinct) in {done} cases, {:.1} s",
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    println!(
        "observed: {}",
        serde_json::to_string(&evidence["coverage"]["observed"]).unwrap()
    );
}
