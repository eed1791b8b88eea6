//! Supervisor: runs cases in worker processes, so that a crash, a hang or process-global state (environment,
//! current directory) of one case stays contained, and turns what they observed into verdict and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use crate::cov::{Cov, Ctx, Res};
use crate::props::{self, Prop};
use crate::rng::Rng;

extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }
fn limit(resource: i32, v: u64) { if !cfg!(miri) { unsafe { setrlimit(resource, &[v, if v == 0 { 0 } else { v + 5 }]); } } }
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;

const CASE_CPU_S: u64 = 60;

struct Args { m: BTreeMap<String, String>, pos: Vec<String> }
fn args() -> Args {
    let (mut m, mut pos) = (BTreeMap::new(), vec![]);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") { let v = it.next().unwrap_or_default(); m.insert(k.to_string(), v); } else { pos.push(a) }
    }
    Args { m, pos }
}
impl Args {
    fn num(&self, k: &str, d: u64) -> u64 { self.m.get(k).and_then(|s| s.parse().ok()).unwrap_or(d) }
    fn s(&self, k: &str, d: &str) -> String { self.m.get(k).cloned().unwrap_or(d.into()) }
}

pub fn main() {
    let a = args();
    let cmd = a.pos.first().cloned().unwrap_or_default();
    let code = match cmd.as_str() {
        "run" => run(&a),
        "work" => work(&a),
        "case" => one_case(&a),
        "inproc" => inproc(&a),
        "deep" => { props::p24::deep(std::env::args().nth(2).and_then(|n| n.parse().ok()).unwrap_or(0)); 0 }
        "list" => { for p in props::ALL { println!("{} {} {}", p.id, p.quick, p.thorough) } 0 }
        _ => { eprintln!("usage: vh run|case|inproc PID --seed N --tier quick|thorough"); 2 }
    };
    std::process::exit(code);
}

fn prop(a: &Args) -> &'static Prop {
    let id = a.pos.get(1).map(|s| s.as_str()).unwrap_or("");
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

// ------------------------------------------------------------ one case, with panics caught

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

/// Remembers the last panic of this thread without printing it.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
pub fn last_panic() -> String { PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()) }

pub fn run_case(p: &Prop, seed: u64, idx: u64, thorough: bool, cov: &mut Cov, scratch: &Path) -> Res {
    let mut ctx = Ctx { rng: Rng::new(seed, p.id, idx), idx, seed, thorough, cov, scratch: scratch.to_path_buf() };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(crate::cov::Fail::new(format!("panicked: {}", last_panic()))),
    }
}

// ------------------------------------------------------------ worker

/// Runs `f` on a thread with the stack size of a main thread.
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}

fn known_sigs() -> HashSet<String> {
    // Lines "finding: property=<id> sig=<signature> ...".
    let path = std::env::var("VH_KNOWN").unwrap_or_default();
    fs::read_to_string(path).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let prop = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let sig = l.split_whitespace().find_map(|w| w.strip_prefix("sig="))?;
            Some(format!("{} {}", prop, sig))
        }).collect()
}

fn work(a: &Args) -> i32 {
    let p = prop(a);
    let (seed, i, of, n) = (a.num("seed", 1), a.num("worker", 0), a.num("of", 1), a.num("n", 1));
    let (thorough, cap) = (a.s("tier", "quick") == "thorough", a.num("cap", 60));
    let out = PathBuf::from(a.s("out", ""));
    let known = known_sigs();
    limit(RLIMIT_CORE, 0);
    quiet_panics();
    on_big_stack(move || {
        let scratch = out.join(format!("scratch{}", i));
        let _ = fs::create_dir_all(&scratch);
        std::env::set_current_dir(&scratch).unwrap();
        let mut progress = fs::File::create(out.join(format!("progress{}", i))).unwrap();
        let mut cov = Cov::default();
        let start = Instant::now();
        let (mut idx, mut done) = (i, 0u64);
        let mut status = "ok".to_string();
        let mut findings: BTreeMap<String, (String, u64)> = BTreeMap::new();
        while idx < n {
            if start.elapsed().as_secs() >= cap { cov.count("stopped by the time cap"); break }
            use std::os::unix::fs::FileExt;
            let _ = progress.write_all_at(&idx.to_le_bytes(), 0);
            match run_case(p, seed, idx, thorough, &mut cov, &scratch) {
                Ok(()) => {}
                Err(f) => match f.known {
                    Some(sig) if known.contains(&format!("{} {}", p.id, sig)) => {
                        findings.entry(sig.to_string()).or_insert((f.msg, 0)).1 += 1;
                    }
                    _ => { status = format!("fail\t{}\t{}", idx, f.msg.replace('\n', "\\n").replace('\t', "\\t")); done += 1; break }
                },
            }
            done += 1;
            idx += of;
        }
        let mut s = format!("status\t{}\ncases\t{}\nevals\t{}\n", status, done, cov.evaluations);
        for (k, v) in &cov.counters { s += &format!("count\t{}\t{}\n", k, v); }
        for x in &cov.samples { s += &format!("sample\t{}\n", x.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")); }
        for (k, (m, c)) in &findings { s += &format!("finding\t{}\t{}\t{}\n", k, c, m.replace('\n', "\\n").replace('\t', " ")); }
        let mut h: Vec<u8> = Vec::with_capacity(cov.distinct.len() * 8);
        for x in &cov.distinct { h.extend_from_slice(&x.to_le_bytes()); }
        fs::write(out.join(format!("distinct{}", i)), h).unwrap();
        fs::write(out.join(format!("report{}.tmp", i)), s).unwrap();
        fs::rename(out.join(format!("report{}.tmp", i)), out.join(format!("report{}", i))).unwrap();
        let _ = progress.flush();
        0
    })
}

fn one_case(a: &Args) -> i32 {
    let p = prop(a);
    let (seed, idx) = (a.num("seed", 1), a.num("idx", 0));
    let thorough = a.s("tier", "quick") == "thorough";
    limit(RLIMIT_CORE, 0);
    if a.m.contains_key("limit") { limit(RLIMIT_CPU, CASE_CPU_S); }
    quiet_panics();
    let scratch = PathBuf::from(a.s("scratch", &format!("/tmp/vh-case-{}", std::process::id())));
    let keep = a.m.contains_key("scratch");
    let s2 = scratch.clone();
    let code = on_big_stack(move || {
        let _ = fs::create_dir_all(&s2);
        std::env::set_current_dir(&s2).unwrap();
        let mut cov = Cov::default();
        match run_case(p, seed, idx, thorough, &mut cov, &s2) {
            Ok(()) => { println!("case {} {} {}: held ({} oracle evaluations)", p.id, seed, idx, cov.evaluations); 0 }
            Err(f) => { println!("case {} {} {}: REFUTED{}: {}", p.id, seed, idx, f.known.map(|k| format!(" (known as {})", k)).unwrap_or_default(), f.msg); 1 }
        }
    });
    if !keep { let _ = std::env::set_current_dir("/"); let _ = fs::remove_dir_all(&scratch); }
    code
}

/// Runs cases in this process and thread: for Miri and the sanitizers.
fn inproc(a: &Args) -> i32 {
    let p = prop(a);
    let (seed, from, n) = (a.num("seed", 1), a.num("from", 0), a.num("n", 10));
    let cap = a.num("cap", 600);
    quiet_panics();
    let scratch = PathBuf::from(a.s("scratch", "/tmp"));
    let mut cov = Cov::default();
    let known = known_sigs();
    let start = Instant::now();
    let mut done = 0;
    let mut code = 0;
    for idx in from..from + n {
        if start.elapsed().as_secs() >= cap { break }
        if a.num("ignore", 0) == 1 && done % 10 == 1 { println!("INPROC {} cases={} evals={} distinct={}", p.id, done, cov.evaluations, cov.distinct.len()); }
        if let Err(f) = run_case(p, seed, idx, false, &mut cov, &scratch) {
            if f.known.map_or(false, |k| known.contains(&format!("{} {}", p.id, k))) { continue }
            // The sanitizers' workload goes on: the native run is the one that judges.
            let ignore = a.num("ignore", 0) == 1 && !f.msg.contains("UTF-8");
            if ignore { eprintln!("not judged here: {} {} {}", p.id, idx, f.msg.replace('\n', "\\n")); done += 1; continue }
            println!("REFUTED {} {} {}", p.id, idx, f.msg.replace('\n', "\\n"));
            code = 1;
            break;
        }
        done += 1;
    }
    println!("INPROC {} cases={} evals={} distinct={}", p.id, done, cov.evaluations, cov.distinct.len());
    code
}

// ------------------------------------------------------------ supervisor

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct W { child: Child, i: u64, last: u64, since: Instant, done: bool }

fn read_progress(out: &Path, i: u64) -> Option<u64> {
    let mut b = [0u8; 8];
    fs::File::open(out.join(format!("progress{}", i))).ok()?.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

/// Re-runs one case alone. Ok(true): refuted or died again by its own doing; Ok(false): held; Err: inconclusive.
fn rerun(p: &Prop, seed: u64, idx: u64, tier: &str, out: &Path) -> Result<Option<String>, String> {
    let exe = std::env::current_exe().unwrap();
    let scratch = out.join("rerun");
    let _ = fs::remove_dir_all(&scratch);
    let mut child = Command::new(exe).args(["case", p.id, "--seed", &seed.to_string(), "--idx", &idx.to_string(), "--tier", tier, "--limit", "1", "--scratch"])
        .arg(&scratch).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? { break s }
        if start.elapsed() > Duration::from_secs(300) { let _ = child.kill(); let _ = child.wait(); return Err("re-run exceeded the wall-clock watchdog".into()) }
        std::thread::sleep(Duration::from_millis(20));
    };
    let (mut o, mut e) = (String::new(), String::new());
    let _ = child.stdout.take().unwrap().read_to_string(&mut o);
    let _ = child.stderr.take().unwrap().read_to_string(&mut e);
    use std::os::unix::process::ExitStatusExt;
    if status.success() { return Ok(None) }
    if status.code() == Some(1) { return Ok(Some(o.trim().to_string())) }
    match status.signal() {
        Some(24) => Ok(Some(format!("used more than {} s of CPU time in one case (twice)", CASE_CPU_S))),
        Some(6) | Some(11) | Some(4) | Some(7) | Some(8) => Ok(Some(format!("process died with signal {:?} (reproduced): {}", status.signal(), e.trim()))),
        s => Err(format!("re-run ended with {:?} {:?}: {} {}", status.code(), s, o, e)),
    }
}

fn run(a: &Args) -> i32 {
    let p = prop(a);
    let seed = a.num("seed", 1);
    let tier = a.s("tier", "quick");
    let thorough = tier == "thorough";
    let evidence = PathBuf::from(a.s("evidence", "/verif/evidence"));
    let replays = PathBuf::from(a.s("replays", "/verif/replays"));
    let extra = a.s("extra", "");
    let n = a.num("n", if thorough { p.thorough } else { p.quick });
    let cap = a.num("cap", if thorough { 900 } else { 75 });
    let of = if p.serial { 1 } else { a.num("workers", std::thread::available_parallelism().map_or(4, |x| x.get() as u64).clamp(1, 16)) };
    let t0 = Instant::now();
    let base = Path::new("/dev/shm");
    let base = if base.is_dir() && fs::write(base.join(format!("vh-probe-{}", std::process::id())), "").is_ok() { let _ = fs::remove_file(base.join(format!("vh-probe-{}", std::process::id()))); base.to_path_buf() } else { std::env::temp_dir() };
    let out = base.join(format!("vh-{}-{}-{}", p.id, std::process::id(), seed));
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let tmp = out.join("tmp");
    fs::create_dir_all(&tmp).unwrap();
    let spawn = |i: u64| Command::new(&exe)
        .args(["work", p.id, "--seed", &seed.to_string(), "--tier", &tier, "--worker", &i.to_string(), "--of", &of.to_string(), "--n", &n.to_string(), "--cap", &cap.to_string(), "--out"])
        .arg(&out).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", "/root").env("TMPDIR", &tmp)
        .env("VH_KNOWN", std::env::var("VH_KNOWN").unwrap_or_default())
        .env("ASAN_OPTIONS", std::env::var("ASAN_OPTIONS").unwrap_or_default())
        .env("TSAN_OPTIONS", std::env::var("TSAN_OPTIONS").unwrap_or_default())
        .env("LSAN_OPTIONS", std::env::var("LSAN_OPTIONS").unwrap_or_default())
        .stdin(Stdio::null()).stdout(Stdio::null())
        .stderr(fs::File::create(out.join(format!("stderr{}", i))).unwrap())
        .spawn().unwrap();
    let mut ws: Vec<W> = (0..of).map(|i| W { child: spawn(i), i, last: u64::MAX, since: Instant::now(), done: false }).collect();
    let mut suspects: Vec<(u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(15));
        for w in ws.iter_mut().filter(|w| !w.done) {
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                if !st.success() || !out.join(format!("report{}", w.i)).exists() {
                    let err = fs::read_to_string(out.join(format!("stderr{}", w.i))).unwrap_or_default();
                    match read_progress(&out, w.i) {
                        Some(idx) => suspects.push((idx, format!("worker ended with {} {}", st, crate::mv::cut_str(err.trim(), 3000)))),
                        None => errors.push(format!("worker {} ended with {} before its first case: {}", w.i, st, err)),
                    }
                }
                continue;
            }
            let pr = read_progress(&out, w.i).unwrap_or(u64::MAX - 1);
            if pr != w.last { w.last = pr; w.since = Instant::now(); }
            else if w.since.elapsed() > Duration::from_secs(2 * CASE_CPU_S) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                suspects.push((pr, "made no progress".into()));
            }
        }
    }
    // Collect.
    let (mut cases, mut evals) = (0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(u64, String)> = vec![];
    let mut findings: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for i in 0..of {
        let s = fs::read_to_string(out.join(format!("report{}", i))).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "status" if f[1] == "fail" => fails.push((f[2].parse().unwrap(), f[3..].join(" "))),
                "cases" => cases += f[1].parse::<u64>().unwrap(),
                "evals" => evals += f[1].parse::<u64>().unwrap(),
                "count" => *counters.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "sample" => if samples.len() < 4 { samples.push(f[1..].join(" ")) },
                "finding" => { let e = findings.entry(f[1].into()).or_insert((0, f[3..].join(" "))); e.0 += f[2].parse::<u64>().unwrap(); }
                _ => {}
            }
        }
        for c in fs::read(out.join(format!("distinct{}", i))).unwrap_or_default().chunks_exact(8) { distinct.insert(u64::from_le_bytes(c.try_into().unwrap())); }
    }
    for (idx, why) in suspects {
        if !fails.is_empty() { break }
        match rerun(p, seed, idx, &tier, &out) {
            Ok(Some(m)) => fails.push((idx, format!("{}; {}", m, why))),
            Ok(None) => errors.push(format!("case {} {} but held when re-run alone", idx, why)),
            Err(e) => errors.push(format!("case {} {}; {}", idx, why, e)),
        }
    }
    let _ = fs::remove_dir_all(&out);
    fails.sort();
    let wall = t0.elapsed().as_secs_f64();
    // Evidence.
    let _ = fs::create_dir_all(&evidence);
    let cs: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let ss: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let ks: Vec<String> = findings.iter().map(|(k, (c, m))| format!("{{\"signature\": {}, \"cases\": {}, \"example\": {}}}", jstr(k), c, jstr(m))).collect();
    let fs_: Vec<String> = fails.iter().map(|(i, m)| format!("{{\"case\": {}, \"what\": {}}}", i, jstr(m))).collect();
    let extra_json = if extra.is_empty() { String::new() } else { fs::read_to_string(&extra).map(|s| format!(",\n  {}", s.trim())).unwrap_or_default() };
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"cases\": {},\n  \"observed\": {{{}}},\n  \"known_findings_seen\": [{}],\n  \"samples\": [{}],\n  \"refuted\": [{}],\n  \"inconclusive\": [{}]{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(p.id), jstr(&tier), seed, evals, distinct.len(), jstr(p.rule), cases, cs.join(", "), ks.join(", "), ss.join(",\n   "), fs_.join(", "),
        errors.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(", "), extra_json,
        jstr("held on the executions listed, under the reference model in /verif/harness; nothing is claimed of executions not produced"), wall, fails.len());
    fs::write(evidence.join(format!("{}.json", p.id)), ev).unwrap();
    for (k, (c, m)) in &findings { println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", p.id, k, c, crate::mv::cut_str(m, 300)); }
    println!("{} {} seed={}: {} cases, {} oracle evaluations, {} distinct non-trivial, {:.1} s", p.id, tier, seed, cases, evals, distinct.len(), wall);
    if let Some((idx, m)) = fails.first() {
        let _ = fs::create_dir_all(&replays);
        let rp = replays.join(format!("{}-{}-{}.txt", p.id, seed, idx));
        let _ = fs::write(&rp, format!("property={}\nseed={}\nidx={}\ntier={}\nreplay: /verif/check.sh replay {}\n\n{}\n", p.id, seed, idx, tier, rp.display(), m));
        println!("case {}: {}", idx, m);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        return 1;
    }
    if !errors.is_empty() { for e in &errors { eprintln!("inconclusive: {}", e); } return 2 }
    if evals == 0 || cases == 0 { eprintln!("inconclusive: nothing observed"); return 2 }
    0
}
