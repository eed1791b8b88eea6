//! P18: jails isolate and restore environment, directory and files.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::MetadataExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use figment::providers::{Env, Format, Json, Serialized, Toml};
use figment::{Error, Figment, Jail};
use crate::cov::*;
use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P18", case, quick: 60_000, thorough: 2_000_000, serial: false,
    rule: "random sequences of jail operations (variables set, overwritten and cleared; files, directories and directory changes with relative, dotted, absolute, escaping and invalid paths; configuration lookups), ended by return, error or panic, in a process with a random prior environment and directory; environment, file tree and current directory are compared with a model after every operation and with the state before afterwards; every eighth case starts jails from several threads at once and checks an event log for overlap; non-trivial: an ending by error or panic, or a rejected operation, or concurrent jails; distinct by operations",
};

type Envs = BTreeMap<OsString, OsString>;
fn envs() -> Envs { std::env::vars_os().collect() }

/// Every file and directory below, relative; None for a directory.
type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn tree(d: &Path) -> Tree {
    fn go(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_path_buf();
            if e.file_type().map_or(false, |t| t.is_dir()) { t.insert(rel, None); go(base, &p, t) } else { t.insert(rel, Some(std::fs::read(&p).unwrap_or_default())); }
        }
    }
    let mut t = Tree::new();
    go(d, d, &mut t);
    t
}

/// `p` followed from the (absolute) directory `from`, by name alone.
fn follow(from: &Path, p: &Path) -> PathBuf {
    let mut o = from.to_path_buf();
    for c in p.components() {
        match c {
            Component::RootDir => o = "/".into(),
            Component::ParentDir => { o.pop(); }
            Component::Normal(n) => o.push(n),
            _ => {}
        }
    }
    o
}

const KEYS: &[&str] = &["VH18_A", "VH18_B", "vh18_b", "VH18_NUM", "VH18 SPACE", "VH18_é", "_", "VH18_EMPTY", "VH18_NONUNI", "PATH", "HOME", "vh18.dot"];
const BAD_KEYS: &[&str] = &["", "a=b", "=", "=x", "nul\0", "VH18_A="];
const NAMES: &[&str] = &["a", "b", "c.toml", "d", "é ü", ".hidden", "d.json", "..x", "vh18"];

#[derive(Debug, Clone, Copy, PartialEq)]
enum End { Ok, Err, Str, Text, Any, BadKey, BadValue }

fn path(r: &mut Rng, jail: &Path, cwd: &Path, other: &Path) -> PathBuf {
    let name = |r: &mut Rng| r.pick(NAMES).to_string();
    let up = cwd.strip_prefix(jail).map_or(0, |p| p.components().count());
    match r.below(28) {
        26 | 27 => {
            // Long ones, inside for all their turns.
            let n = r.range(8, 40);
            let down = r.pick(&["a/b/", "d/", "a/d/b/"]).repeat(n);
            let back = if r.bool() { r.below(n) } else { 0 };
            let p = format!("{}{}{}", down, "../".repeat(back), name(r));
            if r.bool() { p.into() } else { jail.join(p) }
        }
        0 | 1 => "c.toml".into(),
        2..=6 => name(r).into(),
        7 | 8 => format!("{}/{}", name(r), name(r)).into(),
        9 => format!("./{}", name(r)).into(),
        10 => format!("{}/../{}", name(r), name(r)).into(),
        11 => format!("{}//{}/./{}/", name(r), name(r), name(r)).into(),
        // At most one level above the jail: what escapes stays in the scratch directory.
        12 | 13 => format!("{}{}", "../".repeat(r.range(1, up + 2)), name(r)).into(),
        14 => "../".repeat(r.range(1, up + 2)).into(),
        15 | 16 => jail.join(name(r)),
        17 => jail.join(name(r)).join("..").join(name(r)),
        18 => jail.join("..").join(name(r)),
        19 => jail.join("..").join(jail.file_name().unwrap()).join(name(r)),
        20 => other.join(name(r)),
        21 => PathBuf::from(format!("{}x", jail.display())).join(name(r)),
        22 => jail.parent().unwrap().join(name(r)),
        23 => jail.into(),
        24 => r.pick(&[".", "..", "", "./", "a/.."]).into(),
        _ => match r.below(4) { 0 => "nul\0".into(), 1 => "n".repeat(300).into(), 2 => OsString::from_vec(b"caf\xe9".to_vec()).into(), _ => cwd.join(name(r)) },
    }
}

/// Runs operations in a jail, comparing with the model after each.
fn inside(c: &Mutex<(&mut Cov, Vec<String>)>, r: &mut Rng, jail: &mut Jail, before: &Envs, other: &Path, end: End) -> Result<(), String> {
    let dir = jail.directory().to_path_buf();
    let now = || std::env::current_dir().map_err(|e| e.to_string());
    let mut cwd = now()?;
    if !dir.is_absolute() || dir.canonicalize().ok() != cwd.canonicalize().ok() { return Err(format!("a jail's directory is {:?} but it starts in {:?}", dir, cwd)) }
    if !tree(&dir).is_empty() { return Err(format!("a jail starts with {:?}", tree(&dir))) }
    if envs() != *before { return Err("entering a jail changes the environment".into()) }
    let outside = tree(other);
    let sibling = PathBuf::from(format!("{}x", dir.display()));
    let _ = std::fs::create_dir(&sibling);
    let mut files = Tree::new();
    let mut vars = before.clone();
    let mut evals = 3;
    let n = r.size(6, 40);
    for _ in 0..n {
        let what;
        match if r.chance(1, 60) { 99 } else { r.below(14) } {
            99 => {
                let (at, k) = (r.below(50), r.range(20, 200));
                for i in at..at + k { jail.set_env(format!("VH18_M{}", i), i); vars.insert(format!("VH18_M{}", i).into(), i.to_string().into()); }
                what = format!("set VH18_M{}..{}", at, at + k);
            }
            0..=2 => {
                let k = *r.pick(KEYS);
                let v = match r.below(8) {
                    0 => { jail.set_env(k, 42u64); "42".into() } 1 => { jail.set_env(k, -1.5f64); "-1.5".into() } 2 => { jail.set_env(k.to_string(), 'é'); "é".into() } 3 => { jail.set_env(k, ""); String::new() }
                    4 => { jail.set_env(&k.to_string(), "a=b\n c"); "a=b\n c".into() } 5 => { jail.set_env(k, true); "true".into() }
                    _ => { let v = format!("v{}", r.below(1000)); jail.set_env(k, &v); v }
                };
                what = format!("set {}={:?}", k, v);
                vars.insert(k.into(), v.into());
            }
            3 => { jail.clear_env(); vars.clear(); what = "clear".to_string(); }
            4..=7 => {
                let p = path(r, &dir, &cwd, other);
                let bytes: Vec<u8> = match if p.ends_with("c.toml") { 2 } else { r.below(4) } { 0 => vec![], 1 => (0..if r.chance(1, 40) { (1 << 20) + r.below(5 << 20) } else { r.size(100, 20000) }).map(|i| (i * 7) as u8).collect(), 2 => format!("marker = {}\n", r.below(1000)).into_bytes(), _ => b"\xff\x00text".to_vec() };
                let text = String::from_utf8(bytes.clone()).ok().filter(|_| r.bool());
                let res = match &text { Some(t) => jail.create_file(&p, t), None => jail.create_binary(&p, &bytes) };
                let full = follow(&cwd, &p);
                what = format!("create {:?} in {:?}: {}", p, cwd.strip_prefix(&dir).unwrap_or(&cwd), if res.is_ok() { "ok" } else { "error" });
                match (full.strip_prefix(&dir), res) {
                    (Err(_), Ok(_)) => return Err(format!("{}, although that is outside of the jail", what)),
                    (Err(_), Err(_)) => c.lock().unwrap().0.count("operations outside the jail rejected"),
                    (Ok(rel), Ok(f)) => {
                        files.insert(rel.into(), Some(bytes));
                        let (a, b) = (f.metadata().map_err(|e| e.to_string())?, std::fs::metadata(&full).map_err(|e| format!("{}, but {}", what, e))?);
                        if (a.dev(), a.ino()) != (b.dev(), b.ino()) { return Err(format!("{}, but the file returned is another one", what)) }
                    }
                    (Ok(rel), Err(e)) => {
                        let parent = rel.parent().map_or(false, |q| q == Path::new("") || matches!(files.get(q), Some(None)));
                        let name = rel.to_string_lossy();
                        let odd = name.contains('\0') || name.len() > 250 || p.to_string_lossy().ends_with('/') || p.to_string_lossy().contains("..");
                        if parent && rel != Path::new("") && files.get(rel) != Some(&None) && !odd { return Err(format!("{}: {}", what, e)) }
                    }
                }
            }
            8 | 9 => {
                let p = path(r, &dir, &cwd, other);
                let res = jail.create_dir(&p);
                let full = follow(&cwd, &p);
                what = format!("create_dir {:?} in {:?}: {}", p, cwd.strip_prefix(&dir).unwrap_or(&cwd), if res.is_ok() { "ok" } else { "error" });
                match (full.strip_prefix(&dir), res) {
                    (Err(_), Ok(_)) => return Err(format!("{}, although that is outside of the jail", what)),
                    (Err(_), Err(_)) => c.lock().unwrap().0.count("operations outside the jail rejected"),
                    (Ok(rel), Ok(got)) => {
                        for a in rel.ancestors().filter(|a| *a != Path::new("")) { files.insert(a.into(), None); }
                        if cwd.join(&got).canonicalize().ok() != full.canonicalize().ok() || !full.is_dir() { return Err(format!("{}, and returns {:?}", what, got)) }
                    }
                    (Ok(rel), Err(e)) => {
                        let name = rel.to_string_lossy();
                        let blocked = rel.ancestors().any(|a| matches!(files.get(a), Some(Some(_))));
                        if !blocked && !name.contains('\0') && name.len() <= 250 && !p.to_string_lossy().contains("..") { return Err(format!("{}: {}", what, e)) }
                        // What of it was created before it failed is not specified.
                        for a in rel.ancestors() { if a != Path::new("") && dir.join(a).is_dir() { files.insert(a.into(), None); } }
                    }
                }
            }
            10 | 11 => {
                let dirs: Vec<PathBuf> = files.iter().filter(|f| f.1.is_none()).map(|f| dir.join(f.0)).collect();
                let p = if !dirs.is_empty() && r.chance(2, 3) {
                    let d = r.pick(&dirs).clone();
                    match d.strip_prefix(&cwd) { Ok(p) if r.chance(2, 3) => p.to_path_buf(), _ => d }
                } else { path(r, &dir, &cwd, other) };
                let res = jail.change_dir(&p);
                let full = follow(&cwd, &p);
                what = format!("change_dir {:?} in {:?}: {}", p, cwd.strip_prefix(&dir).unwrap_or(&cwd), if res.is_ok() { "ok" } else { "error" });
                let there = now()?;
                match (full.strip_prefix(&dir), res) {
                    (Err(_), Ok(_)) => return Err(format!("{}, although that is outside of the jail; now in {:?}", what, there)),
                    (Err(_), Err(_)) => c.lock().unwrap().0.count("operations outside the jail rejected"),
                    (Ok(_), Ok(got)) => {
                        if there != full || cwd.join(&got) != full && follow(&cwd, &got) != full { return Err(format!("{} leads to {:?} and returns {:?}", what, there, got)) }
                        cwd = full;
                    }
                    (Ok(rel), Err(e)) => {
                        let exists = rel == Path::new("") || matches!(files.get(rel), Some(None));
                        if exists && !p.to_string_lossy().contains("..") && p != Path::new("") { return Err(format!("{}: {}", what, e)) }
                    }
                }
            }
            12 => {
                // A configuration lookup.
                let name = *r.pick(&["c.toml", "c.toml", "c.toml", "vh18", "d/c.toml", "../c.toml", "a"]);
                let found = cwd.ancestors().map(|a| follow(a, Path::new(name))).take_while(|p| p.starts_with(&dir)).find_map(|p| files.get(p.strip_prefix(&dir).unwrap()).cloned().flatten());
                what = format!("look up {:?} in {:?}", name, cwd.strip_prefix(&dir).unwrap_or(&cwd));
                // With `..`, what is searched above the jail is not its business, and a missing directory is not traversed.
                if !name.contains("..") || found.is_some() {
                    let f = Figment::from(Toml::file(name));
                    match found {
                        Some(b) => {
                            let want = Figment::from(Toml::string(&String::from_utf8_lossy(&b))).extract_inner::<u64>("marker").ok().filter(|_| std::str::from_utf8(&b).is_ok());
                            if f.extract_inner::<u64>("marker").ok() != want { return Err(format!("{} gives {:?}, the file has {:?}", what, f.extract_inner::<u64>("marker"), want)) }
                            c.lock().unwrap().0.count("configuration lookups of created files");
                        }
                        None => if f.extract_inner::<u64>("marker").is_ok() { return Err(format!("{} finds something", what)) },
                    }
                }
            }
            _ => {
                what = "look up variable".to_string();
                let want = vars.get(&OsString::from("VH18_NUM")).map(|v| v.to_string_lossy().into_owned());
                let f = Figment::from(Env::raw().only(&["vh18_num"]));
                let got = f.extract_inner::<figment::value::Value>("vh18_num").ok();
                let want = want.map(|w| w.parse::<figment::value::Value>().unwrap());
                if got != want { return Err(format!("the variable VH18_NUM is {:?} in configuration, {:?} in the environment", got, want)) }
            }
        }
        c.lock().unwrap().1.push(what.clone());
        if envs() != vars { return Err(format!("after {}: the environment is {:?}, expected {:?}", what, envs(), vars)) }
        if now()? != cwd { return Err(format!("after {}: in {:?}", what, now()?)) }
        if tree(&dir) != files { return Err(format!("after {}: the jail contains {:?}, expected {:?}", what, tree(&dir).keys(), files.keys())) }
        evals += 3;
    }
    if !tree(&sibling).is_empty() { return Err(format!("operations reached {:?}", sibling)) }
    if sibling.is_dir() { let _ = std::fs::remove_dir_all(&sibling); }
    if tree(other) != outside { return Err("operations reached files outside of the jail".into()) }
    c.lock().unwrap().0.evals(evals + 2);
    // Wherever the closure leaves the process, and whatever it leaves of the jail.
    match r.below(30) {
        0 | 1 => {
            let d = dir.join("vh18gone");
            std::fs::create_dir(&d).and_then(|_| std::env::set_current_dir(&d)).and_then(|_| std::fs::remove_dir(&d)).map_err(|e| format!("harness: {}", e))?;
            c.lock().unwrap().1.push("the current directory is removed".into());
        }
        2 => {
            std::fs::remove_dir_all(&dir).map_err(|e| format!("harness: {}", e))?;
            c.lock().unwrap().1.push("the jail is removed".into());
        }
        3 => { std::env::set_current_dir(*r.pick(&["/", "/dev", ".."])).map_err(|e| format!("harness: {}", e))?; c.lock().unwrap().1.push("elsewhere".into()); }
        _ => {}
    }
    match end {
        End::BadKey => jail.set_env(*r.pick(BAD_KEYS), "x"),
        End::BadValue => { let k = *r.pick(KEYS); jail.set_env(k, "nul\0") }
        _ => {}
    }
    Ok(())
}

struct Token(u64);

/// How a jail ended, as its caller saw it.
#[derive(Debug, PartialEq)]
enum Seen { Ok, Err(String), Panic(String) }

fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { return s.to_string() }
    if let Some(s) = p.downcast_ref::<String>() { return s.clone() }
    if let Some(t) = p.downcast_ref::<Token>() { return format!("token {}", t.0) }
    "?".into()
}

fn error(r: &mut Rng, id: u64) -> Error {
    match r.below(4) {
        0 => Error::from(format!("error {}", id)),
        1 => Error::from(figment::error::Kind::MissingField(format!("field{}", id).into())),
        2 => Figment::from(Serialized::default("k", id)).extract_inner::<bool>("k").unwrap_err(),
        _ => Figment::from(Json::string("{")).merge(Json::string("[")).extract::<u8>().unwrap_err(),
    }
}

fn end_it(end: End, e: Error, id: u64) -> Result<(), Error> {
    match end {
        End::Err => Err(e),
        End::Str => panic!("static panic"),
        End::Text => panic!("panic {}", id),
        End::Any => std::panic::panic_any(Token(id)),
        _ => Ok(()),
    }
}

fn seen(expect: bool, end: End, e: &Error, id: u64, s: &Seen) -> bool {
    match (end, s) {
        (End::Ok, Seen::Ok) => true,
        (End::Err, Seen::Err(x)) => !expect && *x == e.to_string(),
        (End::Err, Seen::Panic(m)) => expect && m.contains(&e.to_string()),
        (End::Str, Seen::Panic(m)) => m == "static panic",
        (End::Text, Seen::Panic(m)) => *m == format!("panic {}", id),
        (End::Any, Seen::Panic(m)) => *m == format!("token {}", id),
        (End::BadKey, Seen::Panic(_)) | (End::BadValue, Seen::Panic(_)) => true,
        _ => false,
    }
}

fn run(expect: bool, f: impl FnOnce(&mut Jail) -> Result<(), Error>) -> Seen {
    let res = catch_unwind(AssertUnwindSafe(|| if expect { Jail::expect_with(f); Ok(()) } else { Jail::try_with(f) }));
    match res { Ok(Ok(())) => Seen::Ok, Ok(Err(e)) => Seen::Err(e.to_string()), Err(p) => Seen::Panic(payload(p)) }
}

/// A thread's work, not waited for forever: a lock that is never released is a violation.
fn within<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new().stack_size(4 << 20).spawn(move || { let x = f(); let _ = tx.send(x); }).unwrap();
    rx.recv_timeout(Duration::from_secs(secs)).map_err(|e| Fail::new(match e { mpsc::RecvTimeoutError::Timeout => format!("a jail was not entered, or not left, within {} s", secs), _ => format!("a jail's thread ended: {}", crate::sup::last_panic()) }))
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let root = c.scratch.canonicalize().unwrap().join("p18");
    let _ = std::fs::remove_dir_all(&root);
    let before = envs();
    let res = if c.idx % 8 == 3 { concurrent(c, &mut r, &root) } else { sequential(c, &mut r, &root) };
    let _ = std::env::set_current_dir(&c.scratch);
    for (k, _) in envs() { if !before.contains_key(&k) { std::env::remove_var(k) } }
    for (k, v) in before { std::env::set_var(k, v) }
    let _ = std::fs::remove_dir_all(&root);
    res
}

/// A process state to come back to.
fn prior(r: &mut Rng, root: &Path) -> PathBuf {
    for d in ["tmp", "other/sub", "cwd/deep"] { std::fs::create_dir_all(root.join(d)).unwrap(); }
    std::fs::write(root.join("other/a"), "untouched").unwrap();
    std::fs::write(root.join("cwd/c.toml"), "marker = 999999").unwrap();
    std::env::set_current_dir(root.join(r.pick(&["cwd", "cwd/deep", "", "tmp"]))).unwrap();
    std::os::unix::fs::symlink(root.join("tmp"), root.join("tmplink")).unwrap();
    std::env::set_var("TMPDIR", root.join(if r.chance(1, 6) { "tmplink" } else { "tmp" }));
    for k in KEYS {
        if *k == "PATH" || *k == "HOME" { continue }
        if r.bool() { std::env::set_var(k, match r.below(4) { 0 => OsString::new(), 1 => OsString::from_vec(b"\xff\xfe".to_vec()), _ => format!("prior {}", r.below(100)).into() }) } else { std::env::remove_var(k) }
    }
    root.join("other")
}

fn sequential(c: &mut Ctx, r: &mut Rng, root: &Path) -> Res {
    let other = prior(r, root);
    let end = *r.pick(&[End::Ok, End::Ok, End::Err, End::Str, End::Text, End::Any, End::BadKey, End::BadValue]);
    let expect = r.bool();
    let id = r.next();
    let (before, cwd, files) = (envs(), std::env::current_dir().unwrap(), tree(root));
    let broken = r.chance(1, 40);
    if broken { std::env::set_var("TMPDIR", root.join("absent")); }
    let log: Vec<String>;
    let dir: Option<PathBuf>;
    let got: Seen;
    let verdict: Result<(), String>;
    let e = error(r, id);
    {
        let (mut r2, before, other, msg) = (r.fork(), envs(), other.clone(), e.clone());
        let (v, d, g, l, cov) = within(60, move || {
            let mut cov = Cov::default();
            let (mut verdict, mut dir) = (Ok(()), None);
            let shared = Mutex::new((&mut cov, vec![]));
            let got = run(expect, |jail| {
                dir = Some(jail.directory().to_path_buf());
                let mut run = || verdict = inside(&shared, &mut r2, jail, &before, &other, end);
                run();
                end_it(end, msg, id)
            });
            let log = shared.into_inner().unwrap_or_else(|e| e.into_inner()).1;
            (verdict, dir, got, log, cov)
        })?;
        for (k, n) in cov.counters { c.cov.add(&k, n); }
        c.cov.evals(cov.evaluations);
        verdict = v; dir = d; got = g; log = l;
    }
    let ctx = |s: String| Fail::new(format!("{}\n  after {}\n  ending {:?} seen as {:?}", s, log.join("; "), end, got));
    verdict.map_err(&ctx)?;
    if broken {
        std::env::set_var("TMPDIR", &before[&OsString::from("TMPDIR")]);
        check!(dir.is_none() && matches!(got, Seen::Err(_) | Seen::Panic(_)), "a jail without a temporary directory is entered");
        c.cov.count("jails that cannot be created");
    } else {
        if !seen(expect, end, &e, id, &got) { return Err(ctx(format!("the closure's ending does not reach the caller of {}", if expect { "expect_with" } else { "try_with" }))) }
        if dir.as_ref().map_or(true, |d| d.exists()) { return Err(ctx(format!("the jail's directory {:?} is still there", dir))) }
    }
    if envs() != before {
        let now = envs();
        let diff: Vec<String> = before.keys().chain(now.keys()).filter(|k| before.get(*k) != now.get(*k)).map(|k| format!("{:?}: {:?} became {:?}", k, before.get(k), now.get(k))).collect();
        return Err(ctx(format!("the environment is not restored: {}", diff.join(", "))))
    }
    if std::env::current_dir().ok() != Some(cwd.clone()) { return Err(ctx(format!("the current directory was {:?}, now {:?}", cwd, std::env::current_dir()))) }
    let now = tree(root);
    if now != files { return Err(ctx(format!("files were {:?}, now {:?}", files.keys(), now.keys()))) }
    c.cov.evals(4);
    c.cov.add("operations", log.len() as u64);
    c.cov.count(match end { End::Ok => "ended by return", End::Err => "ended by error", End::BadKey | End::BadValue => "ended by a panic of set_env", _ => "ended by panic" });
    c.cov.distinct(&(format!("{:?}", end), &log));
    c.cov.sample(|| format!("{:?} after {}", end, log.join("; ")));
    Ok(())
}

/// Jails started from several threads.
fn concurrent(c: &mut Ctx, r: &mut Rng, root: &Path) -> Res {
    prior(r, root);
    let (before, cwd, files) = (envs(), std::env::current_dir().unwrap(), tree(root));
    let (threads, each) = (r.range(2, 6), r.range(1, 3));
    let log: Arc<Mutex<Vec<(usize, bool)>>> = Arc::new(Mutex::new(vec![]));
    let occupied = Arc::new(AtomicU64::new(0));
    let start = Arc::new(std::sync::Barrier::new(threads));
    let mut waits = vec![];
    for t in 0..threads {
        let (mut r, log, occupied, start, before) = (r.fork(), log.clone(), occupied.clone(), start.clone(), before.clone());
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            start.wait();
            let mut bad = vec![];
            for k in 0..each {
                let end = *r.pick(&[End::Ok, End::Err, End::Text, End::Any]);
                let id = (t * 100 + k) as u64;
                let e = error(&mut r, id);
                let msg = e.clone();
                let delay = r.below(4);
                let mut inner = || {
                    let pause = || match delay { 0 => {} 1 => std::thread::yield_now(), _ => std::thread::sleep(Duration::from_micros(20 * delay as u64)) };
                    let bad = &mut bad;
                    run(k % 2 == 1, |jail| {
                        log.lock().unwrap().push((t, true));
                        let n = occupied.fetch_add(1, SeqCst);
                        if n != 0 { bad.push(format!("{} other jails are running", n)) }
                        if envs() != before { bad.push(format!("entered with the environment {:?}", envs())) }
                        if !tree(jail.directory()).is_empty() { bad.push("entered a directory that is not empty".into()) }
                        pause();
                        jail.set_env("VH18_A", id);
                        if delay == 1 { jail.clear_env(); jail.set_env("VH18_A", id); }
                        let made = jail.create_file("c.toml", &format!("marker = {}", id)).is_ok();
                        pause();
                        let f = Figment::from(Toml::file("c.toml")).merge(Env::raw().only(&["vh18_a"]));
                        if !made || f.extract_inner::<u64>("marker").ok() != Some(id) { bad.push(format!("reads {:?} from its file", f.extract_inner::<u64>("marker"))) }
                        if f.extract_inner::<u64>("vh18_a").ok() != Some(id) { bad.push(format!("reads {:?} from its variable", f.extract_inner::<u64>("vh18_a"))) }
                        if std::env::current_dir().ok().as_deref() != Some(jail.directory()) { bad.push("is not in its directory".into()) }
                        occupied.fetch_sub(1, SeqCst);
                        log.lock().unwrap().push((t, false));
                        end_it(end, msg, id)
                    })
                };
                let got = inner();
                if !seen(k % 2 == 1, end, &e, id, &got) { bad.push(format!("ending {:?} seen as {:?}", end, got)) }
            }
            let _ = tx.send(bad);
        });
        waits.push(rx);
    }
    for (t, rx) in waits.into_iter().enumerate() {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(bad) => if let Some(b) = bad.first() { fail!("with {} threads, a jail of thread {}: {}", threads, t, b) },
            Err(_) => fail!("with {} threads, thread {} did not finish its jails within 60 s", threads, t),
        }
    }
    let log = log.lock().unwrap().clone();
    check!(log.len() == 2 * threads * each, "{} events", log.len());
    for w in log.chunks(2) { check!(w[0].0 == w[1].0 && w[0].1 && !w[1].1, "jails overlap: {:?}", log); }
    check!(envs() == before, "the environment is not restored after concurrent jails: {:?}, was {:?}", envs(), before);
    check!(std::env::current_dir().ok() == Some(cwd), "the directory is not restored after concurrent jails");
    check!(tree(root) == files, "files remain after concurrent jails");
    let order: Vec<usize> = log.chunks(2).map(|w| w[0].0).collect();
    c.cov.evals(4 + 6 * log.len() as u64 / 2);
    c.cov.count("concurrent cases");
    if order.windows(2).any(|w| w[0] != w[1]) && order.iter().enumerate().any(|(i, t)| order[..i].contains(t) && order[i - 1] != *t) { c.cov.count("concurrent cases where threads took turns"); }
    c.cov.distinct(&("order", &order));
    Ok(())
}
