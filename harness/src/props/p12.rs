//! P12: file sources resolve to the documented path and report it.
use std::path::{Path, PathBuf};
use figment::providers::{Data, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::{Figment, Profile, Provider, Source};
use crate::cov::*; use crate::mv::*;
use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P12", case, quick: 400_000, thorough: 8_000_000, serial: false,
    rule: "random directory trees (files, directories, links, dangling links, FIFOs under the searched names), random current directories and configured paths (relative, dotted, nested, absolute, with trailing components), options in random order and repetition, files changed between configuring and adding; non-trivial: a search that passed at least one directory or entry that does not match, or a missing required file; distinct by tree and path",
};

const NAMES: &[&str] = &["vh12conf", "sub/vh12conf", "vh12.cfg", "sub/vh12.cfg", "vh12 ü.cfg", "sub/deep/vh12.cfg", "other12.cfg"];
const DIRS: &[&str] = &["", "a", "a/b", "a/b/c", "a/b/c/d", "x", "x/b"];

fn doc(f: u8, id: u32, nested: bool) -> String {
    match (f, nested) {
        (0, false) => format!("marker = {}\n", id), (0, true) => format!("[debug]\nmarker = {}\n", id),
        (1, false) => format!("{{\"marker\": {}}}", id), (1, true) => format!("{{\"debug\": {{\"marker\": {}}}}}", id),
        (_, false) => format!("marker: {}\n", id), (_, true) => format!("debug:\n  marker: {}\n", id),
    }
}

#[derive(Clone, Debug)]
enum Opt { Required(bool), Search(bool), Nested, Profile }

fn build<T: Format>(path: &Path, opts: &[Opt], exact: bool) -> Data<T> {
    #[allow(deprecated)]
    let mut d = if exact { T::file_exact(path) } else { T::file(path) };
    for o in opts { d = match o { Opt::Required(b) => d.required(*b), Opt::Search(b) => d.search(*b), Opt::Nested => d.nested(), Opt::Profile => d.profile("debug") } }
    d
}

struct Case { opts: Vec<Opt>, exact: bool, fmt: u8 }

/// What the provider adds to a figment that already has a base, and what it says of itself before.
fn run<T: Format + 'static>(path: &Path, k: &Case, between: impl FnOnce()) -> (Figment, Option<Source>, String) {
    let d = build::<T>(path, &k.opts, k.exact);
    between();
    let m = Provider::metadata(&d);
    let f = Figment::from(Serialized::default("marker", 0u32)).merge(d).select("debug");
    (f, m.source, m.name.into())
}

/// The documented resolution.
fn resolve(cwd: Option<&Path>, path: &Path, search: bool, is_file: impl Fn(&Path) -> bool) -> (Option<PathBuf>, u32) {
    if path.is_absolute() { return (is_file(path).then(|| path.to_path_buf()), 0) }
    if !search { return (cwd.filter(|c| is_file(&c.join(path))).map(|_| path.to_path_buf()), 0) }
    let mut passed = 0;
    if let Some(c) = cwd { for a in c.ancestors() { if is_file(&a.join(path)) { return (Some(a.join(path)), passed) } passed += 1 } }
    (None, passed)
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let root = c.scratch.canonicalize().unwrap().join("p12");
    let _ = std::fs::remove_dir_all(&root);
    let res = body(c, &mut r, &root);
    let _ = std::env::set_current_dir(&c.scratch);
    let _ = std::fs::remove_dir_all(&root);
    res
}

fn body(c: &mut Ctx, r: &mut Rng, root: &Path) -> Res {
    // The tree.
    for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap(); }
    // Far down.
    let far = if r.chance(1, 6) { let n = r.range(4, 70); let d = format!("{}{}", r.pick(&["a/", "x/b/", ""]), (0..n).map(|i| ["p", "q", "ü", "sub"][i % 4]).collect::<Vec<_>>().join("/")); std::fs::create_dir_all(root.join(&d)).unwrap(); Some(d) } else { None };
    let fmt = r.below(4) as u8;
    let mut opts: Vec<Opt> = (0..r.below(7)).map(|_| match r.below(5) { 0 | 1 => Opt::Required(r.bool()), 2 | 3 => Opt::Search(r.bool()), _ => if r.bool() { Opt::Nested } else { Opt::Profile } }).collect();
    let exact = r.chance(1, 5);
    let required = opts.iter().rev().find_map(|o| if let Opt::Required(b) = o { Some(*b) } else { None }).unwrap_or(false);
    let search = opts.iter().rev().find_map(|o| if let Opt::Search(b) = o { Some(*b) } else { None }).unwrap_or(!exact);
    let how = opts.iter().rev().find(|o| matches!(o, Opt::Nested | Opt::Profile));
    let nested = matches!(how, Some(Opt::Nested));
    if how.is_none() && r.bool() { opts.insert(r.below(opts.len() + 1), Opt::Profile); }
    let mut id = 1;
    let mut desc = String::new();
    let mut bad: Vec<u32> = vec![];
    let empty = std::cell::RefCell::new(vec![]);
    let mut ids: Vec<(PathBuf, u32)> = vec![];
    let mut put = |r: &mut Rng, p: &Path, bad: &mut Vec<u32>| {
        if std::fs::symlink_metadata(p).is_ok() { return }
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        let what = r.below(17);
        match what {
            0..=8 => { std::fs::write(p, doc(fmt, id, nested)).unwrap(); ids.push((p.to_path_buf(), id)); id += 1; }
            9 | 10 => std::fs::create_dir(p).unwrap(),
            11 => { let t = p.with_extension("real"); std::fs::write(&t, doc(fmt, id, nested)).unwrap(); std::os::unix::fs::symlink(&t, p).unwrap(); ids.push((p.to_path_buf(), id)); id += 1; }
            12 => { let _ = std::os::unix::fs::symlink("/nonexistent/vh12", p); }
            13 => { let _ = std::os::unix::fs::symlink(p.parent().unwrap(), p); }
            14 => { use std::os::unix::ffi::OsStrExt; extern "C" { fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32; } let s = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap(); unsafe { mkfifo(s.as_ptr(), 0o600); } }
            15 => {
                // No bytes at all: a file nonetheless, read as the format reads nothing.
                std::fs::write(p, ["", "", " ", "\n"][r.below(if fmt == 0 { 4 } else { 2 })]).unwrap();
                ids.push((p.to_path_buf(), id));
                let none = match fmt { 0 => true, 1 => Json::from_str::<figment::value::Dict>("").is_ok(), 2 => Yaml::from_str::<figment::value::Dict>("").is_ok(), _ => YamlExtended::from_str::<figment::value::Dict>("").is_ok() };
                if none { empty.borrow_mut().push(id) } else { bad.push(id) }
                id += 1;
            }
            _ => { std::fs::write(p, "{ not = [ a : document").unwrap(); ids.push((p.to_path_buf(), id)); bad.push(id); id += 1; }
        }
        desc.push_str(&format!("{}={} ", p.strip_prefix(root).unwrap().display(), what));
    };
    let name = r.pick(NAMES).to_string();
    let n = r.range(0, 7);
    for _ in 0..n { let p = root.join(r.pick(DIRS)).join(if r.chance(2, 3) { name.as_str() } else { r.pick(NAMES) }); put(r, &p, &mut bad); }
    // Where from, and what.
    let cwd = match &far { Some(d) if r.chance(3, 4) => { let up = r.below(4); root.join(d).ancestors().nth(up).unwrap().to_path_buf() } _ => root.join(r.pick(DIRS)) };
    // Directories that other tools would take for a project's root.
    for _ in 0..if r.chance(1, 3) { r.range(1, 5) } else { 0 } {
        let d = if r.chance(1, 3) { cwd.ancestors().take_while(|a| a.starts_with(root)).nth(r.below(4)).unwrap_or(root).to_path_buf() } else { root.join(r.pick(DIRS)) };
        let d = d.join(r.pick(&[".git", ".hg", ".svn", "Cargo.toml", "Cargo.lock", "package.json", "Rocket.toml", ".editorconfig", ".env", ".root"]));
        if r.bool() { let _ = std::fs::create_dir(&d); } else { let _ = std::fs::write(&d, "root = true\n"); }
    }
    let path: PathBuf = match r.below(14) {
        // From somewhere above the tree, up to the top of the file system.
        12 | 13 => {
            let p = if r.bool() { cwd.clone() } else { root.join(r.pick(DIRS)) }.join(&name);
            let n = p.ancestors().count();
            let top = p.ancestors().nth(if r.bool() { n - 1 } else { r.range(1, n - 1) }).unwrap();
            p.strip_prefix(top).unwrap().to_path_buf()
        }
        0..=5 => name.clone().into(),
        6 => format!("./{}", name).into(),
        7 => format!("../{}", name).into(),
        8 => format!("a/../{}", name).into(),
        9 => root.join(r.pick(DIRS)).join(&name),
        10 => if r.bool() { root.join("a/./b/..").join(&name) } else { format!("b/{}", name).into() },
        _ => (*r.pick(&["", ".", "..", "/", "vh12.cfg/x", "nothing12", "vh12.cfg/", "../../../../../../../../../../../../nothing12"])).into(),
    };
    std::env::set_current_dir(&cwd).map_err(|e| Fail::new(format!("harness: {}", e)))?;
    // (Where ".." leads from a removed directory is up to the system.)
    let gone = r.chance(1, 30) && !path.to_string_lossy().contains("..");
    let k = Case { opts, exact, fmt };
    // What changes between configuring the source and adding it counts.
    let late = if r.chance(1, 4) { Some(root.join(r.pick(DIRS)).join(r.pick(NAMES))) } else { None };
    let mut rr = r.fork();
    let cwd2 = if r.chance(1, 6) { root.join(r.pick(DIRS)) } else { cwd.clone() };
    let between = || {
        if let Some(p) = &late { if std::fs::symlink_metadata(p).is_ok() { let _ = std::fs::remove_file(p); } else { put(&mut rr, p, &mut bad); } }
        std::env::set_current_dir(&cwd2).unwrap();
        if gone { let d = cwd2.join("gone"); let _ = std::fs::create_dir(&d); std::env::set_current_dir(&d).unwrap(); std::fs::remove_dir(&d).unwrap(); }
    };
    let (f, src, mname) = match fmt { 0 => run::<Toml>(&path, &k, between), 1 => run::<Json>(&path, &k, between), 2 => run::<Yaml>(&path, &k, between), _ => run::<YamlExtended>(&path, &k, between) };
    let is_file = |p: &Path| std::fs::metadata(p).map(|m| m.is_file()).unwrap_or(false);
    let (found, passed) = resolve(if gone { None } else { Some(&cwd2) }, &path, search, is_file);
    let ctx = |e: String| Fail::new(format!("{}\n  path {:?} (search {} required {} {:?}{}) from {:?}{}, tree {}", e, path, search, required, k.opts, if exact { " file_exact" } else { "" }, cwd2.strip_prefix(root).unwrap(), if gone { " (removed)" } else { "" }, desc));
    let want_id = match &found {
        Some(p) => {
            let real = if p.is_absolute() { p.clone() } else { cwd2.join(p) };
            let real = real.canonicalize().unwrap();
            let hit = ids.iter().rev().find(|(q, _)| q.canonicalize().map(|q| q == real).unwrap_or(false));
            match hit { Some((_, i)) => Some(*i), None => return Ok(()) } // a link's target, found under its own name
        }
        None => None,
    };
    // Metadata.
    let want_src = found.clone().unwrap_or_else(|| path.clone());
    let name = format!("{} file", ["TOML", "JSON", "YAML", "YAML Extended"][fmt as usize]);
    let strict = |a: &Source| matches!(a, Source::File(p) if p.as_os_str() == want_src.as_os_str());
    check!(mname == name, "{} is named {:?}", name, mname);
    if !src.as_ref().map_or(false, strict) { return Err(ctx(format!("metadata() says {:?}, expected {:?}", src, want_src))) }
    let metas: Vec<_> = f.metadata().collect();
    check!(metas.len() == 2, "{} metadata", metas.len());
    if !metas[1].source.as_ref().map_or(false, strict) || metas[1].name != name { return Err(ctx(format!("the figment's metadata says {:?} {:?}, expected {:?}", metas[1].name, metas[1].source, want_src))) }
    c.cov.evals(3);
    // Data.
    let got = f.extract_inner::<u32>("marker");
    match want_id {
        Some(i) if bad.contains(&i) => {
            let e = match got { Err(e) => e, Ok(v) => return Err(ctx(format!("a malformed file gives {}", v))) };
            let shown = e.metadata.as_ref().and_then(|m| m.source.as_ref()).map_or(false, strict);
            if !shown { return Err(ctx(format!("the error's source is {:?}, expected {:?}", e.metadata.map(|m| m.source), want_src))) }
            c.cov.count("malformed files read");
        }
        Some(i) if empty.borrow().contains(&i) => {
            match got { Ok(0) => {}, g => return Err(ctx(format!("with an empty file the marker is {:?}", g.map_err(|e| e.to_string())))) }
            c.cov.eval();
            c.cov.count("empty files read");
        }
        Some(i) => {
            let v = got.map_err(|e| ctx(format!("extraction fails: {}", e)))?;
            if v != i { return Err(ctx(format!("read marker {}, expected {} from {:?}", v, i, want_src))) }
            let m = f.find_metadata("marker").ok_or_else(|| ctx("no metadata for the value".into()))?;
            if !m.source.as_ref().map_or(false, strict) { return Err(ctx(format!("the value's metadata says {:?}", m.source))) }
            let p = f.find_value("marker").unwrap().tag().profile();
            if p.is_some() && p != Some(Profile::Default) && p != Some(Profile::Global) { fail!("profile {:?}", p) }
            c.cov.evals(2);
            c.cov.count(&format!("files read after passing {} director{}", passed, if passed == 1 { "y" } else { "ies" }));
        }
        None if required => {
            for e in [got.err(), f.extract::<figment::value::Dict>().err(), f.find_value("marker").err()] {
                let e = e.ok_or_else(|| ctx("a missing required file is no error".into()))?;
                if !e.to_string().contains(&path.display().to_string()) { return Err(ctx(format!("the error {:?} does not name the file", e.to_string()))) }
                if !e.metadata.as_ref().and_then(|m| m.source.as_ref()).map_or(false, strict) { return Err(ctx("the error does not carry the source".into())) }
                c.cov.eval();
            }
            c.cov.count("missing required files");
        }
        None => {
            let v = got.map_err(|e| ctx(format!("a missing optional file fails: {}", e)))?;
            if v != 0 { return Err(ctx(format!("a missing file gives {}", v))) }
            let d: figment::value::Dict = f.extract().map_err(|e| ctx(e.to_string()))?;
            if d.len() != 1 { return Err(ctx(format!("a missing file adds {}", cut(&d)))) }
            if f.profiles().count() != 1 { return Err(ctx(format!("a missing file adds profiles: {:?}", f.profiles().collect::<Vec<_>>()))) }
            c.cov.evals(2);
            c.cov.count("missing optional files");
        }
    }
    if gone { c.cov.count("current directory gone"); }
    if path.is_absolute() { c.cov.count("absolute paths"); } else if search { c.cov.count("searches"); } else { c.cov.count("exact relative paths"); }
    if passed > 0 || required && found.is_none() { c.cov.distinct(&format!("{} {:?} {:?} {:?}", desc, path, cwd2, k.opts)); }
    c.cov.sample(|| format!("{:?} from {:?}: {:?}", path, cwd2, found));
    Ok(())
}
