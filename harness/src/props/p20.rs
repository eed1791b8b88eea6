//! P20: computed relative paths, and the display of file sources.
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStringExt;
use std::path::{Component, Path, PathBuf};
use figment::{Figment, Source};
use figment::providers::{Format, Json, Toml, Yaml};
use figment::util::diff_paths;
use crate::cov::*; use crate::rng::Rng;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P20", case, quick: 1_500_000, thorough: 40_000_000, serial: false,
    rule: "random pairs of paths (absolute and relative, `.`, `..`, doubled and trailing slashes, shared prefixes, non-UTF-8 names) and real directories and sources; the returned path is followed lexically, and real displayed sources are opened; non-trivial: base and path differ and share something, or contain `.` or `..`; distinct by (path, base)",
};

fn name(r: &mut Rng) -> OsString {
    match r.below(40) {
        0 => OsString::from_vec(vec![b'a', 0xff]),
        1 => OsString::from("é"),
        2 => OsString::from("a b"),
        3 => OsString::from("..."),
        4 => OsString::from(".a"),
        _ => OsString::from(*r.pick(&["a", "b", "c", "A", "aa"])),
    }
}

/// A path as text and separators, so that all spellings occur.
fn spell(r: &mut Rng, abs: bool, comps: &[OsString]) -> PathBuf {
    let mut s: Vec<u8> = vec![];
    if abs { s.push(b'/'); if r.chance(1, 10) { s.push(b'/'); if r.bool() { s.push(b'/') } } }
    for (i, c) in comps.iter().enumerate() {
        if i > 0 { s.push(b'/'); if r.chance(1, 12) { s.push(b'/') } }
        s.extend_from_slice(std::os::unix::ffi::OsStrExt::as_bytes(c.as_os_str()));
    }
    if !comps.is_empty() && r.chance(1, 6) { s.push(b'/') }
    PathBuf::from(OsString::from_vec(s))
}

fn comps(r: &mut Rng, max: usize, dots: usize) -> Vec<OsString> {
    let n = if r.chance(1, 12) { r.range(max, 70) } else { r.below(max + 1) };
    (0..n).map(|_| if dots > 0 && r.chance(1, dots) { OsString::from(*r.pick(&["..", ".", ".."])) } else { name(r) }).collect()
}

fn pair(r: &mut Rng) -> (PathBuf, PathBuf) {
    let dots = [0, 0, 3, 6, 10][r.below(5)];
    let abs = r.bool();
    let abs2 = if r.chance(1, 8) { !abs } else { abs };
    let shared = comps(r, 4, dots);
    let mut a = shared.clone(); a.extend(comps(r, 4, dots));
    let bd = if r.bool() { 0 } else { dots };
    let mut b = shared; b.extend(comps(r, 4, bd));
    if r.chance(1, 12) { b.clone_from(&a) }
    (spell(r, abs, &a), spell(r, abs2, &b))
}

/// The steps of a path, `.` left out.
fn steps(p: &Path) -> Vec<&OsStr> {
    p.components().filter_map(|c| match c { Component::Normal(_) | Component::ParentDir => Some(c.as_os_str()), _ => None }).collect()
}

/// Where a sequence of steps leads: levels above the start, then names. At the root, `..` stays there.
fn walk<'a>(abs: bool, it: impl Iterator<Item = &'a OsStr>) -> (usize, Vec<&'a OsStr>) {
    let (mut up, mut at) = (0, vec![]);
    for s in it {
        if s == ".." { if at.pop().is_none() && !abs { up += 1 } } else { at.push(s) }
    }
    (up, at)
}

fn diff_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let (p, b) = pair(r);
    let got = match r.below(3) { 0 => diff_paths(&p, &b), 1 => diff_paths(p.clone(), b.as_path()), _ => diff_paths(p.as_os_str(), &b) };
    c.cov.eval();
    let (sp, sb) = (steps(&p), steps(&b));
    let common = sp.iter().zip(&sb).take_while(|(x, y)| x == y).count();
    let ctx = || format!("diff_paths({:?}, {:?})", p, b);
    if p.has_root() != b.has_root() {
        check!(got.is_none(), "{} is {:?}, but only one of the paths is absolute", ctx(), got);
        c.cov.count("one absolute, one relative");
        return Ok(());
    }
    let abs = p.has_root();
    match &got {
        Some(rel) => {
            check!(!rel.has_root(), "{} is {:?}, which is not relative", ctx(), rel);
            // Followed from the base, it leads to the path.
            let s = steps(rel);
            let there = walk(abs, sb.iter().copied().chain(s.iter().copied()));
            let want = walk(abs, sp.iter().copied());
            check!(there == want, "{} is {:?}, which leads from the base to {:?} and not to the path {:?}", ctx(), rel, there, want);
            c.cov.count("relative path followed");
            if !sb.iter().any(|s| *s == "..") {
                // Shortest: up out of what differs, down into the rest.
                let n = sb.len() - common + sp.len() - common;
                check!(s.len() <= n, "{} is {:?}: {} steps, {} suffice", ctx(), rel, s.len(), n);
                let ups = s.iter().take_while(|s| **s == "..").count();
                let want: Vec<&OsStr> = std::iter::repeat_n(OsStr::new(".."), sb.len() - common).chain(sp[common..].iter().copied()).collect();
                check!(s == want, "{} is {:?}, the shortest relative path is {:?}", ctx(), rel, want.iter().collect::<PathBuf>());
                c.cov.add("steps up", ups as u64);
                c.cov.eval();
            } else { c.cov.count("base with `..`, path found") }
        }
        None => {
            check!(sb[common..].iter().any(|s| *s == ".."), "{} is nothing, but the base goes up nowhere past what they share", ctx());
            c.cov.count("nothing: base goes up");
        }
    }
    // Inverse: from the base joined with the result, back again.
    if let Some(rel) = &got {
        if !sp.iter().any(|s| *s == "..") && !sb.iter().any(|s| *s == "..") {
            let back = diff_paths(&b, &p);
            check!(back.as_ref().map(|x| steps(x).len()) == Some(steps(rel).len()), "{} is {:?} and the way back is {:?}", ctx(), rel, back);
            c.cov.eval();
            // Adding a common prefix changes nothing.
            let pre = Path::new(if abs { "/q/w" } else { "q/w" });
            let (p2, b2) = (pre.join(p.strip_prefix("/").unwrap_or(&p)), pre.join(b.strip_prefix("/").unwrap_or(&b)));
            check!(diff_paths(&p2, &b2) == got, "{} is {:?}, but under {:?} it is {:?}", ctx(), got, pre, diff_paths(&p2, &b2));
            c.cov.eval();
        }
    }
    if p != b && (common > 0 || sp.iter().chain(&sb).any(|s| *s == "..")) { c.cov.distinct(&(&p, &b)) }
    c.cov.sample(|| format!("{} = {:?}", ctx(), got));
    Ok(())
}

/// The display rule, from the statement alone.
fn check_display(c: &mut Ctx, p: &Path, cwd: &Path, shown: &str, what: &str) -> Res {
    if p.to_str().is_none() || cwd.to_str().is_none() { c.cov.count("non-UTF-8 source displayed"); return Ok(()); }
    c.cov.eval();
    let s = Path::new(shown);
    check!(s.iter().count() <= p.iter().count(), "{}: the source {:?} is displayed as {:?}, which is longer", what, p, shown);
    let full = |x: &Path| -> Vec<String> {
        let (sx, sc) = (steps(x), steps(cwd));
        if x.has_root() { walk(true, sx.into_iter()) } else { walk(true, sc.into_iter().chain(sx)) }.1.iter().map(|s| s.to_string_lossy().into_owned()).collect()
    };
    check!(full(s) == full(p), "{}: in {:?} the source {:?} is displayed as {:?}, which leads elsewhere", what, cwd, p, shown);
    // Documented: relative exactly when that is shorter.
    if p.has_root() {
        let (sp, sc) = (steps(p), steps(cwd));
        let common = sp.iter().zip(&sc).take_while(|(x, y)| x == y).count();
        let n = sc.len() - common + sp.len() - common;
        let shorter = n < p.iter().count();
        check!(s.has_root() != shorter, "{}: in {:?} the source {:?} is displayed as {:?}; the relative path has {} components", what, cwd, p, shown, n);
        c.cov.count(if shorter { "displayed relative" } else { "displayed in full" });
    } else { check!(s == p, "{}: the relative source {:?} is displayed as {:?}", what, p, shown); c.cov.count("relative source displayed") }
    Ok(())
}

fn display_case(c: &mut Ctx, r: &mut Rng) -> Res {
    // A real current directory below the scratch directory, and arbitrary sources around it.
    let root = c.scratch.join("p20");
    let depth = r.below(4);
    let mut cwd = root.clone();
    for _ in 0..depth { cwd.push(r.pick(&["a", "b", "c"])) }
    std::fs::create_dir_all(&cwd).map_err(|e| Fail::new(e.to_string()))?;
    std::env::set_current_dir(&cwd).map_err(|e| Fail::new(e.to_string()))?;
    let cwd = std::env::current_dir().map_err(|e| Fail::new(e.to_string()))?;
    let res = (|| -> Res {
        for _ in 0..4 {
            let p = match r.below(5) {
                0 => { let v = comps(r, 6, 0); spell(r, true, &v) }
                1 => { let v = comps(r, 4, 4); { let a = r.bool(); spell(r, a, &v) } }
                2 => { let mut p = cwd.clone(); for _ in 0..r.below(4) { p.pop(); } p.extend(comps(r, 4, 0)); p }
                3 => { let k = r.below(cwd.iter().count()); let mut p: PathBuf = cwd.iter().take(k + 1).collect(); p.extend(comps(r, 4, 6)); p }
                _ => cwd.join(r.pick(&["x.toml", "a/x.toml", "../x.toml", "a/../x.toml", "", "../../../../../../../x"])),
            };
            if p.as_os_str().is_empty() { continue }
            let src = match r.below(3) { 0 => Source::File(p.clone()), _ => Source::from(p.as_path()) };
            let shown = src.to_string();
            check_display(c, &p, &cwd, &shown, "display")?;
            check!(src.file_path() == Some(p.as_path()), "file_path() of the source {:?} is {:?}", p, src.file_path());
            check!(src.custom().is_none() && src.code_location().is_none(), "a file source claims to be another kind");
            c.cov.distinct(&("shown", &p, &cwd));
        }
        // A source that exists: what an error or metadata displays can be opened.
        let mut file = root.clone();
        for _ in 0..r.below(4) { file.push(r.pick(&["a", "b", "c"])) }
        std::fs::create_dir_all(&file).map_err(|e| Fail::new(e.to_string()))?;
        file.push(format!("f{}.cfg", r.below(3)));
        let n = r.below(1_000_000);
        let (body, fig): (String, Figment) = match r.below(3) {
            0 => (format!("key = {}", n), { std::fs::write(&file, format!("key = {}", n)).unwrap(); Figment::from(Toml::file(&file)) }),
            1 => (format!("{{\"key\": {}}}", n), { std::fs::write(&file, format!("{{\"key\": {}}}", n)).unwrap(); Figment::from(Json::file(&file)) }),
            _ => (format!("key: {}", n), { std::fs::write(&file, format!("key: {}", n)).unwrap(); Figment::from(Yaml::file(&file)) }),
        };
        let md = fig.find_metadata("key").cloned();
        let src = md.and_then(|m| m.source).map(|s| (s.to_string(), s));
        let err = fig.extract_inner::<bool>("key").map_err(|e| e.to_string());
        let res = match src {
            None => Err(Fail::new(format!("a value from the file {:?} has no source", file))),
            Some((shown, s)) => (|| -> Res {
                check_display(c, s.file_path().unwrap_or(&file), &cwd, &shown, "file source")?;
                // An empty text or one with trailing slash could not be opened: read it.
                let got = std::fs::read_to_string(&shown).map_err(|e| Fail::new(format!("in {:?} the source of {:?} is displayed as {:?}: {}", cwd, file, shown, e)))?;
                check!(got == body, "in {:?} the source of {:?} is displayed as {:?}, which holds {:?}", cwd, file, shown, got);
                c.cov.count("displayed source opened");
                let text = err.err().unwrap_or_default();
                check!(text.contains(&shown), "the error {:?} does not show the source {:?}", text, shown);
                c.cov.evals(2);
                Ok(())
            })(),
        };
        let _ = std::fs::remove_file(&file);
        res
    })();
    let _ = std::env::set_current_dir(&c.scratch);
    res
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    if c.idx % 24 == 0 { display_case(c, &mut r) } else { for _ in 0..3 { diff_case(c, &mut r)?; } Ok(()) }
}
