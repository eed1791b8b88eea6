//! P16: relative paths resolve against the file that declared them.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use figment::providers::{Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{Deserialize, Serialize};
use crate::cov::*; use crate::mv::*; use crate::model::*; use crate::render;
use crate::rng::Rng;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P16", case, quick: 150_000, thorough: 4_000_000, serial: false,
    rule: "random sets of sources (files of every format in different directories, searched, exact or absolute; strings, environment, custom, serialized) whose path texts name their source, combined with random strategies; every path of the extracted structure (options, sequences, maps, newtypes, variants, tagged, either) is judged by the source its text names, then serialized into further figments and judged again; non-trivial: paths of at least two files in one structure; distinct by the texts and files seen",
};

type R = RelativePathBuf;
#[derive(Serialize, Deserialize, Clone, Debug)] struct New(R);
#[derive(Serialize, Deserialize, Clone, Debug)] struct Inner { p: Option<R>, q: Option<Vec<R>>, n: Option<New> }
#[derive(Serialize, Deserialize, Clone, Debug)] enum En { P(R), S { p: R }, T(R, R) }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Conf {
    a: Option<R>,
    b: Option<Vec<R>>,
    c: Option<BTreeMap<String, R>>,
    d: Option<Inner>,
    t: Option<Tagged<R>>,
    v: Option<Vec<Option<Tagged<R>>>>,
    n: Option<New>,
    e: Option<En>,
    l: Option<BTreeMap<String, Vec<Inner>>>,
    w: Option<(R, Tagged<Vec<R>>)>,
}

/// Everything in it.
fn paths<'a>(c: &'a Conf) -> Vec<(String, &'a R)> {
    let mut o: Vec<(String, &R)> = vec![];
    fn inner<'a>(k: String, i: &'a Inner, o: &mut Vec<(String, &'a R)>) {
        if let Some(p) = &i.p { o.push((format!("{}.p", k), p)) }
        for (j, p) in i.q.iter().flatten().enumerate() { o.push((format!("{}.q.{}", k, j), p)) }
        if let Some(p) = &i.n { o.push((format!("{}.n", k), &p.0)) }
    }
    if let Some(p) = &c.a { o.push(("a".into(), p)) }
    for (j, p) in c.b.iter().flatten().enumerate() { o.push((format!("b.{}", j), p)) }
    for (k, p) in c.c.iter().flatten() { o.push((format!("c.{}", k), p)) }
    if let Some(d) = &c.d { inner("d".into(), d, &mut o) }
    if let Some(p) = &c.t { o.push(("t".into(), p)) }
    for (j, p) in c.v.iter().flatten().enumerate() { if let Some(p) = p { o.push((format!("v.{}", j), p)) } }
    if let Some(p) = &c.n { o.push(("n".into(), &p.0)) }
    match &c.e { Some(En::P(p)) => o.push(("e.P".into(), p)), Some(En::S { p }) => o.push(("e.S.p".into(), p)), Some(En::T(p, q)) => { o.push(("e.T.0".into(), p)); o.push(("e.T.1".into(), q)) } None => {} }
    for (k, v) in c.l.iter().flatten() { for (j, i) in v.iter().enumerate() { inner(format!("l.{}.{}", k, j), i, &mut o) } }
    if let Some((p, q)) = &c.w { o.push(("w.0".into(), p)); for (j, p) in q.iter().enumerate() { o.push((format!("w.1.{}", j), p)) } }
    o
}

struct Src { name: String, meta: Option<PathBuf> }

/// Texts name their source: "s<index>_<serial>".
struct Texts { src: usize, n: usize }
impl Texts {
    fn text(&mut self, r: &mut Rng) -> String {
        self.n += 1;
        let t = format!("s{}_{}", self.src, self.n);
        match r.below(12) { 0 => format!("../{}", t), 1 => format!("./{}/x.html", t), 2 => format!("/abs/{}", t), 3 => format!("{}/", t), 4 => format!("{} ü/日.txt", t), 5 => format!("a/../{}//b", t), 6 => format!("{}.toml", t), 7 => format!("C:\\{}", t), 8 => format!("~/{}", t), _ => format!("dir/{}", t) }
    }
    fn node(&mut self, r: &mut Rng) -> Node { Node::new(MV::Str(self.text(r))) }
    fn arr(&mut self, r: &mut Rng) -> Node { let n = r.below(4); Node::new(MV::Arr((0..n).map(|_| self.node(r)).collect())) }
    fn inner(&mut self, r: &mut Rng) -> Node {
        let mut d = MDict::new();
        if r.bool() { let x = self.node(r); d.insert("p".into(), x); }
        if r.bool() { let x = self.arr(r); d.insert("q".into(), x); }
        if r.bool() { let x = self.node(r); d.insert("n".into(), x); }
        Node::new(MV::Dict(d))
    }
    fn conf(&mut self, r: &mut Rng) -> MDict {
        let mut d = MDict::new();
        let mut put = |k: &str, n: Node| { d.insert(k.into(), n); };
        if r.bool() { put("a", self.node(r)) }
        if r.bool() { put("b", self.arr(r)) }
        if r.bool() { let n = r.range(1, 3); put("c", Node::new(MV::Dict((0..n).map(|_| (r.pick(&["x", "y", "z"]).to_string(), self.node(r))).collect()))) }
        if r.bool() { put("d", self.inner(r)) }
        if r.bool() { put("t", self.node(r)) }
        if r.chance(1, 3) { put("v", self.arr(r)) }
        if r.chance(1, 3) { put("n", self.node(r)) }
        // One variant at most may end up in `e`: always the same one per case.
        if r.chance(1, 3) { let i = self.inner(r); put("l", Node::new(MV::Dict([(r.pick(&["x", "y"]).to_string(), Node::new(MV::Arr(vec![i])))].into()))) }
        if r.chance(1, 4) { put("w", Node::new(MV::Arr(vec![self.node(r), self.arr(r)]))) }
        d
    }
    fn variant(&mut self, r: &mut Rng, e: usize, d: &mut MDict) {
        if !r.chance(1, 3) { return }
        let v = match e { 0 => ("P", self.node(r)), 1 => ("S", Node::new(MV::Dict([("p".to_string(), self.node(r))].into()))), _ => ("T", Node::new(MV::Arr(vec![self.node(r), self.node(r)]))) };
        d.insert("e".into(), Node::new(MV::Dict([(v.0.to_string(), v.1)].into())));
    }
}

/// A provider claiming to be a file (or a directory of files).
struct Claims { path: PathBuf, data: Dict, prof: Profile }
impl Provider for Claims {
    fn metadata(&self) -> Metadata { Metadata::from("claim", self.path.as_path()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(self.prof.collect(self.data.clone())) }
}

fn file<T: Format + 'static>(p: &Path, exact: bool, op: Op, f: Figment, nested: bool) -> Figment {
    let d = T::file(p);
    let d = if exact { d.search(false) } else { d };
    op.apply(f, if nested { d.nested() } else { d })
}

fn owner(text: &str) -> Option<usize> { let i = text.rfind("s")?; let _ = i; let m = text.split(|c: char| c == '/' || c == '\\' || c == ' ' || c == '.').find(|p| p.starts_with('s') && p.contains('_'))?; m[1..].split('_').next()?.parse().ok() }

fn judge(c: &mut Ctx, srcs: &[Src], k: &str, p: &R, how: &str) -> Res {
    let text = p.original().to_str().unwrap_or("").to_string();
    let o = owner(&text).ok_or_else(|| Fail::new(format!("{} {:?} has original {:?}", how, k, text)))?;
    judge_with(c, &srcs[o], k, p, &text, how)
}
fn judge_with(c: &mut Ctx, s: &Src, k: &str, p: &R, text: &str, how: &str) -> Res {
    let want = if Path::new(text).has_root() { PathBuf::from(text) } else {
        match &s.meta { None => PathBuf::from(text), Some(m) if m.is_dir() => m.join(text), Some(m) => m.parent().unwrap().join(text) }
    };
    check!(p.original().as_os_str() == text, "{} {}: original() is {:?}, not {:?}", how, k, p.original(), text);
    check!(p.metadata_path().map(|p| p.as_os_str()) == s.meta.as_ref().map(|p| p.as_os_str()), "{} {}: {:?} of {} has declaring file {:?}, not {:?}", how, k, text, s.name, p.metadata_path(), s.meta);
    check!(p.relative().as_os_str() == want.as_os_str(), "{} {}: {:?} of {} resolves to {:?}, not {:?}", how, k, text, s.name, p.relative(), want);
    c.cov.evals(3);
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let root = c.scratch.canonicalize().unwrap().join("p16");
    let _ = std::fs::remove_dir_all(&root);
    let mut vars = vec![];
    let mut log = String::new();
    let res = body(c, &mut r, &root, &mut vars, &mut log);
    for v in vars { std::env::remove_var(v); }
    let _ = std::env::set_current_dir(&c.scratch);
    let _ = std::fs::remove_dir_all(&root);
    res.map_err(|f| Fail { msg: format!("{}\n  sources {}", f.msg, cut_str(&log, 1500)), ..f })
}

fn body(c: &mut Ctx, r: &mut Rng, root: &Path, vars: &mut Vec<String>, log: &mut String) -> Res {
    if r.chance(1, 2000) { return non_utf8(c, root) }
    let dirs = ["", "a", "a/b", "a/b ü/c", "x.d", "y.toml"];
    for d in dirs { std::fs::create_dir_all(root.join(d)).unwrap(); }
    let cwd = root.join(r.pick(&dirs));
    // A file's directory is the one it was named with, links or not.
    std::os::unix::fs::symlink(root.join("a/b ü"), root.join("ln")).unwrap();
    std::os::unix::fs::symlink("a/../x.d", root.join("ln2")).unwrap();
    let placed = ["", "a", "a/b", "a/b ü/c", "x.d", "y.toml", "ln", "ln2", "ln/c"];
    std::env::set_current_dir(&cwd).map_err(|e| Fail::new(format!("harness: {}", e)))?;
    let mut srcs: Vec<Src> = vec![];
    let mut f = Figment::new();
    let en = r.below(3);
    let mut ops = vec![];
    let n = r.range(1, 5);
    let single_op = if r.bool() { Some(*r.pick(&OPS)) } else { None };
    for i in 0..n {
        let mut t = Texts { src: i, n: 0 };
        let mut d = t.conf(r);
        t.variant(r, en, &mut d);
        let op = single_op.unwrap_or_else(|| *r.pick(&OPS));
        // A join or adjoin of sequences mixes nothing; tuples must not grow.
        if matches!(op, Op::Adjoin | Op::Admerge) { d.remove("w"); if en == 2 { d.remove("e"); } }
        ops.push(op);
        let prof = r.pick(&["default", "debug", "global"]).to_string();
        let (name, meta);
        match r.below(9) {
            k @ 0..=4 => {
                let fmt = r.below(4);
                let nested = r.chance(1, 3);
                let d2 = if nested { MDict::from([(prof, Node::new(MV::Dict(d)))]) } else { d };
                let text = match fmt { 0 => render::toml(&d2, r), 1 => render::json(&Node::new(MV::Dict(d2)), r), _ => render::yaml(&d2, r) };
                let fname = match r.below(8) { 0 => format!("config{}", i), 1 => format!(".config{}", i), 2 => format!("App {}.d", i), 3 => format!("Rocket{}.toml.bak.", i), _ => format!("conf{}.{}", i, ["toml", "json", "yaml", "ü.yml"][fmt]) };
                let (at, given, exact): (PathBuf, PathBuf, bool) = match k {
                    0 | 1 => { let p = root.join(r.pick(&placed)).join(&fname); (p.clone(), p, r.bool()) }
                    2 => (cwd.join(&fname), fname.clone().into(), true),
                    3 => { let mut up: Vec<&Path> = cwd.ancestors().take_while(|a| a.starts_with(root)).collect(); let a = up.remove(r.below(up.len())); (a.join(&fname), fname.clone().into(), false) }
                    _ => { std::fs::create_dir_all(cwd.join("sub")).unwrap(); (cwd.join("sub").join(&fname), format!("sub/{}", fname).into(), r.bool()) }
                };
                std::fs::write(&at, text).unwrap();
                let go = match fmt { 0 => file::<Toml>, 1 => file::<Json>, 2 => file::<Yaml>, _ => file::<YamlExtended> };
                f = go(&given, exact, op, f, nested);
                name = format!("file {:?}", given);
                meta = Some(if exact { given } else { at });
            }
            5 => { f = op.apply(f, Json::string(&render::json(&Node::new(MV::Dict(d)), r)).profile(prof)); name = "string".into(); meta = None; }
            6 => {
                // Environment: one path each.
                let v = format!("VH16_{}__A", i);
                let t = Texts { src: i, n: 50 }.text(r);
                std::env::set_var(&v, &t);
                vars.push(v);
                f = op.apply(f, figment::providers::Env::prefixed(&format!("VH16_{}__", i)).profile(prof));
                name = "environment".into(); meta = None;
            }
            7 => {
                // Directories of any name, files that need not exist.
                let p = match r.below(8) { 0 => root.join("x.d"), 1 => root.join("a"), 2 => root.join("y.toml"), 3 => root.join("none/conf.toml"), 4 => root.join("none/conf"), 5 => root.join("ln"), 6 => root.join("ln2/conf"), _ => PathBuf::from("rel/conf") };
                f = op.apply(f, Claims { path: p.clone(), data: dict_to_value(&d), prof: Profile::new(&prof) }); name = format!("claimed {:?}", p); meta = Some(p);
            }
            _ => { f = op.apply(f, Serialized::defaults(dict_to_value(&d)).profile(prof)); name = "serialized".into(); meta = None; }
        }
        log.push_str(&format!("{}: {} {:?}; ", i, name, op));
        srcs.push(Src { name, meta });
    }
    let f = if r.bool() { f.select("debug") } else { f };
    let f = if r.chance(1, 5) { Figment::from(f) } else { f };
    let conf: Conf = if r.chance(1, 4) { f.extract_lossy() } else { f.extract() }.map_err(|e| Fail::new(format!("extraction fails: {}", e)))?;
    let ps = paths(&conf);
    let mut seen: Vec<PathBuf> = vec![];
    let raw: Value = f.extract().map_err(|e| Fail::new(e.to_string()))?;
    for (k, p) in &ps {
        judge(c, &srcs, k, p, "extracted")?;
        if let Some(m) = p.metadata_path() { if !seen.contains(&m.to_path_buf()) { seen.push(m.into()) } }
        // The text is the one of the plain configuration.
        let segs: Vec<String> = k.split('.').map(String::from).collect();
        let plain = walk(&raw, &segs).and_then(|v| v.as_str()).map(String::from);
        check!(plain.as_deref() == p.original().to_str(), "{}: original() {:?} but the configuration has {:?}", k, p.original(), plain);
        // By every other route.
        if segs.iter().all(|s| s.parse::<usize>().is_err()) {
            let q: R = f.extract_inner(k).map_err(|e| Fail::new(format!("{}: {}", k, e)))?;
            judge(c, &srcs, k, &q, "extract_inner")?;
            let q: Tagged<R> = f.extract_inner(k).map_err(|e| Fail::new(format!("{}: {}", k, e)))?;
            judge(c, &srcs, k, &q, "tagged")?;
            let q: Either<R, u8> = f.extract_inner(k).map_err(|e| Fail::new(format!("{}: {}", k, e)))?;
            match q { Either::Left(q) => judge(c, &srcs, k, &q, "either")?, _ => return Err(Fail::new("either chose a number for a path")) }
            let q: PathBuf = f.extract_inner(k).map_err(|e| Fail::new(format!("{}: {}", k, e)))?;
            check!(q.as_os_str() == p.original().as_os_str(), "{}: as a plain path {:?}", k, q);
            let q: Box<Option<R>> = f.extract_inner_lossy(k).map_err(|e| Fail::new(format!("{}: {}", k, e)))?;
            judge(c, &srcs, k, q.as_ref().as_ref().unwrap(), "boxed option, lossily")?;
        }
        if let Some((a, b)) = k.split_once('.') { if a == "d" && b == "p" { let q: R = f.focus("d").extract_inner("p").map_err(|e| Fail::new(format!("focused {}: {}", k, e)))?; judge(c, &srcs, k, &q, "focused")?; } }
        c.cov.eval();
    }
    // Through further figments.
    let mut cur = conf;
    let rounds = r.below(4);
    for round in 0..rounds {
        let before: Vec<(String, R)> = paths(&cur).into_iter().map(|(k, p)| (k, p.clone())).collect();
        let base = match r.below(4) {
            0 => Figment::from(Serialized::defaults(&cur)),
            1 => Figment::new().merge(Serialized::globals(cur.clone())),
            2 => Figment::new().merge(Serialized::default("deep.er", &cur)).focus("deep.er"),
            _ => { let v = Value::serialize(&cur).map_err(|e| Fail::new(e.to_string()))?; Figment::new().merge(Serialized::from(v, "debug").profile("debug")).select("debug") }
        };
        let next: Conf = base.extract().map_err(|e| Fail::new(format!("round {}: {}", round, e)))?;
        let after = paths(&next);
        check!(before.len() == after.len(), "round {}: {} paths became {}", round, before.len(), after.len());
        for ((k, p), (k2, q)) in before.iter().zip(&after) {
            check!(k == k2 && p.original() == q.original(), "round {}: {} {:?} became {} {:?}", round, k, p.original(), k2, q.original());
            judge(c, &srcs, k, q, &format!("after {} serializations,", round + 1))?;
        }
        // Declared by a file before, they still are when the whole is carried by another file (or claims to be).
        if r.chance(1, 3) {
            let v = Value::serialize(&cur).map_err(|e| Fail::new(e.to_string()))?;
            let at = root.join("a/carrier.json");
            let carrier = if r.bool() {
                std::fs::write(&at, serde_json::to_string(&cur).map_err(|e| Fail::new(format!("writing as JSON: {}", e)))?).unwrap();
                Figment::from(Json::file(&at))
            } else { Figment::from(Claims { path: root.join(*r.pick(&["a/carrier.json", "x.d"])), data: v.into_dict().unwrap_or_default(), prof: Profile::Default }) };
            let next: Conf = carrier.extract().map_err(|e| Fail::new(format!("carried by a file: {}", e)))?;
            let after = paths(&next);
            check!(before.len() == after.len(), "carried by a file {} paths became {}", before.len(), after.len());
            for ((k, p), (k2, q)) in before.iter().zip(&after) {
                check!(k == k2 && p.original() == q.original(), "carried by a file {} {:?} became {} {:?}", k, p.original(), k2, q.original());
                if p.metadata_path().is_some() { judge(c, &srcs, k, q, "carried by another file,")?; c.cov.count("serialized paths carried by another file"); }
            }
        }
        // A file on top of it takes over only what it sets.
        let base = if r.bool() {
            let i = srcs.len();
            let mut t = Texts { src: i, n: 0 };
            let d: MDict = [("a".to_string(), t.node(r)), ("d".to_string(), t.inner(r)), ("b".to_string(), t.arr(r))].into();
            let at = root.join(r.pick(&dirs)).join(format!("over{}.toml", i));
            std::fs::write(&at, render::toml(&d, r)).unwrap();
            srcs.push(Src { name: format!("overriding file {:?}", at), meta: Some(at.clone()) });
            log.push_str(&format!("override {}; ", i));
            let b = base.merge(Toml::file(&at).profile("global"));
            let over: Conf = b.extract().map_err(|e| Fail::new(format!("overridden: {}", e)))?;
            check!(over.a.as_ref().and_then(|p| owner(p.original().to_str().unwrap())) == Some(i), "the overriding file did not win: {:?}", over.a);
            for (k, p) in paths(&over) { judge(c, &srcs, &k, p, "overridden")?; }
            c.cov.count("serialized paths overridden by a file");
            cur = over;
            b
        } else { cur = next; base };
        let _ = base;
        c.cov.count("serialization rounds");
    }
    // Serializing as a plain path.
    #[derive(Serialize)] struct Plain<'a> { #[serde(serialize_with = "R::serialize_original")] o: &'a R, #[serde(serialize_with = "R::serialize_relative")] r: &'a R }
    for (k, p) in paths(&cur) {
        let f = Figment::from(Serialized::defaults(Plain { o: p, r: p }));
        let (o, rel): (PathBuf, PathBuf) = (f.extract_inner("o").map_err(|e| Fail::new(e.to_string()))?, f.extract_inner("r").map_err(|e| Fail::new(e.to_string()))?);
        check!(o.as_os_str() == p.original().as_os_str() && rel.as_os_str() == p.relative().as_os_str(), "{}: serialized as {:?} and {:?}, it is {:?} and {:?}", k, o, rel, p.original(), p.relative());
        // Made in code: no declaring file.
        let q = R::from(p.original());
        let s = Src { name: "code".into(), meta: None };
        judge_with(c, &s, &k, &q, p.original().to_str().unwrap(), "made in code")?;
        let q: R = Figment::from(Serialized::default("q", q)).extract_inner("q").map_err(|e| Fail::new(e.to_string()))?;
        judge_with(c, &s, &k, &q, p.original().to_str().unwrap(), "made in code and serialized")?;
        check!(R::from(p.relative()) == R::from(p.relative()) && (p.relative() != p.original()) == (*p != R::from(p.original())), "{}: equality is not that of the resolved paths", k);
        c.cov.evals(2);
    }
    c.cov.add("paths judged", ps_len(&cur));
    c.cov.count(&format!("structures with paths of {} file{}", seen.len(), if seen.len() == 1 { "" } else { "s" }));
    if seen.len() > 1 { c.cov.distinct(log.as_str()); }
    c.cov.sample(|| log.clone());
    let _ = ops;
    Ok(())
}
fn ps_len(c: &Conf) -> u64 { paths(c).len() as u64 }
fn walk<'a>(v: &'a Value, segs: &[String]) -> Option<&'a Value> {
    let Some(s) = segs.first() else { return Some(v) };
    match v { Value::Dict(_, d) => walk(d.get(s)?, &segs[1..]), Value::Array(_, a) => walk(a.get(s.parse::<usize>().ok()?)?, &segs[1..]), _ => None }
}

/// A configuration file in a directory whose name is not Unicode.
fn non_utf8(c: &mut Ctx, root: &Path) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let dir = root.join(std::ffi::OsStr::from_bytes(b"caf\xe9"));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("f.toml"), "a = \"s0_1\"").unwrap();
    let f = Figment::from(Toml::file(dir.join("f.toml")));
    let p: R = f.extract_inner("a").map_err(|e| Fail::new(e.to_string()))?;
    check!(p.original() == Path::new("s0_1"), "original() is {:?}", p.original());
    c.cov.count("directories that are not Unicode");
    c.cov.eval();
    if p.metadata_path() == Some(&dir.join("f.toml")) && p.relative() == dir.join("s0_1") { return Ok(()) }
    let lossy = PathBuf::from(dir.to_string_lossy().into_owned());
    // Exactly the recorded deviation: the path with replacement characters.
    let known = if p.metadata_path() == Some(&lossy.join("f.toml")) && p.relative() == lossy.join("s0_1") { Some("non-unicode-config-path") } else { None };
    Err(Fail { msg: format!("a path declared in {:?} resolves to {:?}", dir.join("f.toml"), p.relative()), known })
}
