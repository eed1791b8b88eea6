//! P23: metadata names and locates the source; errors show it.
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::panic::Location;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use figment::error::{Actual, Kind, OneOf};
use figment::providers::{Data, Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Tag, Value};
use serde::{Deserialize, Serialize, de, de::DeserializeOwned};
use crate::cov::*; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P23", case, quick: 800_000, thorough: 20_000_000, serial: false,
    rule: "figments of random providers of every kind (formats from files and strings, environments, serialized values, tuples, custom metadata with every source and interpolation) added at many distinct call sites by every operation, nested in other figments, focused and cloned; metadata, interpolated keys and displayed errors are compared with what each provider documents; non-trivial: two or more providers; distinct by configuration",
};

/// What the metadata of a provider must say.
#[derive(Clone, Debug)]
struct Want { name: String, src: Src, inter: Inter, line: u32, col: Option<u32> }
#[derive(Clone, Debug, PartialEq)]
enum Src { None, File(PathBuf), Code(u32), Custom(String), CodeIs(&'static Location<'static>) }
#[derive(Clone, Debug)]
enum Inter { Default, Upper, Custom(u8, String) }

fn custom_key(which: u8, salt: &str, profile: &str, keys: &[&str]) -> String {
    match which { 0 => keys.join("/"), 1 => format!("{}@{}:{}", salt, profile, keys.join("->")), 2 => keys.iter().rev().cloned().collect::<Vec<_>>().join("."), 3 => String::new(), _ => format!("{}\"\n{}", salt, keys.len()) }
}
impl Inter {
    fn key(&self, profile: &str, keys: &[&str]) -> String {
        match self {
            Inter::Default => format!("{}.{}", profile, keys.join(".")),
            Inter::Upper => keys.iter().map(|k| k.to_ascii_uppercase()).collect::<Vec<_>>().join("."),
            Inter::Custom(w, s) => custom_key(*w, s, profile, keys),
        }
    }
}

/// A provider with everything given.
#[derive(Clone)]
struct Cust { md: Metadata, data: Result<Map<Profile, Dict>, String> }
impl Provider for Cust {
    fn metadata(&self) -> Metadata { self.md.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.data.clone().map_err(Error::from) }
}

/// A format of our own: `key value` lines.
struct Lines;
impl Format for Lines {
    type Error = LErr;
    const NAME: &'static str = "Lines & more";
    fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, LErr> {
        let d: BTreeMap<String, i64> = s.lines().filter_map(|l| l.split_once(' ')).map(|(k, v)| v.parse().map(|v| (k.to_string(), v)).map_err(|e| LErr(format!("{}", e)))).collect::<Result<_, _>>()?;
        T::deserialize(de::value::MapDeserializer::new(d.into_iter()))
    }
}
#[derive(Debug)]
struct LErr(String);
impl std::fmt::Display for LErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for LErr {}
impl de::Error for LErr { fn custom<T: std::fmt::Display>(m: T) -> Self { LErr(m.to_string()) } }

#[derive(Serialize, Clone)]
struct Typed<T> { inner: T }

const FILE: &str = file!();

/// Adds a provider by a random operation; every operation is its own call site.
macro_rules! add { ($r:expr, $f:expr, $p:expr) => {{
    let (f, p) = ($f, $p);
    match $r.below(8) {
        0 => (f.merge(p), line!(), None::<u32>), 1 => (f.join(p), line!(), None::<u32>), 2 => (f.admerge(p), line!(), None::<u32>), 3 => (f.adjoin(p), line!(), None::<u32>),
        4 => (f.merge(&p), line!(), None::<u32>), 5 => (f.join(&p), line!(), None::<u32>),
        6 => { let (g, l) = (Figment::from(p), line!()); (f.merge(g), l, None::<u32>) }
        _ => { let (g, l) = (Figment::from(&p), line!()); let h = Figment::new().join(g).select("other"); (f.join(h), l, None::<u32>) }
    }
}} }

fn nested(path: &[String], v: i64) -> Dict {
    let mut cur = Value::from(v);
    for k in path.iter().skip(1).rev() { cur = Value::from(Dict::from([(k.clone(), cur)])); }
    Dict::from([(path[0].clone(), cur)])
}
fn json_of(path: &[String], v: i64) -> String { let mut s = v.to_string(); for k in path.iter().rev() { s = format!("{{\"{}\": {}}}", k, s) } s }

/// One provider with one value below its own top-level key.
fn provider(c: &mut Ctx, r: &mut Rng, f: Figment, i: usize, prof: &str) -> Result<(Figment, Want, Vec<String>, i64, String), Fail> {
    let mut path = vec![format!("p{}", i)];
    for _ in 0..r.below(3) { path.push(r.pick(&["a", "b_c", "Key", "é", "x"]).to_string()) }
    let v = r.below(10_000) as i64;
    let doc = json_of(&path, v);
    let dotted = path.join(".");
    let file = c.scratch.join(format!("p23-{}.{}", i, r.pick(&["cfg", "toml", "json", "yaml"])));
    let rel = r.bool();
    let named_path = if rel { PathBuf::from(file.file_name().unwrap()) } else { file.clone() };
    let mut prof = prof.to_string();
    let none = |l| (l, Option::<u32>::None);
    let (f, name, src, inter, (line, col)) = match r.below(16) {
        0 => { let p = Json::string(&doc).profile(prof.as_str()); let (f, l, k) = add!(r, f, p); (f, "JSON source string".into(), Src::None, Inter::Default, (l, k)) }
        1 => { let p = Yaml::string(&doc).profile(prof.as_str()); let (f, l, k) = add!(r, f, p); (f, "YAML source string".into(), Src::None, Inter::Default, (l, k)) }
        2 => { let p = YamlExtended::string(&doc).profile(prof.as_str()); let (f, l, k) = add!(r, f, p); (f, "YAML Extended source string".into(), Src::None, Inter::Default, (l, k)) }
        3 => { let t = format!("\"{}\" = {}", path.join("\".\""), v); let p = Toml::string(&t).profile(prof.as_str()); let (f, l, k) = add!(r, f, p); (f, "TOML source string".into(), Src::None, Inter::Default, (l, k)) }
        4..=6 => {
            // Files, found by searching from the current directory or given in full.
            let (name, f, l) = match r.below(4) {
                0 => { std::fs::write(&file, &doc).unwrap(); let p = Json::file(&named_path).profile(prof.as_str()); let (f, l, _) = add!(r, f, p); ("JSON file", f, l) }
                1 => { std::fs::write(&file, &doc).unwrap(); let p = Yaml::file(&named_path).profile(prof.as_str()).required(true); let (f, l, _) = add!(r, f, p); ("YAML file", f, l) }
                2 => { std::fs::write(&file, &doc).unwrap(); let p: Data<YamlExtended> = YamlExtended::file(&named_path).profile(prof.as_str()); let (f, l, _) = add!(r, f, p); ("YAML Extended file", f, l) }
                _ => { std::fs::write(&file, format!("\"{}\" = {}", path.join("\".\""), v)).unwrap(); let p = if rel { Toml::file(&named_path) } else { Toml::file_exact(&named_path) }.profile(prof.as_str()); let (f, l, _) = add!(r, f, p); ("TOML file", f, l) }
            };
            (f, name.to_string(), Src::File(file.clone()), Inter::Default, none(l))
        }
        7 => {
            path = vec![format!("p{}", i)];
            let t = format!("p{} {}", i, v);
            if r.bool() { let p = Data::<Lines>::string(&t).profile(prof.as_str()); let (f, l, _) = add!(r, f, p); (f, "Lines & more source string".into(), Src::None, Inter::Default, none(l)) }
            else { std::fs::write(&file, &t).unwrap(); let p = Lines::file(&named_path).profile(prof.as_str()); let (f, l, _) = add!(r, f, p); (f, "Lines & more file".into(), Src::File(file.clone()), Inter::Default, none(l)) }
        }
        8 | 9 => {
            // Environments: keys are always lower case there.
            path = path.iter().map(|k| if k == "é" { "e".into() } else { k.to_lowercase().replace('_', "") }).collect();
            let prefix = *r.pick(&["VH23_", "vh23_", "Vh23.x_", ""]);
            let var = format!("{}{}", prefix, path.join("__"));
            std::env::set_var(&var, v.to_string());
            let p = if prefix.is_empty() { Env::raw().only(&[&var]) } else { Env::prefixed(prefix) }.split("__").profile(prof.as_str());
            let p = match r.below(4) { 0 => p.map(|k| k.into()), 1 => p.filter(|_| true), 2 => p.lowercase(true), _ => p };
            let (f, l, _) = add!(r, f, p);
            std::env::remove_var(&var);
            let name = if prefix.is_empty() { "environment variable(s)".to_string() } else { format!("`{}` environment variable(s)", prefix.to_ascii_uppercase()) };
            (f, name, Src::None, Inter::Upper, none(l))
        }
        10 | 11 => {
            // Serialized values: the type's name and the place the provider was made.
            let (p, at) = match r.below(5) {
                0 => (Serialized::from(v, prof.as_str()).key(&dotted), line!()),
                1 => (Serialized::default(&dotted, v).profile(prof.as_str()), line!()),
                2 => (Serialized::global(&dotted, v).profile(prof.as_str()), line!()),
                3 => (Serialized::defaults(v).key(&dotted).profile(prof.as_str()), line!()),
                _ => (Serialized::globals(v).profile(prof.as_str()).key(&dotted), line!()),
            };
            let (f, l, _) = add!(r, f, p);
            (f, "i64".into(), Src::Code(at), Inter::Default, none(l))
        }
        12 => {
            path = vec![format!("p{}", i), "inner".into()];
            let (p, at) = (Serialized::from(Typed { inner: v }, prof.as_str()).key(&path[0]), line!());
            let (f, l, _) = add!(r, f, p);
            (f, std::any::type_name::<Typed<i64>>().into(), Src::Code(at), Inter::Default, none(l))
        }
        13 => {
            prof = "global".into();
            let k: String = dotted.clone();
            let (f, l, n) = if r.bool() { let (f, l, _) = add!(r, f, (k.as_str(), v)); (f, l, "(&str, i64)") } else { let (f, l, _) = add!(r, f, (k.clone(), v)); (f, l, "(alloc::string::String, i64)") };
            (f, n.into(), Src::None, Inter::Default, none(l))
        }
        _ => {
            let name = r.pick(&["My Source", "", "näme", "a\nb", "TOML file"]).to_string();
            let mut md = match r.below(3) { 0 => Metadata::named(name.clone()), 1 => Metadata::named(Cow::Owned(name.clone())), _ => { let mut m = Metadata::default(); m.name = name.clone().into(); m } };
            let which = r.below(5) as u8;
            let salt = r.pick(&["s", "x y", "é"]).to_string();
            let mut inter = Inter::Default;
            let first = r.bool();
            let set = |md: Metadata, inter: &mut Inter| { let s = salt.clone(); *inter = Inter::Custom(which, salt.clone()); md.interpolater(move |p, k| custom_key(which, &s, p.as_str().as_str(), k)) };
            let own = r.bool();
            if own && first { md = set(md, &mut inter) }
            let mut src = Src::None;
            match r.below(6) {
                0 => { md = md.source("ftp://x y/z"); src = Src::Custom("ftp://x y/z".into()) }
                1 => { md = md.source(String::from("öwned")); src = Src::Custom("öwned".into()) }
                2 => { md = md.source(Path::new("/no/such/file.x")); src = Src::File("/no/such/file.x".into()) }
                3 => { let l = Location::caller(); md = md.source(l); src = Src::CodeIs(l) }
                4 if !own => { md = Metadata::from(name.clone(), "sourced"); src = Src::Custom("sourced".into()) }
                _ => {}
            }
            if own && !first { md = set(md, &mut inter) }
            let p = Cust { md, data: Ok(Profile::new(&prof).collect(nested(&path, v))) };
            // Two additions on one line are told apart by their columns.
            if r.chance(1, 4) {
                let q = Cust { md: Metadata::named("sibling"), data: Ok(Profile::Default.collect(Dict::from([(format!("sib{}", i), Value::from(1))]))) };
                let (f, l) = (f.merge(q).merge(p), line!());
                let sib = f.find_metadata(&format!("sib{}", i)).and_then(|m| m.provide_location).map(|l| l.column());
                (f, name, src, inter, (l, sib))
            } else { let (f, l, _) = add!(r, f, p); (f, name, src, inter, none(l)) }
        }
    };
    Ok((f, Want { name, src, inter, line, col }, path, v, prof))
}

fn check_md(what: &str, md: &Metadata, w: &Want) -> Res {
    check!(md.name == w.name, "{}: the metadata's name is {:?}, documented is {:?}", what, md.name, w.name);
    let ok = match (&md.source, &w.src) {
        (None, Src::None) => true,
        (Some(Source::File(p)), Src::File(q)) => p == q || p.file_name() == q.file_name() && std::fs::canonicalize(p).ok() == std::fs::canonicalize(q).ok() && q.exists(),
        (Some(Source::Code(l)), Src::Code(n)) => l.file() == FILE && l.line() == *n,
        (Some(Source::Code(l)), Src::CodeIs(n)) => *l == *n,
        (Some(Source::Custom(s)), Src::Custom(t)) => s == t,
        _ => false,
    };
    check!(ok, "{}: the metadata of {:?} has the source {:?}, documented is {:?}", what, w.name, md.source, w.src);
    let loc = match md.provide_location { Some(l) => l, None => fail!("{}: the metadata of {:?} has no location", what, w.name) };
    check!(loc.file() == FILE && loc.line() == w.line, "{}: {:?} was added at {}:{}, its metadata says {}", what, w.name, FILE, w.line, loc);
    if let Some(c) = w.col { check!(loc.column() != c, "{}: two providers added by two calls have one location {}", what, loc) }
    Ok(())
}

/// What an error built from these parts must show, in order.
fn shown(text: &str, from: usize, parts: &[String]) -> Result<usize, String> {
    let mut at = from;
    for p in parts {
        match text[at..].find(p.as_str()) { Some(i) => at += i + p.len(), None => return Err(p.clone()) }
    }
    Ok(at)
}
fn source_text(s: &Source) -> String { s.to_string() }

fn config_case(c: &mut Ctx, r: &mut Rng) -> Res {
    std::env::set_current_dir(&c.scratch).map_err(|e| Fail::new(e.to_string()))?;
    let n = r.range(1, 4);
    let mut f = Figment::new().select("other");
    let mut all = vec![];
    for i in 0..n {
        let prof = *r.pick(&["default", "global", "other", "other"]);
        let (g, w, path, v, prof) = provider(c, r, f, i, prof)?;
        f = g;
        all.push((w, path, v, prof));
    }
    f = f.select("other");
    if n > 1 { c.cov.distinct(&format!("{:?}", all)); }
    c.cov.sample(|| format!("{:?}", all));
    // Copies and re-nesting keep everything.
    let f = match r.below(4) { 0 => f.clone(), 1 => Figment::from(f), 2 => Figment::new().merge(("zzz", 1)).join(&f).select("other"), _ => f };
    let res = (|| -> Res {
        for (w, path, v, prof) in &all {
            let dotted = path.join(".");
            let what = format!("value at {:?} given to profile {:?}", dotted, prof);
            let md = match f.find_metadata(&dotted) { Some(m) => m, None => fail!("{}: no metadata", what) };
            check_md(&what, md, w)?;
            c.cov.eval();
            let held = f.find_value(&dotted).map_err(|e| Fail::new(format!("{}: {}", what, e)))?;
            check!(held.to_i128() == Some(*v as i128) || held.to_u128() == Some(*v as u128), "{}: {:?}, given {}", what, held, v);
            check!(f.get_metadata(held.tag()) == Some(md), "{}: its tag leads to other metadata", what);
            check!(f.metadata().any(|m| m.name == w.name && m.provide_location == md.provide_location), "{}: its metadata is not among the figment's", what);
            c.cov.evals(3);
            c.cov.count(match w.src { Src::None => "no source", Src::File(_) => "file source", Src::Code(_) | Src::CodeIs(_) => "code source", Src::Custom(_) => "custom source" });
            // Interpolation of arbitrary key paths.
            let keys: Vec<String> = (0..r.size(4, 14).max(1)).map(|_| r.pick(&["a", "Bc", "é", "x.y", "", "0", "ß"]).to_string()).collect();
            let ks: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
            let ip = *r.pick(&["default", "global", "Debug", "other", "x y"]);
            let got = if r.bool() { md.interpolate(&Profile::new(ip), &keys) } else { md.clone().interpolate(&Profile::new(ip), &ks) };
            check!(got == w.inter.key(ip, &ks), "{}: {:?} interpolates {:?} under {:?} to {:?}, documented is {:?}", what, w.name, ks, ip, got, w.inter.key(ip, &ks));
            c.cov.eval();
            // An error at that value shows the kind, the native key, the source and the name.
            let (e, text, prefix) = match r.below(4) {
                0 => { let e = f.extract_inner::<Vec<u8>>(&dotted).err(); let t = e.as_ref().map(|e| e.to_string()); (e, t, path.clone()) }
                1 => { let e = f.extract_inner::<BTreeMap<String, Vec<u8>>>(&path[..path.len() - 1].join(".")); if path.len() == 1 { continue } let e = e.err(); let t = e.as_ref().map(|e| format!("{}", e)); (e, t, path.clone()) }
                2 => { let e = f.extract_inner_lossy::<Vec<bool>>(&dotted).err(); let t = e.as_ref().map(|e| e.to_string()); (e, t, path.clone()) }
                _ if path.len() > 1 => { let e = f.focus(&path[0]).extract_inner::<Vec<u8>>(&path[1..].join(".")).err(); let t = e.as_ref().map(|e| e.to_string()); (e, t, path[1..].to_vec()) }
                _ => continue,
            };
            let (e, text) = match (e, text) { (Some(e), Some(t)) => (e, t), _ => fail!("{}: a number was read as a sequence", what) };
            let p = if prof == "other" { "other" } else { prof };
            let pk: Vec<&str> = prefix.iter().map(|s| s.as_str()).collect();
            let key = w.inter.key(p, &pk);
            let tail: Vec<String> = md.source.iter().map(source_text).chain([w.name.clone()]).collect();
            let kind = e.kind.to_string();
            let mut parts = vec![kind.clone(), format!("{:?}", key)];
            parts.extend(tail.iter().cloned());
            let mut raw = vec![kind, key.clone()];
            raw.extend(tail);
            c.cov.eval();
            if let (Err(m), Err(_)) = (shown(&text, 0, &parts), shown(&text, 0, &raw)) {
                fail!("{}: the displayed error {:?} does not show {:?} (native key {:?}, metadata {:?})", what, text, m, key, md.name)
            }
            if let Some(Source::File(p)) = &md.source { let t = text.clone(); let n = p.file_name().unwrap().to_string_lossy().into_owned(); check!(t.contains(&n), "{}: {:?} does not name the file {:?}", what, text, p) }
            c.cov.count("displayed errors");
        }
        Ok(())
    })();
    for (w, ..) in &all { if let Src::File(p) = &w.src { if p.starts_with(&c.scratch) { let _ = std::fs::remove_file(p); } } }
    res.map_err(|e| Fail { msg: format!("{}\n  in {:?}", e.msg, cut_str(&format!("{:?}", all), 1200)), ..e })
}

/// Failing providers: each of the errors is displayed with its own provider.
fn failing_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let n = r.range(1, 5);
    let mut f = Figment::new();
    let mut names = vec![];
    for i in 0..n {
        let (name, msg) = (format!("provider {}", i), format!("boom {}", r.below(1000)));
        let mut md = Metadata::named(name.clone());
        let mut src = None;
        match r.below(5) { 0 => { md = md.source(format!("src{}", i)); src = Some(format!("src{}", i)) } 4 => { let s = format!("a {} b", name); md = md.source(s.clone()); src = Some(s) } 1 => { md = md.source(Path::new("/a/b.c")); src = Some("/a/b.c".into()) } _ => {} }
        let p = Cust { md, data: Err(msg.clone()) };
        f = match r.below(3) { 0 => f.merge(p), 1 => f.join(&p), _ => f.admerge(Figment::from(p)) };
        names.push((name, msg, src));
    }
    let e = match r.below(4) { 0 => f.extract::<Value>().err(), 1 => f.extract_inner::<u8>("x").err(), 2 => Figment::from(&f).extract_inner::<String>("b").err(), _ => f.find_value("a").err() };
    let e = match e { Some(e) => e, None => fail!("{} providers failed and reading succeeds", n) };
    check!(e.count() == n, "{} providers failed, the error holds {}", n, e.count());
    let text = e.to_string();
    let each: Vec<Error> = e.clone().into_iter().collect();
    let mut at = 0;
    for one in &each {
        let k = one.kind.to_string();
        let i = match names.iter().position(|x| k.contains(&x.1) && one.metadata.as_ref().is_some_and(|m| m.name == x.0)) { Some(i) => i, None => fail!("no provider failed with {:?} in {:?}", k, one.metadata.as_ref().map(|m| &m.name)) };
        let (name, msg, src) = names.remove(i);
        let mut parts = vec![msg];
        parts.extend(src);
        parts.push(name);
        match shown(&text, at, &parts) { Ok(j) => at = j, Err(m) => fail!("the displayed error {:?} does not show {:?} of error {:?}", text, m, k) }
        // Alone, each shows the same.
        let t = one.to_string();
        if shown(&t, 0, &parts).is_err() { fail!("the error {:?} alone does not show all of {:?}", t, parts) }
        c.cov.evals(2);
    }
    c.cov.distinct(&("failing", text));
    Ok(())
}

static FIELDS: &[&[&str]] = &[&[], &["one"], &["one", "two"], &["a", "b c", "é"], &["w", "x", "y", "z"], &["f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12"]];

fn actual(r: &mut Rng) -> (Actual, String) {
    match r.below(12) {
        0 => { let b = r.bool(); (Actual::Bool(b), b.to_string()) }
        1 => { let n = r.next() as u128 * r.next() as u128; (Actual::Unsigned(n), n.to_string()) }
        2 => { let n = -(r.next() as i128); (Actual::Signed(n), n.to_string()) }
        3 => (Actual::Float(1.5), "1.5".into()),
        4 => { let ch = *r.pick(&['x', 'é']); (Actual::Char(ch), ch.to_string()) }
        5 => { let s = r.pick(&["text", "tëxt", "two words"]).to_string(); (Actual::Str(s.clone()), s) }
        6 => (Actual::Bytes(vec![7, 200]), "200".into()),
        7 => (Actual::Unit, "unit".into()), 8 => (Actual::Seq, "sequence".into()), 9 => (Actual::Map, "map".into()), 10 => (Actual::Option, "option".into()),
        _ => { let s = r.pick(&["other thing", "öther"]).to_string(); (Actual::Other(s.clone()), s) }
    }
}

/// A kind and what its text must contain.
fn kind(r: &mut Rng) -> (Kind, Vec<String>) {
    let s = |r: &mut Rng| r.pick(&["name", "näme", "two words", "x"]).to_string();
    match r.below(12) {
        0 => { let m = s(r); (Kind::Message(m.clone()), vec![m]) }
        1 => { let (a, t) = actual(r); let e = s(r); (Kind::InvalidType(a, e.clone()), vec![t, e]) }
        2 => { let (a, t) = actual(r); let e = s(r); (Kind::InvalidValue(a, e.clone()), vec![t, e]) }
        3 => { let (n, e) = (r.below(100), s(r)); (Kind::InvalidLength(n, e.clone()), vec![n.to_string(), e]) }
        4 | 5 => { let f = *r.pick(FIELDS); let v = s(r); let mut w = vec![v.clone()]; w.extend(f.iter().map(|x| x.to_string())); (if r.bool() { Kind::UnknownVariant(v, f) } else { Kind::UnknownField(v, f) }, w) }
        6 => { let v = s(r); (Kind::MissingField(v.clone().into()), vec![v]) }
        7 => (Kind::DuplicateField("dup"), vec!["dup".into()]),
        8 => { let n = -(r.below(1000) as isize); (Kind::ISizeOutOfRange(n), vec![n.to_string()]) }
        9 => { let n = r.next() as usize; (Kind::USizeOutOfRange(n), vec![n.to_string()]) }
        10 => { let (a, t) = actual(r); (Kind::Unsupported(a), vec![t]) }
        _ => { let (a, t) = actual(r); let e = s(r); (Kind::UnsupportedKey(a, e.clone().into()), vec![t, e]) }
    }
}

/// Errors of every kind, made by hand, chained and given paths.
fn error_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let mut all: Vec<(Error, Vec<String>)> = vec![];
    for _ in 0..r.range(1, 4) {
        let (k, mut parts) = kind(r);
        let text = k.to_string();
        if let Err(m) = shown(&text, 0, &parts) { fail!("the kind {:?} is displayed as {:?}, without {:?}", k, text, m) }
        c.cov.eval();
        let mut e = match r.below(3) { 0 => Error::from(k.clone()), _ => k.clone().into() };
        check!(e.missing() == matches!(k, Kind::MissingField(..)), "missing() of {:?} is {}", k, e.missing());
        check!(e.count() == 1 && e.path.is_empty() && e.metadata.is_none() && e.profile.is_none() && e.kind == k, "an error made from {:?} is {:?}", k, e);
        let mut path: Vec<String> = vec![];
        for _ in 0..r.below(3) {
            let p = *r.pick(&["a", "a.b", "", ".", "a..b", "é.x", ".k."]);
            e = e.with_path(p);
            path.extend(p.split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()));
        }
        check!(e.path == path, "appending paths gives {:?}, expected {:?}", e.path, path);
        c.cov.evals(3);
        parts = vec![text];
        let (name, prof) = (format!("n{}", r.below(9)), r.pick(&["default", "global", "Mine"]).to_string());
        let with_md = r.bool();
        if with_md {
            let up = r.bool();
            let mut md = Metadata::named(name.clone());
            if up { md = md.interpolater(|_, k| k.join(">").to_uppercase()) }
            match r.below(5) { 0 => {} 1 => md = md.source(name.clone()), 2 => md = md.source(format!("{}{}", name, name)), 3 => md = md.source(Path::new(&format!("/{}/{}", name, name))), _ => md = md.source("the source") }
            let with_prof = r.bool();
            if with_prof { e.profile = Some(Profile::new(&prof)); }
            if with_prof && !path.is_empty() { let ks: Vec<&str> = path.iter().map(|s| s.as_str()).collect(); parts.push(if up { path.join(">").to_uppercase() } else { Inter::Default.key(&prof, &ks) }) }
            if let Some(s) = &md.source { parts.push(s.to_string()) }
            parts.push(name);
            e.metadata = Some(md);
        }
        all.push((e, parts));
    }
    let mut it = all.iter().cloned();
    let (mut e, _) = it.next().unwrap();
    for (x, _) in it { e = e.chain(x) }
    check!(e.count() == all.len(), "chaining {} errors gives {}", all.len(), e.count());
    let text = e.to_string();
    let mut at = 0;
    let mut left: Vec<(Error, Vec<String>)> = all.clone();
    for one in e.clone() {
        let i = match left.iter().position(|(x, _)| *x == one) { Some(i) => i, None => fail!("iterating {:?} gives {:?}, which was not put in", e, one) };
        let (_, parts) = left.remove(i);
        match shown(&text, at, &parts) { Ok(j) => at = j, Err(m) => fail!("the error {:?} is displayed as {:?}, without {:?}", e, text, m) }
        c.cov.eval();
    }
    check!(left.is_empty(), "iterating {} chained errors lost {}", all.len(), left.len());
    // Boxed as a standard error, the text is the same.
    let b: Box<dyn std::error::Error> = Box::new(e.clone());
    check!(b.to_string() == text && format!("{:?}", e).contains(&format!("{:?}", e.kind)), "as a standard error, {:?} is {:?}", text, b.to_string());
    // serde's own constructors keep what they are given.
    let (x, y): (Error, Error) = (de::Error::missing_field("fld"), de::Error::unknown_field("unk", FIELDS[3]));
    check!(x.kind == Kind::MissingField("fld".into()) && y.kind == Kind::UnknownField("unk".into(), FIELDS[3]), "serde's constructors give {:?} and {:?}", x, y);
    let z: Error = de::Error::invalid_type(de::Unexpected::Str("st"), &OneOf(FIELDS[2]));
    let t = z.to_string();
    check!(shown(&t, 0, &["st".into(), "one".into(), "two".into()]).is_ok(), "an invalid type is displayed as {:?}", t);
    let u = [(de::Unexpected::Bool(true), Actual::Bool(true)), (de::Unexpected::Unsigned(7), Actual::Unsigned(7)), (de::Unexpected::Signed(-7), Actual::Signed(-7)), (de::Unexpected::Float(0.5), Actual::Float(0.5)), (de::Unexpected::Char('c'), Actual::Char('c')), (de::Unexpected::Bytes(&[1]), Actual::Bytes(vec![1])), (de::Unexpected::Unit, Actual::Unit), (de::Unexpected::Option, Actual::Option), (de::Unexpected::NewtypeStruct, Actual::NewtypeStruct), (de::Unexpected::Seq, Actual::Seq), (de::Unexpected::Map, Actual::Map), (de::Unexpected::Enum, Actual::Enum), (de::Unexpected::UnitVariant, Actual::UnitVariant), (de::Unexpected::NewtypeVariant, Actual::NewtypeVariant), (de::Unexpected::TupleVariant, Actual::TupleVariant), (de::Unexpected::StructVariant, Actual::StructVariant), (de::Unexpected::Other("o"), Actual::Other("o".into()))];
    let (a, b) = r.pick(&u).clone();
    let z: Error = de::Error::invalid_value(a, &"exp");
    check!(z.kind == Kind::InvalidValue(b.clone(), "exp".into()), "an invalid value of {:?} gives {:?}", b, z.kind);
    c.cov.evals(5);
    c.cov.distinct(&("error", text));
    Ok(())
}

/// Metadata by itself.
fn metadata_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let d = Metadata::default();
    check!(d.source.is_none() && d.provide_location.is_none(), "default metadata is {:?}", d);
    let n = r.pick(&["A", "Bé", ""]).to_string();
    let m = Metadata::from(n.clone(), "s");
    check!(m.name == n && m.source == Some(Source::Custom("s".into())) && m == m.clone(), "Metadata::from({:?}, \"s\") is {:?}", n, m);
    let hits = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let h = hits.clone();
    let m = m.interpolater(move |p, k| { h.fetch_add(1, std::sync::atomic::Ordering::SeqCst); format!("{}|{}", p, k.len()) });
    let k = r.below(4);
    let keys = vec!["x"; k];
    check!(m.clone().interpolate(&Profile::new("Pp"), &keys) == format!("Pp|{}", k), "a custom interpolation gave {:?}", m.interpolate(&Profile::new("Pp"), &keys));
    let once = hits.load(std::sync::atomic::Ordering::SeqCst);
    check!(once == 1, "interpolating once ran the function {} times", once);
    check!(Source::from("x").custom() == Some("x") && Source::from(String::from("y")).custom() == Some("y") && Source::from(Path::new("z")).custom().is_none(), "a custom source is not");
    let l = Location::caller();
    check!(Source::from(l).code_location() == Some(l) && Source::from(l).to_string() == l.to_string() && Source::from(l).file_path().is_none(), "a code source is not {}", l);
    check!(Source::from("a b é").to_string() == "a b é", "a custom source is displayed as {:?}", Source::from("a b é").to_string());
    let tag = Tag::Default;
    check!(Figment::from(("a", 1)).get_metadata(tag).is_none(), "the default tag has metadata");
    c.cov.evals(7);
    #[derive(Deserialize)] #[allow(dead_code)] struct Need { needed_field: u8 }
    let e = Figment::from(("a.b", 1)).extract_inner::<Need>("a").err().map(|e| e.to_string()).unwrap_or_default();
    check!(e.contains("needed_field"), "a missing field is displayed as {:?}", e);
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    match c.idx % 10 { 0..=5 => config_case(c, r), 6 => failing_case(c, r), 7 | 8 => error_case(c, r), _ => { if c.idx % 50 == 9 { metadata_case(c, r) } else { error_case(c, r) } } }
}
