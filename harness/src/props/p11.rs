//! P11: TOML, JSON and YAML sources mean what the formats say.
use std::collections::BTreeMap;
use figment::providers::{Data, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Num, Value};
use figment::{Error, Figment, Profile, Provider};
use crate::cov::*; use crate::mv::*; use crate::model::lower; use crate::render;
use crate::rng::Rng;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P11", case, quick: 300_000, thorough: 2_500_000, serial: false,
    rule: "random data written in every format in random styles (escapes, quoting, tables, flow and block, comments, number bases), from strings and files, with every order of nesting and profile settings; damaged and random documents judged against the format library's own document model; anchors and merge keys; non-dictionary roots; non-trivial: at least one container or a malformed document; distinct by document",
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum F { Toml, Json, Yaml, YamlX }
const FS: [F; 4] = [F::Toml, F::Json, F::Yaml, F::YamlX];

type D = Result<Map<Profile, Dict>, Error>;

#[derive(Clone, Debug)]
enum Set { Nested, Profile(String) }

/// What the provider does: its data, and the extraction of a figment it is added to after `base`.
struct Obs { data: D, fig: Figment }

fn run_as<T: Format + 'static>(text: &[u8], file: Option<&std::path::Path>, sets: &[Set], base: Option<&(&'static str, u8)>, select: &str) -> Obs {
    let mut p: Data<T> = match file {
        Some(f) => { std::fs::write(f, text).unwrap(); T::file(f) }
        None => T::string(std::str::from_utf8(text).unwrap()),
    };
    for s in sets { p = match s { Set::Nested => p.nested(), Set::Profile(n) => p.profile(n.as_str()) }; }
    let data = p.data();
    let mut fig = Figment::new();
    if let Some((k, v)) = base { fig = fig.merge(Serialized::default(k, *v)); }
    let fig = fig.merge(p).select(select);
    if let Some(f) = file { let _ = std::fs::remove_file(f); }
    Obs { data, fig }
}

fn run(f: F, text: &[u8], file: Option<&std::path::Path>, sets: &[Set], base: Option<&(&'static str, u8)>, select: &str) -> Obs {
    match f {
        F::Toml => run_as::<Toml>(text, file, sets, base, select), F::Json => run_as::<Json>(text, file, sets, base, select),
        F::Yaml => run_as::<Yaml>(text, file, sets, base, select), F::YamlX => run_as::<YamlExtended>(text, file, sets, base, select),
    }
}

fn same(m: &MDict, v: &Dict, json: bool) -> Result<(), String> {
    if !json { return Cmp::ints().dict(m, v, "") }
    // JSON's parser may be off by one unit in the last place.
    let mut v2 = v.clone();
    snap(m, &mut v2);
    Cmp::ints().dict(m, &v2, "")
}
fn snap(m: &MDict, v: &mut Dict) { for (k, n) in m { if let Some(x) = v.get_mut(k) { snap_n(n, x) } } }
fn snap_n(n: &Node, v: &mut Value) {
    match (&n.v, v) {
        (MV::Dict(m), Value::Dict(_, d)) => snap(m, d),
        (MV::Arr(a), Value::Array(_, b)) => a.iter().zip(b).for_each(|(n, v)| snap_n(n, v)),
        (MV::Num(x), Value::Num(_, y)) => if let (NumVal::F(a), NumVal::F(b)) = (numval(x), numval(y)) { if a.abs_diff(b) <= 1 { *y = *x } },
        _ => {}
    }
}

/// Expected data per profile under the settings, or None if the provider must fail.
fn expected(d: &MDict, sets: &[Set]) -> Option<BTreeMap<String, MDict>> {
    match sets.last() {
        Some(Set::Nested) => {
            let mut out = BTreeMap::new();
            for (k, n) in d { out.insert(lower(k), n.dict()?.clone()); }
            Some(out)
        }
        Some(Set::Profile(p)) => Some([(lower(p), d.clone())].into()),
        None => Some([("default".to_string(), d.clone())].into()),
    }
}

fn judge(c: &mut Ctx, f: F, text: &str, o: &Obs, want: Option<&BTreeMap<String, MDict>>, msg: &[String], select: &str, base: Option<&(&'static str, u8)>) -> Res {
    let ctx = |e: String| Fail::new(format!("{}\n  {:?} document:\n{}", e, f, cut_str(text, 1800)));
    c.cov.eval();
    match want {
        Some(w) => {
            let data = match &o.data { Ok(d) => d, Err(e) => return Err(ctx(format!("data() fails: {}", e))) };
            for (p, m) in w {
                let d = data.get(&Profile::new(p)).ok_or_else(|| ctx(format!("nothing in profile {:?}, only {:?}", p, data.keys().collect::<Vec<_>>())))?;
                same(m, d, f == F::Json).map_err(|e| ctx(format!("profile {:?}: {}", p, e)))?;
            }
            if data.len() != w.len() { return Err(ctx(format!("profiles are {:?}, expected {:?}", data.keys().collect::<Vec<_>>(), w.keys().collect::<Vec<_>>()))) }
            // And through a figment.
            let mut m = crate::model::Model::new();
            m.data = w.clone();
            if let Some((k, v)) = base {
                let b: MDict = [(k.to_string(), Node::new(MV::Num(Num::U8(*v))))].into();
                let old = m.data.remove("default").unwrap_or_default();
                m.data.insert("default".into(), crate::model::combine_dicts(&b, &old, crate::model::Op::Merge));
            }
            let v: Value = o.fig.extract().map_err(|e| ctx(format!("extraction fails: {}", e)))?;
            let mut v = v.into_dict().ok_or_else(|| ctx("not a dictionary".into()))?;
            let want = m.layered(select);
            if f == F::Json { snap(&want, &mut v); }
            Cmp::ints().dict(&want, &v, "").map_err(|e| ctx(format!("extracted: {}", e)))?;
            c.cov.eval();
        }
        None => {
            if let Ok(d) = &o.data { return Err(ctx(format!("the provider does not fail but gives {}", cut(d)))) }
            match o.fig.extract::<Value>() {
                Ok(v) => return Err(ctx(format!("extraction succeeds with {}", cut(&v)))),
                Err(e) => if !msg.is_empty() {
                    let flat = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
                    let e = flat(&e.to_string());
                    if !msg.iter().any(|m| e.contains(&flat(m))) { return Err(ctx(format!("the error {:?} does not carry the parser's {:?}", e, msg))) }
                },
            }
            if o.fig.find_value("a").is_ok() { return Err(ctx("a failed provider contributes a value".into())) }
            c.cov.eval();
        }
    }
    Ok(())
}

// ------------------------------------------------------------ the formats' own document models

/// Ok(Some): the data; Ok(None): not settled; Err: malformed, with the parser's message (if it can be compared).
fn dom(f: F, text: &str) -> Result<Option<Node>, Vec<String>> {
    match f {
        F::Json => match serde_json::from_str::<serde_json::Value>(text) { Ok(v) => Ok(json_node(&v)), Err(e) => Err(serde_json::from_str::<Dict>(text).err().into_iter().chain([e]).map(|e| e.to_string()).collect()) },
        F::Toml => match text.parse::<toml_edit::DocumentMut>() {
            Ok(d) => Ok(toml_table(d.as_table())),
            Err(e) => Err(vec![e.to_string()]),
        },
        F::Yaml | F::YamlX => match serde_yaml::from_str::<serde_yaml::Value>(text) {
            Ok(mut v) => {
                if f == F::YamlX { if has_merge(&v) { return Ok(None) } if v.apply_merge().is_err() { return Ok(None) } }
                if text.contains('!') && !v.is_mapping() { return Ok(None) }
                Ok(yaml_node(&v))
            }
            Err(e) if e.to_string().contains("duplicate") => Ok(None),
            // (128-bit integers are beyond the library's own value type.)
            Err(e) => if text.contains('!') || f == F::Yaml && serde_yaml::from_str::<Dict>(text).is_ok() { Ok(None) } else {
                // Data that is no dictionary may be noticed before the malformed part is.
                Err(serde_yaml::from_str::<Dict>(text).err().into_iter().chain([e]).map(|e| e.to_string()).collect())
            },
        },
    }
}
fn json_node(v: &serde_json::Value) -> Option<Node> {
    use serde_json::Value::*;
    Some(Node::new(match v {
        Null => MV::Unit, Bool(b) => MV::Bool(*b), String(s) => MV::Str(s.clone()),
        Number(n) => MV::Num(if let Some(u) = n.as_u64() { Num::U64(u) } else if let Some(i) = n.as_i64() { Num::I64(i) } else { Num::F64(n.as_f64()?) }),
        Array(a) => MV::Arr(a.iter().map(json_node).collect::<Option<_>>()?),
        Object(o) => MV::Dict(o.iter().map(|(k, v)| Some((k.clone(), json_node(v)?))).collect::<Option<_>>()?),
    }))
}
fn yaml_node(v: &serde_yaml::Value) -> Option<Node> {
    use serde_yaml::Value::*;
    Some(Node::new(match v {
        Null => MV::Unit, Bool(b) => MV::Bool(*b), String(s) => MV::Str(s.clone()),
        Number(n) => MV::Num(if let Some(u) = n.as_u64() { Num::U64(u) } else if let Some(i) = n.as_i64() { Num::I64(i) } else { Num::F64(n.as_f64()?) }),
        Sequence(a) => MV::Arr(a.iter().map(yaml_node).collect::<Option<_>>()?),
        Mapping(o) => MV::Dict(o.iter().map(|(k, v)| Some((k.as_str()?.to_string(), yaml_node(v)?))).collect::<Option<_>>()?),
        // As serde has it, a tagged value is a variant that holds a value.
        Tagged(t) => { let k = t.tag.to_string(); let k = k.strip_prefix('!').unwrap_or(&k); if k.is_empty() || k.contains('.') { return None } MV::Dict([(k.to_string(), yaml_node(&t.value)?)].into()) }
    }))
}
fn has_merge(v: &serde_yaml::Value) -> bool {
    use serde_yaml::Value::*;
    match v { Sequence(a) => a.iter().any(has_merge), Mapping(o) => o.iter().any(|(k, v)| k.as_str() == Some("<<") || has_merge(v)), Tagged(t) => has_merge(&t.value), _ => false }
}
fn toml_table(t: &toml_edit::Table) -> Option<Node> { Some(Node::new(MV::Dict(t.iter().map(|(k, i)| Some((k.to_string(), toml_item(i)?))).collect::<Option<_>>()?))) }
fn toml_item(i: &toml_edit::Item) -> Option<Node> {
    match i {
        toml_edit::Item::None => None,
        toml_edit::Item::Value(v) => toml_value(v),
        toml_edit::Item::Table(t) => toml_table(t),
        toml_edit::Item::ArrayOfTables(a) => Some(Node::new(MV::Arr(a.iter().map(toml_table).collect::<Option<_>>()?))),
    }
}
fn toml_value(v: &toml_edit::Value) -> Option<Node> {
    use toml_edit::Value::*;
    Some(Node::new(match v {
        String(s) => MV::Str(s.value().clone()), Integer(i) => MV::Num(Num::I64(*i.value())), Float(f) => MV::Num(Num::F64(*f.value())), Boolean(b) => MV::Bool(*b.value()),
        Datetime(_) => return None,
        Array(a) => MV::Arr(a.iter().map(toml_value).collect::<Option<_>>()?),
        InlineTable(t) => MV::Dict(t.iter().map(|(k, v)| Some((k.to_string(), toml_value(v)?))).collect::<Option<_>>()?),
    }))
}

// ------------------------------------------------------------ generation

fn gen(f: F) -> Gen {
    let mut g = Gen::text();
    g.null = f != F::Toml;
    g.keys = KEYS_ODD;
    g.big = 60;
    g
}

fn text_of(f: F, d: &MDict, r: &mut Rng) -> String {
    match f { F::Toml => render::toml(d, r), F::Json => { let s = render::json(&Node::new(MV::Dict(d.clone())), r); if r.chance(1, 6) { format!(" \n\t{}\n", s) } else { s } } F::Yaml | F::YamlX => render::yaml(d, r) }
}

/// Null is read as an empty unit in every format; non-finite floats only exist in TOML and YAML.
fn normalize(n: &mut Node, f: F, r: &mut Rng) {
    match &mut n.v {
        MV::Dict(d) => { if f == F::YamlX { d.remove("<<"); } d.values_mut().for_each(|n| normalize(n, f, r)) }
        MV::Arr(a) => a.iter_mut().for_each(|n| normalize(n, f, r)),
        MV::None => n.v = MV::Unit,
        MV::Num(x) if f != F::Json && r.chance(1, 20) => *x = Num::F64(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
        MV::Num(x) if f == F::Json || f == F::Yaml => if r.chance(1, 20) { *x = Num::U64(u64::MAX - r.below(3) as u64) },
        _ => {}
    }
}

fn sets(r: &mut Rng, nested: bool) -> Vec<Set> {
    let mut v: Vec<Set> = (0..r.below(4)).map(|_| if r.bool() { Set::Nested } else { Set::Profile(r.pick(&["debug", "Global", "default", "global", "Release", "release", "other", "x y"]).to_string()) }).collect();
    if nested { v.push(Set::Nested) } else if matches!(v.last(), Some(Set::Nested)) { if r.bool() { v.pop(); } if matches!(v.last(), Some(Set::Nested)) { v.push(Set::Profile("debug".into())) } }
    v
}

fn damage(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(c.len() + 1);
        match r.below(6) {
            0 if i < c.len() => { c.remove(i); }
            1 => c.truncate(i),
            2 if i < c.len() => { c[i] = *r.pick(&['[', ']', '{', '}', ',', '"', '\'', '\\', '=', ':', 'x', ' ', '\n', '0', 'é', '-', '\t', '#', '&', '*', '|', '\0']); }
            3 if i < c.len() => { let j = r.below(c.len()); c.swap(i, j); }
            4 => { let j = (i + r.below(20)).min(c.len()); let t: Vec<char> = c[i..j].to_vec(); c.splice(i..i, t); }
            _ => { let t: Vec<char> = r.pick(&["[[", "]]", "\"\"\"", "'''", "a = 1\n", "a: 1\n", "<<: ", "- ", "null", "\n---\n", "{\"a\":1}", "1979-05-27", "0x", "1e999", "\\ud800", "\u{feff}", "? ", "!!str "]).chars().collect(); c.splice(i..i, t); }
        }
    }
    c.into_iter().collect()
}

/// Tags on some of the values.
fn tagged(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for part in s.split_inclusive([' ', '\n']) {
        o.push_str(part);
        if (part.ends_with(": ") || part == "- ") && r.chance(1, 3) { o.push_str(&format!("!{} ", r.pick(&["t", "Variant", "a-b", "é", "x_1"]))) }
    }
    o
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let f = *r.pick(&FS);
    let select = r.pick(&["debug", "release", "default", "other", "X y"]).to_string();
    let base = if r.bool() { Some(("a", r.next() as u8)) } else { None };
    let ext = match f { F::Toml => "toml", F::Json => "json", _ => "yaml" };
    let path = c.scratch.join(format!("p11.{}", ext));
    let file = if r.chance(2, 5) { Some(path.as_path()) } else { None };
    let mut g = gen(f);
    match r.below(10) {
        0 | 1 => {
            // Damaged and arbitrary documents.
            let mut n = Node::new(MV::Dict(g.clone().with_depth(2).dict(r)));
            normalize(&mut n, f, r);
            let t = text_of(f, n.dict().unwrap(), r);
            let t = match r.below(5) { 0 => gen_string(r), 1 => { let g = *r.pick(&FS); let mut m = n.clone(); if f != F::Toml || g != F::Toml { strip_null(&mut m) } text_of(g, m.dict().unwrap(), r) } 4 if matches!(f, F::Yaml | F::YamlX) => { c.cov.count("YAML tags"); tagged(r, &t) } _ => damage(r, &t) };
            let sets = sets(r, false);
            let o = run(f, t.as_bytes(), file, &sets, base.as_ref(), &select);
            match dom(f, &t) {
                Ok(Some(Node { v: MV::Dict(d), .. })) => { let w = expected(&d, &sets); judge(c, f, &t, &o, w.as_ref(), &[], &select, base.as_ref())?; c.cov.count("damaged documents that are well-formed"); }
                Ok(Some(n)) => if !matches!(n.v, MV::Unit) { judge(c, f, &t, &o, None, &[], &select, base.as_ref())?; c.cov.count("damaged documents without a dictionary"); },
                Ok(None) => c.cov.count("damaged documents the document model leaves open"),
                Err(m) => { judge(c, f, &t, &o, None, &m, &select, base.as_ref())?; c.cov.count("malformed documents"); c.cov.distinct(&t); }
            }
        }
        2 => {
            // Roots, and nested top levels, that are no dictionaries.
            if r.bool() && f != F::Toml {
                let mut n = Node::new(if r.bool() { g.scalar(r) } else { MV::Arr(vec![g.clone().with_depth(1).node(r)]) });
                normalize(&mut n, f, r);
                if matches!(n.v, MV::Unit) { n.v = MV::Bool(true) }
                let t = render::json(&n, r);
                if f != F::Json && matches!(n.v, MV::Num(_)) { return Ok(()) }
                let sets = sets(r, r.clone().bool());
                if has_nan(&n) || matches!(dom(f, &t), Err(_) | Ok(None)) { return Ok(()) }
                let o = run(f, t.as_bytes(), file, &sets, base.as_ref(), &select);
                judge(c, f, &t, &o, None, &[], &select, base.as_ref())?;
                c.cov.count("non-dictionary roots");
            } else {
                let mut n = Node::new(MV::Dict(g.clone().with_depth(1).dict(r)));
                normalize(&mut n, f, r);
                let mut d = match n.v { MV::Dict(d) => d, _ => unreachable!() };
                d.insert("scalar".into(), Node::new(match r.below(3) { 0 => MV::Str("x".into()), 1 => MV::Bool(true), _ => MV::Arr(vec![]) }));
                let t = text_of(f, &d, r);
                let sets = sets(r, true);
                let o = run(f, t.as_bytes(), file, &sets, base.as_ref(), &select);
                judge(c, f, &t, &o, None, &[], &select, base.as_ref())?;
                c.cov.count("nested documents with a non-dictionary");
            }
        }
        3 => return merges(c, r, if r.clone().bool() { F::Yaml } else { F::YamlX }, file, &select),
        4 if file.is_some() && r.chance(1, 3) => {
            // Not even text.
            let mut b = text_of(f, &MDict::new(), r).into_bytes();
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(&[0xff, 0xc0, 0x80]));
            let o = run(f, &b, file, &[], base.as_ref(), &select);
            judge(c, f, "(not UTF-8)", &o, None, &[], &select, base.as_ref())?;
            c.cov.count("files that are not UTF-8");
        }
        k => {
            let nested = k >= 8;
            if nested { g.keys = KEYS; }
            // (A dictionary keyed by profile names means that only when nested.)
            let mut d = if nested || r.chance(1, 5) {
                let n = r.below(5);
                let names = ["default", "global", *r.pick(&["Debug", "debug"]), *r.pick(&["RELEASE", "release"]), "other", "é", "X y"];
                (0..n).map(|i| (names[(i * 3 + r.below(3)) % 7].to_string(), Node::new(MV::Dict(g.clone().with_depth(2).dict(r))))).collect()
            } else if r.chance(1, 25) { let dd = r.range(5, 60); match g.deep(r, dd).v { MV::Dict(d) => d, x => [("deep".to_string(), Node::new(x))].into() } } else { g.dict(r) };
            for n in d.values_mut() { normalize(n, f, r); }
            if f == F::YamlX { d.remove("<<"); }
            let sets = sets(r, nested);
            let t = text_of(f, &d, r);
            let w = expected(&d, &sets);
            let o = run(f, t.as_bytes(), file, &sets, base.as_ref(), &select);
            judge(c, f, &t, &o, w.as_ref(), &[], &select, base.as_ref())?;
            if d.values().any(|n| matches!(n.v, MV::Dict(_) | MV::Arr(_))) { c.cov.distinct(&t); }
            c.cov.count(&format!("{:?} documents{}{}", f, if nested { ", nested" } else { "" }, if file.is_some() { ", files" } else { "" }));
            c.cov.sample(|| t.clone());
            // The same data in another format gives the same.
            if r.chance(1, 3) {
                let f2 = *r.pick(&FS);
                let mut n = Node::new(MV::Dict(d.clone()));
                strip_null(&mut n);
                let d2 = match n.v { MV::Dict(d) => d, _ => unreachable!() };
                let (t1, t2) = (text_of(f, &d2, r), text_of(f2, &d2, r));
                let a = run(f, t1.as_bytes(), None, &sets, None, &select).data;
                let b = run(f2, t2.as_bytes(), file, &sets, None, &select).data;
                let (a, b) = (a.map_err(|e| Fail::new(format!("{:?} fails: {}\n{}", f, e, t1)))?, b.map_err(|e| Fail::new(format!("{:?} fails: {}\n{}", f2, e, t2)))?);
                check!(a.keys().eq(b.keys()), "{:?} and {:?} give different profiles", f, f2);
                for (p, d) in &a {
                    let m = match crate::schema::value_node(&Value::from(d.clone())).v { MV::Dict(m) => m, _ => unreachable!() };
                    same(&m, &b[p], true).map_err(|e| Fail::new(format!("{:?} and {:?} documents of the same data differ: {}\n{}\n----\n{}", f, f2, e, t1, t2)))?;
                }
                c.cov.eval();
                c.cov.count("same data in two formats");
            }
        }
    }
    Ok(())
}

fn strip_null(n: &mut Node) {
    match &mut n.v {
        MV::Dict(d) => { d.remove("<<"); d.values_mut().for_each(strip_null) }
        MV::Arr(a) => a.iter_mut().for_each(strip_null),
        MV::Unit | MV::None => n.v = MV::Bool(false),
        MV::Num(x) => match int_of(x) { None => if !matches!(numval(x), NumVal::F(b) if f64::from_bits(b).is_finite()) { *x = Num::F64(0.5) }, Some((_, m)) if m > i64::MAX as u128 => *x = Num::I64(1), _ => {} },
        _ => {}
    }
}
fn has_nan(n: &Node) -> bool {
    match &n.v { MV::Dict(d) => d.values().any(has_nan), MV::Arr(a) => a.iter().any(has_nan), MV::Num(x) => matches!(numval(x), NumVal::F(b) if !f64::from_bits(b).is_finite()), _ => false }
}

/// Anchors, aliases and merge keys.
fn merges(c: &mut Ctx, r: &mut Rng, f: F, file: Option<&std::path::Path>, select: &str) -> Res {
    // Named maps b0, b1, ...; each may merge earlier ones; written and read by alias.
    let k = r.range(1, 5);
    let mut text = String::new();
    let mut lit: Vec<MDict> = vec![];   // as written, "<<" literal
    let mut ext: Vec<MDict> = vec![];   // merged
    let mut chained = false;
    let mut doc_lit = MDict::new();
    let mut doc_ext = MDict::new();
    for i in 0..k {
        let own: MDict = (0..r.below(4)).map(|_| (r.pick(&["a", "b", "c", "d", "x y"]).to_string(), Node::new(match r.below(3) { 0 => MV::Num(Num::U64(r.below(9) as u64)), 1 => MV::Str(format!("v{}", r.below(99))), _ => MV::Arr(vec![Node::new(MV::Bool(r.bool()))]) }))).collect();
        let refs: Vec<usize> = if i == 0 { vec![] } else { (0..r.below(3)).map(|_| r.below(i)).collect() };
        let as_list = refs.len() > 1 || refs.len() == 1 && r.chance(1, 3);
        let (mut l, mut e) = (own.clone(), own.clone());
        if !refs.is_empty() {
            l.insert("<<".into(), if as_list { Node::new(MV::Arr(refs.iter().map(|j| Node::new(MV::Dict(lit[*j].clone()))).collect())) } else { Node::new(MV::Dict(lit[refs[0]].clone())) });
            for j in &refs { if lit[*j].contains_key("<<") { chained = true } for (k, v) in &ext[*j] { e.entry(k.clone()).or_insert(v.clone()); } }
        }
        // Write it.
        let merge = match refs.len() { 0 => None, _ if as_list => Some(format!("[{}]", refs.iter().map(|j| format!("*b{}", j)).collect::<Vec<_>>().join(", "))), _ => Some(format!("*b{}", refs[0])) };
        let mut lines: Vec<String> = own.iter().map(|(k, n)| { let mut o = format!("{}: ", if k == "x y" { "\"x y\"" } else { k }); yaml_inline(n, &mut o); o }).collect();
        if let Some(m) = merge { let at = r.below(lines.len() + 1); lines.insert(at, format!("{}: {}", r.pick(&["<<", "\"<<\""]), m)); }
        if lines.is_empty() || r.chance(1, 3) { text.push_str(&format!("b{}: &b{} {{{}}}\n", i, i, lines.iter().map(|l| format!(" {} ", l)).collect::<Vec<_>>().join(","))); }
        else { text.push_str(&format!("b{}: &b{}\n", i, i)); for l in &lines { text.push_str(&format!("  {}\n", l)); } }
        doc_lit.insert(format!("b{}", i), Node::new(MV::Dict(l.clone())));
        doc_ext.insert(format!("b{}", i), Node::new(MV::Dict(e.clone())));
        lit.push(l); ext.push(e);
    }
    // Plain aliases, also deep inside sequences.
    let j = r.below(k);
    text.push_str(&format!("list: [1, *b{}, {{deep: *b{}}}]\n", j, j));
    for (doc, src) in [(&mut doc_lit, &lit), (&mut doc_ext, &ext)] {
        let inner = Node::new(MV::Dict(src[j].clone()));
        doc.insert("list".into(), Node::new(MV::Arr(vec![Node::new(MV::Num(Num::U64(1))), inner.clone(), Node::new(MV::Dict([("deep".to_string(), inner)].into()))])));
    }
    let want = if f == F::YamlX { doc_ext } else { doc_lit };
    let o = run(f, text.as_bytes(), file, &[], None, select);
    judge(c, f, &text, &o, expected(&want, &[]).as_ref(), &[], select, None)?;
    c.cov.count(if chained { "documents with chained merge keys" } else { "documents with anchors and merge keys" });
    c.cov.distinct(&text);
    // Merging anything but a mapping is malformed.
    if f == F::YamlX && r.chance(1, 4) {
        let t = format!("{}bad:\n  <<: {}\n  a: 1\n", text, r.pick(&["1", "text", "[1, 2]", "true"]));
        let o = run(f, t.as_bytes(), None, &[], None, select);
        judge(c, f, &t, &o, None, &[], select, None)?;
        c.cov.count("merges of a non-mapping");
    }
    Ok(())
}
fn yaml_inline(n: &Node, o: &mut String) {
    match &n.v { MV::Num(x) => o.push_str(&render::num_text(x)), MV::Str(s) => o.push_str(s), MV::Bool(b) => o.push_str(&b.to_string()), MV::Arr(a) => { o.push('['); for x in a { yaml_inline(x, o); } o.push(']'); } _ => {} }
}
