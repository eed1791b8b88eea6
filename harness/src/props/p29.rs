//! P29: convenience forms are their documented expansions, and the reading operations are one another's.
use std::collections::BTreeMap;
use figment::error::Kind;
use figment::providers::{Data, Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::util::nest;
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use crate::cov::*; use crate::model::*; use crate::mv::*; use crate::render;
use crate::rng::Rng;
use crate::schema::value_node;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P29", case, quick: 30_000, thorough: 1_500_000, serial: false,
    rule: "pairs of figments built by a shorthand and by what it is documented to stand for, on random bases, with random data, by every combination, and carried through the same further steps; everything observable of the two (data, profiles, values, errors, provenance, native keys) is compared; likewise reading operations expressible by one another; distinct by (form, data)",
};

/// Everything observable of a figment; provider names and sources where they are to be the same.
fn portrait(f: &Figment, names: bool) -> String {
    let mut s = format!("profile {:?}\n", lower(f.profile().as_str().as_str()));
    let src = |m: &Metadata| if !names { "a provider".to_string() } else { format!("{:?} {}", m.name, match &m.source { None => "-".into(), Some(Source::Code(_)) => "code".into(), Some(x) => format!("{:?}", x) }) };
    let err = |e: Error| e.into_iter().map(|e| format!("{:?} {:?} {:?} {:?}", e.kind, e.path, e.metadata.as_ref().map(src), e.profile.as_ref().map(|p| lower(p.as_str().as_str())))).collect::<Vec<_>>().join("; ");
    s += &format!("profiles {:?}\nproviders {:?}\n", f.profiles().map(|p| lower(p.as_str().as_str())).collect::<Vec<_>>(), f.metadata().map(src).collect::<Vec<_>>());
    fn walk(f: &Figment, v: &Value, at: &str, src: &dyn Fn(&Metadata) -> String, s: &mut String, n: &mut usize) {
        *n += 1;
        if *n > 300 { return }
        *s += &format!("{} from {:?} {:?}\n", at, f.get_metadata(v.tag()).map(src), v.tag().profile().map(|p| lower(p.as_str().as_str())));
        match v {
            Value::Dict(_, d) => for (k, v) in d { walk(f, v, &format!("{}/{}", at, k), src, s, n) },
            Value::Array(_, a) => for (i, v) in a.iter().enumerate() { walk(f, v, &format!("{}/{}", at, i), src, s, n) },
            v => { *s += &show_full(&value_node(v)); s.push('\n') }
        }
    }
    match f.data() {
        Ok(d) => for (p, d) in &d {
            s += &format!("in {:?}\n", lower(p.as_str().as_str()));
            for (k, v) in d { walk(f, v, k, &src, &mut s, &mut 0) }
            for k in d.keys().take(3) { if let Some(m) = f.find_metadata(k) { if names { s += &format!("native {:?}\n", m.interpolate(p, &[k.as_str(), "X", "y"])) } } }
        },
        // What is attached to errors of providers is settled by reading operations.
        Err(e) => s += &format!("fails {:?}\n", e.into_iter().map(|e| (e.kind, e.path)).collect::<Vec<_>>()),
    }
    match f.extract::<Value>() { Ok(v) => walk(f, &v, "", &src, &mut s, &mut 0), Err(e) => s += &format!("extracting fails {}\n", err(e)) }
    s
}

fn same(c: &mut Ctx, form: &str, a: &Figment, b: &Figment, names: bool, data: &str) -> Res {
    let (x, y) = (portrait(a, names), portrait(b, names));
    c.cov.eval();
    if x != y {
        let (p, q) = x.lines().zip(y.lines()).find(|(p, q)| p != q).unwrap_or(("", "(more)"));
        fail!("{}: differs: {:?} / {:?}\n  data {}", form, cut_str(p, 500), cut_str(q, 500), cut_str(data, 1000))
    }
    Ok(())
}

/// Exactly the same, up to tags.
fn exact(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Dict(_, a), Value::Dict(_, b)) => exact_dict(a, b),
        (Value::Array(_, a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| exact(a, b)),
        (Value::String(_, a), Value::String(_, b)) => a.as_bytes() == b.as_bytes(),
        (Value::Bool(_, a), Value::Bool(_, b)) => *a == *b,
        (Value::Char(_, a), Value::Char(_, b)) => *a == *b,
        (a, b) => show_full(&value_node(a)) == show_full(&value_node(b)),
    }
}
fn exact_dict(a: &Dict, b: &Dict) -> bool { a.len() == b.len() && a.iter().zip(b).all(|((j, a), (k, b))| j.as_bytes() == k.as_bytes() && exact(a, b)) }

/// Without the width of integers: reading a value narrows the platform's.
fn loose(v: &Value) -> String {
    match v {
        Value::Num(_, n) => match (n.to_i128(), n.to_u128(), n.to_f64()) { (Some(i), _, _) => format!("{}", i), (_, Some(u), _) => format!("{}", u), (.., Some(f)) => format!("{:?}f", f), _ => format!("{:?}", n) },
        Value::Dict(_, d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{:?}: {}", k, loose(v))).collect::<Vec<_>>().join(", ")),
        Value::Array(_, a) => format!("[{}]", a.iter().map(loose).collect::<Vec<_>>().join(", ")),
        v => show_full(&value_node(v)),
    }
}

/// The same base and the same further steps for both.
struct Around { base: Pair, op: Op, after: Pair, op2: Op, sel: Option<String>, nest: usize }
impl Around {
    fn new(r: &mut Rng) -> Around {
        let mut cfg = HistCfg::std(if r.bool() { Gen::addr() } else { Gen::small() });
        cfg.steps = (0, 2);
        if r.chance(1, 10) { cfg.fail = (1, 3); }
        let mut w = World::new();
        Around { base: Pair::history(r, &mut w, &cfg), op: *r.pick(&OPS), after: Pair::history(r, &mut w, &cfg), op2: *r.pick(&OPS), sel: if r.bool() { Some(gen_profile(r)) } else { None }, nest: r.below(6) }
    }
    fn on<P: Provider>(&self, p: P) -> Figment {
        let f = self.op.apply(self.base.fig.clone(), p);
        let f = if self.nest < 2 { self.op2.apply(f, &self.after.fig) } else { f };
        let f = match &self.sel { Some(s) => f.select(s.as_str()), None => f };
        match self.nest { 2 => self.op2.apply(self.after.fig.clone(), f), 3 => Figment::from(f), _ => f }
    }
}

#[derive(Clone)]
struct Own(Map<Profile, Dict>, String);
impl Provider for Own {
    fn metadata(&self) -> figment::Metadata { figment::Metadata::named("own").source("own source") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(self.0.clone()) }
    fn profile(&self) -> Option<Profile> { Some(Profile::new(&self.1)) }
}

fn both<P: Provider, Q: Provider>(c: &mut Ctx, ar: &Around, form: &str, p: P, q: Q, names: bool, data: &str) -> Res {
    // By themselves.
    let (a, b) = (p.data(), q.data());
    let show = |x: &Result<Map<Profile, Dict>, Error>| match x { Ok(m) => m.iter().map(|(p, d)| format!("{:?}: {}", lower(p.as_str().as_str()), show_full(&value_node(&Value::from(d.clone()))))).collect::<Vec<_>>().join("; "), Err(e) => format!("{:?}", e.clone().into_iter().map(|e| (e.kind, e.path)).collect::<Vec<_>>()) };
    check!(show(&a) == show(&b), "{}: emits {} / {}\n  data {}", form, cut_str(&show(&a), 700), cut_str(&show(&b), 700), cut_str(data, 700));
    check!(p.profile().map(|p| lower(p.as_str().as_str())) == q.profile().map(|p| lower(p.as_str().as_str())), "{}: profile {:?} / {:?}", form, p.profile(), q.profile());
    c.cov.evals(2);
    c.cov.count(form);
    c.cov.distinct(&(form, data));
    same(c, form, &ar.on(&p), &ar.on(&q), names, data)?;
    same(c, form, &ar.on(p), &ar.on(&q), names, data)
}

fn serialized(c: &mut Ctx, r: &mut Rng) -> Res {
    let ar = Around::new(r);
    let g = Gen::small();
    let n = if r.chance(3, 4) { Node::new(MV::Dict(g.dict(r))) } else { g.node(r) };
    let v = n.to_value();
    let prof = gen_profile(r);
    let kd = g.dict(r);
    let (k, k2) = (super::p07::gen_path(r, &kd), r.pick(KEYS).to_string());
    let data = format!("{} under {:?} in {:?}", show(&n), k, prof);
    let s = |v: &Value| v.clone();
    match r.below(14) {
        0 => both(c, &ar, "Serialized::defaults ≡ from(Default)", Serialized::defaults(s(&v)), Serialized::from(s(&v), Profile::Default), true, &data),
        1 => both(c, &ar, "Serialized::globals ≡ from(Global)", Serialized::globals(s(&v)), Serialized::from(s(&v), Profile::Global), true, &data),
        2 => both(c, &ar, "Serialized::default ≡ from(Default).key", Serialized::default(&k, s(&v)), Serialized::from(s(&v), Profile::Default).key(&k), true, &data),
        3 => both(c, &ar, "Serialized::global ≡ from(Global).key", Serialized::global(&k, s(&v)), Serialized::from(s(&v), Profile::Global).key(&k), true, &data),
        4 => both(c, &ar, "Serialized::from ≡ defaults.profile", Serialized::from(s(&v), prof.as_str()), Serialized::defaults(s(&v)).profile(prof.as_str()), true, &data),
        5 => both(c, &ar, "Serialized: profile and key in any order", Serialized::from(s(&v), prof.as_str()).key(&k), Serialized::global(&k2, s(&v)).key(&k).profile("zzz").profile(prof.as_str()), true, &data),
        6 => both(c, &ar, "(key, value) ≡ Serialized::global", (k.clone(), s(&v)), Serialized::global(&k, s(&v)), false, &data),
        7 => both(c, &ar, "(&str, &value) ≡ (String, value)", (k.as_str(), &v), (k.clone(), s(&v)), false, &data),
        8 => both(c, &ar, "Serialized of a reference ≡ of the value", Serialized::from(&v, prof.as_str()), Serialized::from(s(&v), prof.as_str()), false, &data),
        9 => { let w = Value::serialize(&v).map_err(|e| Fail::new(e.to_string()))?; both(c, &ar, "Serialized of Value::serialize ≡ of what it was", Serialized::from(w, prof.as_str()).key(&k), Serialized::from(s(&v), prof.as_str()).key(&k), true, &data) }
        10 => { let w = nest(&k, s(&v)); if let Value::Dict(..) = w { both(c, &ar, "Serialized.key ≡ Serialized of nest", Serialized::from(s(&v), prof.as_str()).key(&k), Serialized::from(w, prof.as_str()), true, &data) } else { Ok(()) } }
        11 => both(c, &ar, "Serialized clone", Serialized::from(s(&v), prof.as_str()).key(&k).clone(), Serialized::from(s(&v), prof.as_str()).key(&k), true, &data),
        12 if r.bool() => {
            // References to what has a profile of its own, the built-in ones among them.
            let p2 = match r.below(3) { 0 => r.pick(&["global", "default", "Global", "DEFAULT"]).to_string(), 1 => prof.clone(), _ => gen_profile(r) };
            let f = Figment::from(Serialized::from(s(&v), prof.as_str())).select(p2.as_str());
            let own = Own(f.data().unwrap_or_default(), p2);
            if r.bool() { both(c, &ar, "a reference to a figment is the figment", &&f, f.clone(), true, &data)?; both(c, &ar, "a figment is the figment", &f, f.clone(), true, &data) } else { both(c, &ar, "a reference to a provider with a profile", &&own, own.clone(), true, &data) }
        }
        12 => { let b = Serialized::from(s(&v), prof.as_str()); both(c, &ar, "a reference is a provider like its referent", &&b, b.clone(), true, &data) }
        _ => {
            // Key by key.
            let MV::Dict(d) = &n.v else { return Ok(()) };
            if d.is_empty() || d.keys().any(|k| k.is_empty() || k.contains('.')) { return Ok(()) }
            let a = Figment::from(Serialized::from(s(&v), prof.as_str()));
            let mut b = Figment::new();
            for (k, n) in d { let p = Serialized::from(n.to_value(), prof.as_str()).key(k); b = match r.below(4) { 0 => b.merge(p), 1 => b.join(p), 2 => b.adjoin(p), _ => b.admerge(p) } }
            c.cov.count("a dictionary ≡ its entries");
            c.cov.distinct(&data);
            let d = |f: &Figment| f.data().map(|m| m.into_values().map(|d| show_full(&value_node(&Value::from(d)))).collect::<Vec<_>>());
            check!(d(&a).ok() == d(&b).ok(), "adding {} key by key gives {:?}", data, d(&b));
            c.cov.eval();
            Ok(())
        }
    }
}

fn text(r: &mut Rng, fmt: usize) -> (String, String) {
    let g = Gen { null: false, ..Gen::text() };
    let d = if r.bool() { g.dict(r) } else { (0..r.below(3)).map(|_| (gen_profile(r), Node::new(MV::Dict(g.clone().with_depth(2).dict(r))))).collect() };
    let mut s = match fmt { 0 => render::toml(&d, r), 1 => render::json(&Node::new(MV::Dict(d)), r), _ => render::yaml(&d, r) };
    if r.chance(1, 12) { s.push_str(r.pick(&["\n]", "}", "\u{0}", "[", ": :"])); }
    let l = cut_str(&s, 900);
    (s, l)
}

fn files<T: Format + 'static>(c: &mut Ctx, r: &mut Rng, fmt: usize) -> Res {
    let ar = Around::new(r);
    let (t, data) = text(r, fmt);
    let prof = gen_profile(r);
    let dir = c.scratch.join("p29/sub");
    std::fs::create_dir_all(&dir).map_err(|e| Fail::new(e.to_string()))?;
    std::env::set_current_dir(&dir).map_err(|e| Fail::new(e.to_string()))?;
    let here = dir.join("conf");
    let up = c.scratch.join("p29/upper");
    std::fs::write(&here, &t).map_err(|e| Fail::new(e.to_string()))?;
    std::fs::write(&up, &t).map_err(|e| Fail::new(e.to_string()))?;
    let abs = up.canonicalize().map_err(|e| Fail::new(e.to_string()))?;
    let how = r.below(3);
    let set = |d: Data<T>| -> Data<T> { match how { 0 => d.nested(), 1 => d.profile(prof.as_str()), _ => d } };
    let res = match r.below(20) {
        16..=19 => {
            // The last setting of each option counts, wherever the others are.
            let (p, q) = (r.pick(&["conf", "upper", "none.at.all", "../upper", "../sub/conf"]).to_string(), prof.clone());
            let opts: Vec<(usize, bool)> = (0..r.range(1, 6)).map(|_| (r.below(4), r.bool())).collect();
            let one = |d: Data<T>, o: &(usize, bool)| match *o { (0, b) => d.required(b), (1, b) => d.search(b), (_, true) => d.nested(), _ => d.profile(q.as_str()) };
            let a = opts.iter().fold(Data::<T>::file(&p), one);
            let mut last: Vec<(usize, bool)> = (0..3).filter_map(|k| opts.iter().rev().find(|o| o.0.min(2) == k).copied()).collect();
            r.shuffle(&mut last);
            both(c, &ar, "options in any order", a, last.iter().fold(Data::<T>::file(&p), one), true, &format!("{} {:?} {}", p, opts, data))
        }
        #[allow(deprecated)]
        0 => both(c, &ar, "file_exact ≡ file.search(false)", set(T::file_exact("conf")), set(T::file("conf").search(false)), true, &data),
        #[allow(deprecated)]
        1 => both(c, &ar, "file_exact of a file above ≡ an absent one", set(T::file_exact("upper")), set(T::file("upper").search(false)), true, &data),
        2 => both(c, &ar, "T::file ≡ Data::<T>::file", set(T::file("upper")), set(Data::<T>::file("upper")), true, &data),
        3 => both(c, &ar, "T::string ≡ Data::<T>::string", set(T::string(&t)), set(Data::<T>::string(&t)), true, &data),
        4 => both(c, &ar, "a file ≡ the string of its content", set(T::file("conf")), set(T::string(&t)), false, &data),
        5 => both(c, &ar, "searching is the default", set(T::file("upper")), set(T::file("upper").search(false).search(true)), true, &data),
        6 => both(c, &ar, "a searched file ≡ the file found", set(T::file("upper")), set(T::file(&abs)), true, &data),
        7 => both(c, &ar, "required, when it is there", set(T::file("upper").required(true)), set(T::file("upper")), true, &data),
        8 => both(c, &ar, "not required is the default", set(T::file("none.at.all").required(true).required(false)), set(T::file("none.at.all")), true, &data),
        9 => both(c, &ar, "absent ≡ empty", set(T::file("none.at.all")), set_empty(), false, &data),
        10 => both(c, &ar, "profile undoes nesting", T::string(&t).nested().profile(prof.as_str()), T::string(&t).profile(prof.as_str()), true, &data),
        11 => both(c, &ar, "nested undoes profile", T::string(&t).profile(prof.as_str()).nested(), T::string(&t).nested().nested(), true, &data),
        12 => both(c, &ar, "the last profile counts", T::string(&t).profile("zzz").profile(prof.as_str()), T::string(&t).profile(prof.as_str()), true, &data),
        13 => both(c, &ar, "the default profile is default", T::string(&t), T::string(&t).profile(Profile::Default), true, &data),
        14 => {
            // The format's own reading, supplied by hand.
            let (a, b) = (T::from_str::<Dict>(&t).map_err(|e| e.to_string()), T::from_path::<Dict>(&here).map_err(|e| e.to_string()));
            let sh = |x: &Result<Dict, String>| match x { Ok(d) => show_full(&value_node(&Value::from(d.clone()))), Err(e) => e.clone() };
            check!(sh(&a) == sh(&b), "{}: from_str and from_path differ: {} / {} of {}", T::NAME, sh(&a), sh(&b), data);
            c.cov.eval();
            let by_hand = TP { name: "by hand".into(), data: a.map(|d| Profile::new(&prof).collect(d)).map_err(Error::from), profile: None, source: None };
            both(c, &ar, "a provider ≡ from_str by hand", T::string(&t).profile(prof.as_str()), by_hand, false, &data)
        }
        _ => {
            let m = T::from_str::<Map<Profile, Dict>>(&t).map_err(|e| e.to_string());
            let by_hand = TP { name: "by hand".into(), data: m.map_err(Error::from), profile: None, source: None };
            both(c, &ar, "nested ≡ from_str by hand", T::string(&t).nested(), by_hand, false, &data)
        }
    };
    let _ = std::env::set_current_dir(&c.scratch);
    res
}
fn set_empty() -> TP { TP { name: "nothing".into(), data: Ok(Map::new()), profile: None, source: None } }

fn env(c: &mut Ctx, r: &mut Rng) -> Res {
    let ar = Around::new(r);
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..r.below(7) {
        let k = format!("{}{}{}", r.pick(&["VHX_", "vhx_", "VhX_", "VHX__", "VHY_"]), r.pick(&["A", "b", "FOO", "foo_bar", "A.B", "é", "X__Y", "l1", ""]), r.pick(&["", "", "_C", ".d", "__", "2"]));
        // Names that differ in case only would make the outcome depend on the environment's order.
        if vars.keys().any(|x| x.eq_ignore_ascii_case(&k)) { continue }
        vars.insert(k, match r.below(5) { 0 => "[1, 2]".into(), 1 => "{a=1}".into(), 2 => gen_string(r).replace('\0', ""), 3 => r.below(100).to_string(), _ => "x".into() });
    }
    for (k, v) in &vars { std::env::set_var(k, v); }
    let data = format!("{:?}", vars);
    let pre = *r.pick(&["VHX_", "vhx_", "VHX__", "VHY", "VH", "vHx_F"]);
    let only = |e: Env| e.filter(|k| k.starts_with("vhx_") || k.starts_with("vhy_"));
    let list: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["a", "A", "VHX_A", "vhx_foo", "Foo", "b", "foo_bar", "vhx_é", "é", "zz", ""])).collect();
    let own: Vec<String> = list.iter().map(|s| s.to_string()).collect();
    let pat = *r.pick(&["_", "__", ".", "O", "é"]);
    let prof = gen_profile(r);
    let more = r.below(6);
    let prefixed = r.bool();
    let base = move |e: Env| match more { 0 => e.lowercase(false), 1 => e.profile("other"), 2 => e.map(|k| k.as_str().replace("__", "_").into()), 3 => e.split("_"), _ => e };
    let start = || if prefixed { base(Env::prefixed("VHX_")) } else { base(only(Env::raw())) };
    let strip = |pre: &'static str| move |k: &uncased::UncasedStr| -> bool { k.starts_with(pre) };
    let res = match r.below(12) {
        0 => both(c, &ar, "prefixed ≡ filter and map", base(Env::prefixed(pre)), base(Env::raw().filter(strip(pre)).map(move |k| k[pre.len()..].into())), false, &data),
        1 => both(c, &ar, "only ≡ filter", start().only(&list), { let own = own.clone(); start().filter(move |k| own.iter().any(|o| k == o.as_str())) }, true, &data),
        2 => both(c, &ar, "ignore ≡ filter", start().ignore(&list), { let own = own.clone(); start().filter(move |k| !own.iter().any(|o| k == o.as_str())) }, true, &data),
        3 => both(c, &ar, "split ≡ map", start().split(pat), start().map(move |k| k.as_str().replace(pat, ".").into()), true, &data),
        4 => both(c, &ar, "global ≡ profile(Global)", start().global(), start().profile(Profile::Global), true, &data),
        5 => both(c, &ar, "map ≡ filter_map", start().map(|k| k.as_str().replace('A', "q").into()), start().filter_map(|k| Some(k.as_str().replace('A', "q").into())), true, &data),
        6 => both(c, &ar, "filter ≡ filter_map", start().filter(|k| k.len() % 2 == 0), start().filter_map(|k| if k.len() % 2 == 0 { Some(k.into()) } else { None }), true, &data),
        7 => both(c, &ar, "lowercase is the default", start().lowercase(false).lowercase(true), start().lowercase(true), true, &data),
        8 => both(c, &ar, "the last profile counts (environment)", start().global().profile(prof.as_str()), start().profile(prof.as_str()), true, &data),
        9 => both(c, &ar, "raw with a filter of everything", start(), start().filter(|_| true).filter_map(|k| Some(k.into())), true, &data),
        10 => {
            // What it iterates over is what it emits.
            let e = start();
            let mut by_hand = Figment::new();
            for (k, v) in e.iter() { if let Some(d) = nest(k.as_str(), v.parse::<Value>().unwrap()).into_dict() { by_hand = by_hand.merge(TP { name: "h".into(), data: Ok(Profile::Default.collect(d)), profile: None, source: None }); } }
            let emitted = e.data().map_err(|e| Fail::new(e.to_string()))?.into_values().next().unwrap_or_default();
            let hand = by_hand.data().map_err(|e| Fail::new(e.to_string()))?.into_values().next().unwrap_or_default();
            let sh = |d: &Dict| show_full(&value_node(&Value::from(d.clone())));
            c.cov.eval(); c.cov.count("emitted ≡ iterated");
            c.cov.distinct(&("iter", &data));
            if sh(&emitted) == sh(&hand) { Ok(()) } else { Err(Fail::new(format!("emits {}, iterates over {}; {}", sh(&emitted), sh(&hand), data))) }
        }
        _ => {
            let k = vars.keys().next().cloned().unwrap_or("VHX_NONE".into());
            let k = if r.chance(1, 4) { k + "?" } else if r.bool() { k.to_ascii_lowercase() } else { k };
            let (a, b) = (Env::var_or(&k, "dflt"), Env::var(&k).unwrap_or("dflt".into()));
            let (p, q) = (Profile::from_env_or(&k, "dflt"), Profile::from_env(&k).unwrap_or("dflt".into()));
            // One trims, the other need not.
            let t = Env::var(&k).map(|v| Profile::new(&v));
            c.cov.evals(3); c.cov.count("var_or, from_env_or");
            if a == b && p == q && (t.is_none() || t.map(|t| t.as_str().as_str().to_string()) == Some(p.as_str().as_str().trim().to_string())) { Ok(()) } else { Err(Fail::new(format!("{:?}: var_or {:?}, var {:?}; from_env_or {:?}, from_env {:?}; {}", k, a, b, p, q, data))) }
        }
    };
    for k in vars.keys() { std::env::remove_var(k); }
    res
}

fn reading(c: &mut Ctx, r: &mut Rng) -> Res {
    let ar = Around::new(r);
    let f = ar.on(TP { name: "t".into(), data: Ok(Profile::new(&gen_profile(r)).collect(dict_to_value(&Gen::addr().dict(r)))), profile: None, source: None });
    let f = if r.chance(1, 3) { f.select(gen_profile(r)) } else { f };
    let data = portrait(&f, true);
    c.cov.distinct(&data);
    let err = |e: &Error| format!("{:?}", e.clone().into_iter().map(|e| (e.kind, e.path, e.metadata.map(|m| m.name), e.profile)).collect::<Vec<_>>());
    let sv = |v: &Result<Value, Error>| match v { Ok(v) => format!("{} {:?}", loose(v), v.tag()), Err(e) => err(e) };
    // Whole, by value, by dictionary.
    let whole = f.extract::<Value>();
    let d = f.extract::<Dict>();
    check!(d.is_ok() == whole.is_ok() && (d.is_err() || d.as_ref().ok() == whole.as_ref().ok().and_then(|v| v.as_dict())), "as a dictionary {:?}, as a value {:?}", d.as_ref().ok(), whole.as_ref().ok());
    check!(sv(&f.find_value("")) == sv(&whole.clone()) || whole.is_ok() && f.find_value("").is_ok_and(|v| Some(&v) == whole.as_ref().ok()), "the empty path finds {}, the whole is {}", sv(&f.find_value("")), sv(&whole));
    c.cov.evals(2);
    let root = whole.as_ref().ok().map(value_node).and_then(|n| n.dict().cloned()).unwrap_or_default();
    for _ in 0..4 {
        let k = super::p07::gen_path(r, &root);
        let v = f.find_value(&k);
        check!(f.contains(&k) == v.is_ok(), "contains({:?}) is {}, finding it gives {}", k, f.contains(&k), sv(&v));
        let by_tag = v.as_ref().ok().and_then(|v| f.get_metadata(v.tag())).map(|m| m as *const Metadata);
        if !super::p07::comps(&k).is_empty() { check!(f.find_metadata(&k).map(|m| m as *const Metadata) == by_tag, "find_metadata({:?}) is {:?}, the value's metadata {:?}", k, f.find_metadata(&k).map(|m| &m.name), v.as_ref().ok().and_then(|v| f.get_metadata(v.tag())).map(|m| &m.name)); }
        check!(sv(&f.extract_inner::<Value>(&k)) == sv(&v) || super::p07::comps(&k).is_empty(), "extracting a value at {:?} gives {}, finding it {}", k, sv(&f.extract_inner::<Value>(&k)), sv(&v));
        c.cov.evals(3);
        // The same value read by itself.
        macro_rules! as_ { ($($t:ty),*) => { $( {
            let (x, y) = (f.extract_inner::<$t>(&k), v.as_ref().map_err(|e| e.clone()).and_then(|v| v.deserialize::<$t>()));
            match (&x, &y) {
                (Ok(x), Ok(y)) => check!(format!("{:?}", x) == format!("{:?}", y), "{:?} as {}: {:?} in place, {:?} by itself", k, stringify!($t), x, y),
                (Err(x), Err(y)) => check!(x.count() == y.count() && format!("{:?}", x.clone().into_iter().map(|e| e.kind).collect::<Vec<_>>()) == format!("{:?}", y.clone().into_iter().map(|e| e.kind).collect::<Vec<_>>()), "{:?} as {}: fails in place with {}, by itself with {}", k, stringify!($t), x, y),
                (x, y) => fail!("{:?} as {}: {:?} in place, {:?} by itself", k, stringify!($t), x.as_ref().map_err(err), y.as_ref().map_err(err)),
            }
            c.cov.eval();
        } )* } }
        as_!(u8, i64, f64, bool, String, char, Vec<Value>, BTreeMap<String, Value>, Option<u16>, (Value, Value), Vec<String>);
        // Focused, where nothing is layered.
        if f.data().is_ok_and(|d| d.len() == 1) && v.as_ref().is_ok_and(|v| v.as_dict().is_some()) {
            let (x, y) = (f.focus(&k).extract::<Dict>(), f.extract_inner::<Dict>(&k));
            check!(x.is_ok() && x.as_ref().ok() == y.as_ref().ok(), "focusing on {:?} gives {:?}, extracting there {:?}", k, x, y);
            c.cov.eval(); c.cov.count("focus ≡ extract_inner");
        }
        // Inside the value itself.
        if let (Ok(w), false) = (&whole, super::p07::comps(&k).is_empty()) {
            let (x, y) = (w.find_ref(&k), w.clone().find(&k));
            check!(x == y.as_ref() && x.map(|x| x.tag()) == y.as_ref().map(|x| x.tag()) && x.is_some() == v.is_ok() && (x.is_none() || x == v.as_ref().ok()), "{:?} in the extracted whole: {:?} by reference, {:?} by value, {} in the figment", k, x, y, sv(&v));
            c.cov.eval();
        }
    }
    c.cov.count("reading operations");
    Ok(())
}

fn laws(c: &mut Ctx, r: &mut Rng) -> Res {
    let ar = Around::new(r);
    let (a, b) = (&ar.base.fig, &ar.after.fig);
    let data = format!("{} / {}", ar.base.describe(), ar.after.describe());
    c.cov.distinct(&data);
    let d = |f: &Figment| match f.data() { Ok(m) => m.iter().map(|(p, d)| format!("{:?}: {}", lower(p.as_str().as_str()), show_full(&value_node(&Value::from(d.clone()))))).collect::<Vec<_>>().join("; "), Err(e) => format!("fails {:?}", { let mut v: Vec<String> = e.into_iter().map(|e| format!("{:?}", e.kind)).collect(); v.sort(); v }) };
    let eq = |what: &str, x: &Figment, y: &Figment| -> Res {
        if let (Ok(x), Ok(y)) = (x.data(), y.data()) { if x.len() == y.len() && x.iter().zip(&y).all(|((p, a), (q, b))| lower(p.as_str().as_str()) == lower(q.as_str().as_str()) && exact_dict(a, b)) { return Ok(()) } }
        check!(d(x) == d(y), "{}: {} / {}\n  of {}", what, cut_str(&d(x), 600), cut_str(&d(y), 600), data); Ok(()) };
    // What one keeps, the other replaces.
    eq("a.join(b) ≡ b.merge(a)", &a.clone().join(b), &b.clone().merge(a))?;
    eq("a.merge(a) ≡ a", &a.clone().merge(a), &if a.data().is_ok() { a.clone() } else { a.clone().merge(a) })?;
    eq("a.join(a) ≡ a", &a.clone().join(a), &if a.data().is_ok() { a.clone() } else { a.clone().merge(a) })?;
    for op in OPS {
        eq("new().op(a) ≡ a", &op.apply(Figment::new(), a), a)?;
        eq("a.op(new()) ≡ a", &op.apply(a.clone(), Figment::new()), a)?;
        eq("a.op(nothing) ≡ a", &op.apply(a.clone(), set_empty()), a)?;
        eq("a.op(b) ≡ a.op(&b)", &op.apply(a.clone(), b.clone()), &op.apply(a.clone(), &b))?;
        eq("a.op(b) ≡ a.op(from(b))", &op.apply(a.clone(), b), &op.apply(a.clone(), Figment::from(b)))?;
    }
    same(c, "from ≡ new().merge", &Figment::from(a), &Figment::new().merge(a), true, &data)?;
    same(c, "default ≡ new", &Figment::default().merge(a), &Figment::new().merge(a), true, &data)?;
    same(c, "clone", &a.clone(), a, true, &data)?;
    let (p, q) = (gen_profile(r), gen_profile(r));
    same(c, "the last selection counts", &a.clone().select(p.as_str()).select(q.as_str()), &a.clone().select(Profile::new(&q)), true, &data)?;
    same(c, "selecting before or after joining", &a.clone().select(q.as_str()).join(b), &a.clone().join(b).select(q.as_str()), true, &data)?;
    same(c, "focus on nothing", &a.focus(""), a, true, &data)?;
    eq("selecting changes no data", &a.clone().select(p.as_str()), a)?;
    c.cov.evals(30);
    c.cov.count("laws");
    // Constructors.
    let (m, s) = (gen_string(r), gen_string(r));
    check!(Metadata::from(m.clone(), s.as_str()) == Metadata::named(m.clone()).source(s.clone()) && Metadata::from(m.clone(), s.as_str()).source == Some(Source::Custom(s.clone())), "Metadata::from({:?}, {:?})", m, s);
    let (x, y, z) = (Error::from(m.as_str()), Error::from(m.clone()), Error::from(Kind::Message(m.clone())));
    check!(x == y && y == z && x.kind == z.kind && x.to_string() == z.to_string(), "errors from {:?} differ: {:?} {:?} {:?}", m, x, y, z);
    let (x, y) = (Profile::new(&p), Profile::from(p.clone()));
    check!(x == y && x == Profile::from(p.as_str()) && x == p.as_str() && String::from(x.clone()) == p && x.to_string() == p && x.as_str() == p.as_str() && *x == *y, "profiles from {:?} differ: {:?} {:?}", p, x, y);
    let col = x.collect(dict_to_value(&Gen::addr().dict(r)));
    check!(col.len() == 1 && col.keys().next() == Some(&y), "collecting into {:?} gives {:?}", p, col.keys().collect::<Vec<_>>());
    c.cov.evals(4);
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    match c.idx % 8 {
        0 | 1 => serialized(c, r),
        2 => match r.below(4) { 0 => files::<Toml>(c, r, 0), 1 => files::<Json>(c, r, 1), 2 => files::<Yaml>(c, r, 2), _ => files::<YamlExtended>(c, r, 3) },
        3 | 4 => env(c, r),
        5 => {
            // Extended YAML is YAML where nothing is merged.
            if r.chance(1, 4) {
                let ar = Around::new(r);
                let (t, data) = text(r, 2);
                if !t.contains("<<") { return both(c, &ar, "extended YAML ≡ YAML without merge keys", YamlExtended::string(&t), Yaml::string(&t), false, &data) }
                return Ok(())
            }
            laws(c, r)
        }
        _ => reading(c, r),
    }
}
