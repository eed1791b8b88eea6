//! P10: an environment provider yields exactly what its chain of adapters selects and maps.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use figment::providers::Env;
use figment::{Figment, Profile, Provider};
use figment::value::Value;
use uncased::{Uncased, UncasedStr};
use crate::cov::*; use crate::mv::*; use crate::model::{combine_dicts, lower, nest_model, Op};
use crate::rng::Rng;
use super::{Prop, p09};
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P10", case, quick: 400_000, thorough: 2_500_000, serial: false,
    rule: "random environments (mixed case, padded, dotted, empty components, non-ASCII, non-UTF-8 names, structured values) and random chains of every adapter in every order; iteration, emitted data, figment lookups and single-variable lookup are compared with a model of the chain; the environment must be unchanged; non-trivial: some variable passes and some is dropped or renamed; distinct by (chain, environment)",
};

#[derive(Clone, Debug)]
enum Pred { Starts(String), Contains(String), Len(usize), Eq(String), No }
#[derive(Clone, Debug)]
enum MapF { Replace(char, &'static str), Prepend(&'static str), Append(&'static str), Strip(String), Upper, Lower, Const(&'static str), Same, Pad }
#[derive(Clone, Debug)]
enum Ad { Filter(Pred), Map(MapF), FilterMap(Pred, MapF), Split(&'static str), Ignore(Vec<String>), Only(Vec<String>), Lowercase(bool), Profile(String), Global }

impl Pred {
    fn eval(&self, k: &str) -> bool {
        match self {
            Pred::Starts(s) => lower(k).starts_with(&lower(s)), Pred::Contains(s) => lower(k).contains(&lower(s)),
            Pred::Len(n) => k.len() % 3 != *n, Pred::Eq(s) => lower(k) == lower(s), Pred::No => false,
        }
    }
    fn real(&self, k: &UncasedStr) -> bool {
        match self { Pred::Starts(s) => k.starts_with(s), Pred::Eq(s) => k == s.as_str(), p => p.eval(k.as_str()) }
    }
}
impl MapF {
    fn eval(&self, k: &str) -> String {
        match self {
            MapF::Replace(c, s) => k.replace(*c, s), MapF::Prepend(s) => format!("{}{}", s, k), MapF::Append(s) => format!("{}{}", k, s),
            MapF::Strip(s) => if k.len() >= s.len() && k.is_char_boundary(s.len()) && lower(&k[..s.len()]) == lower(s) { k[s.len()..].into() } else { k.into() },
            MapF::Upper => k.to_uppercase(), MapF::Lower => k.to_lowercase(), MapF::Const(s) => s.to_string(), MapF::Same => k.into(), MapF::Pad => format!("  {}\t", k),
        }
    }
}

fn apply(env: Env, a: &Ad) -> Env {
    match a.clone() {
        Ad::Filter(p) => env.filter(move |k| p.real(k)),
        Ad::Map(MapF::Same) => env.map(|k| k.into()),
        Ad::Map(f) => env.map(move |k| f.eval(k.as_str()).into()),
        Ad::FilterMap(p, f) => env.filter_map(move |k| if p.real(k) { Some(Uncased::from(f.eval(k.as_str()))) } else { None }),
        Ad::Split(s) => env.split(s),
        Ad::Ignore(v) => { let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); env.ignore(&v) }
        Ad::Only(v) => { let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); env.only(&v) }
        Ad::Lowercase(b) => env.lowercase(b),
        Ad::Profile(p) => env.profile(p),
        Ad::Global => env.global(),
    }
}

fn model_key(prefix: Option<&str>, ads: &[Ad], name: &str) -> Option<String> {
    let mut k = name.trim().to_string();
    if name.is_empty() { return None }
    if let Some(p) = prefix {
        if !lower(&k).starts_with(&lower(p)) { return None }
        k = k[p.len()..].into();
    }
    let mut low = true;
    for a in ads {
        match a {
            Ad::Filter(p) => if !p.eval(&k) { return None },
            Ad::Map(f) => k = f.eval(&k),
            Ad::FilterMap(p, f) => if p.eval(&k) { k = f.eval(&k) } else { return None },
            Ad::Split(s) => k = k.replace(s, "."),
            Ad::Ignore(v) => if v.iter().any(|x| lower(x) == lower(&k)) { return None },
            Ad::Only(v) => if !v.iter().any(|x| lower(x) == lower(&k)) { return None },
            Ad::Lowercase(b) => low = *b,
            _ => {}
        }
    }
    let k = k.trim();
    if k.split('.').any(|c| c.is_empty()) { return None }
    Some(if low { lower(k) } else { k.into() })
}

const PREFIXES: &[&str] = &["APP_", "app_", "App_", "", "A", "É", "_", "APP_DB.", "app", "APP_DB_", "skin_", "ﬀ", "k"];
const WORDS: &[&str] = &["HOST", "host", "Port", "DB_NAME", "db", "DB", "a.b", "a..b", ".x", "x.", "NAME__FIRST", "name__last", "Élan", "é", "x-y", "1", "_", "__", "A_B_C", "deep.er.still", "", "k", "Key", "profile", "ω", "a b", "log__level__max", "Straße", "İ"];

fn name(r: &mut Rng, known: &[String]) -> String {
    if !known.is_empty() && r.chance(1, 6) {
        // The same name in another case.
        let s = r.pick(known);
        return s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    }
    let mut s = String::new();
    if r.chance(3, 4) { s.push_str(r.pick(&PREFIXES[..])); }
    s.push_str(r.pick(&WORDS[..]));
    if r.chance(1, 8) { s.push_str(r.pick(&["_", ".", "__"])); s.push_str(r.pick(&WORDS[..])); }
    if r.chance(1, 16) { s = lookalike(&s, r) }
    if r.chance(1, 10) { s = format!("{}{}{}", r.pick(&["", " ", "\t"]), s, r.pick(&["", " ", "  "])); }
    s
}

fn pred(r: &mut Rng) -> Pred {
    match r.below(9) { 0 | 1 => Pred::Starts(r.pick(PREFIXES).to_string()), 2 | 3 => Pred::Contains(r.pick(&["a", "B", "_", ".", "é", "o"]).to_string()), 4 | 5 => Pred::Len(r.below(3)), 6 => Pred::Eq(r.pick(WORDS).to_string()), 7 => Pred::Starts(String::new()), _ => Pred::No }
}
fn mapf(r: &mut Rng) -> MapF {
    match r.below(10) {
        0 | 1 => MapF::Replace(*r.pick(&['_', '.', 'a', '-', ' ']), r.pick(&[".", "", "_", "..", "-", "x"])), 2 => MapF::Prepend(r.pick(&["app.", "P_", " ", "."])), 3 => MapF::Append(r.pick(&[".end", "_", " "])),
        4 => MapF::Strip(r.pick(PREFIXES).to_string()), 5 => MapF::Upper, 6 => MapF::Lower, 7 => MapF::Const(r.pick(&["same", "a.b", ""])), 8 => MapF::Same, _ => MapF::Pad,
    }
}
fn some_keys(r: &mut Rng, names: &[String], prefix: Option<&str>) -> Vec<String> {
    let n = if r.chance(1, 10) { r.range(6, 70) } else { r.below(5) };
    (0..n).map(|_| {
        let s = if names.is_empty() || r.chance(1, 3) { r.pick(WORDS).to_string() } else { r.pick(names).trim().to_string() };
        let s = match prefix { Some(p) if lower(&s).starts_with(&lower(p)) => s[p.len()..].to_string(), _ => s };
        if r.bool() { s.to_ascii_uppercase() } else { s.to_ascii_lowercase() }
    }).collect()
}

fn snapshot() -> Vec<(OsString, OsString)> { std::env::vars_os().collect() }

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let base = snapshot();
    // The environment.
    let mut vars: BTreeMap<OsString, OsString> = BTreeMap::new();
    let mut names: Vec<String> = vec![];
    let n = r.size(8, 120);
    for i in 0..n.min(130) {
        let nm = if i > 20 { format!("APP_N{}", i) } else { name(r, &names) };
        let nm: String = nm.chars().filter(|c| *c != '=' && *c != '\0').collect();
        if nm.is_empty() || base.iter().any(|b| b.0.to_string_lossy().eq_ignore_ascii_case(&nm)) { continue }
        let mut os = OsString::from(&nm);
        if r.chance(1, 40) { let mut b = nm.clone().into_bytes(); b.push(0xff); os = OsString::from_vec(b); }
        let mut g = Gen { null: false, ..Gen::small() }.with_depth(2);
        g.big = 6;
        let val = match r.below(4) {
            0 => { let mut n = g.node(r); p09::expressible(r, &mut n); let mut t = String::new(); p09::render(&n, r, true, &mut t); t }
            1 => format!("v{}", i),
            2 => format!("{}", r.below(1000)),
            _ => gen_string(r),
        };
        let val: String = val.chars().filter(|c| *c != '\0').collect();
        names.push(nm);
        vars.insert(os, val.into());
    }
    // The chain.
    let prefix = if r.bool() { Some(r.pick(PREFIXES).to_string()) } else { None };
    let n_ads = if r.chance(1, 15) { r.range(6, 14) } else { r.below(5) };
    let ads: Vec<Ad> = (0..n_ads).map(|_| match r.below(13) {
        0 => Ad::Filter(pred(r)), 1 => Ad::Map(mapf(r)), 2 => Ad::FilterMap(pred(r), mapf(r)), 3..=5 => Ad::Split(r.pick(&["_", "__", ".", "-", " ", "._"])),
        6 | 7 => Ad::Ignore(some_keys(r, &names, prefix.as_deref())), 8 => { let mut k = some_keys(r, &names, prefix.as_deref()); k.extend(some_keys(r, &names, prefix.as_deref())); Ad::Only(k) }
        9 | 10 => Ad::Lowercase(r.chance(1, 3)), 11 => Ad::Profile(r.pick(&["debug", "Release", "global", "default", "x"]).to_string()), _ => Ad::Global,
    }).collect();
    let desc = format!("{:?} {:?} over {:?}", prefix, ads, vars);
    let set = |vars: &BTreeMap<OsString, OsString>| for (k, v) in vars { std::env::set_var(k, v); };
    // Building reads nothing: it may come before the variables are set.
    let early = r.bool();
    if !early { set(&vars); }
    let mut env = match &prefix { Some(p) => Env::prefixed(p), None => Env::raw() };
    for a in &ads { env = apply(env, a); if r.chance(1, 8) { env = env.clone(); } }
    if early { set(&vars); }
    let before = snapshot();

    let mut want: Vec<(String, String)> = before.iter().filter_map(|(k, v)| model_key(prefix.as_deref(), &ads, &k.to_string_lossy()).map(|k| (k, v.to_string_lossy().to_string()))).collect();
    let profile = ads.iter().rev().find_map(|a| match a { Ad::Profile(p) => Some(p.clone()), Ad::Global => Some("global".into()), _ => None }).unwrap_or("default".into());
    // Iteration.
    let mut got: Vec<(String, String)> = env.iter().map(|(k, v)| (k.into_string(), v)).collect();
    let order: Vec<(String, String)> = got.clone();
    want.sort(); got.sort();
    let res = judge(c, r, &env, &want, &got, &order, &profile, &before);
    let after = snapshot();
    for k in vars.keys() { std::env::remove_var(k); }
    let s = |e: Fail| Fail::new(format!("{}\n  {}", e.msg, cut_str(&desc, 2500)));
    res.map_err(s)?;
    if after != before { return Err(s(Fail::new("the environment changed"))) }
    if !want.is_empty() && (want.len() < before.len() || !ads.is_empty()) { c.cov.distinct(&desc); }
    c.cov.add("variables selected", want.len() as u64);
    c.cov.add("variables dropped", (before.len() - want.len()) as u64);
    c.cov.sample(|| desc.clone());
    Ok(())
}

fn judge(c: &mut Ctx, r: &mut Rng, env: &Env, want: &[(String, String)], got: &[(String, String)], order: &[(String, String)], profile: &str, vars: &[(OsString, OsString)]) -> Res {
    check!(want == got, "iteration gives {:?}, expected {:?}", cut(got), cut(want));
    // Emitted data.
    let data = env.data().map_err(|e| Fail::new(format!("data() fails: {}", e)))?;
    check!(data.len() == 1 && data.contains_key(&Profile::new(profile)), "data is emitted to {:?}, expected {:?}", data.keys().collect::<Vec<_>>(), profile);
    let data = &data[&Profile::new(profile)];
    let paths: Vec<Vec<String>> = want.iter().map(|(k, _)| k.split('.').map(|s| s.to_string()).collect()).collect();
    let conflict = |i: usize| paths.iter().enumerate().any(|(j, p)| j != i && (p.starts_with(&paths[i]) || paths[i].starts_with(p)));
    let fig = Figment::new().merge(env).select(profile);
    let mut clean = MDict::new();
    for (i, (k, v)) in want.iter().enumerate() {
        let (m, settled) = p09::Ref::parse(v);
        let found = fig.find_value(k).map_err(|e| Fail::new(format!("no value at {:?}: {}", k, e)));
        if conflict(i) {
            // Which of the variables wins is not documented, but it is one of them, or their union.
            let twins: Vec<&(String, String)> = want.iter().filter(|w| w.0 == *k).collect();
            if paths.iter().all(|p| p == &paths[i] || !(p.starts_with(&paths[i]) || paths[i].starts_with(p))) {
                let nodes: Vec<(Node, bool)> = twins.iter().map(|w| p09::Ref::parse(&w.1)).collect();
                if nodes.iter().all(|n| n.1 && n.0.dict().is_none()) {
                    let f = found?;
                    check!(nodes.iter().any(|n| Cmp::plain().node(&n.0, &f, "").is_ok()), "the value at {:?} is none of those of the variables mapped there: {:?}", k, cut(&f));
                    c.cov.count("colliding variables");
                }
            }
            continue;
        }
        let f = found?;
        if settled { Cmp::plain().node(&m, &f, k).map_err(Fail::new)?; c.cov.eval(); }
        // Collect for the whole comparison.
        let node = if settled { m } else { value_or(&f) };
        let mut cur = &mut clean;
        for p in &paths[i][..paths[i].len() - 1] {
            cur = match &mut cur.entry(p.clone()).or_insert_with(|| Node::new(MV::Dict(MDict::new()))).v { MV::Dict(d) => d, _ => unreachable!() };
        }
        cur.insert(paths[i].last().unwrap().clone(), node);
    }
    if (0..want.len()).all(|i| !conflict(i)) {
        Cmp::plain().dict(&clean, data, "").map_err(|e| Fail::new(format!("emitted data: {}", e)))?;
        c.cov.eval();
        c.cov.count("environments without collisions");
    } else {
        // Nothing but what was mapped.
        let mut todo: Vec<(Vec<String>, &figment::value::Dict)> = vec![(vec![], data)];
        while let Some((p, d)) = todo.pop() {
            for (k, v) in d {
                let mut q = p.clone(); q.push(k.clone());
                if paths.iter().any(|x| q.starts_with(x)) { continue }
                check!(paths.iter().any(|x| x.starts_with(&q)), "data has {:?}, which no variable maps to", q);
                match v { Value::Dict(_, d) => todo.push((q, d)), _ => fail!("data has {:?} = {:?}, which no variable maps to", q, v) }
            }
        }
    }
    // Emitted data is the iterated variables put together in the order of iteration.
    let mut all = MDict::new();
    let mut settled = true;
    for (k, v) in order {
        let path: Vec<String> = k.split('.').map(|s| s.to_string()).collect();
        let (n, s) = p09::Ref::parse(v);
        settled &= s;
        all = combine_dicts(&all, &nest_model(&path, n), Op::Merge);
    }
    if settled { Cmp::plain().dict(&all, data, "").map_err(|e| Fail::new(format!("emitted data against iteration: {}", e)))?; c.cov.eval(); c.cov.count("data compared with iteration"); }
    // Iteration does not depend on being asked before, and follows the environment's order.
    let again: Vec<(String, String)> = env.clone().iter().map(|(k, v)| (k.into_string(), v)).collect();
    check!(again == order, "a second iteration differs");
    // Single-variable lookup.
    for _ in 0..3 {
        let nm = if vars.is_empty() || r.chance(1, 4) { r.pick(WORDS).to_string() } else { vars[r.below(vars.len())].0.to_string_lossy().trim().to_string() };
        let nm: String = nm.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        let cands: Vec<String> = vars.iter().filter(|(k, _)| lower(k.to_string_lossy().trim()) == lower(&nm)).map(|(_, v)| v.to_string_lossy().trim().to_string()).collect();
        let g = Env::var(&nm);
        match &g { None => check!(cands.is_empty(), "Env::var({:?}) finds nothing", nm), Some(v) => check!(cands.contains(v), "Env::var({:?}) is {:?}, expected one of {:?}", nm, v, cands) }
        let or = Env::var_or(&nm, "fallback");
        check!(Some(&or) == g.as_ref() || g.is_none() && or == "fallback", "Env::var_or({:?}) is {:?} while var is {:?}", nm, or, g);
        c.cov.evals(2);
    }
    c.cov.evals(3);
    Ok(())
}

fn value_or(v: &Value) -> Node { crate::schema::value_node(v) }
