//! P03: provenance of every value, by every route.
use figment::{Figment, Profile, Provider};
use figment::value::{Value, Dict, Tag, magic::Tagged};
use crate::cov::*; use crate::model::*; use crate::mv::*;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P03", case, quick: 30_000, thorough: 600_000, serial: false,
    rule: "random histories of uniquely named providers; every value reached by whole extraction, raw data, lookups, tagged wrappers, metadata lookup, focusing, cloning and nesting is resolved to its provider and profile and compared with the model's; non-trivial: at least two providers own a leaf of the result; distinct by operation list",
};

/// Checks one value's tag against the sources the model allows.
pub fn check_tag(fig: &Figment, n: &Node, tag: Tag, path: &str, m: &Model) -> Result<(), String> {
    let md = match fig.get_metadata(tag) {
        Some(md) => md,
        None => return Err(format!("value at {:?} has tag {:?} without metadata; model says it came from {:?}", path, tag, n.srcs)),
    };
    let prof = tag.profile();
    for s in &n.srcs {
        let want = match s.cls { Cls::Default => Some(Profile::Default), Cls::Global => Some(Profile::Global), Cls::Custom => None };
        if m.metas.get(&s.prov).map_or(false, |x| x.name == md.name) && prof == want { return Ok(()) }
    }
    Err(format!("value at {:?} resolves to provider {:?}, profile {:?}; model says one of {:?}", path, md.name, prof, n.srcs))
}

pub fn cmp_tags(fig: &Figment, m: &Model, d: &Dict, want: &MDict, what: &str) -> Result<u64, String> {
    let mut f = |n: &Node, v: &Value, p: &str| check_tag(fig, n, v.tag(), p, m);
    let mut c = Cmp { ints_by_value: true, tags: Some(&mut f), nodes: 0 };
    c.dict(want, d, what)?;
    Ok(c.nodes)
}

fn leaves<'a>(d: &'a MDict, path: &str, out: &mut Vec<(String, &'a Node)>) {
    for (k, n) in d {
        if k.is_empty() || k.contains('.') { continue }
        let p = if path.is_empty() { k.clone() } else { format!("{}.{}", path, k) };
        out.push((p.clone(), n));
        if let MV::Dict(d) = &n.v { leaves(d, &p, out); }
    }
}

fn judge(c: &mut Ctx, p: &Pair, what: &str) -> Res {
    let why = |e: String| Fail::new(format!("{} [{}]\n  after {}", e, what, p.describe()));
    let want = p.m.extract();
    // Whole extraction, typed three ways.
    let d: Dict = p.fig.extract().map_err(|e| why(e.to_string()))?;
    let n = cmp_tags(&p.fig, &p.m, &d, &want, "extracted").map_err(why)?;
    c.cov.add("tags resolved", n);
    let v: Value = p.fig.extract().map_err(|e| why(e.to_string()))?;
    let n = cmp_tags(&p.fig, &p.m, v.as_dict().unwrap(), &want, "value").map_err(why)?;
    c.cov.add("tags resolved", n);
    let t: std::collections::BTreeMap<String, Tagged<Value>> = p.fig.extract().map_err(|e| why(e.to_string()))?;
    for (k, x) in &t { check_tag(&p.fig, &want[k], x.tag(), k, &p.m).map_err(why)?; }
    let l: Dict = p.fig.extract_lossy().map_err(|e| why(e.to_string()))?;
    cmp_tags(&p.fig, &p.m, &l, &want, "lossy").map_err(why)?;
    // Raw per-profile data.
    for (prof, d) in p.fig.data().map_err(|e| why(e.to_string()))? {
        if let Some(m) = p.m.data.get(&lower(prof.as_str().as_str())) { cmp_tags(&p.fig, &p.m, &d, m, "data").map_err(why)?; }
    }
    c.cov.evals(5);
    // Lookups.
    let mut ls = vec![];
    leaves(&want, "", &mut ls);
    let step = (ls.len() / 12).max(1);
    for (path, n) in ls.iter().step_by(step) {
        let v = p.fig.find_value(path).map_err(|e| why(e.to_string()))?;
        check_tag(&p.fig, n, v.tag(), path, &p.m).map_err(why)?;
        let md = p.fig.find_metadata(path);
        check!(md.is_some() && md.map(|m| &m.name) == p.fig.get_metadata(v.tag()).map(|m| &m.name),
            "find_metadata({:?}) = {:?} but the value's tag resolves to {:?} after {}", path, md.map(|m| &m.name), p.fig.get_metadata(v.tag()).map(|m| &m.name), p.describe());
        let t: Tagged<Value> = p.fig.extract_inner(path).map_err(|e| why(e.to_string()))?;
        check_tag(&p.fig, n, t.tag(), path, &p.m).map_err(why)?;
        check!(t.tag() == v.tag() && t.tag().profile() == v.tag().profile(), "tagged extraction and lookup of {:?} disagree on the tag: {:?} vs {:?}", path, t.tag(), v.tag());
        match &n.v {
            MV::Arr(a) => {
                let t: Vec<Tagged<Value>> = p.fig.extract_inner(path).map_err(|e| why(e.to_string()))?;
                for (x, y) in a.iter().zip(&t) { check_tag(&p.fig, x, y.tag(), path, &p.m).map_err(why)?; }
                if let Some(raw) = v.as_array() { for (x, y) in a.iter().zip(raw) { check_tag(&p.fig, x, y.tag(), path, &p.m).map_err(why)?; } }
            }
            MV::Str(s) => {
                let t: Tagged<String> = p.fig.extract_inner(path).map_err(|e| why(e.to_string()))?;
                check!(&*t == s, "tagged string at {:?}: {:?}", path, t);
                check_tag(&p.fig, n, t.tag(), path, &p.m).map_err(why)?;
                let t: Option<Tagged<Tagged<String>>> = p.fig.extract_inner_lossy(path).map_err(|e| why(e.to_string()))?;
                check_tag(&p.fig, n, t.as_ref().unwrap().tag(), path, &p.m).map_err(why)?;
                check_tag(&p.fig, n, t.unwrap().into_inner().tag(), path, &p.m).map_err(why)?;
            }
            MV::Bool(_) => {
                let t: Tagged<bool> = p.fig.extract_inner(path).map_err(|e| why(e.to_string()))?;
                check_tag(&p.fig, n, t.tag(), path, &p.m).map_err(why)?;
            }
            _ => {}
        }
        c.cov.evals(4);
    }
    // The list of providers, in the order they were added.
    if p.m.ordered {
        let got: Vec<String> = p.fig.metadata().map(|m| m.name.to_string()).collect();
        let want: Vec<String> = p.m.metas.values().map(|m| m.name.clone()).collect();
        check!(got == want, "metadata() lists {:?}, providers were added as {:?} [{}] after {}", got, want, what, p.describe());
        c.cov.eval();
    }
    Ok(())
}

fn owners(d: &MDict, out: &mut std::collections::BTreeSet<u32>) {
    for n in d.values() {
        match &n.v { MV::Dict(d) => owners(d, out), _ => out.extend(n.srcs.iter().map(|s| s.prov)) }
    }
}

/// Values taken from one figment, with new ones put among them, supplied to another: what already
/// has an identity keeps it, everything else gets the supplying provider's.
fn mixed(c: &mut Ctx, r: &mut crate::rng::Rng) -> Res {
    struct Own(String, Profile, Dict);
    impl Provider for Own {
        fn metadata(&self) -> figment::Metadata { figment::Metadata::named(self.0.clone()) }
        fn data(&self) -> Result<figment::value::Map<Profile, Dict>, figment::Error> { Ok(self.1.collect(self.2.clone())) }
    }
    fn retag(v: Value, r: &mut crate::rng::Rng, t: &[Tag]) -> Value {
        let tag = if r.chance(1, 3) { *r.pick(t) } else { Tag::Default };
        match v {
            Value::String(_, s) => Value::String(tag, s), Value::Char(_, x) => Value::Char(tag, x), Value::Bool(_, x) => Value::Bool(tag, x), Value::Num(_, x) => Value::Num(tag, x), Value::Empty(_, x) => Value::Empty(tag, x),
            Value::Dict(_, d) => Value::Dict(tag, d.into_iter().map(|(k, v)| (k, retag(v, r, t))).collect()),
            Value::Array(_, a) => Value::Array(tag, a.into_iter().map(|v| retag(v, r, t)).collect()),
        }
    }
    fn walk(was: &Value, is: &Value, f: &Figment, own: &str, prof: &Option<Profile>, path: &str, n: &mut u64) -> Result<(), String> {
        *n += 1;
        if was.tag().is_default() {
            let md = f.get_metadata(is.tag()).map(|m| m.name.to_string());
            if md.as_deref() != Some(own) || is.tag().profile() != *prof { return Err(format!("the new value at {:?} resolves to {:?}, profile {:?}; {:?} supplied it", path, md, is.tag().profile(), own)) }
        } else if was.tag() != is.tag() || was.tag().profile() != is.tag().profile() {
            return Err(format!("the value at {:?} had tag {:?} and now has {:?}", path, was.tag(), is.tag()));
        }
        match (was, is) {
            (Value::Dict(_, a), Value::Dict(_, b)) => for (k, x) in a { walk(x, b.get(k).ok_or(format!("{:?} lost {:?}", path, k))?, f, own, prof, &format!("{}/{}", path, k), n)?; },
            (Value::Array(_, a), Value::Array(_, b)) if a.len() == b.len() => for (i, (x, y)) in a.iter().zip(b).enumerate() { walk(x, y, f, own, prof, &format!("{}/{}", path, i), n)?; },
            (a, b) if a == b => {}
            _ => return Err(format!("the value at {:?} changed", path)),
        }
        Ok(())
    }
    let g = Figment::new().merge(Own("elsewhere".into(), gen_profile(r).into(), [("x".to_string(), Value::from(1))].into())).merge(("y", 2));
    let mut tags: Vec<Tag> = g.data().map_err(|e| Fail::new(e.to_string()))?.values().flat_map(|d| d.values().map(|v| v.tag()).collect::<Vec<_>>()).collect();
    tags.push(tags[0]);
    let d: Dict = Gen::small().with_depth(3).dict(r).iter().map(|(k, n)| (k.clone(), retag(n.to_value(), r, &tags))).collect();
    let prof: Profile = gen_profile(r).into();
    let class = if prof == "default" { Some(Profile::Default) } else if prof == "global" { Some(Profile::Global) } else { None };
    let own = Own("supplier".into(), prof.clone(), d.clone());
    let base = if r.bool() { Figment::from(&g) } else { Figment::new() };
    let f = match r.below(4) { 0 => Figment::from(own), 1 => base.merge(own), 2 => Figment::new().join(own), _ => Figment::new().merge(Figment::from(own)) };
    let f = if r.bool() { f.select(prof.clone()) } else { f };
    let got = f.data().map_err(|e| Fail::new(e.to_string()))?;
    let got = &got[&prof];
    let mut n = 0;
    for (k, v) in &d { walk(v, &got[k], &f, "supplier", &class, k, &mut n).map_err(|e| Fail::new(format!("{}\n  supplied under {:?}: {:?}", e, prof, d)))?; }
    c.cov.add("tags resolved", n);
    c.cov.count("mixed tags");
    c.cov.evals(n);
    c.cov.distinct(&format!("{:?}{:?}", prof, d));
    Ok(())
}

/// A process that has added millions of providers attributes the values of each as it did the first.
fn soak(c: &mut Ctx) -> Res {
    let per: usize = if c.thorough { 5 << 18 } else { 3 << 17 };
    let old = Figment::from(Named(("a", 1u8), "old".into()));
    let workers: Vec<_> = (0..6).map(|_| std::thread::spawn(move || {
        let mut tags = vec![];
        for i in 0..per {
            let f = Figment::from(Light);
            if i % 4096 == 0 && f.metadata().count() != 1 { return vec![] }
            match f.find_value("a") { Ok(v) => tags.push(v.tag()), Err(_) => return vec![] }
        }
        tags
    })).collect();
    let mut tags: Vec<Tag> = vec![];
    for w in workers { let t = w.join().unwrap_or_default(); check!(t.len() == per, "a figment of one provider lost its value or its metadata"); tags.extend(t); }
    tags.sort();
    if let Some(i) = (1..tags.len()).find(|i| tags[*i] == tags[i - 1]) { check!(false, "of {} providers added, two give their values the same tag {:?}: combined, one is taken for the other", tags.len(), tags[i]) }
    let mut f = old;
    for i in 0..3000usize { f = f.merge(Named((format!("k{}", i), i as u64), format!("n{}", i))); }
    let d: Dict = f.extract().map_err(|e| Fail::new(e.to_string()))?;
    check!(d.len() == 3001 && f.metadata().count() == 3001, "{} values of {} providers of 3001", d.len(), f.metadata().count());
    for (k, v) in &d {
        let want = if k == "a" { "old".to_string() } else { format!("n{}", &k[1..]) };
        let got = f.get_metadata(v.tag()).map(|m| m.name.to_string());
        check!(got.as_ref() == Some(&want), "after millions of providers {:?} is attributed to {:?}, not to {:?}", k, got, want);
    }
    c.cov.add("providers added in the long run", 6 * per as u64);
    c.cov.evals(3003);
    Ok(())
}
struct Light;
impl Provider for Light {
    fn metadata(&self) -> figment::Metadata { figment::Metadata::named("light") }
    fn data(&self) -> Result<figment::value::Map<Profile, Dict>, figment::Error> { Ok(Profile::Default.collect([("a".to_string(), Value::from(1u8))].into())) }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if c.idx == 0 { return soak(c) }
    if r.chance(1, 8) { return mixed(c, r) }
    let mut cfg = HistCfg::std(if r.chance(2, 3) { Gen::addr() } else { Gen::small() });
    cfg.nest_depth = 2;
    cfg.steps = (1, 7);
    let mut w = World::new();
    let p = Pair::history(r, &mut w, &cfg);
    let mut own = Default::default();
    owners(&p.m.extract(), &mut own);
    if own.len() >= 2 { c.cov.distinct(&p.log); }
    c.cov.sample(|| p.describe());
    judge(c, &p, "as built")?;
    // Transformations that must not lose or change provenance.
    match r.below(5) {
        0 => {
            let n = if r.bool() || p.m.data.is_empty() { gen_profile(r) } else { let k = p.m.data.keys().nth(r.below(p.m.data.len())).unwrap().clone(); k };
            let mut q = p.clone(); q.select(&n); judge(c, &q, "selected")?;
        }
        1 => {
            // Nest the whole figment in another, twice.
            let mut q = Pair::new();
            q.add_figment(&mut w, *r.pick(&OPS), &p, r.bool());
            judge(c, &q, "nested")?;
            let mut q2 = Pair::new();
            q2.step(r, &mut w, &HistCfg { nest_depth: 0, ..cfg.clone() });
            q2.m.ordered = false;
            q2.add_figment(&mut w, *r.pick(&OPS), &q, r.bool());
            judge(c, &q2, "nested twice")?;
        }
        2 => {
            // Focus where the model is unambiguous.
            let want = p.m.extract();
            let dicts: Vec<String> = { let mut l = vec![]; leaves(&want, "", &mut l); l.into_iter().filter(|(_, n)| n.dict().is_some()).map(|(p, _)| p).collect() };
            if !dicts.is_empty() {
                let path = r.pick(&dicts).clone();
                let comps: Vec<String> = path.split('.').map(|s| s.to_string()).collect();
                let (m, clean) = p.m.focus(&comps);
                if clean {
                    let q = Pair { fig: p.fig.focus(&path), m, log: { let mut l = p.log.clone(); l.push(format!("focus({:?})", path)); l } };
                    judge(c, &q, "focused")?;
                    c.cov.count("focused");
                }
            }
        }
        3 => {
            // A clone continues independently.
            let mut q = p.clone();
            let k = r.range(1, 3);
            for _ in 0..k { q.step(r, &mut w, &cfg); }
            judge(c, &q, "clone continued")?;
            judge(c, &p, "original after its clone continued")?;
        }
        _ => {}
    }
    Ok(())
}
