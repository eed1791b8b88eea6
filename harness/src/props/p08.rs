//! P08: focusing.
use figment::{Figment, Provider};
use figment::value::{Dict, Value};
use crate::cov::*; use crate::model::*; use crate::mv::*;
use super::{Prop, p03, p07};
use crate::check;

pub const P: Prop = Prop {
    id: "P08", case, quick: 20_000, thorough: 700_000, serial: false,
    rule: "random multi-profile histories and random key paths; the focused figment is compared with the original at every sub-path (value, tag, metadata, profile, under several selected profiles), refocused, combined further and used as a provider; non-trivial: the focused figment is not empty; distinct by (operation list, path)",
};

const MASK: &str = "focus-reveals-masked";

/// What a lookup in the original denotes, versus in the focused figment, for one profile.
fn judge(c: &mut Ctx, p: &Pair, path: &str, profile: &str) -> Res {
    let comps = p07::comps(path);
    let orig = p.fig.clone().select(profile);
    let foc = p.fig.focus(path).select(profile);
    let root = Node::new(MV::Dict(p.m.layered(profile)));
    let want: MDict = root.walk(&comps).and_then(|n| n.dict().cloned()).unwrap_or_default();
    let got: Dict = match foc.extract() {
        Ok(d) => d,
        Err(e) => return Err(Fail::new(format!("focus({:?}) fails: {} after {}", path, e, p.describe()))),
    };
    c.cov.eval();
    if let Err(e) = Cmp::ints().dict(&want, &got, "focused") {
        // Known finding: what one profile's non-dictionary masks in the original is visible again.
        let (fm, _) = p.m.focus(&comps);
        let per_profile = fm.layered(profile);
        if visible_mask(&p.m, &comps, profile) && Cmp::ints().dict(&per_profile, &got, "focused").is_ok() {
            return Err(Fail { msg: format!("focus({:?}) selecting {:?}: {} after {}", path, profile, e, p.describe()), known: Some(MASK) })
        }
        return Err(Fail::new(format!("focus({:?}) selecting {:?} differs from the original at that key: {}\n  after {}", path, profile, e, p.describe())))
    }
    // Every sub-path: same value, tag, metadata, profile.
    let mut subs: Vec<String> = vec![];
    fn walk(d: &MDict, pre: &str, out: &mut Vec<String>) {
        for (k, n) in d {
            if k.is_empty() || k.contains('.') { continue }
            let s = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
            out.push(s.clone());
            if let MV::Dict(d) = &n.v { walk(d, &s, out); }
        }
    }
    walk(&want, "", &mut subs);
    subs.truncate(12);
    subs.push("nope".into());
    for s in &subs {
        let full = if comps.is_empty() { s.clone() } else { format!("{}.{}", comps.join("."), s) };
        let (a, b) = (orig.find_value(&full), foc.find_value(s));
        c.cov.eval();
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let same = same_tags(&a, &b);
                check!(a == b && same, "{:?} is {:?} in the original but {:?} (tag {:?} vs {:?}) in the figment focused on {:?} after {}", full, a, b, a.tag(), b.tag(), path, p.describe());
                let (ma, mb) = (orig.get_metadata(a.tag()), foc.get_metadata(b.tag()));
                check!(ma.map(|m| &m.name) == mb.map(|m| &m.name) && ma.is_some() == mb.is_some(), "metadata of {:?} changes by focusing on {:?}", full, path);
                check!(orig.find_metadata(&full).map(|m| &m.name) == foc.find_metadata(s).map(|m| &m.name), "find_metadata of {:?} changes by focusing on {:?} after {}", full, path, p.describe());
                check!(foc.contains(s), "contains({:?}) is false in the focused figment", s);
            }
            (Err(_), Err(e)) => check!(e.missing(), "focused lookup of an absent key fails with {:?}", e.kind),
            (a, b) => return Err(Fail::new(format!("{:?} is {:?} in the original but {:?} in the figment focused on {:?} after {}", full, a.ok(), b.ok(), path, p.describe()))),
        }
    }
    c.cov.add("sub-paths compared", subs.len() as u64);
    Ok(())
}

fn same_tags(a: &Value, b: &Value) -> bool {
    if a.tag() != b.tag() || a.tag().profile() != b.tag().profile() { return false }
    match (a, b) {
        (Value::Dict(_, x), Value::Dict(_, y)) => x.iter().zip(y).all(|((_, a), (_, b))| same_tags(a, b)),
        (Value::Array(_, x), Value::Array(_, y)) => x.iter().zip(y).all(|(a, b)| same_tags(a, b)),
        _ => true,
    }
}

/// Among the profiles visible under `profile`, one holds a dictionary at the path and another a
/// non-dictionary at or above it.
fn visible_mask(m: &Model, path: &[String], profile: &str) -> bool {
    let mut v = m.clone();
    let p = lower(profile);
    v.data.retain(|k, _| k == "default" || k == "global" || *k == p);
    !v.focus(path).1
}

fn probe(c: &mut Ctx) -> Res {
    let mut w = World::new();
    let mut p = Pair::new();
    let mut inner = MDict::new();
    inner.insert("x".into(), Node::new(MV::Bool(true)));
    let mut d = MDict::new();
    d.insert("a".into(), Node::new(MV::Dict(inner)));
    p.add_custom(&mut w, Op::Merge, vec![("default".into(), d)], None, false);
    let mut d = MDict::new();
    d.insert("a".into(), Node::new(MV::Bool(false)));
    p.add_custom(&mut w, Op::Merge, vec![("debug".into(), d)], None, false);
    judge(c, &p, "a", "debug")
}

fn case(c: &mut Ctx) -> Res {
    if c.idx == 0 { return probe(c) }
    let mut r = c.rng.fork();
    let r = &mut r;
    let mut cfg = HistCfg::std(Gen { depth: 4, ..if r.chance(3, 4) { Gen::addr() } else { Gen::small() } });
    cfg.steps = (1, 6);
    let mut w = World::new();
    let p = Pair::history(r, &mut w, &cfg);
    let before = p.fig.data().map_err(|e| Fail::new(e.to_string()))?;
    let base = p.m.layered(&p.m.profile.clone());
    let mut known: Option<Fail> = None;
    let mut note = |res: Res| -> Res { match res { Err(f) if f.known.is_some() => { known = Some(f); Ok(()) } x => x } };
    for _ in 0..3 {
        let src = if r.chance(1, 3) && !p.m.data.is_empty() { p.m.data.values().nth(r.below(p.m.data.len())).unwrap().clone() } else { base.clone() };
        let mut path = p07::gen_path(r, &src);
        // Prefer paths that denote dictionaries.
        if r.chance(3, 5) {
            let root = Node::new(MV::Dict(src.clone()));
            while root.walk(&p07::comps(&path)).map_or(true, |n| n.dict().is_none()) && path.contains('.') { path = path.rsplit_once('.').unwrap().0.into(); }
        }
        let mut names: Vec<String> = p.m.data.keys().cloned().collect();
        names.push(p.m.profile.clone());
        names.push("zzz".into());
        r.shuffle(&mut names);
        for n in names.iter().take(3) { note(judge(c, &p, &path, n))?; }
        let comps = p07::comps(&path);
        let f = p.fig.focus(&path);
        check!(f.profile() == p.fig.profile(), "focus changes the selected profile from {:?} to {:?}", p.fig.profile(), f.profile());
        check!(f.metadata().map(|m| m.name.clone()).collect::<Vec<_>>() == p.fig.metadata().map(|m| m.name.clone()).collect::<Vec<_>>(), "focus changes the known metadata");
        c.cov.evals(2);
        // Profile by profile: exactly those in which the key is a dictionary, with that dictionary.
        let per = p.m.focus(&comps).0.data;
        let got = f.data().map_err(|e| Fail::new(e.to_string()))?;
        let names: Vec<String> = got.keys().map(|p| lower(p.as_str().as_str())).collect();
        check!(names.iter().collect::<std::collections::BTreeSet<_>>() == per.keys().collect(), "focus({:?}) has the profiles {:?}, the key is a dictionary in {:?} after {}", path, names, per.keys(), p.describe());
        for (k, d) in &got { Cmp::ints().dict(&per[&lower(k.as_str().as_str())], d, "focused").map_err(|e| Fail::new(format!("focus({:?}), profile {:?}: {} after {}", path, k, e, p.describe())))?; }
        c.cov.eval();
        // Focusing step by step.
        if !comps.is_empty() {
            let k = r.below(comps.len() + 1);
            let two = p.fig.focus(&comps[..k].join(".")).focus(&comps[k..].join("."));
            let (a, b) = (f.data(), two.data());
            check!(a.is_ok() && b.is_ok() && norm(a.as_ref().unwrap()) == norm(b.as_ref().unwrap()), "focus({:?}) twice as {:?} gives {:?} instead of {:?} after {}", path, k, b, a, p.describe());
            c.cov.eval();
        }
        // Use as a provider, and combine further.
        let (fm, _) = p.m.focus(&comps);
        let fp = Pair { fig: f.clone(), m: fm, log: vec![format!("focus {:?} of [{}]", path, p.log.join("; "))] };
        let clean = p.m.focus(&comps).1;
        if clean {
            let mut q = Pair::new();
            if r.bool() { q.step(r, &mut w, &cfg); }
            q.m.ordered = false;
            q.add_figment(&mut w, *r.pick(&OPS), &fp, r.bool());
            let mut fp = fp;
            fp.step(r, &mut w, &HistCfg { nest_depth: 0, ..cfg.clone() });
            for x in [&q, &fp] {
                let d: Dict = x.fig.extract().map_err(|e| Fail::new(e.to_string()))?;
                p03::cmp_tags(&x.fig, &x.m, &d, &x.m.extract(), "after focusing").map_err(|e| Fail::new(format!("{} after {}", e, x.describe())))?;
                c.cov.eval();
            }
            if f.data().map_or(false, |d| d.values().any(|d| !d.is_empty())) { c.cov.distinct(&(p.log.clone(), path.clone())); }
            c.cov.sample(|| format!("focus({:?}) after {}", path, p.describe()));
        }
    }
    // A figment with failing providers keeps failing alike.
    if r.chance(1, 2) {
        let mut bad = p.fig.clone();
        for i in 0..r.range(1, 3) { bad = r.pick(&OPS).apply(bad, TP { name: format!("bad {}", i), data: Err(format!("bad luck {}", i).into()), profile: None, source: None }); if r.bool() { bad = r.pick(&OPS).apply(bad, ("a.b", 1u8)); } }
        let path = match r.below(4) { 0 => String::new(), 1 => "a.b".into(), _ => p07::gen_path(r, &base) };
        let list = |f: &Figment| f.extract::<Value>().map_err(|e| e.into_iter().map(|e| format!("{:?} {:?}", e.kind, e.metadata.map(|m| m.name))).collect::<Vec<_>>());
        let (a, b, d) = (list(&bad), list(&bad.focus(&path)), list(&bad.focus("").focus(&path).focus("x.y")));
        check!(a.is_err() && b == a && d == a, "a figment failing with {:?} focused on {:?} gives {:?}, further {:?} after {}", a, path, b, d, p.describe());
        check!(bad.focus(&path).data().is_err(), "a failing figment focused on {:?} has data after {}", path, p.describe());
        c.cov.evals(2);
        c.cov.count("failing figments focused");
    }
    let after = p.fig.data().map_err(|e| Fail::new(e.to_string()))?;
    check!(before == after, "focusing changes the original");
    check!(Figment::new().focus("a").extract::<Dict>().map_or(false, |d| d.is_empty()), "focusing an empty figment");
    match known { Some(f) => Err(f), None => Ok(()) }
}

/// Profiles without data are as good as absent ones.
fn norm(d: &figment::value::Map<figment::Profile, Dict>) -> Vec<(String, Dict)> {
    d.iter().filter(|(_, d)| !d.is_empty()).map(|(p, d)| (lower(p.as_str().as_str()), d.clone())).collect()
}
