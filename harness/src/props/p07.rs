//! P07: all ways of addressing a key path agree.
use figment::{Figment, error::Kind};
use figment::providers::Serialized;
use figment::value::{Value, Dict, magic::Tagged};
use crate::cov::*; use crate::model::*; use crate::mv::*;
use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P07", case, quick: 60_000, thorough: 1_000_000, serial: false,
    rule: "random configurations (including empty, dotted and non-ASCII keys) and random existing, near-miss and malformed key paths, judged by seven lookup routes against a walk of the model; and values supplied under random paths; non-trivial: the path has at least one component and the configuration is not empty; distinct by (configuration, path)",
};

/// The components a path denotes: up to the first empty one.
pub fn comps(path: &str) -> Vec<String> { path.split('.').take_while(|s| !s.is_empty()).map(|s| s.to_string()).collect() }

pub fn gen_path(r: &mut Rng, root: &MDict) -> String {
    let mut parts: Vec<String> = vec![];
    let mut cur = Some(root);
    let stop = r.below(6);
    while let Some(d) = cur {
        if d.is_empty() || parts.len() > stop + 1 { break }
        let (k, n) = d.iter().nth(r.below(d.len())).unwrap();
        parts.push(k.clone());
        cur = n.dict();
    }
    let mut s = match r.below(12) {
        0 => { parts.push(r.pick(KEYS).to_string()); parts.join(".") }
        1 => { parts.push("0".into()); parts.join(".") }
        2 => { if !parts.is_empty() { let i = r.below(parts.len()); parts[i] = r.pick(KEYS).to_string(); } parts.join(".") }
        3 => { if !parts.is_empty() { let i = r.below(parts.len()); parts[i] = { let p = &parts[i]; if p.chars().any(|c| c.is_ascii_lowercase()) { p.to_ascii_uppercase() } else { format!("{} ", p) } }; } parts.join(".") }
        4 => { let i = r.below(parts.len() + 1); parts.insert(i, "".into()); parts.join(".") }
        5 => format!("{}.", parts.join(".")),
        6 => (*r.pick(&["", ".", "..", "a..b", " ", "a.b.c.d.e.f", ".a"])).into(),
        _ => parts.join("."),
    };
    if r.chance(1, 200) { let k = r.range(10, 400); s = vec!["a"; k].join("."); }
    s
}

fn judge_path(c: &mut Ctx, fig: &Figment, root: &Node, extracted: &Value, path: &str, log: &str) -> Res {
    let want = root.walk(&comps(path));
    let found = fig.find_value(path);
    let by_ref = extracted.find_ref(path);
    let by_val = extracted.clone().find(path);
    let inner = fig.extract_inner::<Value>(path);
    let inner_lossy = fig.extract_inner_lossy::<Value>(path);
    let tagged = fig.extract_inner::<Tagged<Value>>(path);
    let exists = fig.contains(path);
    c.cov.evals(7);
    match want {
        Some(n) => {
            let ok = |what: &str, v: &Value| Cmp::ints().node(n, v, path).map_err(|e| Fail::new(format!("{} of {:?}: {}\n  in {}", what, path, e, log)));
            match &found { Ok(v) => ok("find_value", v)?, Err(e) => fail!("find_value({:?}) fails ({}), model has {} in {}", path, e, show(n), log) }
            match by_ref { Some(v) => ok("find_ref", v)?, None => fail!("find_ref({:?}) misses, model has {} in {}", path, show(n), log) }
            match &by_val { Some(v) => ok("Value::find", v)?, None => fail!("Value::find({:?}) misses, model has {} in {}", path, show(n), log) }
            match &inner { Ok(v) => ok("extract_inner", v)?, Err(e) => fail!("extract_inner({:?}) fails ({}), model has {} in {}", path, e, show(n), log) }
            match &inner_lossy { Ok(v) => ok("extract_inner_lossy", v)?, Err(e) => fail!("extract_inner_lossy({:?}) fails ({}) in {}", path, e, log) }
            match &tagged { Ok(v) => ok("extract_inner Tagged", v)?, Err(e) => fail!("extract_inner::<Tagged>({:?}) fails ({}) in {}", path, e, log) }
            check!(exists, "contains({:?}) is false, model has {} in {}", path, show(n), log);
            let md = fig.find_metadata(path).map(|m| m.name.to_string());
            let tag = found.as_ref().unwrap().tag();
            check!(md == fig.get_metadata(tag).map(|m| m.name.to_string()), "find_metadata({:?}) is {:?}, not the value's", path, md);
            if !comps(path).is_empty() { check!(md.is_some(), "find_metadata({:?}) finds nothing for a present value in {}", path, log); }
            c.cov.count("paths that exist");
        }
        None => {
            for (what, e) in [("find_value", found.err()), ("extract_inner", inner.err()), ("extract_inner_lossy", inner_lossy.err()),
                              ("extract_inner Tagged", tagged.err()), ("extract_inner Option", fig.extract_inner::<Option<Value>>(path).err())] {
                match e {
                    Some(e) => {
                        check!(e.missing() && matches!(&e.kind, Kind::MissingField(p) if p == path), "{}({:?}) of an absent path fails with {:?} instead of a missing field naming it, in {}", what, path, e.kind, log);
                        check!(e.count() == 1 && e.path.is_empty(), "{}({:?}) of an absent path reports path {:?}", what, path, e.path);
                    }
                    None => fail!("{}({:?}) finds something, model has nothing there in {}", what, path, log),
                }
            }
            check!(by_ref.is_none() && by_val.is_none(), "find/find_ref({:?}) find {:?}/{:?}, model has nothing there in {}", path, by_ref, by_val, log);
            check!(!exists, "contains({:?}) holds, model has nothing there in {}", path, log);
            check!(fig.find_metadata(path).is_none(), "find_metadata({:?}) finds something, model has nothing there in {}", path, log);
            c.cov.count("paths that do not exist");
        }
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    if c.idx % 4 == 0 { return supply(c) }
    let mut r = c.rng.fork();
    let r = &mut r;
    let mut cfg = HistCfg::std(if r.chance(2, 3) { Gen::addr() } else { Gen::small() });
    cfg.steps = (1, 3);
    cfg.gen.depth = 4;
    let mut w = World::new();
    let p = Pair::history(r, &mut w, &cfg);
    let d = p.m.extract();
    let root = Node::new(MV::Dict(d.clone()));
    let extracted: Value = p.fig.extract().map_err(|e| Fail::new(e.to_string()))?;
    let log = p.describe();
    for _ in 0..10 {
        let path = gen_path(r, &d);
        judge_path(c, &p.fig, &root, &extracted, &path, &log)?;
        if !d.is_empty() && !comps(&path).is_empty() { c.cov.distinct(&(show_dict(&d), path.clone())); }
        c.cov.sample(|| format!("{:?} in {}", path, show_dict(&d)));
    }
    Ok(())
}

/// A value supplied under a path appears exactly there.
fn supply(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let g = Gen::small();
    let n = g.clone().with_depth(2).node(r);
    let k = if r.chance(1, 40) { r.range(10, 200) } else { r.range(1, 5) };
    let path_comps: Vec<String> = (0..k).map(|_| r.pick(KEYS).to_string()).collect();
    let mut path = path_comps.join(".");
    if r.chance(1, 6) { path = format!("{}.{}", path, *r.pick(&["", ".x", ".", "..y.z"])); }
    let eff = comps(&path);
    let want = nest_model(&eff, n.clone());
    let v = n.to_value();
    let nested = figment::util::nest(&path, v.clone());
    let root = Node::new(MV::Dict(want.clone()));
    let bad = |e: String| Fail::new(format!("{} (value {} under {:?})", e, show(&n), path));
    Cmp::plain().node(&root, &nested, "nest").map_err(bad)?;
    check!(nested.find_ref(&path).map_or(false, |x| Cmp::plain().node(&n, x, "").is_ok()), "nest then find_ref({:?}) does not give the value back", path);
    let figs = [
        ("tuple", Figment::from((path.as_str(), v.clone()))),
        ("Serialized::default", Figment::from(Serialized::default(&path, v.clone()))),
        ("Serialized::global", Figment::from(Serialized::global(&path, v.clone()))),
        ("Serialized.key", Figment::from(Serialized::defaults(v.clone()).key(&path))),
        ("Serialized.profile", Figment::new().select("p").merge(Serialized::from(v.clone(), "x").key("other").key(&path).profile("P"))),
    ];
    for (what, f) in figs {
        let d: Dict = f.extract().map_err(|e| bad(format!("{} fails: {}", what, e)))?;
        Cmp::plain().dict(&want, &d, what).map_err(bad)?;
        c.cov.eval();
        let x = f.find_value(&path).map_err(|e| bad(format!("{}: {}", what, e)))?;
        Cmp::plain().node(&n, &x, what).map_err(bad)?;
        let cut = r.below(eff.len() + 1);
        let mid = f.find_value(&eff[..cut].join(".")).map_err(|e| bad(format!("{}: {}", what, e)))?;
        let mid_want = root.walk(&eff[..cut]).unwrap();
        Cmp::plain().node(mid_want, &mid, what).map_err(bad)?;
        c.cov.evals(2);
    }
    // The empty path denotes the whole value: a dictionary becomes the root, anything else is refused.
    for p in ["", ".", ".a"] {
        let f = Figment::from((p, v.clone()));
        match (&n.v, f.extract::<Dict>()) {
            (MV::Dict(d), Ok(got)) => Cmp::plain().dict(d, &got, "root").map_err(bad)?,
            (MV::Dict(_), Err(e)) => fail!("a dictionary under the empty path {:?} fails: {}", p, e),
            (_, Ok(got)) => fail!("a non-dictionary {} under the empty path {:?} becomes {:?}", show(&n), p, got),
            (_, Err(e)) => check!(matches!(e.kind, Kind::InvalidType(..)), "unexpected error {:?}", e.kind),
        }
        c.cov.eval();
    }
    c.cov.distinct(&(show_full(&n), path.clone()));
    c.cov.count("values supplied under a path");
    Ok(())
}
