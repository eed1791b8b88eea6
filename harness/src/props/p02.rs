//! P02: profile layering and selection.
use std::collections::BTreeSet;
use figment::{Figment, Profile, Provider};
use figment::value::Dict;
use crate::cov::*; use crate::model::*; use crate::mv::*;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P02", case, quick: 40_000, thorough: 900_000, serial: false,
    rule: "random histories over several profiles (differently cased names, non-ASCII names, the empty name), then extraction under every profile in play plus unknown ones, against the layering model; non-trivial: at least two profiles hold data; distinct by operation list",
};

fn recase(s: &str, r: &mut crate::rng::Rng) -> String {
    s.chars().map(|c| if c.is_ascii() && r.bool() { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}

fn case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    if c.idx % 16 == 0 { return names(c) }
    let mut cfg = HistCfg::std(Gen { depth: 2, ..Gen::small() });
    cfg.nest_depth = 2;
    cfg.steps = (1, 7);
    let mut w = World::new();
    let p = Pair::history(r, &mut w, &cfg);
    let why = |e: String| Fail::new(format!("{}\n  after {}", e, p.describe()));
    check!(p.fig.profile() == &Profile::new(&p.m.profile), "selected profile is {:?}, model says {:?} after {}", p.fig.profile(), p.m.profile, p.describe());
    let got: BTreeSet<String> = p.fig.profiles().map(|p| lower(p.as_str().as_str())).collect();
    let want: BTreeSet<String> = p.m.data.keys().cloned().collect();
    check!(got == want, "profiles() reports {:?}, model says {:?} after {}", got, want, p.describe());
    check!(p.fig.profiles().count() == want.len(), "profiles() repeats a profile: {:?}", p.fig.profiles().collect::<Vec<_>>());
    c.cov.evals(2);
    // As selected by the history itself.
    let d: Dict = p.fig.extract().map_err(|e| why(e.to_string()))?;
    Cmp::ints().dict(&p.m.extract(), &d, "extracted").map_err(why)?;
    c.cov.eval();
    let mut names: Vec<String> = p.m.data.keys().map(|k| recase(k, r)).collect();
    for _ in 0..2 { names.push(gen_profile(r)); }
    names.push("nobody".into());
    names.push("default".into());
    names.push("GLOBAL".into());
    for n in names {
        let f = match r.below(3) { 0 => p.fig.clone().select(&n), 1 => p.fig.clone().select(Profile::new(&n)), _ => p.fig.clone().select(&*n.clone()) };
        let want = p.m.layered(&n);
        let d: Dict = f.extract().map_err(|e| why(e.to_string()))?;
        Cmp::ints().dict(&want, &d, &format!("selected {:?}", n)).map_err(why)?;
        check!(f.profile() == n.as_str(), "select({:?}) selected {:?}", n, f.profile());
        // Single keys must be resolved in the same layers.
        if let Some(k) = want.keys().nth(r.below(want.len())) {
            if !k.is_empty() && !k.contains('.') {
                let v = f.find_value(k).map_err(|e| why(e.to_string()))?;
                Cmp::ints().node(&want[k], &v, k).map_err(why)?;
                c.cov.eval();
            }
        }
        c.cov.evals(2);
        c.cov.count("profiles extracted under");
        if r.chance(1, 3) {
            // Joined and adjoined providers never change the selection, merged and admerged ones do.
            let q = gen_profile(r);
            let op = *r.pick(&OPS);
            let other = Figment::new().select(&q);
            let g = op.apply(f.clone(), other);
            let want = if matches!(op, Op::Join | Op::Adjoin) { &n } else { &q };
            check!(g.profile() == &Profile::new(want), "{:?} of a figment selecting {:?} onto one selecting {:?} selects {:?}", op, q, n, g.profile());
            c.cov.eval();
        }
    }
    if p.m.data.len() >= 2 { c.cov.distinct(&p.log); c.cov.count("histories with several profiles"); }
    c.cov.sample(|| p.describe());
    Ok(())
}

/// Profile names themselves.
fn names(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    for _ in 0..8 {
        let a = if r.bool() { gen_profile(r) } else { crate::mv::gen_string(r) };
        let b = match r.below(3) { 0 => recase(&a, r), 1 => gen_profile(r), _ => format!("{}x", a) };
        let same = lower(&a) == lower(&b);
        let (pa, pb) = (Profile::new(&a), Profile::from(b.as_str()));
        check!((pa == pb) == same, "profiles {:?} == {:?} is {}", a, b, pa == pb);
        check!((pa == *b.as_str()) == same && (*b.as_str() == pa) == same && (pa == b.as_str()) == same && (b.as_str() == pa) == same, "profile {:?} and str {:?} compare inconsistently", a, b);
        check!((pa.cmp(&pb) == std::cmp::Ordering::Equal) == same, "ordering of {:?} and {:?} disagrees with equality", a, b);
        let mut h = std::collections::HashSet::new();
        h.insert(pa.clone());
        check!(h.contains(&pb) == same, "hashing of {:?} and {:?} disagrees with equality", a, b);
        let custom = lower(&a) != "default" && lower(&a) != "global";
        check!(pa.is_custom() == custom, "is_custom({:?}) is {}", a, pa.is_custom());
        check!(pa.to_string() == a && String::from(pa.clone()) == a, "profile {:?} displays as {:?}", a, pa.to_string());
        let pre = recase(&a.chars().take(2).collect::<String>(), r);
        check!(pa.starts_with(&pre), "profile {:?} does not start with {:?}", a, pre);
        check!(pa.starts_with(&b) == lower(&a).starts_with(&lower(&b)), "starts_with({:?}, {:?})", a, b);
        // A profile is an ordinary value when (de)serialized.
        let v = figment::value::Value::serialize(&pa).map_err(|e| Fail::new(e.to_string()))?;
        check!(v.as_str() == Some(&a), "profile {:?} serializes as {:?}", a, v);
        let back: Profile = v.deserialize().map_err(|e| Fail::new(e.to_string()))?;
        check!(back == pa, "profile {:?} deserializes as {:?}", a, back);
        let dict = figment::util::map!["k".to_string() => figment::value::Value::from(1u8)];
        let col = pa.collect(dict.clone());
        check!(col.len() == 1 && col.get(&pa) == Some(&dict), "collect gives {:?}", col);
        c.cov.evals(9);
        c.cov.distinct(&(a.clone(), b.clone()));
        // From the environment: names trimmed and case-insensitive, value as is.
        let var = format!("VH_PROFILE_{}", r.below(100));
        let val = a.replace('\0', "");
        let shown = match r.below(3) { 0 => var.clone(), 1 => format!(" {} ", var), _ => recase(&var, r) };
        std::env::set_var(&shown, &val);
        let got = Profile::from_env(&recase(&var, r));
        let or = Profile::from_env_or(&var, "fallback");
        std::env::remove_var(&shown);
        check!(got.as_ref().map(|p| p.to_string()) == Some(val.clone()), "from_env of {:?}={:?} gives {:?}", shown, val, got);
        check!(or == Profile::new(&val), "from_env_or of {:?}={:?} gives {:?}", shown, val, or);
        check!(Profile::from_env(&var).is_none(), "from_env of an unset variable gives something");
        check!(Profile::from_env_or(&var, "fallback") == "fallback", "from_env_or of an unset variable ignores the fallback");
        c.cov.evals(4);
    }
    if Figment::new().profile() != "default" || Figment::new().extract::<Dict>().map_or(true, |d| !d.is_empty()) { fail!("a new figment is not empty and default") }
    if Figment::from(("a", 1)).data().map_or(true, |d| d.len() != 1 || !d.contains_key(&Profile::Global)) { fail!("a (key, value) pair is not global") }
    Ok(())
}
