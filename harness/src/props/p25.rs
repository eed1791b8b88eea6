//! P25: a profile name is one case-insensitive name everywhere, and keeps the spelling it was given.
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStringExt;
use figment::{Figment, Profile, Provider};
use figment::providers::{Env, Format, Json, Serialized, Toml};
use figment::value::Dict;
use crate::cov::*; use crate::model::lower; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P25", case, quick: 1_000_000, thorough: 20_000_000, serial: false,
    rule: "triples of names, often equal up to case or differing in one character, built by every constructor: every comparison form, ordering, hashing, maps, prefixes, built-in names, text and serialized forms, selection and provider profiles, and lookups in hostile environments, against plain ASCII-lowercased strings; distinct by the names",
};

const BASE: &[&str] = &["default", "global", "Default", "GLOBAL", "debug", "release", "a", "", " ", "defaul", "defaults", "globale", "x y", "a.b", "é", "É", "straße", "STRASSE", "K", "K", "ſ", "s", "İ", "i", "I", "ı", "1", "[", "{", "@", "`", "z", "Z", "_", "😀", "日本", "default ", " global", "\0", "\u{7f}"];

pub fn recase(s: &str, r: &mut Rng) -> String {
    s.chars().map(|c| if r.bool() { c } else if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn name(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => r.pick(BASE).to_string(),
        2 => recase(r.pick(BASE), r),
        3 => { let n = r.range(1, 12); (0..n).map(|_| r.range(0x20, 0x7f) as u8 as char).collect() }
        4 => gen_string(r),
        _ => { let n = r.size(20, 300); string_of(r, n.min(400), &['a', 'A', 'b', 'B', 'z', 'Z', '@', '[', '`', '{', 'é', 'É', '0']) }
    }
}

/// A name related to `a`: the same up to case, one character off, a prefix, or something else.
fn related(a: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = recase(a, r).chars().collect();
    match r.below(8) {
        0..=2 => {}
        3 => { let i = r.below(c.len() + 1); c.insert(i, *r.pick(&['a', 'A', ' ', 'é', '.'])); }
        4 if !c.is_empty() => { let i = r.below(c.len()); c.remove(i); }
        // (32 apart, like letters, but no letters; or equal up to case only beyond ASCII.)
        4 | 5 if r.bool() => return lookalike(a, r),
        5 if !c.is_empty() => { let i = r.below(c.len()); c[i] = match c[i] { '@' => '`', '`' => '@', '[' => '{', '{' => '[', 'é' => 'É', 'k' | 'K' => '\u{212a}', 's' | 'S' => 'ſ', x => char::from_u32(x as u32 ^ 0x20).unwrap_or('?') } }
        6 => { let n = r.below(c.len() + 1); c.truncate(n); }
        _ => return name(r),
    }
    c.into_iter().collect()
}

fn build(s: &str, r: &mut Rng) -> Profile {
    match r.below(8) {
        0 => Profile::from(s),
        1 => s.into(),
        2 => Profile::from(s.to_string()),
        3 => Profile::from(std::borrow::Cow::Borrowed(s)),
        4 => serde_json::from_str(&serde_json::to_string(s).unwrap()).unwrap(),
        5 => Figment::from(("p", s)).extract_inner("p").unwrap(),
        6 => Profile::new(s).clone(),
        _ => Profile::new(s),
    }
}

fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if c.idx % 5 == 4 { return environment(c, r) }
    let a = name(r);
    let b = related(&a, r);
    let d = related(&b, r);
    let ns = [a, b, d];
    let ps: Vec<Profile> = ns.iter().map(|s| build(s, r)).collect();
    c.cov.distinct(&ns);
    c.cov.sample(|| format!("{:?}", ns));
    for (s, p) in ns.iter().zip(&ps) {
        // The spelling is kept.
        for (how, t) in [("as_str", p.as_str().as_str().to_string()), ("deref", (**p).as_str().to_string()), ("Display", format!("{}", p)), ("String", String::from(p.clone()))] {
            check!(t == *s, "{} of the profile named {:?} gives {:?}", how, s, t);
        }
        check!(serde_json::to_string(p).ok() == serde_json::to_string(s).ok(), "profile {:?} is serialized as {:?}", s, serde_json::to_string(p));
        let f = Figment::from(Serialized::default("p", p.clone()));
        let back: Result<(Profile, String), _> = f.extract_inner::<Profile>("p").and_then(|p| Ok((p, f.extract_inner("p")?)));
        match back {
            Ok((q, t)) => check!(q.as_str().as_str() == s && t == *s, "profile {:?} goes through a figment as {:?} and {:?}", s, q, t),
            Err(e) => fail!("profile {:?} does not go through a figment: {}", s, e),
        }
        let l = lower(s);
        check!(p.is_custom() == (l != "default" && l != "global"), "is_custom of {:?} is {}", s, p.is_custom());
        check!((*p == Profile::Default) == (l == "default") && (*p == Profile::Global) == (l == "global"), "{:?} compared with the built-in profiles: {} {}", s, *p == Profile::Default, *p == Profile::Global);
        let dict: Dict = [("k".to_string(), 1.into()), (s.clone(), 2.into())].into();
        let m = p.collect(dict.clone());
        check!(m.len() == 1 && m.get(p) == Some(&dict) && m.keys().next().unwrap().as_str().as_str() == s, "collect of {:?} gives {:?}", s, m);
        c.cov.evals(9);
    }
    for i in 0..3 {
        for j in 0..3 {
            let ((s, p), (t, q)) = ((&ns[i], &ps[i]), (&ns[j], &ps[j]));
            let want = lower(s) == lower(t);
            let (ts, us) = (t.as_str(), q.as_str());
            let forms = [("Profile == Profile", p == q), ("&Profile == Profile", p == *q), ("Profile == &Profile", *p == q), ("Profile == &str", *p == ts), ("Profile == str", *p == *ts), ("&str == Profile", ts == *p), ("str == Profile", *ts == *p),
                ("as_str == as_str", p.as_str() == us), ("!(!=)", !(p != q)), ("cmp", p.cmp(q) == Ordering::Equal), ("partial_cmp", p.partial_cmp(q) == Some(Ordering::Equal)), ("!(< or >)", !(p < q || p > q)), ("<= and >=", p <= q && p >= q)];
            for (how, got) in forms { check!(got == want, "{} is {} for {:?} and {:?}", how, got, s, t); }
            check!(p.cmp(q) == q.cmp(p).reverse(), "the order of {:?} and {:?} depends on the direction", s, t);
            if want { check!(hash(p) == hash(q), "{:?} and {:?} are equal but hash differently", s, t); c.cov.count("pairs equal up to case"); }
            let pre = lower(s).starts_with(&lower(t));
            check!(p.starts_with(t) == pre, "starts_with({:?}) of {:?} is {}", t, s, p.starts_with(t));
            let (mut bm, mut hm) = (BTreeMap::new(), HashMap::new());
            bm.insert(p.clone(), 0); hm.insert(p.clone(), 0);
            check!(bm.contains_key(q) == want && hm.contains_key(q) == want, "as map keys {:?} and {:?}: {} {}", s, t, bm.contains_key(q), hm.contains_key(q));
            c.cov.evals(forms.len() as u64 + 4);
        }
    }
    // Sorting by the order is sorting: transitive.
    let mut o: Vec<usize> = vec![0, 1, 2];
    o.sort_by(|i, j| ps[*i].cmp(&ps[*j]));
    check!(ps[o[0]] <= ps[o[1]] && ps[o[1]] <= ps[o[2]] && ps[o[0]] <= ps[o[2]], "the order of {:?} is no order", ns);
    // In figments: what a provider supplies under one spelling is there under any other.
    let (s, t) = (&ns[0], &ns[1]);
    let want = lower(s) == lower(t);
    let p: Figment = match r.below(4) {
        0 => Figment::from(Serialized::default("mark", 7).profile(ps[0].clone())),
        1 => Figment::from(Toml::string("mark = 7").profile(ps[0].clone())),
        2 => Figment::from(Json::string(&format!("{{{}: {{\"mark\": 7}}}}", serde_json::to_string(s).unwrap())).nested()),
        _ => Figment::from(Serialized::default("mark", 7)).merge(Serialized::default("mark", 7).profile(ps[0].clone())),
    };
    let both = p.clone().merge(("other", 1)).select(ps[1].clone());
    check!(both.profile().as_str().as_str() == t, "selecting {:?} reports {:?}", t, both.profile());
    let visible = want || matches!(&*lower(s), "default" | "global");
    let data = p.data().map_err(|e| Fail::new(e.to_string()))?;
    check!(data.contains_key(&ps[0]) && data.contains_key(&Profile::new(&recase(s, r))), "data for profile {:?} is in {:?}", s, data.keys().collect::<Vec<_>>());
    let direct = both.find_value("mark").is_ok();
    let dflt = data.get(&Profile::Default).map_or(false, |d| d.contains_key("mark"));
    check!(direct == (visible || dflt), "a value supplied in profile {:?} is {}visible with {:?} selected", s, if direct { "" } else { "not " }, t);
    if direct {
        let v = both.find_value("mark").unwrap();
        let want_p = match &*lower(s) { "default" => Some(Profile::Default), "global" => Some(Profile::Global), _ if visible => None, _ => Some(Profile::Default) };
        check!(v.tag().profile() == want_p, "the value supplied in profile {:?} names the profile {:?}", s, v.tag().profile());
    }
    let listed = both.profiles().filter(|p| **p == ps[0]).count();
    check!(listed == 1, "profile {:?} is listed {} times", s, listed);
    c.cov.evals(5);
    // No profile is read from anything but a string.
    let v = Gen::small().node(r);
    let f = Figment::from(Serialized::default("p", v.to_value()));
    match (&v.v, f.extract_inner::<Profile>("p")) {
        (MV::Str(s), Ok(p)) => check!(p.as_str().as_str() == s, "{:?} is read as the profile {:?}", s, p),
        // (As with any string, a character is one.)
        (MV::Char(ch), Ok(p)) => check!(p.as_str().as_str() == ch.to_string(), "{:?} is read as the profile {:?}", ch, p),
        (MV::Str(_), Err(e)) => fail!("a string is not read as a profile: {}", e),
        (_, Ok(p)) => fail!("{} is read as the profile {:?}", show(&v), p),
        (_, Err(e)) => check!(e.path == ["p"], "reading {} as a profile fails at {:?}", show(&v), e.path),
    }
    c.cov.eval();
    Ok(())
}

/// Profiles from the environment.
fn environment(c: &mut Ctx, r: &mut Rng) -> Res {
    let mut vars: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..r.range(0, 5) {
        let base = *r.pick(&["VH_PROFILE", "VH_PROFIL", "VH_PROFILE2", "VH_", "vh-prof", "VH PROFILE", "éVH", "ÉVH", "P"]);
        let n = recase(base, r);
        let n = match r.below(8) { 0 => format!(" {}", n), 1 => format!("{}\t", n), _ => n };
        let v = match r.below(8) { 0 => vec![b'x', 0xff, b'y'], 1 => vec![], 2 => b" spaced ".to_vec(), _ => name(r).replace('\0', "").into_bytes() };
        if vars.iter().all(|(m, _)| *m != n) { vars.push((n, v)); }
    }
    for (n, v) in &vars { std::env::set_var(n, std::ffi::OsString::from_vec(v.clone())); }
    let key = recase(*r.pick(&["VH_PROFILE", "VH_PROFILE", "VH_PROFIL", "vh-prof", "VH PROFILE", "ÉVH", "P", "VH_NONE"]), r);
    // Spelled differently, several variables may match: any of them will do.
    let hits: Vec<&(String, Vec<u8>)> = vars.iter().filter(|(n, _)| lower(n.trim()) == lower(&key)).collect();
    let got = Profile::from_env(&key);
    let or = Profile::from_env_or(&key, "Fall Back");
    for (n, _) in &vars { std::env::remove_var(n); }
    let fits = |p: &Profile| hits.iter().any(|(_, v)| match std::str::from_utf8(v) { Ok(s) => p.as_str().as_str() == s, Err(_) => true });
    match &got {
        None => check!(hits.is_empty(), "from_env({:?}) finds nothing in {:?}", key, vars),
        Some(p) => check!(fits(p), "from_env({:?}) is {:?} in {:?}", key, p, vars),
    }
    check!(if hits.is_empty() { or.as_str().as_str() == "Fall Back" } else { fits(&or) }, "from_env_or({:?}) is {:?} in {:?}", key, or, vars);
    c.cov.evals(2);
    c.cov.count(if hits.is_empty() { "no variable of that name" } else { "profiles from the environment" });
    c.cov.distinct(&(&vars, &key));
    // An environment provider's profile is the one configured.
    let n = name(r);
    let e = Env::raw().only(&["vh_none"]).profile(n.as_str());
    check!(Provider::data(&e).map(|d| d.keys().all(|p| p.as_str().as_str() == n)).unwrap_or(false), "an environment provider does not emit its data in {:?}", n);
    c.cov.eval();
    Ok(())
}
