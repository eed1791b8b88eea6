//! P13: sources are read once; reading changes nothing.
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
use figment::{Figment, Provider, Metadata, Profile, Error};
use figment::providers::{Env, Json, Toml, Yaml, Serialized, Format};
use figment::value::{Map, Dict, Value, magic::Tagged};
use crate::cov::*; use crate::model::*; use crate::mv::*;
use crate::rng::Rng;
use super::{Prop, p07};
use crate::check;

pub const P: Prop = Prop {
    id: "P13", case, quick: 160_000, thorough: 350_000, serial: false,
    rule: "interleavings of adding sources (files, environment, mutable providers, figments), mutating them, cloning and read operations; each read is repeated later on the figment and on fresh clones and must give the recorded result, and every provider's data is fetched exactly once; non-trivial: at least one source was mutated after being added; distinct by operation log",
};

/// A provider whose state can change and which counts how often it is asked.
#[derive(Clone)]
struct Live { state: Arc<Mutex<Result<Dict, String>>>, asked: Arc<AtomicUsize>, name: String, profile: Arc<Mutex<Option<String>>> }
impl Provider for Live {
    fn metadata(&self) -> Metadata { Metadata::named(self.name.clone()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        self.asked.fetch_add(1, Ordering::SeqCst);
        let d = self.state.lock().unwrap().clone().map_err(Error::from)?;
        Ok(Profile::Default.collect(d))
    }
    fn profile(&self) -> Option<Profile> { self.profile.lock().unwrap().as_deref().map(Profile::new) }
}

/// A textual record of everything a read returns, tags and metadata included.
pub fn observe(f: &Figment, what: usize, path: &str) -> String {
    fn tags(v: &Value, o: &mut String) {
        *o += &format!("{:?}/{:?};", v.tag(), v.tag().profile());
        match v { Value::Dict(_, d) => d.values().for_each(|v| tags(v, o)), Value::Array(_, a) => a.iter().for_each(|v| tags(v, o)), _ => {} }
    }
    fn val(v: &Value) -> String { let mut o = format!("{:?} ", v); tags(v, &mut o); o }
    match what {
        0 => format!("{:?}", f.extract::<Value>().map(|v| val(&v)).map_err(|e| format!("{:?}", e))),
        1 => format!("{:?}", f.find_value(path).map(|v| val(&v)).map_err(|e| format!("{:?}", e))),
        2 => format!("{:?}", f.contains(path)),
        3 => format!("{:?}", f.find_metadata(path)),
        4 => format!("{:?}", f.metadata().map(|m| format!("{:?}", m)).collect::<Vec<_>>()),
        5 => format!("{:?} {:?}", f.profile(), f.profiles().collect::<Vec<_>>()),
        6 => format!("{:?}", f.focus(path).extract::<Value>().map(|v| val(&v)).map_err(|e| format!("{:?}", e))),
        7 => format!("{:?}", f.extract_inner::<u8>(path).map_err(|e| format!("{:?}", e))),
        8 => format!("{:?}", f.extract_lossy::<std::collections::BTreeMap<String, bool>>().map_err(|e| format!("{:?}", e))),
        9 => format!("{:?}", f.clone().select("debug").extract::<Value>().map(|v| val(&v)).map_err(|e| format!("{:?}", e))),
        10 => format!("{:?}", f.data().map(|d| d.into_iter().map(|(p, d)| (p, val(&Value::from(d)))).collect::<Vec<_>>()).map_err(|e| format!("{:?}", e))),
        11 => format!("{:?}", f.extract_inner::<Tagged<String>>(path).map(|t| (t.tag(), t.into_inner())).map_err(|e| format!("{:?}", e))),
        12 => format!("{:?}", f.clone().merge(("zz.yy", 1)).join(("zz", "q")).extract::<Value>().map(|v| format!("{:?}", v)).map_err(|e| format!("{:?}", e))),
        _ => format!("{:?}", f),
    }
}
pub const READS: usize = 14;

/// Rewrites a file in a way that is hard to notice: as long as before, and as old.
fn rewrite(f: &str, by: u8) {
    let (Ok(m), Ok(t)) = (std::fs::metadata(f), std::fs::read_to_string(f)) else { return };
    let t: String = t.chars().map(|c| match c.to_digit(10) { Some(d) => char::from(b'0' + ((d as u8 + 1 + by % 9) % 10)), None => c }).collect();
    let _ = std::fs::write(f, t);
    if let (Ok(f), Ok(t)) = (std::fs::File::options().write(true).open(f), m.modified()) { let _ = f.set_modified(t); }
}

struct Sources { live: Vec<Live>, files: Vec<String>, vars: Vec<String> }

fn mutate(c: &mut Ctx, r: &mut Rng, s: &mut Sources, log: &mut Vec<String>) {
    match r.below(5) {
        0 if !s.live.is_empty() => {
            let l = r.pick(&s.live);
            *l.state.lock().unwrap() = if r.chance(1, 3) { Err("now broken".into()) } else { Ok(dict_to_value(&Gen::addr().with_depth(2).dict(r))) };
            *l.profile.lock().unwrap() = Some(gen_profile(r));
            log.push(format!("mutate {}", l.name));
        }
        1 if !s.files.is_empty() => {
            let f = r.pick(&s.files).clone();
            match r.below(4) { 0 => { let _ = std::fs::remove_file(&f); } 1 => rewrite(&f, r.next() as u8), 2 => { let _ = std::fs::write(&f, "not = = valid {"); } _ => { let _ = std::fs::write(&f, "a = 99\nkey = \"changed\"\n"); } }
            log.push(format!("change {}", f));
        }
        2 => { let k = format!("VHX_{}", ["A", "B", "KEY"][r.below(3)]); std::env::set_var(&k, format!("{}", r.below(1000))); s.vars.push(k.clone()); log.push(format!("set {}", k)); }
        3 => { for k in s.vars.drain(..) { std::env::remove_var(k); } log.push("unset".into()); }
        _ => {
            let d = c.scratch.join(format!("d{}", r.below(3)));
            let _ = std::fs::create_dir_all(&d);
            let _ = std::env::set_current_dir(&d);
            log.push(format!("cd {}", d.display()));
        }
    }
    c.cov.count("mutations of sources");
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let _ = std::env::set_current_dir(&c.scratch);
    let mut s = Sources { live: vec![], files: vec![], vars: vec![] };
    let mut log: Vec<String> = vec![];
    let res = if c.idx % 16 == 7 { environment(c, r, &mut s, &mut log) } else { body(c, r, &mut s, &mut log) };
    for k in &s.vars { std::env::remove_var(k); }
    for f in &s.files { let _ = std::fs::remove_file(f); }
    let _ = std::env::set_current_dir(&c.scratch);
    res.map_err(|f| Fail { msg: format!("{}\n  in {}", f.msg, cut_str(&log.join("; "), 1500)), ..f })
}

/// The environment changes, noticeably or not, between uses of the same and of other environment sources.
fn environment(c: &mut Ctx, r: &mut Rng, s: &mut Sources, log: &mut Vec<String>) -> Res {
    let n = if r.bool() { r.range(1, 6) } else { r.range(20, 150) };
    let mut now: std::collections::BTreeMap<String, u32> = Default::default();
    let name = |i: usize| format!("VHE_N{:03}", i);
    for i in 0..n { let v = r.range(100, 999) as u32; std::env::set_var(name(i), v.to_string()); s.vars.push(name(i)); now.insert(name(i), v); }
    let sources = [Env::prefixed("VHE_"), Env::raw(), Env::raw().only(&["vhe_n000", "VHE_N001", "vhe_n010"]), Env::prefixed("vhe_").lowercase(false), Env::raw().filter(|k| k.starts_with("VHE_"))];
    let mut old: Vec<(Figment, Dict)> = vec![];
    let steps = r.range(2, 8);
    log.push(format!("{} variables", n));
    for step in 0..steps {
        let i = r.below(n);
        match if step == 0 { 9 } else { r.below(6) } {
            // The same names; values as long as before.
            0..=2 => { let v = r.range(100, 999) as u32; std::env::set_var(name(i), v.to_string()); now.insert(name(i), v); log.push(format!("{}={}", name(i), v)); }
            3 => { let v = r.below(100_000) as u32; std::env::set_var(name(i), v.to_string()); now.insert(name(i), v); log.push(format!("{}={}", name(i), v)); }
            // As many names.
            4 => { std::env::remove_var(name(i)); now.remove(&name(i)); let k = name(n + step); std::env::set_var(&k, "777"); s.vars.push(k.clone()); now.insert(k, 777); log.push(format!("-{} +{}", name(i), name(n + step))); }
            5 => { std::env::remove_var(name(i)); now.remove(&name(i)); log.push(format!("-{}", name(i))); }
            _ => {}
        }
        for _ in 0..2 {
            let k = r.below(sources.len());
            let f = match r.below(3) { 0 => Figment::from(&sources[k]), 1 => Figment::from(sources[k].clone()), _ => Figment::new().join(&sources[k]) };
            let d: Dict = f.extract().map_err(|e| Fail::new(e.to_string()))?;
            let got: std::collections::BTreeMap<String, u32> = d.iter().filter(|(k, _)| matches!(k.to_ascii_lowercase(), l if l.starts_with("vhe_n") || l.starts_with('n') && l.len() == 4)).filter_map(|(k, v)| Some((k.to_ascii_lowercase().trim_start_matches("vhe_").to_string(), v.to_u128()? as u32))).collect();
            let want: std::collections::BTreeMap<String, u32> = now.iter().map(|(k, v)| (k.to_ascii_lowercase().trim_start_matches("vhe_").to_string(), *v)).filter(|(x, _)| k != 2 || ["n000", "n001", "n010"].contains(&x.as_str())).collect();
            c.cov.eval();
            if got != want {
                let diff: Vec<String> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| format!("{} is {:?}, not {}", k, got.get(k), v)).chain(got.keys().filter(|k| !want.contains_key(*k)).map(|k| format!("{} is there", k))).collect();
                return Err(Fail::new(format!("environment source {} reads other variables than there are when it is added: {}", k, cut_str(&diff.join(", "), 400))))
            }
            if r.chance(1, 3) { old.push((f, d)); }
        }
        let v = Env::var(&name(i).to_ascii_lowercase()).and_then(|v| v.parse::<u32>().ok());
        check!(v == now.get(&name(i)).copied(), "Env::var of {} gives {:?}, it is {:?}", name(i), v, now.get(&name(i)));
        c.cov.eval();
        for (f, d) in &old { c.cov.eval(); check!(f.extract::<Dict>().ok().as_ref() == Some(d), "a figment changes with the environment"); }
    }
    c.cov.count("environments changed between uses of a source");
    c.cov.distinct(log);
    Ok(())
}

fn body(c: &mut Ctx, r: &mut Rng, s: &mut Sources, log: &mut Vec<String>) -> Res {
    let g = Gen::addr().with_depth(2);
    let mut figs: Vec<(Figment, Vec<(usize, String, String)>)> = vec![(Figment::new(), vec![])];
    let mut mutated = false;
    let steps = r.range(4, 14);
    for step in 0..steps {
        match r.below(8) {
            // Add a source to some figment: the combination is new, and the original must stay as it was.
            0..=2 => {
                let i = r.below(figs.len());
                let old = figs[i].0.clone();
                let op = *r.pick(&OPS);
                let new = match r.below(6) {
                    0 | 1 => {
                        let l = Live { state: Arc::new(Mutex::new(Ok(dict_to_value(&g.dict(r))))), asked: Default::default(), name: format!("live{}", step), profile: Default::default() };
                        s.live.push(l.clone());
                        log.push(format!("{:?} {} to #{}", op, l.name, i));
                        let f = if r.bool() { op.apply(old, &l) } else { op.apply(old, l.clone()) };
                        check!(l.asked.load(Ordering::SeqCst) == 1, "a provider was asked for its data {} times when added", l.asked.load(Ordering::SeqCst));
                        c.cov.eval();
                        // A provider that fails, or has nothing, isn't asked again either.
                        let odd = Live { state: Arc::new(Mutex::new(if r.bool() { Err("no data".to_string()) } else { Ok(Dict::new()) })), asked: Default::default(), name: "odd".into(), profile: Default::default() };
                        let f2 = (if r.bool() { *r.pick(&OPS) } else { op }).apply(f.clone(), &odd);
                        let (_, _) = (f2.extract::<Dict>().is_ok(), f2.find_value("a").is_ok());
                        check!(odd.asked.load(Ordering::SeqCst) == 1, "a provider giving {:?} was asked for its data {} times", odd.state.lock().unwrap().is_ok(), odd.asked.load(Ordering::SeqCst));
                        c.cov.eval();
                        // What was captured is the state at this moment.
                        let want = l.state.lock().unwrap().clone().unwrap();
                        let got: Dict = Figment::from(&l).extract().map_err(|e| Fail::new(e.to_string()))?;
                        l.asked.store(1, Ordering::SeqCst);
                        check!(got == want, "captured {:?}, the provider held {:?}", got, want);
                        f
                    }
                    2 => {
                        let ext = *r.pick(&["toml", "json", "yaml"]);
                        let name = c.scratch.join(format!("f{}.{}", step, ext)).display().to_string();
                        let early_exists = r.bool();
                        let (body1, body2) = match ext { "toml" => ("a = 1\nkey = \"file\"\n", "a = 2\n"), "json" => ("{\"a\": 1, \"key\": \"file\"}", "{\"a\": 2}"), _ => ("a: 1\nkey: file\n", "a: 2\n") };
                        if early_exists { let _ = std::fs::write(&name, body2); }
                        s.files.push(name.clone());
                        log.push(format!("{:?} {} to #{}", op, name, i));
                        // The provider is built first; what counts is the content when it is added.
                        let f = match ext {
                            "toml" => { let p = Toml::file(&name); std::fs::write(&name, body1).unwrap(); op.apply(Figment::new(), p) }
                            "json" => { let p = Json::file(&name); std::fs::write(&name, body1).unwrap(); op.apply(Figment::new(), p) }
                            _ => { let p = Yaml::file(&name); std::fs::write(&name, body1).unwrap(); op.apply(Figment::new(), p) }
                        };
                        // The content changes, noticeably or not; a second source added now holds the new content, the first the old.
                        let body3 = body1.replace('1', "7");
                        let old_time = std::fs::metadata(&name).and_then(|m| m.modified()).ok();
                        std::fs::write(&name, &body3).unwrap();
                        if r.bool() { if let (Ok(f), Some(t)) = (std::fs::File::options().write(true).open(&name), old_time) { let _ = f.set_modified(t); } }
                        let f2 = match ext { "toml" => op.apply(Figment::new(), Toml::file(&name)), "json" => op.apply(Figment::new(), Json::file(&name)), _ => op.apply(Figment::new(), Yaml::file(&name)) };
                        check!(f2.extract_inner::<u8>("a").ok() == Some(7), "a file source added after the file changed does not hold the new content: {:?}", f2.extract_inner::<u8>("a"));
                        c.cov.eval();
                        if r.bool() { std::fs::write(&name, "garbage [").unwrap(); }
                        check!(f.extract_inner::<u8>("a").ok() == Some(1), "a file source does not hold the file's content at the time it was added: {:?}", f.extract_inner::<u8>("a"));
                        c.cov.eval();
                        op.apply(old, f)
                    }
                    3 => {
                        let e = Env::prefixed("VHX_");
                        std::env::set_var("VHX_KEY", "at-add");
                        s.vars.push("VHX_KEY".into());
                        log.push(format!("{:?} env to #{}", op, i));
                        let f = op.apply(Figment::new(), e);
                        std::env::set_var("VHX_KEY", "later");
                        check!(f.extract_inner::<String>("key").ok().as_deref() == Some("at-add"), "an environment source does not hold the variables at the time it was added: {:?}", f.extract_inner::<String>("key"));
                        c.cov.eval();
                        op.apply(old, f)
                    }
                    4 => {
                        let cell = Arc::new(Mutex::new(r.below(100)));
                        struct Cellish(Arc<Mutex<usize>>);
                        impl serde::Serialize for Cellish {
                            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serde::Serialize::serialize(&*self.0.lock().unwrap(), s) }
                        }
                        let v = *cell.lock().unwrap();
                        let f = op.apply(Figment::new(), Serialized::default("cell", Cellish(cell.clone())));
                        *cell.lock().unwrap() = 12345;
                        check!(f.extract_inner::<usize>("cell").ok() == Some(v), "a serialized value is not captured when added");
                        c.cov.eval();
                        log.push(format!("{:?} cell to #{}", op, i));
                        op.apply(old, f)
                    }
                    _ => { let j = r.below(figs.len()); log.push(format!("{:?} #{} to #{}", op, j, i)); let o = figs[j].0.clone(); if r.bool() { op.apply(old, &o) } else { op.apply(old, o) } }
                };
                figs.push((new, vec![]));
            }
            3 => { let i = r.below(figs.len()); let f = figs[i].0.clone(); let rec = figs[i].1.clone(); log.push(format!("clone #{}", i)); figs.push((f, rec)); }
            4 | 5 => { mutate(c, r, s, log); if !s.live.is_empty() || !s.files.is_empty() { mutated = true; } }
            _ => {
                // Record some reads.
                let i = r.below(figs.len());
                for _ in 0..3 {
                    let what = r.below(READS);
                    let d = figs[i].0.extract::<Dict>().unwrap_or_default();
                    let path = { let k: Vec<&String> = d.keys().collect(); if k.is_empty() || r.chance(1, 4) { r.pick(KEYS).to_string() } else { r.pick(&k).to_string() } };
                    let got = observe(&figs[i].0, what, &path);
                    figs[i].1.push((what, path, got));
                }
                log.push(format!("read #{}", i));
            }
        }
        // What one figment answers does not depend on what its relatives were asked.
        if r.chance(1, 10) {
            let i = r.below(figs.len());
            let f = figs[i].0.clone();
            let d = f.extract::<Dict>().unwrap_or_default();
            let path = { let k: Vec<&String> = d.keys().collect(); if k.is_empty() || r.chance(1, 4) { r.pick(KEYS).to_string() } else { r.pick(&k).to_string() } };
            let at = if r.bool() { path.clone() } else { r.pick(KEYS).to_string() };
            let kin = [f.focus(&at), f.clone().select(gen_profile(r)), f.focus(&path).focus(&at), f.clone().merge((path.as_str(), 7u8)), f.clone().join(("zz", 7u8)), Figment::from(&f), f.clone()];
            for g in &kin {
                let what = *r.pick(&[1, 2, 2, 3, 5, 6, 7]);
                // Apart from every thread-wide memory.
                let apart = |g: &Figment| std::thread::scope(|s| s.spawn(|| observe(g, what, &path)).join().unwrap());
                let _ = observe(&f, what, &path);
                let now = observe(g, what, &path);
                let fresh = apart(g);
                c.cov.eval();
                check!(now == fresh, "read {} of {:?} gave {} right after the same read of a relative, by itself {}", what, path, cut_str(&now, 500), cut_str(&fresh, 500));
            }
            c.cov.count("reads between relatives");
        }
        // Every recorded read must still give what it gave, in any order, on the figment and on a fresh clone.
        for (i, (f, rec)) in figs.iter().enumerate() {
            let k = rec.len();
            for _ in 0..k.min(4) {
                let (what, path, old) = &rec[r.below(k)];
                let now = if r.bool() { observe(f, *what, path) } else { observe(&f.clone(), *what, path) };
                c.cov.eval();
                check!(*old == now, "read {} of {:?} on figment #{} gave {} and now gives {}", what, path, i, cut_str(old, 500), cut_str(&now, 500));
            }
        }
    }
    for l in &s.live { check!(l.asked.load(Ordering::SeqCst) == 1, "provider {} was asked for its data {} times", l.name, l.asked.load(Ordering::SeqCst)); c.cov.eval(); }
    if mutated { c.cov.distinct(log); }
    c.cov.add("recorded reads", figs.iter().map(|f| f.1.len() as u64).sum());
    c.cov.sample(|| log.join("; "));
    let _ = p07::comps("");
    Ok(())
}
