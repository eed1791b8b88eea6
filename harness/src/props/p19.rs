//! P19: concurrent building and reading.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Barrier, Mutex, mpsc, atomic::{AtomicUsize, Ordering}};
use std::time::Duration;
use figment::{Error, Figment, Metadata, Profile, Provider};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::{Dict, Map, Tag, Value, magic::{RelativePathBuf, Tagged}};
use crate::cov::*; use crate::mv::*; use crate::model::*; use crate::rng::Rng;
use super::{p13, Prop};
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P19", case, quick: 30_000, thorough: 400_000, serial: false,
    rule: "2-6 threads released by a barrier build, clone, combine and read figments at once; each value must resolve to its own provider, no identity may occur twice, each concurrent read must equal the single-threaded one; distinct by the observed order in which the threads' operations interleaved",
};

/// Sharing that does not depend on `T: Sync`, so a figment that stopped being `Sync` is reported, not a build failure.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> { fn get(&self) -> &T { &self.0 } fn take(self) -> T { self.0 } }

struct Is<T: ?Sized>(std::marker::PhantomData<T>);
trait No { const YES: bool = false; }
impl<T: ?Sized> No for Is<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send + Sync> Is<T> { const YES: bool = true; }

/// The log of an execution: which thread did its next operation, in the order seen.
struct Log { order: Mutex<Vec<u8>> }
impl Log { fn mark(&self, t: usize) { self.order.lock().unwrap().push(t as u8) } }

fn spin(r: &mut Rng) { match r.below(6) { 0 => std::thread::yield_now(), 1 => for _ in 0..r.below(400) { std::hint::spin_loop() }, 2 => std::thread::sleep(Duration::from_micros(r.below(60) as u64)), _ => () } }

struct Slow(Dict, String, u64);
impl Provider for Slow {
    fn metadata(&self) -> Metadata { Metadata::named(self.1.clone()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        for _ in 0..self.2 { std::hint::spin_loop() }
        Ok(Profile::Default.collect(self.0.clone()))
    }
}

/// Runs `f(thread)` on `n` threads released together; a thread that never ends is a violation.
fn together<T: 'static>(n: usize, f: impl Fn(usize) -> T + 'static) -> Result<Vec<T>, Fail> {
    let f = Arc::new(Shared(f));
    let bar = Arc::new(Barrier::new(n));
    let (tx, rx) = mpsc::channel::<Shared<(usize, Result<T, String>)>>();
    for t in 0..n {
        let (f, bar, tx) = (f.clone(), bar.clone(), tx.clone());
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            bar.wait();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.get())(t))).map_err(|_| crate::sup::last_panic());
            drop(f);
            let _ = tx.send(Shared((t, r)));
        }).map_err(|e| Fail::new(format!("spawn: {}", e)))?;
    }
    drop((tx, f));
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(100)) {
            Ok(s) => { let (t, r) = s.take(); match r { Ok(v) => out[t] = Some(v), Err(p) => fail!("thread {} panicked: {}", t, p) } }
            Err(_) => fail!("a thread did not finish within 100 s while {} threads used figments at once", n),
        }
    }
    Ok(out.into_iter().map(|o| o.unwrap()).collect())
}

/// (key, name of the provider that must own it, expected value) for each leaf a thread added.
type Claim = (String, String, Value);

fn build_one(t: usize, i: usize, r: &mut Rng, claims: &mut Vec<Claim>) -> Figment {
    let key = format!("t{}k{}", t, i);
    let n = r.below(100_000);
    match r.below(6) {
        0 => { claims.push((key.clone(), "TOML source string".into(), n.into())); Figment::from(Toml::string(&format!("{} = {}", key, n))) }
        1 => { claims.push((key.clone(), "JSON source string".into(), n.into())); Figment::from(Json::string(&format!("{{\"{}\": {}}}", key, n))) }
        2 => { claims.push((key.clone(), "YAML source string".into(), n.into())); Figment::from(Yaml::string(&format!("{}: {}", key, n))) }
        3 => { claims.push((key.clone(), "usize".into(), n.into())); Figment::from(Serialized::default(&key, n)) }
        4 => { claims.push((key.clone(), "`VHT_` environment variable(s)".into(), (t * 100 + i).into())); Figment::from(Env::prefixed("VHT_").only(&[&key])) }
        _ => {
            let mut d = Dict::new();
            d.insert(key.clone(), n.into());
            let name = format!("slow {} {}", t, i);
            claims.push((key.clone(), name.clone(), n.into()));
            Figment::from(Slow(d, name, r.below(300) as u64))
        }
    }
}

/// Threads build figments; the main thread combines them.
fn build_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let threads = r.range(2, 6);
    let per = r.range(2, 12);
    let seeds: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let log = Arc::new(Log { order: Mutex::new(vec![]) });
    let l2 = log.clone();
    let parts = together(threads, move |t| {
        let mut r = seeds[t].clone();
        let mut claims: Vec<Claim> = vec![];
        let mut f = Figment::new();
        let mut extra: Vec<Tag> = vec![];
        for i in 0..per {
            spin(&mut r);
            l2.mark(t);
            let part = build_one(t, i, &mut r, &mut claims);
            f = if r.bool() { f.merge(part) } else { f.join(&part) };
            if r.chance(1, 4) { f = f.clone(); }
            // An identity taken and thrown away.
            if r.chance(1, 4) { let g = Figment::from(("x", 1)); if let Ok(v) = g.find_value("x") { extra.push(v.tag()); } }
        }
        (f, claims, extra)
    })?;
    // No identity is used by two providers.
    let mut seen: HashMap<Tag, String> = HashMap::new();
    for (f, claims, extra) in &parts {
        for (k, name, _) in claims {
            let t = f.find_value(k).map_err(|e| Fail::new(format!("{} is gone: {}", k, e)))?.tag();
            check!(!t.is_default(), "{} added by {} has no identity", k, name);
            c.cov.eval();
            if let Some(o) = seen.insert(t, k.clone()) { fail!("the providers of {} and {} share the identity {:?}", o, k, t) }
        }
        for t in extra { if let Some(o) = seen.insert(*t, "a dropped figment".into()) { fail!("the provider of {} and one in a dropped figment share the identity {:?}", o, t) } }
    }
    // Combined, each value resolves to its own provider.
    let mut all = Figment::new();
    let mut order: Vec<usize> = (0..parts.len()).collect();
    r.shuffle(&mut order);
    for &i in &order { let f = parts[i].0.clone(); all = match r.below(4) { 0 => all.merge(f), 1 => all.join(&f), 2 => all.admerge(&f), _ => all.adjoin(f) }; }
    for (_, claims, _) in &parts {
        for (k, name, v) in claims {
            let got = all.find_value(k).map_err(|e| Fail::new(format!("{} is gone after combining: {}", k, e)))?;
            check!(got.to_i128() == v.to_u128().map(|x| x as i128) || got.to_u128() == v.to_u128(), "{} is {:?}, its provider gave {:?}", k, got, v);
            let md = all.get_metadata(got.tag());
            match md {
                None => fail!("{} has no metadata after combining figments built on {} threads", k, threads),
                Some(m) => check!(m.name == *name, "{} was given by {:?} and resolves to {:?} after combining figments built on {} threads", k, name, m.name, threads),
            }
            check!(all.find_metadata(k).map(|m| m.name.to_string()) == Some(name.clone()), "find_metadata({:?}) is not {:?}", k, name);
            c.cov.evals(3);
        }
    }
    let o = log.order.lock().unwrap();
    c.cov.distinct(&*o);
    c.cov.add("switches between threads while building", o.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    c.cov.add("identities checked", seen.len() as u64);
    c.cov.sample(|| format!("{} threads x {} providers built in the order {:?}", threads, per, &o[..o.len().min(40)]));
    Ok(())
}

#[derive(serde::Deserialize, serde::Serialize, Debug, PartialEq, Clone)]
struct Rel { path: Option<RelativePathBuf>, n: Option<u8> }

const MORE: usize = 4;
fn read(f: &Figment, what: usize, path: &str) -> String {
    match what.checked_sub(p13::READS) {
        None => p13::observe(f, what, path),
        Some(0) => format!("{:?}", f.extract_inner::<BTreeMap<String, Tagged<Value>>>(path).map(|m| m.into_iter().map(|(k, t)| (k, t.tag(), t.into_inner())).collect::<Vec<_>>()).map_err(|e| e.to_string())),
        Some(1) => match f.extract::<Rel>() { Ok(r) => format!("{:?} {:?}", r, r.path.as_ref().map(|p| (p.relative(), p.metadata_path().map(|p| p.to_path_buf())))), Err(e) => e.to_string() },
        Some(2) => f.extract_inner::<Vec<u8>>(path).map(|v| format!("{:?}", v)).unwrap_or_else(|e| format!("{} / {:?}", e, e)),
        _ => {
            // Writing a value with tags uses per-thread state.
            let d = f.extract::<Rel>();
            match d { Ok(r) => format!("{:?}", Figment::from(Serialized::defaults(r)).extract::<Rel>().map(|r| r.path.map(|p| p.relative())).map_err(|e| e.to_string())), Err(e) => e.to_string() }
        }
    }
}

/// Threads read one shared figment.
fn read_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let g = Gen::addr().with_depth(3);
    let mut w = World::new();
    let mut p = Pair::history(r, &mut w, &HistCfg::std(g));
    p.fig = p.fig.merge(("path", "some/file"));
    let mut paths: Vec<String> = p.fig.extract::<Dict>().unwrap_or_default().keys().cloned().collect();
    paths.push("path".into()); paths.push("absent.key".into()); paths.push(r.pick(KEYS).to_string());
    let mut plan: Vec<(usize, String)> = vec![];
    for _ in 0..r.range(3, 12) { plan.push((r.below(p13::READS + MORE), r.pick(&paths).clone())); }
    let want: Vec<String> = plan.iter().map(|(w, k)| read(&p.fig, *w, k)).collect();
    let threads = r.range(2, 6);
    let seeds: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let log = Arc::new(Log { order: Mutex::new(vec![]) });
    let done = Arc::new(AtomicUsize::new(0));
    let (fig, plan, want) = (Shared(p.fig.clone()), Arc::new(plan), Arc::new(want));
    let (l2, plan2, want2, d2) = (log.clone(), plan.clone(), want.clone(), done.clone());
    let bad = together(threads, move |t| {
        let mut r = seeds[t].clone();
        let mut order: Vec<usize> = (0..plan2.len()).collect();
        r.shuffle(&mut order);
        let mut own: Option<Figment> = None;
        for &i in &order {
            spin(&mut r);
            l2.mark(t);
            let (w, k) = &plan2[i];
            let got = match r.below(4) {
                0 => { let f = fig.get().clone(); read(&f, *w, k) }
                1 => { let f = own.get_or_insert_with(|| fig.get().clone()); read(f, *w, k) }
                _ => read(fig.get(), *w, k),
            };
            d2.fetch_add(1, Ordering::Relaxed);
            if got != want2[i] { return Some((i, got)) }
            // Building on a clone must not be visible to the others.
            if r.chance(1, 3) { let f = fig.get().clone().merge((k.as_str(), 77)).join(("another", t)); if f.extract::<Dict>().is_ok() { own = None; } drop(f) }
        }
        None
    })?;
    for (t, b) in bad.into_iter().enumerate() {
        if let Some((i, got)) = b {
            fail!("{} threads read a figment at once; on thread {} read {} of {:?} gave {} and alone it gives {}\n  {}", threads, t, plan[i].0, plan[i].1, cut_str(&got, 600), cut_str(&want[i], 600), p.describe());
        }
    }
    // And afterwards, alone again.
    for (i, (w, k)) in plan.iter().enumerate() { let got = read(&p.fig, *w, k); c.cov.eval(); check!(got == want[i], "after concurrent reads, read {} of {:?} gives {} and gave {}", w, k, cut_str(&got, 600), cut_str(&want[i], 600)) }
    c.cov.evals(done.load(Ordering::Relaxed) as u64);
    let o = log.order.lock().unwrap();
    c.cov.distinct(&*o);
    c.cov.add("concurrent reads", done.load(Ordering::Relaxed) as u64);
    c.cov.add("switches between threads while reading", o.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    Ok(())
}

/// Identities alone, in numbers: every thread takes many.
fn storm_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let threads = r.range(2, 8);
    let per = if cfg!(miri) { 20 } else { 400 };
    let tags = together(threads, move |_| {
        let mut v = Vec::with_capacity(per);
        for _ in 0..per { if let Ok(x) = Figment::from(("x", 1)).find_value("x") { v.push(x.tag()) } }
        v
    })?;
    let mut all = HashSet::new();
    for t in tags.iter().flatten() { c.cov.eval(); check!(all.insert(*t), "two providers added on {} threads share the identity {:?}", threads, t) }
    check!(all.len() == threads * per, "only {} of {} providers have an identity", all.len(), threads * per);
    // A thread's identities in the shared order: how mixed the execution was.
    let mut order: Vec<(Tag, u8)> = tags.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |x| (*x, t as u8))).collect();
    order.sort();
    let sw = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    c.cov.distinct(&order.iter().map(|x| x.1).collect::<Vec<_>>());
    c.cov.add("switches between threads while taking identities", sw as u64);
    c.cov.add("identities checked", all.len() as u64);
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    check!(Is::<Figment>::YES && Is::<Value>::YES && Is::<Error>::YES && Is::<Metadata>::YES && Is::<Profile>::YES, "a figment, value, error, metadata or profile cannot be shared or sent between threads");
    // The environment is set once, before any thread exists.
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| for t in 0..8 { for i in 0..16 { std::env::set_var(format!("VHT_T{}K{}", t, i), (t * 100 + i).to_string()) } });
    c.cov.eval();
    match c.idx % 8 { 0 => storm_case(c, r), 1..=4 => build_case(c, r), _ => read_case(c, r) }
}
