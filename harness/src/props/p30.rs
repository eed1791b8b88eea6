//! P30: code the library calls may call the library; if it panics, nothing is left broken.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;
use figment::{Error, Figment, Metadata, Profile, Provider};
use figment::providers::{Data, Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::{Dict, Map, Tag, Value, magic::{Either, RelativePathBuf, Tagged}};
use serde::{de::{self, DeserializeOwned}, Deserialize, Deserializer, Serialize, Serializer};
use crate::cov::*; use crate::model::*; use crate::mv::*; use crate::rng::Rng;
use super::{Prop, p01::compare_data};
use crate::check;

pub const P: Prop = Prop {
    id: "P30", case, quick: 25_000, thorough: 800_000, serial: false,
    rule: "histories in which every piece of user code the library calls (provider methods, destructors and clones, environment filters and mappers, (de)serializers and visitors, interpolaters, formats, consumers of its iterators) itself builds, combines, reads and formats figments, three levels deep, and sometimes panics; outcomes are compared with the model and with known answers, also after panics and on other threads, and nothing may block; non-trivial: at least ten nested uses; distinct by operation list and nested uses",
};

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static BOMB: Cell<u32> = const { Cell::new(0) };
    static FAILS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static SITES: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static ASKED: Cell<u32> = const { Cell::new(0) };
    static OUTER: RefCell<Vec<(Figment, Dict)>> = const { RefCell::new(vec![]) };
}
const BANG: &str = "vh30 bang";

fn rng() -> Rng { let s = crate::rng::mix(STATE.with(|s| s.get()).wrapping_add(0x9E3779B97F4A7C15)); STATE.with(|c| c.set(s)); Rng(s) }

struct Level;
impl Level { fn enter() -> Level { DEPTH.with(|d| d.set(d.get() + 1)); Level } }
impl Drop for Level { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)); } }

/// What user code does when it is called: anything.
fn busy(site: &'static str) {
    SITES.with(|s| *s.borrow_mut().entry(site).or_default() += 1);
    let b = BOMB.with(|b| b.get());
    if b > 0 { BOMB.with(|c| c.set(b - 1)); if b == 1 { std::panic::panic_any(BANG) } }
    let left = LEFT.with(|l| l.get());
    if left == 0 || DEPTH.with(|d| d.get()) >= 3 { return }
    LEFT.with(|l| l.set(left - 1));
    let _level = Level::enter();
    let mut r = rng();
    let which = r.below(JOBS);
    if let Err(e) = job(which, &mut r) { FAILS.with(|f| f.borrow_mut().push(format!("used from {}: {}", site, e))); }
}

macro_rules! want { ($got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return Err(format!("{} gives {}, expected {}", stringify!($got), cut(&g), cut(&w))) } }} }

const JOBS: usize = 16;
/// Something with a known answer.
fn job(which: usize, r: &mut Rng) -> Result<(), String> {
    let n = r.below(200) as u8;
    let s = |e: Error| e.to_string();
    match which {
        0 => {
            let f = Figment::from(("a", n)).join(("a", 1u8)).merge(("b.c", vec![1u8])).adjoin(("b.c", vec![n])).admerge(("b.c", vec![3u8]));
            want!(f.extract_inner::<u8>("a").map_err(s)?, n);
            want!(f.extract_inner::<Vec<u8>>("b.c").map_err(s)?, vec![1, n, 3]);
        }
        1 => {
            let f = Figment::from(Toml::string(&format!("a = \"x{}\"\n[t]\nb = [1, 2]", n)));
            let e = f.extract_inner::<u8>("a").unwrap_err();
            want!(e.to_string(), format!("invalid type: found string \"x{}\", expected u8 for key \"default.a\" in TOML source string", n));
            want!(f.extract_inner::<Vec<u8>>("t.b").map_err(s)?, vec![1, 2]);
        }
        2 => {
            let f = Figment::from(Env::prefixed("VH30_").filter(|k| { busy("an environment filter"); k != "skip" }));
            want!(f.extract_inner::<u8>("a").map_err(s)?, 1);
            want!(f.extract_inner::<String>("b.c").map_err(s)?, "two".to_string());
            want!(f.contains("skip"), false);
        }
        3 => {
            let f = Figment::from(Serialized::default("a.b", n)).merge(Serialized::default("a.b", 7u8).profile("p")).select("P");
            want!(f.focus("a").extract_inner::<u8>("b").map_err(s)?, 7);
            want!(f.select("q").focus("a").extract_inner::<u8>("b").map_err(s)?, n);
        }
        4 => {
            let f = Figment::from(Serialized::defaults(Out(BTreeMap::from([("k", n), ("l", 2)]))));
            want!(f.extract::<In<HashMap<String, In<u8>>>>().map_err(s)?.0.into_iter().map(|(k, v)| (k, v.0)).collect::<BTreeMap<_, _>>(), BTreeMap::from([("k".to_string(), n), ("l".to_string(), 2)]));
        }
        5 => {
            let (f, g) = (Figment::from(("a", n)), Figment::from(("a", n)));
            let (t, u) = (f.find_value("a").map_err(s)?.tag(), g.find_value("a").map_err(s)?.tag());
            if t == u || t == Tag::Default || u < t { return Err(format!("tags {:?} and {:?} of two figments", t, u)) }
        }
        6 => {
            let v: Value = format!("{{a=[{}, x], b={{c=true}}}}", n).parse().map_err(|_| "unparsed")?;
            want!(v.find_ref("b.c").and_then(|v| v.to_bool()), Some(true));
            let w = Value::serialize(&v).map_err(s)?;
            want!(&w, &v);
            want!(v.deserialize::<In<Value>>().map_err(s)?.0, w);
        }
        7 => {
            let f = Figment::from(P30::plain(Dict::from([("k".into(), "x".into())])));
            let e = f.extract_inner::<In<u8>>("k").err().ok_or("no error")?;
            want!(e.to_string(), "invalid type: found string \"x\", expected u8 for key \"default/k\" in nosy".to_string());
        }
        8 => {
            let Some((f, d)) = OUTER.with(|o| { let o = o.borrow(); if o.is_empty() { None } else { Some(o[r.below(o.len())].clone()) } }) else { return Ok(()) };
            if format!("{:?}", f.extract::<Dict>().map_err(s)?) != format!("{:?}", d) { return Err("a figment in use elsewhere reads differently".into()) }
        }
        9 => {
            let f = Figment::from(Nosy::string(&format!("{{\"k\": {{\"n\": {}}}}}", n)));
            want!(f.extract_inner::<In<u8>>("k.n").map_err(s)?.0, n);
        }
        10 => {
            #[derive(Deserialize)]
            struct M { p: In<RelativePathBuf>, t: Tagged<In<u8>>, e: Either<Tagged<In<u8>>, In<String>> }
            let f = Figment::from(Toml::file("vh30.toml"));
            let m: M = f.extract().map_err(s)?;
            let at = f.metadata().next().and_then(|m| m.source.as_ref()).and_then(|s| s.file_path()).ok_or("no source")?.to_path_buf();
            want!(m.p.0.relative(), at.parent().unwrap().join("sub/x"));
            want!(m.t.into_inner().0, 5);
            want!(matches!(m.e, Either::Right(In(ref s)) if s == "e"), true);
        }
        11 => {
            let e = Figment::from(Json::string("{")).merge(P30::failing("no data")).extract::<Dict>().unwrap_err();
            want!(e.count(), 2);
            want!(e.into_iter().map(|e| e.metadata.map(|m| m.name.to_string())).collect::<Vec<_>>(), vec![Some("JSON source string".to_string()), Some("nosy".to_string())]);
        }
        12 => {
            let e = Env::prefixed("VH30_").map(|k| { busy("an environment mapper"); k.as_str().replace('.', "_").into() });
            let all: BTreeMap<String, String> = e.iter().map(|(k, v)| { busy("a consumer of variables"); (k.into_string(), v) }).collect();
            want!(all, BTreeMap::from([("a".into(), "1".into()), ("b_c".into(), "two".into()), ("skip".into(), "3".into())]));
        }
        13 => {
            // What is read keeps its tag, whoever asks what in between; and types that ask are answered alike.
            let f = Figment::from(("a.b", n)).merge(("c", "127.0.0.1"));
            let (v, w) = (f.find_value("a").map_err(s)?, f.extract_inner::<Through>("a").map_err(s)?.0);
            want!(&w, &v);
            want!((w.tag(), w.find_ref("b").map(|v| v.tag())), (v.tag(), v.find_ref("b").map(|v| v.tag())));
            // Known finding `asked-while-asked`: not within is_human_readable itself.
            if ASKED.with(|a| a.get()) == 0 { want!(f.extract_inner::<std::net::IpAddr>("c").map_err(s)?, std::net::IpAddr::from([127, 0, 0, 1])); }
        }
        14 => {
            let f = Figment::from(("a", vec![n])).merge(("c", "127.0.0.1"));
            let t: Tagged<In<Value>> = f.extract_inner("a").map_err(s)?;
            let v = f.find_value("a").map_err(s)?;
            want!((t.tag(), t.0.tag()), (v.tag(), v.tag()));
            let d = f.extract::<HashMap<String, Through>>().map_err(s)?;
            want!(d["c"].0.tag(), f.find_value("c").map_err(s)?.tag());
            let u = Value::from(vec![v.clone()]).deserialize::<Vec<Through>>().map_err(s)?;
            want!(&u[0].0, &v);
        }
        _ => {
            let f = Figment::from(Yaml::string(&format!("p: {{x: {}}}\nq: [a, b]", n))).merge(P30::plain(Dict::from([("p".into(), Dict::from([("y".to_string(), Value::from(4u8))]).into())])));
            let mut names = vec![];
            for m in f.metadata() { busy("a consumer of metadata"); names.push(m.name.to_string()); }
            want!(names, vec!["YAML source string".to_string(), "nosy".to_string()]);
            for p in f.profiles() { busy("a consumer of profiles"); want!(p, "default"); }
            want!(f.extract_inner::<In<BTreeMap<String, u8>>>("p").map_err(s)?.0, BTreeMap::from([("x".to_string(), n), ("y".to_string(), 4)]));
        }
    }
    Ok(())
}

/// A provider all of whose code is busy.
struct P30 { data: Result<Map<Profile, Dict>, Error>, name: String, profile: Option<Profile> }
impl P30 {
    fn plain(d: Dict) -> P30 { P30 { data: Ok(Profile::Default.collect(d)), name: "nosy".into(), profile: None } }
    fn failing(msg: &str) -> P30 { P30 { data: Err(Error::from(msg.to_string())), name: "nosy".into(), profile: None } }
}
impl Provider for P30 {
    fn metadata(&self) -> Metadata {
        busy("Provider::metadata");
        Metadata::named(self.name.clone()).interpolater(|p, k| { busy("an interpolater"); format!("{}/{}", p, k.join("/")) })
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { busy("Provider::data"); self.data.clone() }
    fn profile(&self) -> Option<Profile> { busy("Provider::profile"); self.profile.clone() }
}
/// Set where leaks are looked for: what a function returns leaks if a destructor then panics (rust-lang/rust#47949).
pub static CALM_DROPS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl Drop for P30 {
    fn drop(&mut self) {
        if std::thread::panicking() { return }
        let bomb = BOMB.with(|b| b.get());
        let calm = CALM_DROPS.load(std::sync::atomic::Ordering::Relaxed);
        if calm { BOMB.with(|b| b.set(0)) }
        busy("a provider's destructor");
        if calm { BOMB.with(|b| b.set(bomb)) }
    }
}

struct In<T>(T);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for In<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { busy("a deserializer, before"); let v = T::deserialize(d)?; busy("a deserializer, after"); Ok(In(v)) }
}
struct Out<T>(T);
impl<T: Serialize> Serialize for Out<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { busy("a serializer, before"); let x = self.0.serialize(s)?; busy("a serializer, after"); Ok(x) }
}
/// A value read through a deserializer of one's own, which is asked whether it is human readable.
struct Through(Value);
impl<'de> Deserialize<'de> for Through {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <Value as Deserialize>::deserialize(Asked(d)).map(Through) }
}
struct Asking;
impl Drop for Asking { fn drop(&mut self) { ASKED.with(|a| a.set(a.get() - 1)) } }
struct Asked<D>(D);
macro_rules! forward { ($($f:ident)*) => { $(fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> { self.0.$f(v) })* } }
impl<'de, D: Deserializer<'de>> Deserializer<'de> for Asked<D> {
    type Error = D::Error;
    fn is_human_readable(&self) -> bool { ASKED.with(|a| a.set(a.get() + 1)); let _a = Asking; busy("is_human_readable, before"); let b = self.0.is_human_readable(); busy("is_human_readable, after"); b }
    forward! { deserialize_any deserialize_bool deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_struct<V: de::Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> { busy("deserialize_struct"); self.0.deserialize_struct(n, f, v) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> { self.0.deserialize_enum(n, f, v) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, D::Error> { self.0.deserialize_tuple(n, v) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, s: &'static str, n: usize, v: V) -> Result<V::Value, D::Error> { self.0.deserialize_tuple_struct(s, n, v) }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, s: &'static str, v: V) -> Result<V::Value, D::Error> { self.0.deserialize_unit_struct(s, v) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, s: &'static str, v: V) -> Result<V::Value, D::Error> { self.0.deserialize_newtype_struct(s, v) }
}
/// A tree whose every visitor step is busy.
#[derive(Debug)]
struct Tree(Value);
impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { busy("expecting"); f.write_str("anything") }
            fn visit_bool<E>(self, v: bool) -> Result<Tree, E> { busy("a visitor"); Ok(Tree(v.into())) }
            fn visit_u8<E>(self, v: u8) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_u16<E>(self, v: u16) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_u32<E>(self, v: u32) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_u64<E>(self, v: u64) -> Result<Tree, E> { busy("a visitor"); Ok(Tree(v.into())) }
            fn visit_u128<E>(self, v: u128) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_i8<E>(self, v: i8) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_i16<E>(self, v: i16) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_i32<E>(self, v: i32) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_i64<E>(self, v: i64) -> Result<Tree, E> { busy("a visitor"); Ok(Tree(v.into())) }
            fn visit_i128<E>(self, v: i128) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_f32<E>(self, v: f32) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_f64<E>(self, v: f64) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_char<E>(self, v: char) -> Result<Tree, E> { Ok(Tree(v.into())) }
            fn visit_str<E>(self, v: &str) -> Result<Tree, E> { busy("a visitor"); Ok(Tree(v.into())) }
            fn visit_unit<E>(self) -> Result<Tree, E> { Ok(Tree(Value::Empty(Tag::Default, figment::value::Empty::Unit))) }
            fn visit_none<E>(self) -> Result<Tree, E> { Ok(Tree(Value::Empty(Tag::Default, figment::value::Empty::None))) }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> { let mut o = vec![]; while let Some(Tree(v)) = a.next_element()? { busy("a sequence visitor"); o.push(v); } Ok(Tree(o.into())) }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut o = Dict::new();
                while let Some(In(k)) = a.next_key::<In<String>>()? { busy("a map visitor"); let Tree(v) = a.next_value()?; o.insert(k, v); }
                Ok(Tree(o.into()))
            }
        }
        d.deserialize_any(V)
    }
}

/// A format read with figment itself.
struct Nosy;
impl Format for Nosy {
    type Error = Error;
    const NAME: &'static str = "Nosy";
    fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
        busy("a format, before");
        let f = Figment::from(Json::string(s));
        busy("a format, after");
        f.extract()
    }
}

/// Something captured by a closure.
struct Loud(u8);
impl Clone for Loud { fn clone(&self) -> Loud { busy("a closure's clone"); Loud(self.0) } }

fn within<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || { let x = f(); let _ = tx.send(x); }).unwrap();
    rx.recv_timeout(Duration::from_secs(secs)).map_err(|e| Fail::new(match e { mpsc::RecvTimeoutError::Timeout => format!("no answer within {} s: a nested use of the library blocks", secs), _ => format!("a nested use of the library panics: {}", crate::sup::last_panic()) }))
}

/// Everything still works here.
fn healthy(r: &mut Rng, when: &str) -> Result<(), String> {
    for which in 0..JOBS { if r.chance(1, 2) { job(which, r).map_err(|e| format!("{}: {}", when, e))?; } }
    Ok(())
}

fn blow(r: &mut Rng) -> u32 { if r.chance(1, 3) { r.range(1, 25) as u32 } else { 0 } }
fn armed<T>(n: u32, f: impl FnOnce() -> T) -> Option<T> {
    let (l, d) = (LEFT.with(|l| l.get()), DEPTH.with(|d| d.get()));
    BOMB.with(|b| b.set(n));
    let res = catch_unwind(AssertUnwindSafe(f));
    BOMB.with(|b| b.set(0)); LEFT.with(|c| c.set(l)); DEPTH.with(|c| c.set(d));
    match res { Ok(x) => Some(x), Err(p) if p.downcast_ref::<&str>() == Some(&BANG) => None, Err(p) => std::panic::resume_unwind(p) }
}

type Seen = (Result<(), String>, Vec<String>, BTreeMap<&'static str, u64>, u64, u64, String);

fn body(seed: u64) -> Seen {
    let mut r = Rng(seed);
    let r = &mut r;
    STATE.with(|s| s.set(seed ^ 0x30)); LEFT.with(|l| l.set(120)); DEPTH.with(|d| d.set(0)); BOMB.with(|b| b.set(0));
    let (mut evals, mut panics) = (0, 0);
    let mut p = Pair::new();
    let res = run(r, &mut p, &mut evals, &mut panics);
    OUTER.with(|o| o.borrow_mut().clear());
    (res, FAILS.with(|f| std::mem::take(&mut *f.borrow_mut())), SITES.with(|s| std::mem::take(&mut *s.borrow_mut())), evals, panics, p.describe())
}

fn run(r: &mut Rng, p: &mut Pair, evals: &mut u64, panics: &mut u64) -> Result<(), String> {
    let g = Gen::text().with_depth(2);
    let mut w = World::new();
    let steps = r.range(1, 5);
    for _ in 0..steps {
        let op = *r.pick(&OPS);
        let prof = gen_profile(r);
        let d = match p.m.data.get(&lower(&prof)) { Some(d) if r.bool() => match perturb(r, &g, &Node::new(MV::Dict(d.clone())), 2).v { MV::Dict(d) => d, _ => g.dict(r) }, _ => g.dict(r) };
        let src = |name: &str| P30 { data: Ok(Profile::new(&prof).collect(dict_to_value(&d))), name: name.into(), profile: None };
        let kind = r.below(5);
        let json = crate::render::json(&Node::new(MV::Dict(d.clone())), r);
        // First with user code that panics: nothing may have happened to the figment.
        let n = blow(r);
        if n > 0 {
            let f = p.fig.clone();
            let done = armed(n, || match kind {
                0 => op.apply(f, Serialized::from(Out(dict_to_value(&d)), prof.as_str())),
                1 => op.apply(f, Nosy::string(&json).profile(prof.as_str())),
                2 => { let l = Loud(3); op.apply(f, Env::prefixed("VH30_").filter(move |_| { busy("an environment filter"); l.0 == 3 }).clone()) }
                _ => op.apply(f, &src("boom")),
            });
            if done.is_none() { *panics += 1; healthy(r, "after a panic in user code")?; *evals += 1; }
            compare_data(p).map_err(|e| format!("after a panic while adding to a clone: {}", e))?;
            *evals += 1;
        }
        match kind {
            0 => { p.add_named(&mut w, op, Serialized::from(Out(dict_to_value(&d)), prof.as_str()), "busy Serialized", vec![(prof.clone(), d)]); }
            1 => {
                let s: Data<Nosy> = Nosy::string(&json).profile(prof.as_str());
                p.add_named(&mut w, op, s, "busy format", vec![(prof.clone(), d)]);
            }
            2 => {
                let l = Loud(3);
                let e = Env::prefixed("VH30_").filter(move |k| { busy("an environment filter"); l.0 == 3 && k != "skip" }).map(|k| { busy("an environment mapper"); k.into() }).filter_map(|k| { busy("an environment filter"); Some(k.into()) }).profile(prof.as_str());
                let e = if r.bool() { e.clone() } else { e };
                let d: MDict = [("a".to_string(), Node::new(MV::Num(figment::value::Num::U8(1)))), ("b".to_string(), Node::new(MV::Dict([("c".to_string(), Node::new(MV::Str("two".into())))].into())))].into();
                p.add_named(&mut w, op, e, "busy Env", vec![(prof.clone(), d)]);
            }
            _ => { p.add_named(&mut w, op, src("inner"), "busy provider", vec![(prof.clone(), d)]); }
        }
        compare_data(p)?;
        *evals += 1;
        if r.chance(1, 3) { let q = gen_profile(r); p.select(&q); }
        let d = p.fig.extract::<Dict>().map_err(|e| e.to_string())?;
        OUTER.with(|o| o.borrow_mut().push((p.fig.clone(), d)));
    }
    // Reading, by busy readers.
    let want = p.m.extract();
    let n = blow(r);
    if n > 0 {
        let f = p.fig.clone();
        if armed(n, || f.extract::<Tree>().map(|_| ())).is_none() { *panics += 1; healthy(r, "after a panic while extracting")?; }
        *evals += 1;
    }
    let t: Tree = p.fig.extract().map_err(|e| format!("a busy type is not extracted: {}", e))?;
    Cmp::ints().dict(&want, t.0.as_dict().ok_or("not a dictionary")?, "busy").map_err(|e| format!("extracted by a busy type: {}", e))?;
    let t: Tree = p.fig.extract_lossy().map_err(|e| format!("a busy type is not extracted: {}", e))?;
    Cmp::ints().dict(&want, t.0.as_dict().ok_or("not a dictionary")?, "busy").map_err(|e| format!("extracted lossily by a busy type: {}", e))?;
    if let Some(k) = want.keys().find(|k| !k.is_empty() && !k.contains('.')) {
        let t: Tree = p.fig.extract_inner(k).map_err(|e| format!("a busy type is not extracted: {}", e))?;
        Cmp::ints().node(&want[k], &t.0, k)?;
        let t: Tree = Value::from(dict_to_value(&want)).deserialize().map_err(|e| e.to_string())?;
        Cmp::ints().dict(&want, t.0.as_dict().ok_or("not a dictionary")?, "busy")?;
        let v = Value::serialize(Out(dict_to_value(&want))).map_err(|e| e.to_string())?;
        Cmp::ints().dict(&want, v.as_dict().ok_or("not a dictionary")?, "busy")?;
        *evals += 3;
    }
    // Two iterators over one environment, in turns.
    let e = Env::prefixed("VH30_").filter(|_| { busy("an environment filter"); true });
    let (mut a, mut b, mut out) = (e.iter(), e.iter(), vec![]);
    loop { let (x, y) = (a.next(), b.next()); if x != y { return Err(format!("two iterators in turns give {:?} and {:?}", x, y)) } match x { Some(x) => out.push(x.0.into_string()), None => break } }
    out.sort();
    if out != ["a", "b.c", "skip"] { return Err(format!("iterated in turns: {:?}", out)) }
    // A source whose user code panicked once is as good as new.
    let l = Loud(3);
    let e = Env::prefixed("VH30_").filter(move |_| { busy("an environment filter"); l.0 == 3 }).map(|k| { busy("an environment mapper"); k.into() }).filter_map(|k| { busy("an environment filter"); Some(k.into()) }).split("_");
    let js = Nosy::string("{\"a\": 1, \"b\": {\"c\": \"two\"}, \"skip\": 3}");
    let se = Serialized::defaults(Out(Dict::from([("a".to_string(), 1u8.into()), ("b".to_string(), Dict::from([("c".to_string(), Value::from("two"))]).into()), ("skip".to_string(), 3u8.into())])));
    for _ in 0..2 {
        let n = r.range(1, 8) as u32;
        let how = r.below(4);
        let done = armed(n, || match how { 0 => { e.iter().count(); } 1 => { let _ = e.data(); } 2 => { let _ = js.data(); } _ => { let _ = Figment::from(&se).data(); } });
        if done.is_none() { *panics += 1; }
        let mut keys: Vec<String> = e.iter().map(|(k, _)| k.into_string()).collect();
        keys.sort();
        if keys != ["a", "b.c", "skip"] { return Err(format!("after a filter panicked, the environment has {:?}", keys)) }
        for (what, d) in [("environment", e.data()), ("format", js.data()), ("serialized value", se.data())] {
            let d = d.map_err(|e| format!("{} whose user code once panicked: {}", what, e))?;
            let d = &d[&Profile::Default];
            let v = |k: &str| d.get(k).and_then(|v| v.to_u128());
            if d.len() != 3 || v("a") != Some(1) || v("skip") != Some(3) || d.get("b").and_then(|b| b.find_ref("c")).and_then(|c| c.as_str()) != Some("two") { return Err(format!("{} whose user code once panicked gives {}", what, cut(d))) }
        }
        *evals += 4;
    }
    // A deserializer of one's own that panics when asked.
    let f = Figment::from(("k", vec![1u8]));
    for n in 1..7 { if armed(n, || f.extract_inner::<Through>("k")).is_none() { *panics += 1; } job(13, r).map_err(|e| format!("after a deserializer panicked: {}", e))?; }
    *evals += 6;
    // An error shown by a busy interpolater, to one who panics.
    let f = Figment::from(P30::plain(Dict::from([("k".into(), vec!["x"].into())])));
    let e = f.extract_inner::<Vec<u8>>("k").err().ok_or("no error")?;
    let n = blow(r).min(2);
    if n > 0 && armed(n, || e.to_string()).is_none() { *panics += 1; }
    for _ in 0..2 { if e.to_string() != "invalid type: found string \"x\", expected u8 for key \"default/k/0\" in nosy" { return Err(format!("an error is shown as {:?}", e.to_string())) } }
    *evals += 5;
    // Another thread is none the worse.
    if *panics > 0 && r.chance(1, 3) {
        let mut q = r.fork();
        std::thread::scope(|s| s.spawn(|| healthy(&mut q, "on another thread, after a panic in user code")).join()).map_err(|_| "another thread panics".to_string())??;
        *evals += 1;
    }
    healthy(r, "in the end")?;
    compare_data(p)?;
    *evals += 2;
    Ok(())
}

/// A type asked whether it is human readable asks a figment for another that asks the same.
fn asked_while_asked() -> Result<bool, String> {
    thread_local! { static GOT: RefCell<Vec<bool>> = const { RefCell::new(vec![]) } }
    struct Ask<D>(D);
    impl<'de, D: Deserializer<'de>> Deserializer<'de> for Ask<D> {
        type Error = D::Error;
        fn is_human_readable(&self) -> bool {
            let ok = Figment::from(("c", "127.0.0.1")).extract_inner::<std::net::IpAddr>("c").is_ok();
            GOT.with(|g| g.borrow_mut().push(ok));
            self.0.is_human_readable()
        }
        fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> { self.0.deserialize_any(v) }
        fn deserialize_struct<V: de::Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> { self.0.deserialize_struct(n, f, v) }
        serde::forward_to_deserialize_any! { bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum bytes byte_buf map unit newtype_struct ignored_any unit_struct tuple_struct tuple option identifier }
    }
    struct W(Value);
    impl<'de> Deserialize<'de> for W { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <Value as Deserialize>::deserialize(Ask(d)).map(W) } }
    let f = Figment::from(("k", 1u8));
    let v = f.extract_inner::<W>("k").map_err(|e| e.to_string())?.0;
    if v.tag() != f.find_value("k").map_err(|e| e.to_string())?.tag() { return Err("a value whose deserializer uses the library when asked loses its tag".into()) }
    Ok(GOT.with(|g| g.take()).into_iter().all(|b| b))
}

pub fn case(c: &mut Ctx) -> Res {
    let mut known = None;
    if c.idx == 0 && !asked_while_asked().map_err(Fail::new)? {
        known = Some(Fail { msg: "a type that asks is_human_readable, extracted from within a user deserializer's own is_human_readable, is told it is not".into(), known: Some("asked-while-asked") });
    }
    let seed = c.rng.fork().0;
    let file = c.scratch.join("vh30.toml");
    if !file.exists() { std::fs::write(&file, "p = \"sub/x\"\nt = 5\ne = \"e\"\n").map_err(|e| Fail::new(e.to_string()))?; }
    let _ = std::env::set_current_dir(&c.scratch);
    for (k, v) in [("VH30_A", "1"), ("VH30_B.C", "two"), ("VH30_SKIP", "3")] { std::env::set_var(k, v); }
    let (res, fails, sites, evals, panics, log) = within(60, move || body(seed))?;
    let ctx = |e: &str| Fail::new(format!("{}\n  in {}", e, log));
    if let Some(f) = fails.first() { return Err(ctx(f)) }
    res.map_err(|e| ctx(&e))?;
    let uses: u64 = sites.values().sum();
    for (k, n) in &sites { c.cov.add(&format!("nested uses from {}", k), *n); }
    c.cov.add("panics in user code survived", panics);
    c.cov.evals(evals);
    if uses >= 10 { c.cov.distinct(&(log.clone(), format!("{:?}", sites))); }
    c.cov.sample(|| format!("{} ({} nested uses, {} panics)", log, uses, panics));
    check!(evals > 3, "nothing judged");
    match known { Some(f) => Err(f), None => Ok(()) }
}
