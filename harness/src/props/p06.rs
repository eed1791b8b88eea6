//! P06: serializable values round-trip through a figment and through the dynamic value.
use std::collections::{BTreeMap, HashMap};
use std::net::*;
use figment::error::Kind;
use figment::providers::Serialized;
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{Deserialize, Serialize, Deserializer, Serializer, de::DeserializeOwned};
use crate::cov::*; use crate::mv::*; use crate::schema::*;
use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P06", case, quick: 120_000, thorough: 4_000_000, serial: false,
    rule: "random types (every serde data-model shape, nested) with random values, and random values of derived types (attributes, flattening, every enum representation, byte strings, standard-library types), serialized whole, under a key path, to another profile, through another figment and to the dynamic value alone, then deserialized and compared; non-dictionary roots and non-string map keys must be rejected; non-trivial: at least one container; distinct by (type, value)",
};

// ------------------------------------------------------------ derived types

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
struct UnitS;
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct NewS(String);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct TupS(u8, String, Option<i64>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Ext { Unit, New(u16), NewS(NewS), NewOpt(Option<bool>), NewSeq(Vec<u8>), Tup(i8, String), Struct { a: u64, b: Option<char> }, Empty {}, #[serde(rename = "re-named")] Renamed, Nested(Box<Ext>) }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "type")]
enum Int { A, B { x: i32, y: Vec<String> }, C(Inner) }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
enum Adj { A, B(u8), C(u8, String), D { q: Option<f64> } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Unt { B(bool), U(u64), I(i64), F(f64), S(String), V(Vec<i64>), M { k: String } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Inner { p: u8, q: String }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Flat { own: i32, #[serde(flatten)] inner: Inner, #[serde(flatten)] rest: BTreeMap<String, i64> }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Attrs {
    #[serde(rename = "kebab-name")] a: u32,
    #[serde(default)] b: Vec<u8>,
    #[serde(skip_serializing_if = "Option::is_none", default)] c: Option<String>,
    #[serde(skip)] d: (),
}
#[derive(Debug, PartialEq, Clone)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Bytes, E> { Ok(Bytes(b.into())) }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> { let mut v = vec![]; while let Some(b) = a.next_element()? { v.push(b); } Ok(Bytes(v)) }
        }
        d.deserialize_byte_buf(V)
    }
}
/// Asks whether the format is human readable, perhaps repeatedly, before delegating to a type that asks again.
#[derive(Debug, PartialEq, Clone)]
struct Asks<const N: usize>(IpAddr);
impl<const N: usize> Serialize for Asks<N> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if (0..N).all(|_| s.is_human_readable()) { self.0.serialize(s) } else { s.serialize_unit() } } }
impl<'de, const N: usize> Deserialize<'de> for Asks<N> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { if (0..N).all(|_| d.is_human_readable()) { IpAddr::deserialize(d).map(Asks) } else { Err(serde::de::Error::custom("written human readably, read otherwise")) } } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Std {
    asks: (Asks<1>, Vec<Option<Asks<2>>>, HashMap<String, Asks<3>>),
    ip: IpAddr, sock: SocketAddr, ip6: Ipv6Addr, path: std::path::PathBuf, dur: std::time::Duration, nz: std::num::NonZeroU16,
    range: std::ops::Range<i32>, res: Result<u8, String>, boxed: Box<str>, arr: [u16; 4], set: std::collections::BTreeSet<String>,
    hm: HashMap<String, Vec<Option<i8>>>, big: (u128, i128), bytes: Bytes, time: std::time::SystemTime, bound: std::ops::Bound<u8>, wrapping: std::num::Wrapping<u32>,
    opt_ip: Option<IpAddr>, ips: Vec<IpAddr>, cow: std::borrow::Cow<'static, str>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct All { unit: UnitS, new: NewS, tup: TupS, ext: Vec<Ext>, int: Int, adj: Vec<Adj>, unt: Vec<Unt>, flat: Flat, attrs: Attrs, std: Std, keyed: BTreeMap<String, Ext>, nul: (), opt: Option<Box<All>>, deep: Vec<Vec<Option<(bool, [i8; 2])>>> }

/// Keys that are strings once written.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct KNew(String);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum KEnum { A, #[serde(rename = "b b")] B, C }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Keys { a: BTreeMap<KNew, u8>, b: BTreeMap<KEnum, Vec<KNew>>, c: BTreeMap<Option<String>, i64>, d: BTreeMap<std::path::PathBuf, BTreeMap<IpAddr, bool>>, e: BTreeMap<KNew2, BTreeMap<KNew, KEnum>> }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct KNew2(KNew);
fn keys(r: &mut Rng) -> Keys {
    let en = |r: &mut Rng| match r.below(3) { 0 => KEnum::A, 1 => KEnum::B, _ => KEnum::C };
    Keys {
        a: (0..r.below(4)).map(|_| (KNew(s(r)), r.next() as u8)).collect(),
        b: (0..r.below(4)).map(|_| (en(r), (0..r.below(3)).map(|_| KNew(s(r))).collect())).collect(),
        c: (0..r.below(4)).map(|_| (Some(s(r)), r.next() as i64)).collect(),
        d: (0..r.below(3)).map(|_| (s(r).into(), (0..r.below(3)).map(|_| (ip(r), r.bool())).collect())).collect(),
        e: (0..r.below(3)).map(|_| (KNew2(KNew(s(r))), (0..r.below(3)).map(|_| (KNew(s(r)), en(r))).collect())).collect(),
    }
}
fn s(r: &mut Rng) -> String { gen_string(r) }
fn inner(r: &mut Rng) -> Inner { Inner { p: r.next() as u8, q: s(r) } }
fn ext(r: &mut Rng) -> Ext {
    match r.below(10) {
        0 => Ext::Unit, 1 => Ext::New(r.next() as u16), 2 => Ext::NewS(NewS(s(r))), 3 => Ext::NewOpt(*r.pick(&[None, Some(true), Some(false)])), 4 => Ext::NewSeq((0..r.below(4)).map(|x| x as u8).collect()),
        5 => Ext::Tup(r.next() as i8, s(r)), 6 => Ext::Struct { a: r.next(), b: if r.bool() { Some(gen_char(r)) } else { None } }, 7 => Ext::Empty {}, 8 => Ext::Renamed, _ => Ext::Nested(Box::new(ext(r))),
    }
}
fn int(r: &mut Rng) -> Int { match r.below(3) { 0 => Int::A, 1 => Int::B { x: r.next() as i32, y: vec![s(r)] }, _ => Int::C(inner(r)) } }
fn adj(r: &mut Rng) -> Adj { match r.below(4) { 0 => Adj::A, 1 => Adj::B(r.next() as u8), 2 => Adj::C(3, s(r)), _ => Adj::D { q: if r.bool() { Some(gen_float(r)) } else { None } } } }
fn unt(r: &mut Rng) -> Unt { match r.below(7) { 0 => Unt::B(r.bool()), 1 => Unt::U(r.next()), 2 => Unt::I(-1 - (r.next() >> 1) as i64), 3 => Unt::F(0.5 + r.below(100) as f64), 4 => Unt::S(s(r)), 5 => Unt::V(vec![r.next() as i64, 2]), _ => Unt::M { k: s(r) } } }
fn ip(r: &mut Rng) -> IpAddr { if r.bool() { IpAddr::V4(Ipv4Addr::from(r.next() as u32)) } else { IpAddr::V6(Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128)) } }
fn std_(r: &mut Rng) -> Std {
    Std {
        asks: (Asks(ip(r)), vec![None, Some(Asks(ip(r)))], [("k".to_string(), Asks(ip(r)))].into_iter().collect()),
        ip: ip(r), sock: SocketAddr::new(ip(r), r.next() as u16), ip6: Ipv6Addr::from(r.next() as u128), path: s(r).into(), dur: std::time::Duration::new(r.next() >> 1, r.below(1_000_000_000) as u32), nz: std::num::NonZeroU16::new(r.next() as u16 | 1).unwrap(),
        range: r.next() as i32..5, res: if r.bool() { Ok(7) } else { Err(s(r)) }, boxed: s(r).into(), arr: [r.next() as u16, 0, u16::MAX, 9], set: (0..r.below(4)).map(|_| s(r)).collect(),
        hm: { let n = if r.chance(1, 20) { r.range(60, 400) } else { r.below(5) }; (0..n).map(|i| (if n > 5 { format!("{}{}", r.below(100), i) } else { s(r) }, vec![None, Some(r.next() as i8)])).collect() }, big: ((r.next() as u128) << 64 | 5, i128::MIN + r.next() as i128), bytes: bytes(r),
        time: std::time::UNIX_EPOCH + std::time::Duration::from_millis(r.next() >> 24), bound: match r.below(3) { 0 => std::ops::Bound::Unbounded, 1 => std::ops::Bound::Included(2), _ => std::ops::Bound::Excluded(255) }, wrapping: std::num::Wrapping(r.next() as u32),
        opt_ip: if r.bool() { Some(ip(r)) } else { None }, ips: (0..r.below(4)).map(|_| ip(r)).collect(), cow: s(r).into(),
    }
}
fn bytes(r: &mut Rng) -> Bytes {
    let n = r.size(12, 300);
    Bytes(match r.below(4) { 0 => (0..n).map(|i| i as u8).collect(), 1 => (0..n).map(|_| b'!' + r.below(94) as u8).collect(), 2 => gen_string(r).into_bytes(), _ => (0..n).map(|_| r.next() as u8).collect() })
}
fn all(r: &mut Rng, depth: usize) -> All {
    All {
        unit: UnitS, new: NewS(s(r)), tup: TupS(1, s(r), if r.bool() { Some(i64::MIN) } else { None }), ext: (0..r.below(6)).map(|_| ext(r)).collect(), int: int(r), adj: (0..r.below(4)).map(|_| adj(r)).collect(),
        unt: (0..r.below(5)).map(|_| unt(r)).collect(), flat: Flat { own: r.next() as i32, inner: inner(r), rest: (0..r.below(3)).map(|i| (format!("x{}", i), r.next() as i64)).collect() },
        attrs: Attrs { a: r.next() as u32, b: vec![0, 255], c: if r.bool() { Some(s(r)) } else { None }, d: () }, std: std_(r), keyed: (0..r.below(4)).map(|_| (r.pick(KEYS_ODD).to_string(), ext(r))).collect(), nul: (),
        opt: if depth > 0 && r.bool() { Some(Box::new(all(r, depth - 1))) } else { None }, deep: vec![vec![], vec![None, Some((r.bool(), [r.next() as i8, 2]))]],
    }
}

// ------------------------------------------------------------ routes

fn wrap<P: Provider>(r: &mut Rng, p: P, sel: &str) -> Figment {
    let f = match r.below(4) { 0 => Figment::new().join(p), 1 => Figment::new().adjoin(p), 2 => Figment::new().admerge(p), _ => Figment::from(p) }.select(sel);
    match r.below(5) { 0 => Figment::new().merge(f), 1 => Figment::from(f.clone()).merge(&f).select(sel), 2 => f.clone().join(f), _ => f }
}

fn profile(r: &mut Rng) -> (&'static str, &'static str) { *r.pick(&[("default", "default"), ("global", "other"), ("Debug", "dEBUG"), ("default", "x"), ("é", "é")]) }

fn key_path(r: &mut Rng) -> String { let n = if r.chance(1, 40) { r.range(60, 220) } else if r.chance(1, 8) { r.range(4, 60) } else { r.range(1, 3) }; (0..n).map(|_| *r.pick(KEYS)).collect::<Vec<_>>().join(".") }

/// Both routes for a value of a Rust type.
fn typed<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Clone>(c: &mut Ctx, r: &mut Rng, x: T, dict: bool) -> Res {
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
    let v = Value::serialize(&x).map_err(|e| Fail::new(format!("Value::serialize of {} fails: {}", cut(&x), e)))?;
    match v.deserialize::<T>() { Ok(y) => check!(x == y, "{}: {} became {} through a value", name, cut(&x), cut(&y)), Err(e) => fail!("{}: {} does not deserialize from its value: {}", name, cut(&x), e) }
    let (p, sel) = profile(r);
    let key = key_path(r);
    let f = wrap(r, Serialized::from(x.clone(), p).key(&key), sel);
    match f.extract_inner::<T>(&key) { Ok(y) => check!(x == y, "{}: {} became {} under {:?}", name, cut(&x), cut(&y), key), Err(e) => fail!("{}: {} is not extracted from {:?}: {}", name, cut(&x), key, e) }
    let f = wrap(r, Serialized::from(x.clone(), p), sel);
    match f.extract::<T>() { Ok(y) => check!(dict && x == y, "{}: {} became {} (dictionary: {})", name, cut(&x), cut(&y), dict), Err(e) => check!(!dict, "{}: {} is not extracted whole: {}", name, cut(&x), e) }
    c.cov.evals(3);
    c.cov.count(&format!("derived type {}", name));
    c.cov.distinct(&format!("{:?}", x));
    Ok(())
}

struct Bad(u8, u8);
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        if self.1 > 0 {
            let inner = Bad(self.0, self.1 - 1);
            return match (self.0 + self.1) % 5 {
                0 => { let mut q = ser.serialize_seq(None)?; q.serialize_element(&1)?; q.serialize_element(&inner)?; q.end() }
                1 => { let mut q = ser.serialize_struct("S", 2)?; q.serialize_field("a", &1)?; q.serialize_field("b", &inner)?; q.end() }
                2 => ser.serialize_some(&inner),
                3 => ser.serialize_newtype_variant("E", 0, "V", &inner),
                _ => { let mut q = ser.serialize_map(None)?; q.serialize_entry("k", &inner)?; q.end() }
            }
        }
        let mut q = ser.serialize_map(Some(2))?;
        q.serialize_entry("fine", "x")?;
        match self.0 {
            0 => q.serialize_entry(&1u8, "x")?, 1 => q.serialize_entry(&true, "x")?, 2 => q.serialize_entry(&(1, 2), "x")?, 3 => q.serialize_entry(&(), "x")?,
            4 => q.serialize_entry(&None::<String>, "x")?, 5 => q.serialize_entry(&1.5f64, "x")?, 6 => q.serialize_entry(&-1i128, "x")?, 7 => q.serialize_entry(&vec!["a"], "x")?,
            8 => q.serialize_entry(&BTreeMap::from([("a", 1)]), "x")?, _ => q.serialize_entry(&0u64, "x")?,
        }
        q.end()
    }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    match c.idx % 16 {
        0 => { let x = all(r, 2); return typed(c, r, x, true) }
        1 => { let x = ext(r); let d = !matches!(x, Ext::Unit | Ext::Renamed); return typed(c, r, x, d) }
        2 => { let x = int(r); return typed(c, r, x, true) }
        3 => { let x = adj(r); return typed(c, r, x, true) }
        4 => { let x = unt(r); let d = matches!(x, Unt::M { .. }); return typed(c, r, x, d) }
        7 => { let x = keys(r); return typed(c, r, x, true) }
        5 => {
            let x = std_(r);
            typed(c, r, x.ip, false)?; typed(c, r, x.asks.0.clone(), false)?; typed(c, r, Some(x.asks.0.clone()), false)?; typed(c, r, x.sock, false)?; typed(c, r, x.dur, true)?; typed(c, r, x.range.clone(), true)?; typed(c, r, x.res.clone(), true)?; typed(c, r, x.bytes.clone(), false)?;
            typed(c, r, x.hm.clone(), true)?; typed(c, r, x.opt_ip, false)?; typed(c, r, x.big, false)?; typed(c, r, x.time, true)?;
            return typed(c, r, x, true)
        }
        6 => {
            // Non-string keys are rejected, wherever they are.
            let b = Bad(r.below(10) as u8, r.below(6) as u8);
            let v = Value::serialize(&b);
            check!(matches!(v.as_ref().err().map(|e| &e.kind), Some(Kind::UnsupportedKey(..))), "a map with a non-string key ({} {}) serializes to {}", b.0, b.1, cut(&v));
            let key = key_path(r);
            let desc = (b.0, b.1);
            let f = wrap(r, Serialized::default(&key, b), "default");
            let x = f.extract::<Value>();
            check!(matches!(x.as_ref().err().map(|e| &e.kind), Some(Kind::UnsupportedKey(..))), "a map with a non-string key gives {}", cut(&x));
            c.cov.evals(2); c.cov.count("non-string keys rejected"); c.cov.distinct(&desc);
            return Ok(())
        }
        _ => {}
    }
    let depth = r.range(1, 5);
    let sg = SGen { magic: false, any: true };
    let s = if r.chance(1, 5) { sg.gen(r, depth) } else { sg.root(r, depth) };
    let x = s.value(r);
    let show = |x: &Out| cut_str(&format!("{:?}", x), 700);
    let v = Value::serialize(Ser(&s, &x)).map_err(|e| Fail::new(format!("Value::serialize of {} as {:?} fails: {}", show(&x), s, e)))?;
    if matches!(v, Value::Dict(..) | Value::Array(..)) { c.cov.distinct(&format!("{:?} {:?}", s, x)); }
    c.cov.sample(|| format!("{:?} = {:?}", s, x));
    let dict = matches!(v, Value::Dict(..));
    let judge = |what: &str, res: Result<Dyn, figment::Error>| -> Res {
        match res {
            Ok(Dyn(y)) => check!(same_out(&x, &y), "{}: {} became {} as {:?}", what, show(&x), show(&y), s),
            Err(e) => fail!("{}: {} as {:?} is not extracted: {}", what, show(&x), s, e),
        }
        Ok(())
    };
    judge("Value", with(&s, || v.deserialize::<Dyn>()))?;
    // The dynamic value itself is what was written.
    let again = Value::serialize(&v).map_err(|e| Fail::new(e.to_string()))?;
    Cmp::plain().node(&value_node(&v), &again, "").map_err(|e| Fail::new(format!("a value does not serialize to itself: {}", e)))?;
    let (p, sel) = profile(r);
    let key = key_path(r);
    let f = wrap(r, Serialized::from(Ser(&s, &x), p).key(&key), sel);
    judge("under a key", with(&s, || f.extract_inner::<Dyn>(&key)))?;
    let f = wrap(r, Serialized::from(Ser(&s, &x), p), sel);
    let res = with(&s, || f.extract::<Dyn>());
    if dict { judge("whole", res)?; c.cov.count("dictionary roots"); }
    else {
        check!(matches!(res.as_ref().err().map(|e| &e.kind), Some(Kind::InvalidType(..))), "the non-dictionary {} without a key is not rejected: {}", show(&x), cut(&res));
        check!(f.extract::<Value>().is_err(), "the non-dictionary {} without a key contributes {}", show(&x), cut(&f.extract::<Value>()));
        c.cov.count("non-dictionary roots rejected");
    }
    let f = wrap(r, (key.as_str(), Ser(&s, &x)), sel);
    judge("as a tuple provider", with(&s, || f.extract_inner::<Dyn>(&key)))?;
    c.cov.evals(6);
    Ok(())
}
