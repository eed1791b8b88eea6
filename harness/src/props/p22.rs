//! P22: the documented deserialization helpers.
use std::collections::BTreeMap;
use std::fmt::Debug;
use figment::{Error, Figment};
use figment::error::Kind;
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::{Dict, Empty, Num, Tag, Value, magic::Tagged};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use crate::cov::*; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P22", case, quick: 800_000, thorough: 8_000_000, serial: false,
    rule: "values of every kind (near-miss strings, all integer widths, look-alike characters) read with the boolean helper from every provider, directly, in options, sequences, maps and nested structures and from other deserializers; maps of every key and value type read as pairs and written back, against an ordinary map; distinct by (helper, shape, value)",
};

/// The helper where an ordinary boolean would stand.
#[derive(Deserialize, Debug, Clone, PartialEq)]
#[serde(transparent)]
struct W { #[serde(deserialize_with = "figment::util::bool_from_str_or_int")] b: bool }
#[derive(Deserialize, Debug)]
struct B { #[serde(deserialize_with = "figment::util::bool_from_str_or_int")] flag: bool }
#[derive(Deserialize, Debug)]
struct BDef { #[serde(default, deserialize_with = "figment::util::bool_from_str_or_int")] flag: bool }

fn string(r: &mut Rng) -> String {
    let base = *r.pick(&["true", "false", "true", "false", "yes", "no", "on", "off", "t", "f", "1", "0", "", "tru", "fals", "truee", "falsey", "true false", "ttrue", "01", "+1", "-0", "1.0", "null", "TrUE\u{0}", "ｔrue", "fal\u{17f}e", "tr\u{fc}e", "truefalse", "2"]);
    let mut s: String = base.chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
    if r.chance(1, 12) { s = match r.below(4) { 0 => format!(" {}", s), 1 => format!("{} ", s), 2 => format!("{}\n", s), _ => format!("'{}'", s) } }
    s
}

fn int(r: &mut Rng) -> Num {
    // One or zero in the low bits of any width, with one bit too many.
    if r.chance(1, 12) { let k = r.range(1, 127); let n = 1u128 << k | r.below(2) as u128; return match k { 0..=62 if r.bool() => Num::I64(n as i64), 0..=63 if r.bool() => Num::U64(n as u64), _ if r.chance(1, 4) => Num::I128(n as i128), _ => Num::U128(n) } }
    let n: i128 = match r.below(10) { 0..=5 => r.below(2) as i128, 6 => -1, 7 => 2, 8 => *r.pick(&[256, 257, 65536, 65537, 1 << 32, (1 << 32) + 1, 255, -255, -256, i64::MIN as i128, 127, 128]), _ => *r.pick(&[1i128 << 64, (1i128 << 64) + 1, i128::MAX, i128::MIN, -(1i128 << 64), 1 - (1i128 << 64)]) };
    for _ in 0..6 {
        let m = match r.below(12) {
            0 => u8::try_from(n).ok().map(Num::U8), 1 => u16::try_from(n).ok().map(Num::U16), 2 => u32::try_from(n).ok().map(Num::U32), 3 => u64::try_from(n).ok().map(Num::U64),
            4 => u128::try_from(n).ok().map(Num::U128), 5 => usize::try_from(n).ok().map(Num::USize), 6 => i8::try_from(n).ok().map(Num::I8), 7 => i16::try_from(n).ok().map(Num::I16),
            8 => i32::try_from(n).ok().map(Num::I32), 9 => i64::try_from(n).ok().map(Num::I64), 10 => isize::try_from(n).ok().map(Num::ISize), _ => Some(Num::I128(n)),
        };
        if let Some(m) = m { return m }
    }
    Num::I128(n)
}

fn gen(r: &mut Rng) -> Value {
    let t = Tag::Default;
    match r.below(16) {
        0..=5 => Value::String(t, string(r)),
        6..=10 => Value::Num(t, int(r)),
        11 => Value::Bool(t, r.bool()),
        12 => Value::Num(t, *r.pick(&[Num::F64(0.0), Num::F64(1.0), Num::F32(1.0), Num::F64(-0.0), Num::F64(1e-9), Num::F64(0.5), Num::F32(0.0)])),
        13 => Value::Char(t, *r.pick(&['t', 'f', '0', '1', 'T'])),
        14 => Value::Empty(t, if r.bool() { Empty::None } else { Empty::Unit }),
        _ => match r.below(3) { 0 => Value::Array(t, vec![true.into()]), 1 => Value::Dict(t, Dict::new()), _ => Value::Dict(t, [("b".to_string(), Value::from(true))].into()) },
    }
}

/// The documented contract.
fn contract(v: &Value) -> Option<bool> {
    match v {
        Value::Bool(_, b) => Some(*b),
        Value::String(_, s) if s.eq_ignore_ascii_case("true") => Some(true),
        Value::String(_, s) if s.eq_ignore_ascii_case("false") => Some(false),
        Value::Num(_, n) => match int_of(n) { Some((false, 1)) => Some(true), Some((_, 0)) => Some(false), _ => None },
        _ => None,
    }
}

/// One observation of the helper: the value it stands on, what came out, and the key an error must name.
fn judge(c: &mut Ctx, what: &str, v: &Value, got: Result<bool, Error>, key: &[String]) -> Res {
    c.cov.eval();
    match (contract(v), got) {
        (Some(w), Ok(g)) => { check!(w == g, "{}: {:?} was read as {}", what, v, g); c.cov.count("accepted"); Ok(()) }
        (Some(w), Err(e)) => fail!("{}: {:?} denotes {} and was rejected: {}", what, v, w, e),
        (None, Ok(g)) => fail!("{}: {:?} was read as {} and is none of the documented forms", what, v, g),
        (None, Err(e)) => {
            check!(e.path == key, "{}: rejecting {:?} named the key {:?}, it is at {:?}", what, v, e.path, key);
            check!(e.count() == 1, "{}: rejecting {:?} gave {} errors", what, v, e.count());
            check!(matches!(e.kind, Kind::InvalidType(..) | Kind::InvalidValue(..)), "{}: rejecting {:?} gave {:?}", what, v, e.kind);
            c.cov.count("rejected");
            Ok(())
        }
    }
}

fn owner(what: &str, f: &Figment, e: &Option<Error>, name: &str) -> Res {
    let _ = f;
    if let Some(e) = e { check!(e.metadata.as_ref().map(|m| m.name.to_string()).as_deref() == Some(name), "{}: the error is attributed to {:?}, the value came from {:?}", what, e.metadata.as_ref().map(|m| &m.name), name) }
    Ok(())
}

struct Given(Dict);
impl figment::Provider for Given {
    fn metadata(&self) -> figment::Metadata { figment::Metadata::named("given") }
    fn data(&self) -> Result<figment::value::Map<figment::Profile, Dict>, Error> { Ok(figment::Profile::Default.collect(self.0.clone())) }
}

fn given(v: Value) -> Figment { let mut d = Dict::new(); d.insert("k".into(), v); Figment::from(Given(d)) }
fn key(s: &str) -> Vec<String> { s.split('.').map(|s| s.to_string()).collect() }

fn bool_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let v = gen(r);
    let lossy = r.chance(1, 3);
    fn ex<T: DeserializeOwned>(f: &Figment, k: &str, lossy: bool) -> Result<T, Error> { if lossy { f.extract_inner_lossy(k) } else { f.extract_inner(k) } }
    c.cov.distinct(&("bool", format!("{:?}", v), r.clone().below(12)));
    match r.below(12) {
        0 => { let f = given(v.clone()); let g = ex::<W>(&f, "k", lossy).map(|w| w.b); owner("at a key", &f, &g.as_ref().err().cloned(), "given")?; judge(c, "at a key", &v, g, &key("k")) }
        1 => { let f = given(Value::from(Dict::from([("flag".to_string(), v.clone())]))); let g = ex::<B>(&f, "k", lossy).map(|w| w.flag); owner("in a structure", &f, &g.as_ref().err().cloned(), "given")?; judge(c, "in a structure", &v, g, &key("k.flag")) }
        2 => {
            let f = given(Value::from(Dict::from([("flag".to_string(), v.clone())])));
            judge(c, "in a structure with a default", &v, ex::<BDef>(&f, "k", lossy).map(|w| w.flag), &key("k.flag"))?;
            let g = given(Value::from(Dict::new()));
            check!(matches!(ex::<BDef>(&g, "k", lossy), Ok(BDef { flag: false })), "a missing flag with a default is {:?}", ex::<BDef>(&g, "k", lossy));
            let e = ex::<B>(&g, "k", lossy).map(|b| b.flag);
            check!(e.as_ref().is_err_and(|e| e.missing()), "a missing flag is {:?}", e);
            Ok(())
        }
        3 => {
            // In a sequence: the first rejected element is named.
            let vs: Vec<Value> = (0..r.below(4)).map(|_| gen(r)).chain([v]).collect();
            let f = given(Value::from(vs.clone()));
            let got = ex::<Vec<W>>(&f, "k", lossy);
            c.cov.eval();
            match vs.iter().position(|v| contract(v).is_none()) {
                None => { let want: Vec<bool> = vs.iter().map(|v| contract(v).unwrap()).collect(); check!(got.as_ref().is_ok_and(|g| g.iter().map(|w| w.b).eq(want.iter().copied())), "the sequence {:?} was read as {:?}", vs, got.map_err(|e| e.to_string())) }
                Some(i) => check!(got.as_ref().is_err_and(|e| e.path == key(&format!("k.{}", i))), "the sequence {:?}, refused at {}, was read as {:?}", vs, i, got.map_err(|e| (e.path.clone(), e.to_string()))),
            }
            Ok(())
        }
        4 => {
            let f = given(v.clone());
            let got = ex::<Option<W>>(&f, "k", lossy);
            c.cov.eval();
            match (&v, got) {
                (Value::Empty(..), g) => { check!(matches!(g, Ok(None)), "{:?} read as an option is {:?}", v, g); Ok(()) }
                (_, Ok(None)) => fail!("{:?} was read as an absent option", v),
                (_, g) => judge(c, "in an option", &v, g.map(|w| w.unwrap().b), &key("k")),
            }
        }
        5 => {
            let f = given(Value::from(Dict::from([("one".to_string(), v.clone()), ("zero".to_string(), Value::from("FALSE"))])));
            let got = ex::<BTreeMap<String, W>>(&f, "k", lossy);
            if let Ok(m) = &got { check!(m.len() == 2 && !m["zero"].b, "a map of flags was read as {:?}", m) }
            judge(c, "in a map", &v, got.map(|m| m["one"].b), &key("k.one"))
        }
        6 => { let f = given(v.clone()); let got = ex::<Tagged<W>>(&f, "k", lossy).map(|t| t.into_inner().b); judge(c, "in a tagged value", &v, got, &key("k")) }
        7 => {
            // Through the value deserializer itself, without a figment.
            let got = v.deserialize::<W>().map(|w| w.b);
            c.cov.eval();
            match (contract(&v), got) { (Some(w), Ok(g)) if w == g => Ok(()), (None, Err(_)) => Ok(()), (w, g) => fail!("{:?} deserialized directly is {:?}, the contract says {:?}", v, g.map_err(|e| e.to_string()), w) }
        }
        8 => {
            // Any deserializer: JSON and YAML documents.
            let (t, doc) = match &v { Value::String(_, s) => (s.clone(), serde_json::to_string(s).unwrap()), Value::Num(_, n) if int_of(n).is_some_and(|(s, m)| m <= u64::MAX as u128 && (!s || m <= 1 << 63)) => { let (s, m) = int_of(n).unwrap(); let t = format!("{}{}", if s && m > 0 { "-" } else { "" }, m); (t.clone(), t) } Value::Bool(_, b) => (b.to_string(), b.to_string()), Value::Empty(..) => ("null".into(), "null".into()), _ => ("[]".into(), "[]".into()) };
            let w = match &v { Value::String(..) | Value::Bool(..) | Value::Num(..) if doc != "[]" => contract(&v), _ => None };
            let g = serde_json::from_str::<W>(&doc).ok().map(|x| x.b);
            c.cov.evals(2);
            check!(g == w, "JSON {} ({}) was read as {:?}, the contract says {:?}", doc, t, g, w);
            let y = serde_yaml::from_str::<W>(&doc).ok().map(|x| x.b);
            check!(y == w, "YAML {} ({}) was read as {:?}, the contract says {:?}", doc, t, y, w);
            Ok(())
        }
        9 => {
            // From documents: what the figment holds is what the contract is about.
            let lit = match &v { Value::String(_, s) => serde_json::to_string(s).unwrap(), Value::Num(_, n) if int_of(n).is_some_and(|(_, m)| m < 1 << 62) => { let (s, m) = int_of(n).unwrap(); format!("{}{}", if s && m > 0 { "-" } else { "" }, m) } Value::Bool(_, b) => b.to_string(), Value::Num(..) => "1.0".into(), _ => "[]".into() };
            if lit.contains("\\u0000") || lit.contains("\\'") { return Ok(()) }
            let f = match r.below(3) { 0 => Figment::from(Toml::string(&format!("flag = {}", lit))), 1 => Figment::from(Json::string(&format!("{{\"flag\": {}}}", lit))), _ => Figment::from(Yaml::string(&format!("flag: {}", lit))) };
            let held = f.find_value("flag").map_err(|e| Fail::new(format!("{}: {}", lit, e)))?;
            judge(c, "from a document", &held, if lossy { f.extract_lossy::<B>() } else { f.extract::<B>() }.map(|b| b.flag), &key("flag"))
        }
        10 => {
            let s = match &v { Value::String(_, s) if !s.contains('\0') => s.clone(), Value::Num(_, n) => format!("{:?}", numval(n)).chars().filter(|c| c.is_ascii_digit() || *c == '-').collect(), Value::Bool(_, b) => b.to_string(), _ => return Ok(()) };
            std::env::set_var("VHB_FLAG", &s);
            let f = Figment::from(Env::prefixed("VHB_"));
            std::env::remove_var("VHB_FLAG");
            let held = f.find_value("flag").map_err(|e| Fail::new(format!("{:?}: {}", s, e)))?;
            judge(c, "from the environment", &held, if lossy { f.extract_lossy::<B>() } else { f.extract::<B>() }.map(|b| b.flag), &key("flag"))
        }
        _ => {
            // Overridden: the value that wins is the one that is judged.
            let f = given(gen(r)).merge(Given(Dict::from([("k".to_string(), v.clone())])));
            let held = f.find_value("k").unwrap();
            judge(c, "merged over another", &held, ex::<W>(&f, "k", lossy).map(|w| w.b), &key("k"))
        }
    }
}

// ------------------------------------------------------------ pairs

#[derive(Deserialize, Serialize, Debug)]
struct Pairs<K: Serialize + DeserializeOwned, V: Serialize + DeserializeOwned> { #[serde(with = "figment::util::vec_tuple_map", bound = "")] pairs: Vec<(K, V)> }

#[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[serde(rename_all = "lowercase")]
enum E { A, B, Key, Value, X }
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct New(String);
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
struct S { x: i64, #[serde(default)] y: Option<String> }
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
struct Deep { #[serde(with = "figment::util::vec_tuple_map")] inner: Vec<(String, u8)> }

trait Ty: Serialize + DeserializeOwned + Debug + PartialEq + Clone { fn gen(r: &mut Rng) -> Self; }
impl Ty for i64 { fn gen(r: &mut Rng) -> i64 { r.next() as i64 >> r.below(63) } }
impl Ty for u8 { fn gen(r: &mut Rng) -> u8 { r.next() as u8 } }
impl Ty for bool { fn gen(r: &mut Rng) -> bool { r.bool() } }
impl Ty for String { fn gen(r: &mut Rng) -> String { r.pick(&["a", "b", "key", "value", "x", "", "é", "a.b", "A", " ", "0", "true", "long key with spaces"]).to_string() } }
impl Ty for char { fn gen(r: &mut Rng) -> char { *r.pick(&['a', 'b', 'é', '0', ' ', '.']) } }
impl Ty for E { fn gen(r: &mut Rng) -> E { r.pick(&[E::A, E::B, E::Key, E::Value, E::X]).clone() } }
impl Ty for New { fn gen(r: &mut Rng) -> New { New(String::gen(r)) } }
impl Ty for S { fn gen(r: &mut Rng) -> S { S { x: i64::gen(r), y: if r.bool() { Some(String::gen(r)) } else { None } } } }
impl<T: Ty> Ty for Vec<T> { fn gen(r: &mut Rng) -> Vec<T> { (0..r.below(4)).map(|_| T::gen(r)).collect() } }
impl<T: Ty> Ty for Option<T> { fn gen(r: &mut Rng) -> Option<T> { if r.bool() { Some(T::gen(r)) } else { None } } }
impl Ty for (u8, String) { fn gen(r: &mut Rng) -> Self { (u8::gen(r), String::gen(r)) } }
impl Ty for Deep { fn gen(r: &mut Rng) -> Deep { let mut inner: Vec<(String, u8)> = vec![]; for _ in 0..r.below(4) { let k = String::gen(r); if inner.iter().all(|p| p.0 != k) { inner.push((k, u8::gen(r))) } } inner.sort(); Deep { inner } } }
impl Ty for Value { fn gen(r: &mut Rng) -> Value { Gen::addr().with_depth(2).node(r).to_value() } }

fn pairs_of<K: Ty, V: Ty>(r: &mut Rng) -> Vec<(K, V)> {
    let mut v: Vec<(K, V)> = vec![];
    for _ in 0..r.size(6, 400) { let k = K::gen(r); if v.iter().all(|p| p.0 != k) { v.push((k, V::gen(r))) } }
    v
}
fn sorted<K: Ty, V: Ty>(v: &[(K, V)]) -> Vec<(K, V)> { let mut v = v.to_vec(); v.sort_by_key(|p| format!("{:?}", p.0)); v }

/// Keys a figment can hold.
fn pairs_fig<K: Ty + Ord, V: Ty>(c: &mut Ctx, r: &mut Rng) -> Res {
    let v = pairs_of::<K, V>(r);
    let what = || format!("pairs of {}", std::any::type_name::<(K, V)>());
    c.cov.distinct(&format!("{} {:?}", what(), v));
    if v.len() > 1 { c.cov.count("maps of two or more entries") }
    // Written: the same map an ordinary map gives.
    let map: BTreeMap<K, V> = v.iter().cloned().collect();
    #[derive(Serialize)] struct Plain<K: Ord + Serialize, V: Serialize> { pairs: BTreeMap<K, V> }
    let f = Figment::from(Serialized::defaults(Pairs { pairs: v.clone() }));
    let g = Figment::from(Serialized::defaults(Plain { pairs: map.clone() }));
    let (a, b) = (f.extract::<Dict>(), g.extract::<Dict>());
    c.cov.evals(2);
    match (&a, &b) {
        (Ok(a), Ok(b)) => check!(a == b, "{}: {:?} were written as {:?}, a map is written as {:?}", what(), v, a, b),
        (a, b) => fail!("{}: writing {:?}: {:?} / {:?}", what(), v, a.as_ref().map_err(|e| e.to_string()), b.as_ref().map_err(|e| e.to_string())),
    }
    let d = a.unwrap();
    let held = match d.get("pairs") { Some(Value::Dict(_, d)) => d.clone(), o => fail!("{}: {:?} were written as {:?}", what(), v, o) };
    check!(held.len() == v.len(), "{}: {} pairs were written as {} entries: {:?}", what(), v.len(), held.len(), held);
    // Read back: exactly the entries.
    let back = f.extract::<Pairs<K, V>>().map_err(|e| Fail::new(format!("{}: {:?} were not read back: {}", what(), v, e)))?;
    c.cov.eval();
    check!(sorted(&back.pairs) == sorted(&v), "{}: {:?} were read back as {:?}", what(), v, back.pairs);
    // Several providers: entries of the merged map, as an ordinary map has them.
    let v2 = pairs_of::<K, V>(r);
    let m = f.clone().merge(Serialized::defaults(Pairs { pairs: v2.clone() }));
    let lossy = r.bool();
    let (x, y) = if lossy { (m.extract_lossy::<Pairs<K, V>>().map(|p| p.pairs), m.extract_inner_lossy::<BTreeMap<K, V>>("pairs")) } else { (m.extract::<Pairs<K, V>>().map(|p| p.pairs), m.extract_inner::<BTreeMap<K, V>>("pairs")) };
    c.cov.eval();
    same(&what(), &m, x, y)?;
    // Sabotaged: an entry that does not fit is named, as with a map.
    let keys: Vec<String> = held.keys().cloned().collect();
    if !keys.is_empty() {
        let k = r.pick(&keys).clone();
        let mut h = held.clone();
        let bad = gen(r);
        if r.bool() { h.insert(k, bad); } else { h.insert(r.pick(&["zzz", "0", "-", "true"]).to_string(), bad); }
        let m = Figment::from(Given(Dict::from([("pairs".to_string(), Value::from(h))])));
        let (x, y) = if lossy { (m.extract_lossy::<Pairs<K, V>>().map(|p| p.pairs), m.extract_inner_lossy::<BTreeMap<K, V>>("pairs")) } else { (m.extract::<Pairs<K, V>>().map(|p| p.pairs), m.extract_inner::<BTreeMap<K, V>>("pairs")) };
        c.cov.eval();
        if x.is_err() { c.cov.count("entries refused") }
        same(&what(), &m, x, y)?;
    }
    // Not a map.
    let bad = gen(r);
    if !matches!(bad, Value::Dict(..)) {
        let m = Figment::from(Given(Dict::from([("pairs".to_string(), bad.clone())])));
        let x = if lossy { m.extract_lossy::<Pairs<K, V>>() } else { m.extract::<Pairs<K, V>>() };
        c.cov.eval();
        match x { Ok(p) => fail!("{}: {:?}, not a map, was read as {:?}", what(), bad, p.pairs), Err(e) => check!(e.path == key("pairs"), "{}: {:?}, not a map, was refused at {:?}", what(), bad, e.path) }
    }
    Ok(())
}

fn same<K: Ty + Ord, V: Ty>(what: &str, f: &Figment, x: Result<Vec<(K, V)>, Error>, y: Result<BTreeMap<K, V>, Error>) -> Res {
    match (x, y) {
        (Ok(x), Ok(y)) => { let y: Vec<(K, V)> = y.into_iter().collect(); check!(sorted(&x) == sorted(&y), "{}: {:?} read as pairs is {:?} and as a map {:?}", what, f.extract::<Value>(), x, y) }
        (Err(x), Err(y)) => check!(x.path == y.path && format!("{:?}", x.kind) == format!("{:?}", y.kind) && x.metadata == y.metadata && x.count() == y.count(), "{}: {:?} read as pairs fails with {:?} and as a map with {:?}", what, f.extract::<Value>(), x, y),
        (x, y) => fail!("{}: {:?} read as pairs is {:?} and as a map {:?}", what, f.extract::<Value>(), x.map_err(|e| e.to_string()), y.map_err(|e| e.to_string())),
    }
    Ok(())
}

/// Any format and key type: documents keep their order and every entry.
fn pairs_doc<K: Ty, V: Ty>(c: &mut Ctx, r: &mut Rng, yaml: bool) -> Res {
    let v = pairs_of::<K, V>(r);
    let what = || format!("pairs of {} in {}", std::any::type_name::<(K, V)>(), if yaml { "YAML" } else { "JSON" });
    c.cov.distinct(&format!("{} {:?}", what(), v));
    c.cov.evals(2);
    let p = Pairs { pairs: v.clone() };
    let (text, back) = if yaml { let t = serde_yaml::to_string(&p).map_err(|e| Fail::new(format!("{}: {:?}: {}", what(), v, e)))?; let b = serde_yaml::from_str::<Pairs<K, V>>(&t).map_err(|e| e.to_string()); (t, b) }
        else { let t = serde_json::to_string(&p).map_err(|e| Fail::new(format!("{}: {:?}: {}", what(), v, e)))?; let b = serde_json::from_str::<Pairs<K, V>>(&t).map_err(|e| e.to_string()); (t, b) };
    match back { Err(e) => fail!("{}: {:?} was written as {} and not read back: {}", what(), v, text, e), Ok(b) => check!(b.pairs == v, "{}: {:?} was written as {} and read back as {:?}", what(), v, text, b.pairs) }
    if !yaml && !v.is_empty() {
        // Entries as they stand in the text, each once.
        let mut at = 0;
        for (k, _) in &v { let k = serde_json::to_string(k).unwrap(); let k = if k.starts_with('"') { k } else { format!("\"{}\"", k) }; match text[at..].find(&format!("{}:", k)) { Some(i) => at += i, None => fail!("{}: {:?} was written as {}", what(), v, text) } }
    }
    Ok(())
}

/// Long maps: all their entries, each way.
fn pairs_long(c: &mut Ctx, r: &mut Rng) -> Res {
    let n = r.range(600, 4200);
    let mut v: Vec<(String, u16)> = (0..n).map(|i| (format!("{}k{}", r.below(1000), i), r.next() as u16)).collect();
    let f = Figment::from(Serialized::defaults(Pairs { pairs: v.clone() }));
    let d = f.extract_inner::<Dict>("pairs").map_err(|e| Fail::new(format!("{} pairs are not written: {}", n, e)))?;
    check!(d.len() == n, "{} pairs were written as {} entries", n, d.len());
    for (k, x) in &v { check!(d.get(k).and_then(|x| x.to_u128()) == Some(*x as u128), "of {} pairs {:?} was written as {:?}", n, (k, x), d.get(k)) }
    let back = f.extract::<Pairs<String, u16>>().map_err(|e| Fail::new(format!("{} pairs are not read back: {}", n, e)))?.pairs;
    let mut s = back.clone(); s.sort(); v.sort();
    check!(s == v, "{} pairs were read back as {}", n, back.len());
    let t = serde_json::to_string(&Pairs { pairs: back.clone() }).map_err(|e| Fail::new(e.to_string()))?;
    let j = serde_json::from_str::<Pairs<String, u16>>(&t).map_err(|e| Fail::new(e.to_string()))?.pairs;
    check!(j == back, "{} pairs went through JSON and came back as {}", n, j.len());
    c.cov.evals(4); c.cov.count("maps of hundreds of entries");
    c.cov.distinct(&("long", n, v.first().cloned()));
    Ok(())
}

fn pairs_case(c: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 400) { return pairs_long(c, r) }
    match r.below(18) {
        0 => pairs_fig::<String, i64>(c, r), 1 => pairs_fig::<String, String>(c, r), 2 => pairs_fig::<E, Vec<u8>>(c, r), 3 => pairs_fig::<New, Option<u8>>(c, r),
        4 => pairs_fig::<String, S>(c, r), 5 => pairs_fig::<String, Deep>(c, r), 6 => pairs_fig::<E, (u8, String)>(c, r), 7 => pairs_fig::<String, E>(c, r),
        8 => pairs_fig::<String, Value>(c, r), 9 => pairs_fig::<New, bool>(c, r), 10 => pairs_fig::<E, char>(c, r),
        11 => pairs_doc::<u8, String>(c, r, false), 12 => pairs_doc::<i64, S>(c, r, true), 13 => pairs_doc::<String, Deep>(c, r, false),
        14 => pairs_doc::<bool, Vec<u8>>(c, r, true), 15 => pairs_doc::<E, i64>(c, r, false), 16 => pairs_doc::<char, Option<i64>>(c, r, false), _ => pairs_doc::<u8, Deep>(c, r, true),
    }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if c.idx % 4 == 0 { pairs_case(c, r) } else { bool_case(c, r)?; bool_case(c, r) }
}
