//! P24: no input crashes or hangs the library.
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use figment::{Error, Figment, Jail, Metadata, Profile, Provider, Source};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::util::{diff_paths, nest};
use figment::value::{Dict, Map, Tag, Value, magic::{Either, RelativePathBuf, Tagged}};
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer, ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct}};
use crate::cov::*; use crate::mv::*; use crate::rng::Rng; use crate::{render, schema};
use crate::schema::{Dyn, SGen, Ser};
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P24", case, quick: 250_000, thorough: 30_000_000, serial: false,
    rule: "hostile inputs at every public entry point: raw, mutated and truncated documents of each format, variable names and values, key paths, profile and file names, values of every shape against every target type, ill-behaved serializers and visitors, sized inputs for growth; every operation must return in bounded time; distinct by (entry point, input)",
};

const TOKENS: &[&str] = &["[", "]", "{", "}", "\"", "'", "\\", ",", "=", ":", "-", ".", "\n", "\r\n", " ", "\t", "#", "|", ">", "&a ", "*a", "!!str ", "!x ", "%", "@", "`", "~", "null", "true", "false", "1", "-", "+", "0x", "1e999", "99999999999999999999999999999999999999999999", "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "-0", "0.", ".0", "1e", "\\u", "\\u{", "\\ud800", "\\U0010FFFF", "\\U00110000", "\\x", "\0", "\u{feff}", "é", "日", "\u{1F600}", "\u{202e}", "<<", "---", "...", "? ", "a", "key", "\"\"\"", "'''", "inf", "nan", "1979-05-27T07:32:00Z", "_", "/*", "//", "${A}", "$", "\u{7f}", "\u{85}", "\u{2028}", "___figment_relative_path", "___figment_relative_metadata_path", "___figment_tagged_tag", "___figment_tagged_value", "___figment_value_tag", "___figment_value_value"];

fn text(r: &mut Rng, max: usize) -> String {
    match r.below(6) {
        0 => { let n = r.below(max + 1); (0..n).map(|_| gen_char(r)).collect() }
        1 => { let n = r.below(max + 1); String::from_utf8_lossy(&(0..n).map(|_| r.next() as u8).collect::<Vec<_>>()).into_owned() }
        2 => gen_string(r),
        _ => { let n = r.below(max + 1); (0..n).map(|_| *r.pick(TOKENS)).collect() }
    }
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut b: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = b.len();
        match r.below(7) {
            0 if n > 0 => { b.remove(r.below(n)); }
            1 => { let i = r.below(n + 1); let t: Vec<char> = r.pick(TOKENS).chars().collect(); b.splice(i..i, t); }
            2 if n > 0 => { b.truncate(r.below(n)); }
            3 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); let (i, j) = (i.min(j), i.max(j)); let part: Vec<char> = b[i..j].to_vec(); let k = r.below(n + 1); b.splice(k..k, part); }
            4 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); b.swap(i, j); }
            5 if n > 0 => { let i = r.below(n); b[i] = gen_char(r); }
            _ => { let i = r.below(n + 1); b.insert(i, *r.pick(&['"', '\'', '[', '{', '}', ']', '\\', '\n', ':', '=', ',', ' ', '\0'])); }
        }
        if b.len() > 20_000 { b.truncate(20_000) }
    }
    b.into_iter().collect()
}

fn doc(r: &mut Rng, fmt: usize, max: usize) -> String {
    if r.chance(1, 4) { return text(r, max) }
    let d = Gen::text().with_depth(r.range(1, 4)).dict(r);
    let s = match fmt { 0 => render::toml(&d, r), 1 => render::json(&Node::new(MV::Dict(d)), r), _ => render::yaml(&d, r) };
    if r.chance(1, 10) { s } else { mutate(r, &s) }
}

fn key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => { let n = r.below(300); vec![*r.pick(&["a", "", "b"]); n].join(".") }
        1 => ".".repeat(r.below(50)),
        2 => text(r, 12),
        3 => { let n = r.below(4); (0..n).map(|_| r.pick(KEYS_ODD).to_string()).collect::<Vec<_>>().join(".") }
        _ => { let n = r.range(1, 3); (0..n).map(|_| r.pick(KEYS).to_string()).collect::<Vec<_>>().join(".") }
    }
}

thread_local! { pub static SOUND: std::cell::Cell<bool> = const { std::cell::Cell::new(true) }; }
/// Notes text that is not UTF-8, which only unsafe code can make.
fn txt(s: &str) -> bool { let ok = std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok(); if !ok { SOUND.with(|c| c.set(false)) } ok }
fn sound(v: &Value) {
    match v {
        Value::String(_, s) => { txt(s); }
        Value::Char(_, c) => { let u = std::hint::black_box(*c as u32); if u > 0x10ffff || (0xd800..0xe000).contains(&u) { SOUND.with(|c| c.set(false)) } }
        Value::Dict(_, d) => for (k, v) in d { txt(k); sound(v) },
        Value::Array(_, a) => for v in a { sound(v) },
        _ => {}
    }
}

/// Reads a figment in every way, keeping only that each way returns.
fn read_all(r: &mut Rng, f: &Figment) {
    let k = key(r);
    let _ = f.extract::<Value>().map(|v| { sound(&v); format!("{:?}", v) }).map_err(|e| (txt(&e.to_string()), format!("{:?}", e), e.count(), e.missing(), e.clone().into_iter().count()));
    let _ = f.find_value(&k).map(|v| (v.to_bool(), v.to_bool_lossy(), v.to_i128(), v.to_u128(), v.to_num(), v.to_num_lossy(), v.to_actual().to_string(), v.find_ref(&k).is_some())).map_err(|e| e.to_string());
    let _ = (f.contains(&k), f.find_metadata(&k).map(|m| m.interpolate(f.profile(), &[&k])), f.metadata().count(), f.profiles().count());
    let g = f.focus(&k);
    let _ = (g.extract::<Dict>().map_err(|e| e.to_string()).is_ok(), g.data().is_ok(), format!("{:?}", g).len());
    // Against a random type, strict and lossy.
    for lossy in [false, true] {
        let s = if r.bool() { SGen { magic: true, any: true }.gen(r, 3) } else { SGen { magic: true, any: true }.root(r, 3) };
        let _ = schema::with(&s, || if lossy { f.extract_lossy::<Dyn>().map(|_| ()) } else { f.extract::<Dyn>().map(|_| ()) }).map_err(|e| e.to_string());
        let _ = schema::with(&s, || if lossy { f.extract_inner_lossy::<Dyn>(&k).map(|_| ()) } else { f.extract_inner::<Dyn>(&k).map(|_| ()) }).map_err(|e| e.to_string());
    }
    macro_rules! ty { ($($t:ty),* $(,)?) => { match r.below(0 $(+ { let _ = stringify!($t); 1 })*) { _n => { let mut _i = 0; $( if _i == _n { let _ = f.extract::<$t>().map(|x| format!("{:?}", x)).map_err(|e| e.to_string()); let _ = f.extract_inner_lossy::<$t>(&k).map(|x| format!("{:?}", x)).map_err(|e| e.to_string()); } _i += 1; )* } } } }
    ty!(BTreeMap<String, Tagged<Value>>, HashMap<String, RelativePathBuf>, Either<RelativePathBuf, BTreeMap<String, bool>>, Tagged<Either<RelativePathBuf, String>>, RelativePathBuf, Option<Option<u8>>, (u8, String), Vec<(String, i8)>, [u8; 3], char, f32, u128, i128, (), Error_, Borrowed, IgnoredAll, Vec<Option<char>>, BTreeMap<u8, u8>, BTreeMap<char, Tag>, Profile, Tag, bool, PathBuf, std::net::IpAddr, serde_json::Value, serde_yaml::Value, Greedy, Box<str>, std::time::Duration, Fl);
}
#[derive(Debug, Deserialize)] #[allow(dead_code)] enum Error_ { A, B(u8), C { x: u8 }, D(u8, u8) }
#[derive(Debug, Deserialize)] #[allow(dead_code)] struct Fl { #[serde(flatten)] rest: BTreeMap<String, Value>, a: Option<RelativePathBuf> }
#[derive(Debug)] struct Borrowed;
impl<'de> Deserialize<'de> for Borrowed { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let m = <BTreeMap<&'de str, &'de [u8]>>::deserialize(d)?; let _ = m; Ok(Borrowed) } }
#[derive(Debug)] struct IgnoredAll;
impl<'de> Deserialize<'de> for IgnoredAll { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { de::IgnoredAny::deserialize(d)?; Ok(IgnoredAll) } }
/// Asks for more than there is, in odd orders that serde allows.
#[derive(Debug)] struct Greedy;
impl<'de> Deserialize<'de> for Greedy {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Greedy;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("greed") }
            fn visit_map<A: de::MapAccess<'de>>(self, mut m: A) -> Result<Greedy, A::Error> {
                let _ = m.size_hint();
                while let Some(_k) = m.next_key::<String>()? { let _ = m.next_value::<Value>()?; }
                let _ = m.next_key::<String>()?; let _ = m.next_key::<u8>()?; let _ = m.size_hint();
                Ok(Greedy)
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut m: A) -> Result<Greedy, A::Error> {
                while m.next_element::<Value>()?.is_some() { let _ = m.size_hint(); }
                for _ in 0..3 { let _ = m.next_element::<u8>()?; let _ = m.size_hint(); }
                Ok(Greedy)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Greedy, D::Error> { Greedy::deserialize(d) }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Greedy, D::Error> { d.deserialize_tuple(9, V) }
            fn visit_u64<E>(self, _: u64) -> Result<Greedy, E> { Ok(Greedy) }
            fn visit_str<E>(self, _: &str) -> Result<Greedy, E> { Ok(Greedy) }
        }
        d.deserialize_any(V)
    }
}

/// Serializes in ways a careless implementation might.
struct Odd(u64, u8);
impl Serialize for Odd {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut r = Rng(self.0);
        let sub = |r: &mut Rng, d: u8| Odd(r.next(), d.saturating_sub(1));
        let d = self.1;
        let leaf = d == 0;
        match r.below(if leaf { 14 } else { 24 }) {
            0 => s.serialize_bool(r.bool()), 1 => s.serialize_u64(r.next()), 2 => s.serialize_i128(r.next() as i128 * -(r.next() as i128 >> 1)), 3 => s.serialize_u128(u128::MAX - r.next() as u128),
            4 => s.serialize_f32(f32::from_bits(r.next() as u32)), 5 => s.serialize_f64(f64::from_bits(r.next())), 6 => s.serialize_char(gen_char(&mut r)), 7 => s.serialize_str(&gen_string(&mut r)),
            8 => s.serialize_bytes(&[0, 255, 128]), 9 => s.serialize_none(), 10 => s.serialize_unit(), 11 => s.serialize_unit_variant("E", u32::MAX, "v"), 12 => Err(ser::Error::custom("no")), 13 => s.collect_str(&format_args!("{}", r.next())),
            14 => { let mut q = s.serialize_seq(*r.pick(&[None, Some(0), Some(100), Some(1 << 20)]))?; for _ in 0..r.below(4) { q.serialize_element(&sub(&mut r, d))?; } q.end() }
            15 => { let mut m = s.serialize_map(*r.pick(&[None, Some(0), Some(100), Some(1 << 16)]))?; for _ in 0..r.below(4) { if r.chance(3, 4) { m.serialize_entry(&gen_string(&mut r), &sub(&mut r, d))?; } else { m.serialize_entry(&sub(&mut r, 1), &sub(&mut r, d))?; } } m.end() }
            // Keys without values, values in another order.
            16 => { let mut m = s.serialize_map(None)?; m.serialize_key("k1")?; m.serialize_value(&sub(&mut r, d))?; if r.chance(1, 3) { m.serialize_key("k2")?; } m.end() }
            17 => { let mut t = s.serialize_struct("S", r.below(5))?; for _ in 0..r.below(4) { t.serialize_field(r.pick(&["a", "a", "", "é"]), &sub(&mut r, d))?; } if r.bool() { t.skip_field("z")?; } t.end() }
            18 => { let mut t = s.serialize_tuple(r.below(5))?; for _ in 0..r.below(4) { t.serialize_element(&sub(&mut r, d))?; } t.end() }
            19 => s.serialize_newtype_struct(r.pick(&["N", "", "___figment_value", "___figment_tagged_item", "___figment_either"]), &sub(&mut r, d)),
            20 => s.serialize_newtype_variant("E", 7, "v", &sub(&mut r, d)),
            21 => s.serialize_some(&sub(&mut r, d)),
            22 => { let t = s.serialize_tuple_struct("___figment_relative_path", 2)?; SerializeTupleStruct::end(t) }
            _ => { let mut t = s.serialize_struct(r.pick(&["___figment_tagged_item", "___figment_value", "___figment_relative_path"]), 2)?; t.serialize_field(r.pick(&["___figment_tagged_tag", "___figment_value_id", "___figment_relative_path"]), &sub(&mut r, d))?; t.serialize_field("___figment_tagged_value", &sub(&mut r, d))?; t.end() }
        }
    }
}

struct Any(Result<Map<Profile, Dict>, Error>, Option<Profile>, Metadata);
impl Provider for Any {
    fn metadata(&self) -> Metadata { self.2.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.0.clone() }
    fn profile(&self) -> Option<Profile> { self.1.clone() }
}
fn odd_value(r: &mut Rng) -> Value { let d = r.range(1, 4); let mut g = Gen::small().with_depth(d); g.big = 20; g.node(r).to_value() }
fn odd_dict(r: &mut Rng) -> Dict { (0..r.below(5)).map(|_| (key(r), odd_value(r))).collect() }
fn odd_provider(r: &mut Rng) -> Any {
    let data = if r.chance(1, 8) { Err(Error::from(text(r, 10)).with_path(&key(r))) } else { Ok((0..r.below(4)).map(|_| (Profile::new(&profile(r)), odd_dict(r))).collect()) };
    let mut md = Metadata::named(text(r, 6));
    if r.bool() { md = match r.below(3) { 0 => md.source(text(r, 6)), 1 => md.source(os_path(r).as_path()), _ => md.source(std::panic::Location::caller()) } }
    Any(data, if r.chance(1, 3) { Some(Profile::new(&profile(r))) } else { None }, md)
}
fn profile(r: &mut Rng) -> String { match r.below(4) { 0 => text(r, 5), 1 => String::new(), _ => r.pick(&["default", "GLOBAL", "debug", "Default", " default", "é"]).to_string() } }
fn os(r: &mut Rng, max: usize) -> OsString { if r.bool() { OsString::from(text(r, max).replace('\0', "")) } else { let n = r.below(max + 1); OsString::from_vec((0..n).map(|_| (r.next() as u8).max(1)).collect()) } }
/// Names of files that cannot exist or are not regular files: reading only.
fn os_path(r: &mut Rng) -> PathBuf {
    match r.below(8) {
        0 => PathBuf::new(), 1 => "/".into(), 2 => "..".into(), 3 => "a/".repeat(r.below(300)).into(), 4 => "x".repeat(r.below(6000)).into(), 5 => "nul\0byte".into(),
        6 => r.pick(&["../../../../../../../../../..", "/dev/null", "/proc/self", "./.", "//", "no/such/dir/f.toml"]).into(), _ => os(r, 10).into(),
    }
}

/// One hostile call sequence; `max` bounds the size of its inputs.
pub fn tour(c: &mut Ctx, r: &mut Rng, max: usize) -> Res {
    let which = r.below(16);
    let start = r.0;
    c.cov.eval();
    c.cov.count(["value text", "environment", "TOML", "JSON", "YAML", "YAML extended", "file contents", "file names", "combining", "profiles", "key paths", "odd serializers", "errors", "paths", "jail", "value api"][which]);
    c.cov.sample(|| format!("entry point group {}, generator state {:#x}", which, start));
    match which {
        0 => {
            let s = if r.bool() { text(r, max) } else { let mut node = Gen::small().node(r); super::p09::expressible(r, &mut node); let mut s = String::new(); super::p09::render(&node, r, true, &mut s); mutate(r, &s) };
            c.cov.distinct(&("value", &s));
            let v: Value = s.parse().unwrap();
            let _ = (format!("{:?}", v), v.to_actual().to_string());
            sound(&v);
            let f = Figment::from(("v", v));
            read_all(r, &f);
        }
        1 => {
            let mut names = vec![];
            for _ in 0..r.range(1, 5) {
                let mut n = OsString::from(*r.pick(&["VHZ_", "vhz_", "VHZ", "", "skif_", "SKIF"]));
                if r.chance(1, 4) { if let Some(s) = n.to_str() { n = lookalike(s, r).into() } }
                n.push(os(r, 10));
                let b: Vec<u8> = n.into_vec().into_iter().filter(|b| *b != b'=' && *b != 0).collect();
                if b.is_empty() { continue }
                let n = OsString::from_vec(b);
                if n.to_str().is_some_and(|s| matches!(s, "PATH" | "HOME" | "TMPDIR") || s.starts_with("VH_") || s.contains("SAN_OPTIONS")) { continue }
                std::env::set_var(&n, os(r, max));
                names.push(n);
            }
            c.cov.distinct(&("env", &names));
            let p = text(r, 4);
            let e = match r.below(4) { 0 => Env::raw(), 1 => Env::prefixed(&p), _ => Env::prefixed(*r.pick(&["VHZ_", "skif_", "SKIF", "sk", "S"])) };
            let t = text(r, 3); let k = key(r);
            let e = match r.below(8) { 0 => e.split(t), 1 => e.map(|k| k.as_str().replace('A', ".").into()), 2 => e.only(&[&k, "a"]), 3 => e.ignore(&[&k, ""]), 4 => e.lowercase(false), 5 => e.filter(|k| k.len() % 2 == 0), 6 => e.profile(profile(r)), _ => e.global() };
            let _ = e.iter().map(|(k, v)| (k.as_str().len(), v.len())).count();
            let _ = (Env::var(&k), Env::var_or(&k, "x"), Profile::from_env(&k), Profile::from_env_or(&k, "d"));
            let f = Figment::from(e);
            for n in names { std::env::remove_var(n); }
            read_all(r, &f);
        }
        2..=5 => {
            let s = doc(r, match which { 2 => 0, 3 => 1, _ => 2 }, max);
            c.cov.distinct(&("doc", which, &s));
            macro_rules! go { ($t:ident) => {{ let p = $t::string(&s); let p = match r.below(4) { 0 => p.nested(), 1 => p.profile(profile(r)), _ => p }; let _ = $t::from_str::<Value>(&s).map_err(|e| e.to_string()); Figment::from(p) }} }
            let f = match which { 2 => go!(Toml), 3 => go!(Json), 4 => go!(Yaml), _ => go!(YamlExtended) };
            read_all(r, &f);
            let _ = f.clone().select(profile(r)).extract::<Value>();
        }
        6 => {
            let b: Vec<u8> = match r.below(4) { 0 => { let n = r.below(max + 1); (0..n).map(|_| r.next() as u8).collect() } 1 => vec![0xff, 0xfe, b'a', 0], 2 => { let mut b = vec![0xef, 0xbb, 0xbf]; b.extend(doc(r, 0, max).bytes()); b } _ => { let mut b = doc(r, r.clone().below(3), max).into_bytes(); if !b.is_empty() { let i = r.below(b.len()); b[i] = r.next() as u8; } b } };
            c.cov.distinct(&("bytes", &b));
            let p = c.scratch.join("p24.in");
            std::fs::write(&p, &b).map_err(|e| Fail::new(e.to_string()))?;
            let f = match r.below(4) { 0 => Figment::from(Toml::file(&p)), 1 => Figment::from(Json::file(&p)), 2 => Figment::from(Yaml::file_exact(&p).nested()), _ => Figment::from(YamlExtended::file(&p).required(true)) };
            read_all(r, &f);
            let _ = std::fs::remove_file(&p);
        }
        7 => {
            let p = os_path(r);
            c.cov.distinct(&("file", &p));
            let req = r.bool();
            let f = match r.below(4) { 0 => Figment::from(Toml::file(&p).required(req)), 1 => Figment::from(Json::file_exact(&p).required(req)), 2 => Figment::from(Yaml::file(&p).search(r.bool())), _ => Figment::from(Toml::file(&p).nested().profile(profile(r))) };
            read_all(r, &f);
            let _ = f.metadata().map(|m| m.source.as_ref().map(|s| s.to_string())).count();
        }
        8 => {
            let mut f = Figment::new();
            for _ in 0..r.range(1, 6) {
                let p = odd_provider(r);
                f = match r.below(8) { 0 => f.merge(p), 1 => f.join(p), 2 => f.admerge(&p), 3 => f.adjoin(p), 4 => { let g = f.clone(); f.merge(g).join(p) } 5 => f.select(profile(r)), 6 => { let k = key(r); f.focus(&k).merge(p) } _ => Figment::from(&f).admerge(p) };
            }
            c.cov.distinct(&format!("{:?}", f));
            read_all(r, &f);
            let _ = f.select(profile(r)).extract_lossy::<Value>();
        }
        9 => {
            let (a, b) = (profile(r), profile(r));
            c.cov.distinct(&("profile", &a, &b));
            let (p, q) = (Profile::new(&a), Profile::from(b.as_str()));
            let _ = (p == q, p.cmp(&q), p.starts_with(&b), p.is_custom(), p.as_str().len(), p.to_string(), format!("{:?}", q), p.collect(odd_dict(r)).len());
            let f = Figment::new().select(p.clone()).merge((a.as_str(), &b)).merge(Serialized::from(&p, q.clone()).key(&b));
            read_all(r, &f);
            let _ = Value::serialize(&p).and_then(|v| v.deserialize::<Profile>());
            let _ = odd_value(r).deserialize::<Profile>();
            let _ = Toml::string("[default]\na=1").profile(p).nested();
        }
        10 => {
            let k = key(r);
            c.cov.distinct(&("key", &k));
            let v = odd_value(r);
            let n = nest(&k, v.clone());
            let _ = (n.find_ref(&k), n.clone().find(&k), n == v);
            let f = Figment::new().merge((k.as_str(), v.clone())).join(Serialized::default(&k, &v)).admerge(Serialized::globals(&n).key(&k)).merge(("a.b", 1));
            read_all(r, &f);
            let _ = (f.find_value(&k).is_ok(), f.find_metadata(&k).is_some(), f.extract_inner::<Value>(&k).map_err(|e| e.to_string()).is_ok(), f.focus(&k).focus(&k).extract::<Value>().is_ok());
        }
        11 => {
            let o = Odd(r.next(), r.below(4) as u8);
            c.cov.distinct(&("odd", o.0, o.1));
            let v = Value::serialize(&o).map_err(|e| e.to_string());
            if let Ok(v) = &v { let _ = (Value::serialize(v).is_ok(), v.deserialize::<Value>().is_ok(), v.to_actual().to_string(), serde_json::to_string(v).is_ok(), serde_yaml::to_string(v).is_ok()); }
            let k = key(r);
            let f = Figment::new().merge(Serialized::defaults(&o)).merge(Serialized::global(&k, &o)).join((k.clone(), &o));
            read_all(r, &f);
            let f = Figment::from(Serialized::global(&k, &o));
            read_all(r, &f);
        }
        12 => {
            let mut e = Error::from(text(r, 8)).with_path(&key(r));
            for _ in 0..r.below(6) { let n = Error::from(text(r, 4)).with_path(&key(r)); e = if r.bool() { e.chain(n) } else { n.chain(e) }; }
            if r.bool() { e.metadata = Some(Metadata::named(text(r, 3))); e.profile = Some(Profile::new(&profile(r))); }
            c.cov.distinct(&("error", format!("{:?}", e)));
            let _ = (e.to_string(), format!("{:#?}", e), e.count(), e == e.clone(), e.clone().into_iter().map(|e| e.to_string()).count());
            let f = Figment::from(Any(Err(e), None, Metadata::named(text(r, 3))));
            read_all(r, &f);
            let md = Metadata::from(text(r, 3), text(r, 3));
            let keys: Vec<String> = (0..r.below(5)).map(|_| text(r, 3)).collect();
            let _ = md.interpolate(&Profile::new(&profile(r)), &keys);
        }
        13 => {
            let (a, b) = (os_path(r), os_path(r));
            c.cov.distinct(&("paths", &a, &b));
            let _ = (diff_paths(&a, &b), Source::from(a.as_path()).to_string(), Source::File(b.clone()));
            let rp = RelativePathBuf::from(a.clone());
            let _ = (rp.relative(), rp.original().to_path_buf(), rp.metadata_path().map(|p| p.to_path_buf()), format!("{:?}", rp));
            let f = Figment::from(Serialized::defaults(Dict::from([("p".to_string(), Value::serialize(&rp).unwrap_or(Value::from(0)))])));
            let _ = f.extract_inner::<RelativePathBuf>("p").map(|p| p.relative()).map_err(|e| e.to_string());
            let f = Figment::from(Any(Ok(Profile::Default.collect(Dict::from([("p".to_string(), Value::from(text(r, 6)))]))), None, Metadata::named("x").source(b.as_path())));
            let _ = f.extract_inner::<RelativePathBuf>("p").map(|p| (p.relative(), p.metadata_path().map(|p| p.to_path_buf()))).map_err(|e| e.to_string());
            read_all(r, &f);
        }
        14 => {
            if r.chance(3, 4) && !cfg!(miri) { return Ok(()) }
            // Names stay inside the jail: P18 has the escaping ones, in a sandbox of their own.
            let name: String = text(r, 4).replace(['/', '\0'], "_");
            let name = if name.is_empty() || name.starts_with('.') { "n".into() } else { name };
            let (k, v) = (format!("VHJ_{}", text(r, 4)), text(r, max));
            c.cov.distinct(&("jail", &name, &k, &v));
            let body = doc(r, 0, max);
            let end = r.below(3);
            let res = std::panic::catch_unwind(|| Jail::try_with(|j| {
                let _ = j.create_file(&name, &body).is_ok();
                if !k.contains(['=', '\0']) && !v.contains('\0') { j.set_env(&k, &v); }
                let _ = j.create_dir("dd").is_ok();
                let _ = j.change_dir("dd").is_ok();
                let f = Figment::from(Toml::file(&name)).merge(Env::prefixed("VHJ_"));
                let _ = f.extract::<Value>().map_err(|e| e.to_string());
                let _ = j.directory().to_path_buf();
                match end { 0 => Err(text(&mut Rng(7), 4).into()), 1 => panic!("by design"), _ => Ok(()) }
            }));
            check!(res.is_err() == (end == 1), "a jail ended with a panic: {:?}", crate::sup::last_panic());
        }
        _ => {
            let v = odd_value(r);
            c.cov.distinct(&format!("{:?}", v));
            let k = key(r);
            let _ = (v.as_str().map(|s| s.len()), v.clone().into_string(), v.as_dict().is_some(), v.clone().into_dict(), v.as_array().is_some(), v.clone().into_array(), v.to_char(), v.to_bool(), v.to_bool_lossy(), v.to_num(), v.to_num_lossy(), v.to_u128(), v.to_i128(), v.to_f64(), v.to_empty(), v.tag());
            if let Some(n) = v.to_num_lossy() { let _ = (n.to_u32(), n.to_u128(), n.to_i128(), n.to_f64(), n.to_u128_lossy(), n.to_actual().to_string()); }
            let s = SGen { magic: true, any: true }.gen(r, 3);
            let _ = schema::with(&s, || v.deserialize::<Dyn>().map(|_| ())).map_err(|e| e.to_string());
            let _ = (v.find_ref(&k).is_some(), v.clone().find(&k), v == v.clone(), format!("{:#?}", v), v.deserialize::<Tagged<Value>>().is_ok(), v.deserialize::<Either<Tagged<u8>, Vec<Value>>>().is_ok(), v.deserialize::<Greedy>().is_ok(), v.deserialize::<Tag>().is_ok());
            // Tags nobody gave out.
            for _ in 0..3 {
                let n = match r.below(4) { 0 => r.next(), 1 => (r.below(4) as u64) << 62 | r.below(3) as u64, 2 => u64::MAX >> r.below(64), _ => 1 << r.below(64) };
                for t in [Value::from(n).deserialize::<Tag>().ok(), Value::from(figment::value::Dict::from([("___figment_tagged_tag".to_string(), n.into()), ("___figment_tagged_value".to_string(), 1.into())])).deserialize::<Tagged<u8>>().ok().map(|t| t.tag())].into_iter().flatten() {
                    let (p, d) = (t.profile(), format!("{:?}", t));
                    if let Some(p) = &p { txt(p.as_str().as_str()); }
                    txt(&d);
                    let _ = (Figment::from(("a", 1)).get_metadata(t).is_some(), t == Tag::Default, t.is_default(), t < Tag::Default, Value::serialize(t).is_ok());
                    let f = Figment::from(("k", Value::Bool(t, true)));
                    let _ = (f.find_metadata("k").map(|m| m.name.len()), f.extract_inner::<u8>("k").map_err(|e| e.to_string()), f.extract_inner::<Tagged<bool>>("k").is_ok());
                }
            }
            let s = SGen { magic: false, any: true }.gen(r, 3);
            let x = s.value(r);
            let f = Figment::from(("k", Ser(&s, &x)));
            read_all(r, &f);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ growth

extern "C" { fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32; }
/// CPU time of this thread.
fn cpu() -> f64 { if cfg!(miri) { return 0.0 } let mut t = [0i64; 2]; unsafe { clock_gettime(3, &mut t); } t[0] as f64 + t[1] as f64 / 1e9 }

const FAMILIES: usize = 20;
/// An input of about `n` units, and the work on it.
fn grow(fam: usize, n: usize) -> Box<dyn FnMut() -> usize> {
    fn value(s: String) -> Box<dyn FnMut() -> usize> { Box::new(move || { let v: Value = s.parse().unwrap(); let f = Figment::from(("k", v)); f.find_value("k").map(|v| v.as_dict().map_or(1, |d| d.len())).unwrap_or(0) }) }
    let dict = |n: usize| -> Dict { (0..n).map(|i| (format!("k{}", i), Value::from(i))).collect() };
    match fam {
        0 => value(format!("{{{}}}", (0..n).map(|i| format!("k{}={}", i, i)).collect::<Vec<_>>().join(","))),
        1 => value(format!("[{}]", vec!["1"; n].join(","))),
        2 => value(format!("\"{}\"", "\\n".repeat(n))),
        3 => value("9".repeat(n)),
        4 => value("[".repeat(n)),
        5 => value("{a=".repeat(n)),
        6 => value("[{a=[".repeat(n / 4)),
        7 => value(format!("[{}", "\"a\" ,".repeat(n))),
        8 => value(format!("{}\u{1F600}", " ".repeat(n))),
        9 => value("\"a\\".repeat(n)),
        10 => { let s = (0..n / 2).map(|i| format!("k{} = [{}, {{ a = {} }}]\n", i, i, i)).collect::<String>(); Box::new(move || Figment::from(Toml::string(&s)).extract::<Dict>().map_or(0, |d| d.len())) }
        11 => { let s = format!("{{{}}}", (0..n).map(|i| format!("\"k{}\": {}", i, i)).collect::<Vec<_>>().join(",")); Box::new(move || Figment::from(Json::string(&s)).extract::<Dict>().map_or(0, |d| d.len())) }
        12 => { let (a, b) = (dict(n), dict(n)); Box::new(move || Figment::new().merge(Serialized::defaults(&a)).join(Serialized::defaults(&b)).merge(Serialized::globals(&a)).extract::<Dict>().map_or(0, |d| d.len())) }
        13 => Box::new(move || { let mut f = Figment::new(); for i in 0..n / 20 { f = f.merge((format!("k{}", i), i)); } f.extract::<Dict>().map_or(0, |d| d.len()) }),
        14 => { let k = vec!["a"; (n / 4).min(3000)].join("."); Box::new(move || { let f = Figment::from((k.as_str(), 1)); f.find_value(&k).is_ok() as usize + f.focus(&k).extract::<Dict>().is_ok() as usize }) }
        15 => { let k = "a.".repeat(n); Box::new(move || { let f = Figment::from(("a.b", 1)); f.find_value(&k).is_ok() as usize + f.contains(&k) as usize + f.focus(&k).extract::<Dict>().is_ok() as usize }) }
        16 => Box::new(move || { let mut f = Figment::new(); for i in 0..n / 40 { f = f.merge(Any(Err(Error::from(format!("e{}", i))), None, Metadata::named("m"))); } f.extract::<Dict>().map_err(|e| e.to_string().len() + e.count()).err().unwrap_or(0) }),
        17 => { let a = "a/".repeat(n); let b = "b/".repeat(n); Box::new(move || diff_paths(&a, &b).map_or(0, |p| p.as_os_str().len())) }
        18 => { let v: Vec<Value> = (0..n).map(Value::from).collect(); Box::new(move || Figment::new().merge(("k", &v)).admerge(("k", &v)).adjoin(("k", &v)).extract_inner::<Vec<u64>>("k").map_or(0, |v| v.len())) }
        _ => { let s = (0..n).map(|i| format!("k{}: v{}\n", i, i)).collect::<String>(); Box::new(move || Figment::from(Yaml::string(&s)).extract::<Dict>().map_or(0, |d| d.len())) }
    }
}

fn growth_case(c: &mut Ctx, r: &mut Rng) -> Res {
    let fam = r.below(FAMILIES);
    let n = if cfg!(miri) { 10 } else { *r.pick(&[60, 100, 250, 600]) };
    let best = |n: usize| { let mut w = grow(fam, n); let mut b = f64::MAX; for _ in 0..3 { let t = cpu(); std::hint::black_box(w()); b = b.min(cpu() - t); if b > 0.5 { break } } b };
    let (t1, t4) = (best(n), best(4 * n));
    c.cov.evals(2);
    c.cov.count("growth measurements");
    c.cov.distinct(&("growth", fam, n));
    // Four times the input may take 4^3 times as long; small absolute times say nothing.
    check!(t4 < 0.5 || t4 < 100.0 * t1.max(1e-4), "input family {}: {} units take {:.4} s and {} take {:.4} s", fam, n, t1, 4 * n, t4);
    check!(t4 < 20.0, "input family {}: {} units take {:.1} s", fam, 4 * n, t4);
    Ok(())
}

/// Stack use with key paths of very many components, in a process of its own.
pub fn deep(n: usize) -> usize {
    let k = vec!["a"; n].join(".");
    let f = Figment::from((k.as_str(), 1));
    f.find_value(&k).is_ok() as usize
}
fn deep_probe(c: &mut Ctx) -> Res {
    let run = |n: usize| std::process::Command::new(std::env::current_exe().unwrap()).args(["deep", &n.to_string()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    let ok = |n| run(n).map(|s| s.success()).map_err(|e| Fail::new(e.to_string()));
    check!(ok(3000)?, "a key path of 3000 components ends the process");
    c.cov.evals(2);
    if !ok(300_000)? { return Err(Fail { msg: "adding a value under a key path of 300000 components overflows the stack and aborts the process".into(), known: Some("deep-key-path") }) }
    Ok(())
}

/// Long text of characters of every width wherever text goes.
fn long_text(c: &mut Ctx, r: &mut Rng) -> Res {
    let n = match r.below(4) { 0 => r.range(20, 300), 1 => r.range(300, 3000), 2 => r.range(3000, 9000), _ => (1usize << r.range(4, 14)) + r.below(5) - 2 };
    let pre = r.below(4);
    let unit: String = match r.below(6) { 0 => "日".into(), 1 => "é".into(), 2 => "\u{1F600}".into(), 3 => "a".into(), 4 => (0..r.range(1, 9)).map(|_| gen_char(r)).collect(), _ => "ab\u{a0}".into() };
    let mut s = "x".repeat(pre);
    while s.len() < n { s.push_str(&unit) }
    c.cov.eval(); c.cov.count("long text"); c.cov.distinct(&("long", &s));
    let f = match r.below(8) {
        0 => Figment::from(("v", s.as_str())), 1 => Figment::from((s.as_str(), 1u8)), 2 => Figment::from(("v", vec![&s, &s])),
        3 => Figment::from(Json::string(&serde_json::to_string(&BTreeMap::from([("v", &s)])).unwrap())), 4 => Figment::from(Serialized::from(BTreeMap::from([(s.as_str(), s.as_str())]), s.as_str())).select(s.as_str()),
        5 => Figment::from(Serialized::default("v", BTreeMap::from([(&s, [1])]))), 6 => Figment::from(Toml::string(&s)), _ => Figment::from(Yaml::string(&format!("v: {}", s))),
    };
    for at in ["", "v", &s, &s[..s.len() - unit.len().min(s.len() - pre)]] {
        macro_rules! as_ { ($($t:ty),*) => { $( { let _ = f.extract_inner::<$t>(at).map(|x| format!("{:?}", x).len()).map_err(|e| (txt(&e.to_string()), format!("{:?}", e).len())); let _ = f.extract_inner_lossy::<$t>(at).map_err(|e| e.to_string().len()).is_ok(); } )* } }
        as_!(u8, bool, char, f64, String, Vec<String>, BTreeMap<String, u8>, Error_, (u8, u8), PathBuf, Tagged<RelativePathBuf>, Fl);
        let _ = (f.contains(at), f.focus(at).extract::<Value>().map_err(|e| e.to_string()).is_ok(), f.find_metadata(at).map(|m| m.interpolate(f.profile(), &[at])));
    }
    if let Ok(v) = f.find_value("v") { sound(&v); let _ = (v.to_actual().to_string().len(), v.to_bool_lossy(), v.to_num_lossy(), s.parse::<Value>().is_ok()); }
    use figment::error::{Kind, OneOf};
    for k in [Kind::UnknownField(s.clone(), &["a"]), Kind::UnknownVariant(s.clone(), &["a", "b"]), Kind::InvalidLength(1, s.clone()), Kind::Message(s.clone()), Kind::Unsupported(de::Unexpected::Str(&s).into()), Kind::UnsupportedKey(de::Unexpected::Bytes(s.as_bytes()).into(), s.clone().into())] {
        let mut e = Error::from(k).with_path(&s);
        if r.bool() { e.metadata = Some(Metadata::from(s.clone(), s.as_str())); e.profile = Some(Profile::new(&s)); }
        let _ = (txt(&e.to_string()), format!("{:?}", e).len(), OneOf(&["a"]).to_string());
    }
    let _ = f.profiles().count();
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if c.idx == 0 && !cfg!(miri) && std::env::var_os("VH_SAN").is_none() { return deep_probe(c) }
    if c.idx % 1000 == 1 { return growth_case(c, r) }
    if c.idx % 250 == 5 && !cfg!(miri) && std::env::var_os("VH_SAN").is_none() { c.cov.count("nested uses of the library"); return super::p30::case(c).or_else(|f| if f.msg.contains("panicked") || f.msg.contains("blocks") { Err(f) } else { Ok(()) }) }
    if c.idx % 40 == 3 { return long_text(c, r) }
    let max = if c.idx % 50 == 2 { 400 } else { 24 };
    let t = cpu();
    let res = tour(c, r, max);
    let t = cpu() - t;
    if res.is_ok() && t > 10.0 && std::env::var_os("VH_SAN").is_none() { fail!("operations on inputs of at most {} tokens took {:.1} s", max, t) }
    res
}
