//! P28: what a type's own Deserialize asks for is what it gets, judged by another deserializer.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use figment::error::Kind;
use figment::providers::{Format, Json, Serialized};
use figment::value::{Empty, Num, Tag, Value};
use figment::{Error, Figment};
use serde::{Deserialize, de::{DeserializeOwned, IgnoredAny}};
use serde_json::{json, Value as J};
use crate::cov::*; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P28", case, quick: 1_800_000, thorough: 20_000_000, serial: false,
    rule: "some fifty types using every serde attribute and shape, each with conforming data that is then mutated (keys dropped, added, renamed, swapped for aliases; values replaced, wrapped, emptied); reading it from a figment by every route, and from the value itself, is compared with reading the same data with serde_json: the same value, or an error of the same kind naming the same field or variant; distinct by (type, data)",
};

macro_rules! der { ($($(#[$m:meta])* $k:ident $n:ident $b:tt $($semi:literal)?)*) => { $(der!(@ $(#[$m])* $k $n $b);)* }; (@ $(#[$m:meta])* struct $n:ident {$($b:tt)*}) => { #[derive(Deserialize, Debug, PartialEq, Clone)] #[allow(dead_code)] $(#[$m])* struct $n { $($b)* } }; (@ $(#[$m:meta])* struct $n:ident ($($b:tt)*)) => { #[derive(Deserialize, Debug, PartialEq, Clone)] #[allow(dead_code)] $(#[$m])* struct $n ($($b)*); }; (@ $(#[$m:meta])* enum $n:ident {$($b:tt)*}) => { #[derive(Deserialize, Debug, PartialEq, Clone)] #[allow(dead_code)] $(#[$m])* enum $n { $($b)* } } }

fn nine() -> u8 { 9 }
fn halved<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u64, D::Error> { u64::deserialize(d).map(|x| x / 2) }
fn csv<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<String>, D::Error> { String::deserialize(d).map(|s| s.split(',').map(String::from).collect()) }

der! {
    struct Plain { a: u8, b: String, c: bool }
    #[serde(deny_unknown_fields)] struct Deny { a: i16, b: Option<String> }
    #[serde(rename_all = "kebab-case")] struct Kebab { long_name: u32, other_long_name: Option<bool>, x: f32 }
    #[serde(rename_all = "SCREAMING_SNAKE_CASE", deny_unknown_fields)] struct Scream { one_two: i64, #[serde(rename = "three!")] three: char }
    struct Alias { #[serde(alias = "first", alias = "premier")] a: u64, #[serde(rename = "second", alias = "b")] z: Vec<i8> }
    #[serde(default)] struct Defaults { a: u8, b: String, c: Vec<Plain>, d: Option<Box<Defaults>> }
    struct FieldDefaults { #[serde(default)] a: i32, #[serde(default = "nine")] b: u8, #[serde(default, alias = "cc")] c: BTreeMap<String, bool>, #[serde(skip)] d: u16, #[serde(skip_deserializing, default = "nine")] e: u8 }
    struct With { #[serde(deserialize_with = "halved")] a: u64, #[serde(deserialize_with = "csv", default)] b: Vec<String> }
    struct Flat { own: u16, #[serde(flatten)] plain: Plain }
    struct FlatRest { own: Option<u16>, #[serde(flatten)] rest: BTreeMap<String, J> }
    struct FlatOpt { x: i8, #[serde(flatten)] deny: Option<Plain> }
    struct FlatTwo { #[serde(flatten)] one: Alias, #[serde(flatten)] two: Kebab, #[serde(flatten)] rest: HashMap<String, Loose> }
    struct FlatEnum { id: u8, #[serde(flatten)] kind: Internal }
    struct FlatExt { id: u8, #[serde(flatten)] kind: External }
    #[serde(untagged)] enum Loose { B(bool), U(u64), I(i64), F(f64), S(String), V(Vec<Loose>), N(()), M(BTreeMap<String, Loose>) }
    enum External { Unit, New(u8), Tup(i8, String), Struct { a: bool, #[serde(default)] b: Option<u8> }, #[serde(rename = "other name")] Renamed(Vec<u8>), #[serde(alias = "legacy")] Aliased, Opt(Option<u8>), Nested(Box<External>), UnitIn(()) }
    #[serde(rename_all = "lowercase")] enum Units { One, Two, #[serde(alias = "iii")] Three, #[serde(other)] Rest }
    #[serde(rename_all_fields = "UPPERCASE")] enum Fields { A { lo: u8, hi: u8 }, B { only: String } }
    #[serde(tag = "type")] enum Internal { Unit, Struct { a: u8, b: Option<String> }, New(Plain), #[serde(rename = "m")] Map(BTreeMap<String, J>), #[serde(other)] Else }
    #[serde(tag = "type", deny_unknown_fields)] enum InternalDeny { A { x: i64 }, B {} , C }
    #[serde(tag = "t", content = "c")] enum Adjacent { Unit, New(String), Tup(u8, u8), Struct { x: i32 }, Opt(Option<bool>) }
    #[serde(tag = "t", content = "c", deny_unknown_fields)] enum AdjacentDeny { A, B(Plain) }
    #[serde(untagged)] enum Untagged { Two { a: u8, b: u8 }, One { a: u8 }, Pair(u8, String), Flag(bool), Num(i32), Text(String), Ext(External), Null }
    #[serde(transparent)] struct Through { inner: Vec<Option<u16>> }
    struct New (String)
    struct NewNew (New2)
    struct New2 (Option<i64>)
    struct Tup (u8, bool, Option<String>)
    struct Tup1Def (u8, #[serde(default)] String)
    #[serde(try_from = "u8")] struct Tried { n: u8 }
    #[serde(from = "Plain")] struct From_ { sum: usize }
    #[serde(expecting = "a very special thing")] struct Expect { a: u8 }
    struct Ints { a: Option<i8>, b: Option<i16>, c: Option<i32>, d: Option<i64>, e: Option<u8>, f: Option<u16>, g: Option<u32>, h: Option<u64>, i: Option<isize>, j: Option<usize>, k: Option<f32>, l: Option<f64> }
    struct Std { ip: Option<std::net::IpAddr>, dur: Option<std::time::Duration>, path: Option<std::path::PathBuf>, range: Option<std::ops::Range<u8>>, res: Option<Result<u8, String>>, bound: Option<std::ops::Bound<u8>>, nz: Option<std::num::NonZeroU8>, nzi: Option<std::num::NonZeroI64>, arr: Option<[u8; 3]>, set: Option<BTreeSet<String>>, dq: Option<VecDeque<bool>>, cow: Option<Cow<'static, str>>, boxed: Option<Box<[u8]>>, sock: Option<std::net::SocketAddr>, ch: Option<char>, unit: Option<()>, tup: Option<(u8,)> }
    struct Ignoring { a: Ig, b: Option<Ig>, c: Vec<Ig> }
    struct Keyed { u: BTreeMap<Units2, u8>, n: BTreeMap<New3, i8>, s: Option<HashMap<String, Units>> }
    struct Deep { d: Vec<BTreeMap<String, (u8, Vec<Option<External>>)>> }
    struct Mixed { l: Vec<Loose>, u: Option<Untagged>, a: Option<Adjacent>, i: Option<Internal>, e: Option<External>, k: Option<Units> }
    struct Rec { name: String, #[serde(default)] kids: Vec<Rec>, up: Option<Box<Rec>> }
    struct UnitHold { u: U0, v: Option<U0> }
    struct Dup { #[serde(alias = "aa")] a: u8, #[serde(alias = "bb")] b: Option<u8> }
}
#[derive(Deserialize, Debug, PartialEq, Clone)] struct U0;
#[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)] enum Units2 { A, #[serde(rename = "b b")] B, C }
#[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)] struct New3(String);
#[derive(Debug, Clone)] struct Ig;
impl PartialEq for Ig { fn eq(&self, _: &Ig) -> bool { true } }
impl<'de> Deserialize<'de> for Ig { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Ig, D::Error> { IgnoredAny::deserialize(d).map(|_| Ig) } }
impl Default for Defaults { fn default() -> Self { Defaults { a: 7, b: "dflt".into(), c: vec![], d: None } } }
impl TryFrom<u8> for Tried { type Error = String; fn try_from(n: u8) -> Result<Tried, String> { if n % 2 == 0 { Ok(Tried { n }) } else { Err("odd numbers are not tried".into()) } } }
impl From<Plain> for From_ { fn from(p: Plain) -> From_ { From_ { sum: p.a as usize + p.b.len() } } }

// ------------------------------------------------------------ data

fn s(r: &mut Rng) -> J { J::String(match r.below(8) { 0 => gen_string(r), 1 => "".into(), 2 => gen_char(r).to_string(), 3 => r.pick(&["Unit", "New", "a,b,,c", "one", "true", "1", "127.0.0.1"]).to_string(), _ => r.pick(&["x", "é", "two words", "text"]).to_string() }) }
fn u(r: &mut Rng) -> J { J::from(*r.pick(&[0u64, 1, 2, 7, 100, 255])) }
fn i(r: &mut Rng) -> J { J::from(*r.pick(&[0i64, 1, -1, 5, -128, 127, -7])) }
fn b(r: &mut Rng) -> J { J::from(r.bool()) }
fn fl(r: &mut Rng) -> J { J::from(*r.pick(&[0.5, -1.25, 3.0, 1e10, 0.0])) }
fn ch(r: &mut Rng) -> J { J::String(gen_char(r).to_string()) }
fn seq(r: &mut Rng, f: impl Fn(&mut Rng) -> J) -> J { J::Array((0..r.below(4)).map(|_| f(r)).collect()) }
fn map(r: &mut Rng, f: impl Fn(&mut Rng) -> J) -> J { J::Object((0..r.below(4)).map(|_| (r.pick(&["k", "é", "a", "x y", "z.w", ""]).to_string(), f(r))).collect()) }
/// An object of these entries, some of them left out at random.
fn obj(r: &mut Rng, req: Vec<(&str, J)>, opt: Vec<(&str, J)>) -> J {
    let mut o = serde_json::Map::new();
    for (k, v) in req { o.insert(k.into(), v); }
    for (k, v) in opt { if r.bool() { o.insert(k.into(), if r.chance(1, 8) { J::Null } else { v }); } }
    J::Object(o)
}
fn plain(r: &mut Rng) -> J { json!({"a": u(r), "b": s(r), "c": b(r)}) }
fn loose(r: &mut Rng, d: usize) -> J { match r.below(if d == 0 { 6 } else { 8 }) { 0 => b(r), 1 => u(r), 2 => i(r), 3 => fl(r), 4 => s(r), 5 => J::Null, 6 => seq(r, |r| loose(r, d - 1)), _ => map(r, |r| loose(r, d - 1)) } }
fn ext(r: &mut Rng, d: usize) -> J { match r.below(if d == 0 { 9 } else { 10 }) { 0 => json!("Unit"), 1 => json!({"New": u(r)}), 2 => json!({"Tup": [i(r), s(r)]}), 3 => { let (x, y) = (b(r), u(r)); json!({"Struct": obj(r, vec![("a", x)], vec![("b", y)])}) } 4 => json!({"other name": seq(r, u)}), 5 => json!(*r.pick(&["legacy", "Aliased"])), 6 => json!({"Opt": if r.bool() { J::Null } else { u(r) }}), 7 => json!({"UnitIn": null}), 8 => json!({"Unit": null}), _ => json!({"Nested": ext(r, d - 1)}) } }
fn internal(r: &mut Rng) -> J { match r.below(6) { 0 => json!({"type": "Unit"}), 1 => { let (x, y) = (u(r), s(r)); obj(r, vec![("type", json!("Struct")), ("a", x)], vec![("b", y)]) } 2 => { let mut p = plain(r); p["type"] = json!("New"); p } 3 => { let mut m = map(r, |r| loose(r, 1)); m["type"] = json!("m"); m } 4 => json!({"type": "something", "a": 1}), _ => json!({"type": s(r)}) } }
fn adjacent(r: &mut Rng) -> J { match r.below(6) { 0 => json!({"t": "Unit"}), 1 => json!({"t": "New", "c": s(r)}), 2 => json!({"c": [u(r), u(r)], "t": "Tup"}), 3 => json!({"t": "Struct", "c": {"x": i(r)}}), 4 => json!({"t": "Opt", "c": b(r)}), _ => json!({"t": "Unit", "c": null}) } }
fn units(r: &mut Rng) -> J { json!(*r.pick(&["one", "two", "three", "iii", "whatever"])) }
fn alias(r: &mut Rng) -> J { let (x, y) = (u(r), seq(r, i)); let mut o = serde_json::Map::new(); o.insert(r.pick(&["a", "first", "premier"]).to_string(), x); o.insert(r.pick(&["second", "b"]).to_string(), y); J::Object(o) }
fn kebab(r: &mut Rng) -> J { let (x, y, z) = (u(r), fl(r), b(r)); obj(r, vec![("long-name", x), ("x", y)], vec![("other-long-name", z)]) }
fn rec(r: &mut Rng, d: usize) -> J { let n = s(r); let k = if d == 0 { json!([]) } else { seq(r, |r| rec(r, d - 1)) }; let up = if d == 0 { J::Null } else { rec(r, d - 1) }; obj(r, vec![("name", n)], vec![("kids", k), ("up", up)]) }
fn defaults(r: &mut Rng, d: usize) -> J { let (x, y, z) = (u(r), s(r), seq(r, plain)); let w = if d == 0 { J::Null } else { defaults(r, d - 1) }; obj(r, vec![], vec![("a", x), ("b", y), ("c", z), ("d", w)]) }
fn join(a: J, b: J) -> J { match (a, b) { (J::Object(mut a), J::Object(b)) => { a.extend(b); J::Object(a) } (a, _) => a } }
fn untagged(r: &mut Rng) -> J { match r.below(8) { 0 => json!({"a": u(r), "b": u(r)}), 1 => json!({"a": u(r)}), 2 => json!([u(r), s(r)]), 3 => b(r), 4 => i(r), 5 => s(r), 6 => ext(r, 1), _ => J::Null } }
fn any_int(r: &mut Rng) -> J { match r.below(4) { 0 => J::from(r.next()), 1 => J::from(r.next() as i64), 2 => { let k = r.below(64); J::from((1u64 << k).wrapping_sub(r.below(3) as u64)) } _ => { let k = r.below(63); J::from(-(1i64 << k) - r.below(2) as i64) } } }

/// Every key that means something to some type.
const WORDS: &[&str] = &["a", "b", "c", "d", "x", "type", "t", "c", "own", "id", "first", "second", "premier", "long-name", "Unit", "New", "Struct", "one", "A", "b b", "secs", "nanos", "start", "end", "Ok", "Err", "k", "zzz", "", "inner", "name", "kids", "aa", "bb", "long_name", "other name"];

fn mutate(r: &mut Rng, j: &mut J, d: usize) {
    // Descend most of the time.
    if d < 6 && r.chance(3, 5) {
        match j {
            J::Object(o) if !o.is_empty() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); return mutate(r, &mut o[&k], d + 1) }
            J::Array(a) if !a.is_empty() => { let i = r.below(a.len()); return mutate(r, &mut a[i], d + 1) }
            _ => {}
        }
    }
    match j {
        J::Object(o) if r.chance(1, 40) => for i in 0..r.range(10, 45) { o.insert(format!("{}{}", r.pick(&["x", "zz", "a", "_"]), i), if r.bool() { J::Bool(true) } else { u(r) }); },
        J::Object(o) if r.chance(4, 5) => match r.below(5) {
            0 => { o.insert(r.pick(WORDS).to_string(), loose(r, 1)); }
            1 if !o.is_empty() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); o.remove(&k); }
            2 if !o.is_empty() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); let v = o.remove(&k).unwrap(); o.insert(r.pick(WORDS).to_string(), v); }
            3 if !o.is_empty() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); let v = o[&k].clone(); o.insert(r.pick(WORDS).to_string(), v); }
            _ => { o.insert(r.pick(WORDS).to_string(), s(r)); }
        },
        J::Array(a) if r.chance(2, 3) => match r.below(3) { 0 => { a.pop(); } 1 if !a.is_empty() => { let i = r.below(a.len()); a.remove(i); } _ => { let x = loose(r, 1); a.push(x) } },
        j => *j = match r.below(9) { 0 => J::Null, 1 => any_int(r), 2 => json!([j.clone()]), 3 => json!({*r.pick(WORDS): j.clone()}), 4 => J::String(r.pick(WORDS).to_string()), 5 => fl(r), 6 => json!([]), 7 => json!({}), _ => loose(r, 2) },
    }
}

/// The same data as a figment's value: numbers in the widths that JSON has.
fn value(r: &mut Rng, j: &J, none: bool) -> Value {
    let t = Tag::Default;
    match j {
        J::Null => Value::Empty(t, if none { Empty::None } else { Empty::Unit }), J::Bool(b) => Value::Bool(t, *b), J::String(s) => Value::String(t, s.clone()),
        J::Number(n) => Value::Num(t, n.as_u64().map(Num::U64).or(n.as_i64().map(Num::I64)).unwrap_or_else(|| Num::F64(n.as_f64().unwrap()))),
        J::Array(a) => Value::Array(t, a.iter().map(|j| value(r, j, none)).collect()),
        J::Object(o) => Value::Dict(t, o.iter().map(|(k, j)| (k.clone(), value(r, j, none))).collect()),
    }
}

/// Where serde_json itself is particular: objects that are not one variant, and sequences with too many elements.
fn skip(a: &str, b: &str) -> bool {
    const OWN: &[&str] = &["map with a single key", "fewer elements", "in map", "in array", "expected value", "expected variant identifier", "expected struct variant"];
    OWN.iter().any(|t| b.contains(t) || a.contains(t))
}

/// What kind of error it is, and what it names.
fn class(text: &str) -> Option<String> {
    ["missing field `", "unknown field `", "unknown variant `", "duplicate field `"].iter().find_map(|p| { let rest = text.strip_prefix(p)?; Some(format!("{}{}", p, rest.find("`, expected").or(rest.find("`, there are no")).or(rest.rfind('`')).map(|i| &rest[..i])?)) })
        .or_else(|| ["data did not match any variant", "odd numbers are not tried"].iter().find(|p| text.starts_with(**p)).map(|p| p.to_string()))
        .or_else(|| ["invalid type", "invalid value", "invalid length"].iter().find(|p| text.starts_with(**p)).map(|p| p.to_string()))
}
fn class_of(e: &Error) -> Option<String> {
    match &e.kind {
        Kind::MissingField(f) => Some(format!("missing field `{}", f)), Kind::UnknownField(f, _) => Some(format!("unknown field `{}", f)), Kind::UnknownVariant(v, _) => Some(format!("unknown variant `{}", v)), Kind::DuplicateField(f) => Some(format!("duplicate field `{}", f)),
        Kind::Message(m) => class(m), Kind::InvalidType(..) => Some("invalid type".into()), Kind::InvalidValue(..) => Some("invalid value".into()), Kind::InvalidLength(..) => Some("invalid length".into()),
        _ => None,
    }
}

/// Numbers may select variants of tags in a figment's values; JSON has only names.
fn named_tags(j: &mut J) {
    match j {
        J::Object(o) => for (k, v) in o.iter_mut() { if (k == "type" || k == "t") && v.is_number() { *v = J::String(v.to_string()) } named_tags(v) },
        J::Array(a) => a.iter_mut().for_each(named_tags),
        _ => {}
    }
}

/// Keys that sort before and after all others, and look like something else.
fn odd_keys(r: &mut Rng, j: &mut J) {
    if let J::Object(o) = j { if r.chance(1, 30) { for _ in 0..r.range(1, 2) {
        let k = match r.below(3) { 0 => format!("{}{}", r.pick(&["#", "_", "$", "@", "//", "-", ".", "!", "\"", " ", "~", "0", "x-"]), gen_string(r)), 1 => r.pick(&["#", "_", "$schema", "//", "0", "1", "~", "\u{7f}", "é", "Zz"]).to_string(), _ => gen_string(r) };
        o.entry(k).or_insert(s(r));
    } } }
}

fn judge<T: DeserializeOwned + PartialEq + Debug + 'static>(c: &mut Ctx, r: &mut Rng, j: &J) -> Res {
    let name = std::any::type_name::<T>().replace("vh::props::p28::", "");
    let want = serde_json::from_value::<T>(j.clone());
    // Absent options are no units.
    let none = ["Deny", "Ints", "Through", "Rec", "Tup"].contains(&name.as_str()) && r.bool();
    let v = value(r, j, none);
    c.cov.distinct(&(&name, j.to_string()));
    c.cov.sample(|| format!("{} from {}", name, j));
    let mut routes: Vec<(&str, Result<T, Error>)> = vec![("value", v.deserialize::<T>())];
    let key = *r.pick(&["k", "a.b", "é.x.y"]);
    match r.below(5) {
        0 => routes.push(("key", Figment::from((key, v.clone())).extract_inner::<T>(key))),
        1 => { let f = Figment::from(Serialized::default(key, v.clone())).merge(("zz", 1)); routes.push(("value found", f.find_value(key).and_then(|v| v.deserialize::<T>()))) }
        2 => { let f = Figment::from(Json::string(&json!({"k": {"in": j}}).to_string())); if !none { routes.push(("JSON provider", f.extract_inner::<T>("k.in"))) } }
        3 => if let Value::Dict(_, d) = &v { let f = Figment::from(Serialized::defaults(d.clone())); routes.push(("whole", if r.bool() { f.extract::<T>() } else { Figment::new().merge(f).extract::<T>() })) },
        _ => if let Value::Dict(_, d) = &v { let f = Figment::from(Serialized::global(key, d.clone())).focus(key); routes.push(("focused", f.extract::<T>())) },
    }
    for (how, got) in routes {
        c.cov.eval();
        match (&want, got) {
            (Ok(w), Ok(g)) => { check!(*w == g, "{} from {} ({}): {:?}, serde_json reads {:?}", name, j, how, g, w); c.cov.count("read alike"); }
            (Err(w), Err(g)) => {
                let (wt, gt) = (w.to_string(), g.to_string());
                match (class(&wt), class_of(&g)) {
                    (Some(a), Some(b)) => if !skip(&gt, &wt) { check!(a == b || a.starts_with("invalid") && b.starts_with("invalid"), "{} from {} ({}): fails with {:?}, serde_json with {:?}", name, j, how, gt, wt); c.cov.count("refused alike"); },
                    _ => c.cov.count("refused by both"),
                }
            }
            (Ok(w), Err(g)) => check!(false, "{} from {} ({}): fails with {}, serde_json reads {:?}", name, j, how, g, w),
            // Of several keys, serde's map deserializer takes an enum from the first.
            (Err(w), Ok(g)) if w.to_string().contains("map with a single key") && matches!(name.as_str(), "External" | "Fields" | "Units") && matches!(j, J::Object(o) if o.len() > 1) => {
                let J::Object(o) = j else { unreachable!() };
                let (k, x) = o.iter().min_by(|a, b| a.0.cmp(b.0)).unwrap();
                let first = serde_json::from_value::<T>(json!({k: x}));
                match &first {
                    Err(w) if skip("", &w.to_string()) => c.cov.count("not judged"),
                    first => { check!(first.as_ref().ok() == Some(&g), "{} from {} ({}): read as {:?}, though its first key says {:?}", name, j, how, g, first); c.cov.count("several keys for a variant"); }
                }
            }
            (Err(w), Ok(g)) => { let wt = w.to_string(); if !skip("", &wt) { check!(false, "{} from {} ({}): read as {:?}, serde_json fails with {}", name, j, how, g, wt) } c.cov.count("not judged"); }
        }
    }
    Ok(())
}

/// What a reader is told of how much is left is true at every step.
struct Hinted(u64);
impl<'de> Deserialize<'de> for Hinted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        fn told<E: serde::de::Error>(hints: &[Option<usize>]) -> Result<(), E> {
            let n = hints.len() - 1;
            for (i, h) in hints.iter().enumerate() { if h.is_some_and(|h| h != n - i) { return Err(E::custom(format!("FALSE HINT: after {} of {} elements, {:?} remain", i, n, h))) } }
            Ok(())
        }
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Hinted;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
            fn visit_bool<E>(self, _: bool) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_u64<E>(self, _: u64) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_i64<E>(self, _: i64) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_f64<E>(self, _: f64) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_str<E>(self, _: &str) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_unit<E>(self) -> Result<Hinted, E> { Ok(Hinted(1)) }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
                let (mut h, mut n) = (vec![a.size_hint()], 1);
                while let Some(Hinted(k)) = a.next_element()? { n += k; h.push(a.size_hint()); }
                told(&h)?; Ok(Hinted(n))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
                let (mut h, mut n) = (vec![a.size_hint()], 1);
                while a.next_key::<String>()?.is_some() { let Hinted(k) = a.next_value()?; n += k; h.push(a.size_hint()); }
                told(&h)?; Ok(Hinted(n))
            }
        }
        d.deserialize_any(V)
    }
}
fn count(j: &J) -> u64 { match j { J::Array(a) => 1 + a.iter().map(count).sum::<u64>(), J::Object(o) => 1 + o.values().map(count).sum::<u64>(), _ => 1 } }
fn hinted(c: &mut Ctx, r: &mut Rng) -> Res {
    let j = if r.chance(1, 20) {
        let n = r.range(200, 3000);
        if r.bool() { J::Array((0..n).map(|i| J::from(i)).collect()) } else { J::Object((0..n).map(|i| (format!("k{}", i), J::from(i))).collect()) }
    } else { loose(r, 4) };
    let v = value(r, &j, false);
    let f = Figment::from(("k", v.clone()));
    let got = match r.below(3) { 0 => v.deserialize::<Hinted>(), 1 => f.extract_inner::<Hinted>("k"), _ => f.find_value("k").and_then(|v| v.deserialize::<Hinted>()) };
    c.cov.evals(2);
    c.cov.count("read with hints checked");
    c.cov.distinct(&("hinted", j.to_string()));
    match got { Ok(h) => check!(h.0 == count(&j), "{} has {} parts, {} were read", cut(&j), count(&j), h.0), Err(e) => check!(false, "reading {}: {}", cut(&j), e) }
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if r.chance(1, 40) { return hinted(c, r) }
    macro_rules! go { ($($t:ty => $g:expr),* $(,)?) => {{
        let n = 0 $(+ { let _ = stringify!($t); 1 })*;
        let mut _k = r.below(n);
        $( if _k == 0 { let g: &dyn Fn(&mut Rng) -> J = &$g; let mut j = g(r); for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2, 3]) { mutate(r, &mut j, 0) } odd_keys(r, &mut j); named_tags(&mut j); return judge::<$t>(c, r, &j) } _k = _k.wrapping_sub(1); )*
    }} }
    go! {
        Plain => plain, Deny => |r: &mut Rng| { let (x, y) = (i(r), s(r)); obj(r, vec![("a", x)], vec![("b", y)]) }, Kebab => kebab, Scream => |r: &mut Rng| json!({"ONE_TWO": i(r), "three!": ch(r)}),
        Alias => alias, Defaults => |r: &mut Rng| defaults(r, 2), FieldDefaults => |r: &mut Rng| { let (w, x, y) = (i(r), u(r), map(r, b)); let k = *r.pick(&["c", "cc"]); obj(r, vec![], vec![("a", w), ("b", x), (k, y), ("d", json!(3)), ("e", json!("x"))]) },
        With => |r: &mut Rng| { let (x, y) = (u(r), s(r)); obj(r, vec![("a", x)], vec![("b", y)]) }, Flat => |r: &mut Rng| join(json!({"own": u(r)}), plain(r)), FlatRest => |r: &mut Rng| { let x = u(r); let m = map(r, |r| loose(r, 2)); join(m, obj(r, vec![], vec![("own", x)])) },
        FlatOpt => |r: &mut Rng| { let p = if r.bool() { plain(r) } else { json!({}) }; join(p, json!({"x": i(r)})) }, FlatTwo => |r: &mut Rng| join(join(map(r, |r| loose(r, 2)), alias(r)), kebab(r)), FlatEnum => |r: &mut Rng| join(internal(r), json!({"id": u(r)})), FlatExt => |r: &mut Rng| join(match ext(r, 1) { J::String(s) => json!({s: null}), j => j }, json!({"id": u(r)})),
        Loose => |r: &mut Rng| loose(r, 3), External => |r: &mut Rng| ext(r, 2), Units => units, Fields => |r: &mut Rng| if r.bool() { json!({"A": {"LO": u(r), "HI": u(r)}}) } else { json!({"B": {"ONLY": s(r)}}) },
        Internal => internal, InternalDeny => |r: &mut Rng| match r.below(3) { 0 => json!({"type": "A", "x": i(r)}), 1 => json!({"type": "B"}), _ => json!({"type": "C"}) }, Adjacent => adjacent, AdjacentDeny => |r: &mut Rng| if r.bool() { json!({"t": "A"}) } else { json!({"t": "B", "c": plain(r)}) },
        Untagged => untagged, Through => |r: &mut Rng| seq(r, |r| if r.bool() { J::Null } else { u(r) }), New => s, NewNew => |r: &mut Rng| if r.bool() { J::Null } else { i(r) }, Tup => |r: &mut Rng| json!([u(r), b(r), if r.bool() { s(r) } else { J::Null }]), Tup1Def => |r: &mut Rng| json!([u(r), s(r)]),
        Tried => u, From_ => plain, Expect => |r: &mut Rng| json!({"a": u(r)}), Ints => |r: &mut Rng| { let v: Vec<(&str, J)> = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"].iter().map(|k| (*k, any_int(r))).collect(); obj(r, vec![], v.into_iter().take(3).collect()) },
        u8 => any_int, i8 => any_int, u16 => any_int, i16 => any_int, u32 => any_int, i32 => any_int, u64 => any_int, i64 => any_int, f32 => |r: &mut Rng| if r.bool() { fl(r) } else { any_int(r) }, f64 => |r: &mut Rng| if r.bool() { fl(r) } else { any_int(r) },
        Std => |r: &mut Rng| {
            let v = vec![("ip", json!(*r.pick(&["127.0.0.1", "::1", "1.2.3", "x"]))), ("dur", json!({"secs": u(r), "nanos": u(r)})), ("path", s(r)), ("range", json!({"start": u(r), "end": u(r)})), ("res", if r.bool() { json!({"Ok": u(r)}) } else { json!({"Err": s(r)}) }), ("bound", match r.below(3) { 0 => json!("Unbounded"), 1 => json!({"Included": u(r)}), _ => json!({"Excluded": u(r)}) }), ("nz", u(r)), ("nzi", i(r)), ("arr", json!([u(r), u(r), u(r)])), ("set", seq(r, s)), ("dq", seq(r, b)), ("cow", s(r)), ("boxed", seq(r, u)), ("sock", json!(*r.pick(&["1.2.3.4:5", "[::1]:80", "host:1"]))), ("ch", ch(r)), ("unit", J::Null), ("tup", json!([u(r)]))];
            let k = r.range(1, 4); let mut v = v; r.shuffle(&mut v); obj(r, v[..k].to_vec(), vec![])
        },
        Ignoring => |r: &mut Rng| json!({"a": loose(r, 2), "b": loose(r, 2), "c": seq(r, |r| loose(r, 1))}), Keyed => |r: &mut Rng| { let k = *r.pick(&["A", "b b", "C", "D"]); let t = map(r, units); let n = map(r, i); let x = u(r); obj(r, vec![("u", json!({k: x})), ("n", n)], vec![("s", t)]) },
        Deep => |r: &mut Rng| json!({"d": seq(r, |r| map(r, |r| json!([u(r), seq(r, |r| if r.chance(1, 3) { J::Null } else { ext(r, 1) })])))}), Mixed => |r: &mut Rng| { let v = vec![("u", untagged(r)), ("a", adjacent(r)), ("i", internal(r)), ("e", ext(r, 1)), ("k", units(r))]; let l = seq(r, |r| loose(r, 2)); obj(r, vec![("l", l)], v) },
        Rec => |r: &mut Rng| rec(r, 3), UnitHold => |_: &mut Rng| json!({"u": null, "v": null}), Dup => |r: &mut Rng| { let (x, y) = (u(r), u(r)); let (k, l) = (*r.pick(&["a", "aa"]), *r.pick(&["b", "bb"])); obj(r, vec![(k, x)], vec![(l, y)]) },
        Vec<u8> => |r: &mut Rng| seq(r, u), BTreeMap<String, Option<bool>> => |r: &mut Rng| map(r, |r| if r.bool() { J::Null } else { b(r) }), (u8, String) => |r: &mut Rng| json!([u(r), s(r)]), Option<Option<u8>> => |r: &mut Rng| if r.bool() { J::Null } else { u(r) }, () => |_: &mut Rng| J::Null, U0 => |_: &mut Rng| J::Null, String => s, char => ch, bool => b, Box<str> => s, J => |r: &mut Rng| loose(r, 3), Result<u8, String> => |r: &mut Rng| if r.bool() { json!({"Ok": u(r)}) } else { json!({"Err": s(r)}) }, [i8; 2] => |r: &mut Rng| json!([i(r), i(r)]),
    }
    Ok(())
}
