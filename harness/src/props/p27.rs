//! P27: an error raised by a type, a provider or by hand reaches the user with every detail it was raised with.
use std::cell::RefCell;
use figment::error::{Actual, Kind, OneOf};
use figment::providers::Serialized;
use figment::value::{Dict, Map, Value, magic::Tagged};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{de::{self, Unexpected}, ser, Deserialize, Serialize};
use crate::cov::*; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P27", case, quick: 3_000_000, thorough: 20_000_000, serial: false,
    rule: "errors of every kind with random details, raised by hand, by a user's deserialization at a random place of a structure (whole, partial, lossy, wrapped) or by a user's serialization in a provider: kind, details, path, count, iteration and text against what was raised; distinct by (kind, details, place)",
};

/// What a type raises while it is deserialized.
#[derive(Clone, Debug)]
enum Raise { Custom(String), Type(U, String), Val(U, String), Len(usize, String), Variant(String, &'static [&'static str]), Field(String, &'static [&'static str]), Missing(&'static str), Dup(&'static str) }
#[derive(Clone, Debug)]
enum U { Bool(bool), Un(u64), Si(i64), Fl(f64), Char(char), Str(String), Bytes(Vec<u8>), Unit, Opt, New, Seq, Map, Enum, UV, NV, TV, SV, Other(String) }

const NAMES: &[&[&str]] = &[&[], &["one"], &["one", "two"], &["a", "b", "c"], &["", "x y", "é", "`"], &["z", "y", "x", "w", "v"], &["n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14"], &["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "m21", "m22", "m23", "m24", "m25", "m26", "m27", "m28", "m29", "m30", "m31", "m32", "m33", "m34", "m35", "m36", "m37", "m38", "m39", "m40", "m41", "m42", "m43", "m44", "m45", "m46", "m47", "m48", "m49", "m50", "m51", "m52", "m53", "m54", "m55", "m56", "m57", "m58", "m59", "m60", "m61", "m62", "m63", "m64", "m65", "m66", "m67", "m68", "m69", "the last of many"]];
const STATICS: &[&str] = &["", "name", "a.b", "default", "é", "x y", "`"];

impl U {
    fn gen(r: &mut Rng) -> U {
        match r.below(18) {
            0 => U::Bool(r.bool()), 1 => U::Un(*r.pick(&[0, 1, u64::MAX, 1 << 63, 300])), 2 => U::Si(*r.pick(&[0, -1, i64::MIN, i64::MAX, 7])), 3 => U::Fl(match r.below(3) { 0 => *r.pick(&[0.0, -0.5, 1e300, 3.25, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, 5e-324]), _ => gen_float(r) }),
            4 => U::Char(gen_char(r)), 5 => U::Str(gen_string(r)), 6 => U::Bytes((0..r.below(4)).map(|_| r.next() as u8).collect()), 7 => U::Unit, 8 => U::Opt, 9 => U::New, 10 => U::Seq, 11 => U::Map, 12 => U::Enum,
            13 => U::UV, 14 => U::NV, 15 => U::TV, 16 => U::SV, _ => U::Other(gen_string(r)),
        }
    }
    fn unexpected(&self) -> Unexpected<'_> {
        match self {
            U::Bool(b) => Unexpected::Bool(*b), U::Un(n) => Unexpected::Unsigned(*n), U::Si(n) => Unexpected::Signed(*n), U::Fl(n) => Unexpected::Float(*n), U::Char(c) => Unexpected::Char(*c), U::Str(s) => Unexpected::Str(s), U::Bytes(b) => Unexpected::Bytes(b),
            U::Unit => Unexpected::Unit, U::Opt => Unexpected::Option, U::New => Unexpected::NewtypeStruct, U::Seq => Unexpected::Seq, U::Map => Unexpected::Map, U::Enum => Unexpected::Enum,
            U::UV => Unexpected::UnitVariant, U::NV => Unexpected::NewtypeVariant, U::TV => Unexpected::TupleVariant, U::SV => Unexpected::StructVariant, U::Other(s) => Unexpected::Other(s),
        }
    }
    fn actual(&self) -> Actual {
        match self {
            U::Bool(b) => Actual::Bool(*b), U::Un(n) => Actual::Unsigned(*n as u128), U::Si(n) => Actual::Signed(*n as i128), U::Fl(n) => Actual::Float(*n), U::Char(c) => Actual::Char(*c), U::Str(s) => Actual::Str(s.clone()), U::Bytes(b) => Actual::Bytes(b.clone()),
            U::Unit => Actual::Unit, U::Opt => Actual::Option, U::New => Actual::NewtypeStruct, U::Seq => Actual::Seq, U::Map => Actual::Map, U::Enum => Actual::Enum,
            U::UV => Actual::UnitVariant, U::NV => Actual::NewtypeVariant, U::TV => Actual::TupleVariant, U::SV => Actual::StructVariant, U::Other(s) => Actual::Other(s.clone()),
        }
    }
    /// What of the details must be in a text.
    fn says(&self) -> Vec<String> {
        match self {
            U::Bool(b) => vec![b.to_string()], U::Un(n) => vec![n.to_string()], U::Si(n) => vec![n.to_string()], U::Fl(n) => vec![n.to_string()], U::Char(c) => vec![format!("{:?}", c)], U::Str(s) => vec![format!("{:?}", s)], U::Bytes(b) => vec![format!("{:?}", b)], U::Other(s) => vec![s.clone()],
            _ => vec![],
        }
    }
}

impl Raise {
    fn gen(r: &mut Rng) -> Raise {
        match r.below(9) {
            0 | 1 => Raise::Custom(gen_string(r)), 2 => Raise::Type(U::gen(r), gen_string(r)), 3 => Raise::Val(U::gen(r), gen_string(r)), 4 => Raise::Len(*r.pick(&[0, 1, 7, usize::MAX, 1 << 32]), gen_string(r)),
            5 => Raise::Variant(gen_string(r), r.pick(NAMES)), 6 => Raise::Field(gen_string(r), r.pick(NAMES)), 7 => Raise::Missing(r.pick(STATICS)), _ => Raise::Dup(r.pick(STATICS)),
        }
    }
    fn raise<E: de::Error>(&self) -> E {
        match self {
            Raise::Custom(s) => E::custom(s), Raise::Type(u, e) => E::invalid_type(u.unexpected(), &e.as_str()), Raise::Val(u, e) => E::invalid_value(u.unexpected(), &e.as_str()), Raise::Len(n, e) => E::invalid_length(*n, &e.as_str()),
            Raise::Variant(s, n) => E::unknown_variant(s, n), Raise::Field(s, n) => E::unknown_field(s, n), Raise::Missing(s) => E::missing_field(s), Raise::Dup(s) => E::duplicate_field(s),
        }
    }
    fn kind(&self) -> Kind {
        match self {
            Raise::Custom(s) => Kind::Message(s.clone()), Raise::Type(u, e) => Kind::InvalidType(u.actual(), e.clone()), Raise::Val(u, e) => Kind::InvalidValue(u.actual(), e.clone()), Raise::Len(n, e) => Kind::InvalidLength(*n, e.clone()),
            Raise::Variant(s, n) => Kind::UnknownVariant(s.clone(), n), Raise::Field(s, n) => Kind::UnknownField(s.clone(), n), Raise::Missing(s) => Kind::MissingField((*s).into()), Raise::Dup(s) => Kind::DuplicateField(s),
        }
    }
    fn says(&self) -> Vec<String> {
        let with = |mut v: Vec<String>, n: &[&str]| { v.extend(n.iter().map(|s| s.to_string())); v };
        match self {
            Raise::Custom(s) => vec![s.clone()], Raise::Type(u, e) | Raise::Val(u, e) => { let mut v = u.says(); v.push(e.clone()); v } Raise::Len(n, e) => vec![n.to_string(), e.clone()],
            Raise::Variant(s, n) | Raise::Field(s, n) => with(vec![s.clone()], n), Raise::Missing(s) | Raise::Dup(s) => vec![s.to_string()],
        }
    }
}

thread_local!(static RAISE: RefCell<Option<Raise>> = const { RefCell::new(None) });
/// A user's type: reads a value, and raises what it was told to.
#[derive(Debug)]
struct Picky(#[allow(dead_code)] Value);
impl<'de> Deserialize<'de> for Picky {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Picky, D::Error> {
        let v = <Value as Deserialize>::deserialize(d)?;
        match RAISE.with(|r| r.borrow().clone()) { Some(r) if v.as_str() == Some("RAISE") => Err(r.raise()), _ => Ok(Picky(v)) }
    }
}
#[derive(Deserialize, Debug)] #[allow(dead_code)] struct Newt(Picky);
#[derive(Deserialize, Debug)] #[allow(dead_code)] struct In { p: Option<Picky>, #[serde(default)] many: Vec<Picky>, #[serde(default)] map: Map<String, Picky>, sub: Option<Box<In>>, newt: Option<Newt>, tagged: Option<Tagged<Picky>>, pair: Option<(u8, Picky)>, var: Option<Var> }
#[derive(Deserialize, Debug)] #[allow(dead_code)] enum Var { P(Picky), S { p: Picky }, T(u8, Picky) }

/// A value of the type that raises at one place, and the place.
fn place(r: &mut Rng, depth: usize, path: &mut Vec<String>) -> Value {
    let t = |s: &str| Value::from(s);
    let bad = || Value::from("RAISE");
    let mut at = |k: &str| path.push(k.to_string());
    let (k, v): (&str, Value) = match r.below(if depth > 0 { 12 } else { 9 }) {
        0 => { at("p"); ("p", bad()) }
        1 | 2 => { let n = r.range(1, 12); let i = r.below(n); at("many"); at(&i.to_string()); ("many", (0..n).map(|j| if j == i { bad() } else { t("fine") }).collect::<Vec<_>>().into()) }
        3 => { let k = *r.pick(&["a", "é", "x y", "b-c", "0"]); at("map"); at(k); ("map", Dict::from([(k.to_string(), bad()), ("other".into(), t("ok"))]).into()) }
        4 => { at("newt"); ("newt", bad()) }
        5 => { at("tagged"); ("tagged", bad()) }
        6 => { at("pair"); at("1"); ("pair", vec![Value::from(1), bad()].into()) }
        7 => { at("var"); at("P"); ("var", Dict::from([("P".to_string(), bad())]).into()) }
        8 => if r.bool() { at("var"); at("S"); at("p"); ("var", Dict::from([("S".to_string(), Dict::from([("p".to_string(), bad())]).into())]).into()) } else { at("var"); at("T"); at("1"); ("var", Dict::from([("T".to_string(), vec![Value::from(1), bad()].into())]).into()) },
        _ => { at("sub"); ("sub", place(r, depth - 1, path)) }
    };
    let mut d: Dict = [(k.to_string(), v)].into();
    if r.bool() && k != "p" { d.insert("p".into(), "good".into()); }
    d.into()
}

fn judge(c: &mut Ctx, how: &str, e: &Error, k: &Kind, path: &[String], says: &[String]) -> Res {
    c.cov.eval();
    check!(format!("{:?}", e.kind) == format!("{:?}", k), "{}: the kind is {:?}, raised was {:?}", how, e.kind, k);
    check!(e.path == path, "{}: the path is {:?}, raised was {:?} at {:?}", how, e.path, k, path);
    check!(e.count() == 1 && e.clone().into_iter().count() == 1, "{}: {} errors for one", how, e.count());
    check!(e.missing() == matches!(k, Kind::MissingField(_)), "{}: missing() is {} for {:?}", how, e.missing(), k);
    let t = e.to_string();
    for s in says { check!(t.contains(s.as_str()), "{}: the text {:?} does not contain {:?}", how, cut_str(&t, 500), s); }
    Ok(())
}

struct Fails(String, Vec<String>);
impl Provider for Fails {
    fn metadata(&self) -> Metadata { Metadata::named("fails") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Err(Error::from(self.0.clone()).with_path(&self.1.join("."))) }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    match c.idx % 4 {
        0 => by_hand(c, r),
        1 => provider(c, r),
        _ => extraction(c, r),
    }
}

fn extraction(c: &mut Ctx, r: &mut Rng) -> Res {
    let raise = Raise::gen(r);
    let (kind, says) = (raise.kind(), raise.says());
    RAISE.with(|x| *x.borrow_mut() = Some(raise.clone()));
    let mut path = vec![];
    let depth = r.below(4);
    let v = place(r, depth, &mut path);
    let prof = *r.pick(&["default", "global", "debug"]);
    let named = Metadata::named("the one");
    struct Giver(Metadata, Dict, Profile);
    impl Provider for Giver { fn metadata(&self) -> Metadata { self.0.clone() } fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(self.2.collect(self.1.clone())) } }
    let wrap = r.bool();
    let d: Dict = if wrap { [("conf".to_string(), v.clone())].into() } else { v.clone().into_dict().unwrap() };
    let f = Figment::from(("zzz", 1)).merge(Giver(named.clone(), d, Profile::new(prof))).merge(("zz", 2)).select("debug");
    if wrap { path.insert(0, "conf".into()); }
    let (inner, foc) = (if wrap { "conf" } else { "" }, r.bool());
    let (how, got): (&str, Result<(), Error>) = match r.below(4) {
        0 if !wrap => ("extract", f.extract::<In>().map(|_| ())),
        1 if !wrap => ("extract_lossy", f.extract_lossy::<In>().map(|_| ())),
        2 => ("extract_inner_lossy", f.extract_inner_lossy::<In>(inner).map(|_| ())),
        _ if foc && wrap => { path.remove(0); ("focus.extract", f.focus("conf").extract::<In>().map(|_| ())) }
        _ => ("extract_inner", f.extract_inner::<In>(inner).map(|_| ())),
    };
    let at_tagged = path.iter().any(|k| k == "tagged");
    let cx = format!("{} of {:?} raised by a type at {:?}", how, raise, path);
    let e = match got { Err(e) => e, Ok(()) => fail!("{}: extraction succeeds", cx) };
    judge(c, &cx, &e, &kind, &path, &says)?;
    check!(e.metadata.as_ref().map(|m| m.name.as_ref()) == Some("the one"), "{}: the metadata is {:?}", cx, e.metadata);
    check!(e.profile.as_ref().map_or(false, |p| p == prof), "{}: the profile is {:?}, not {:?}", cx, e.profile, prof);
    check!(e.to_string().contains("the one"), "{}: the text {:?} does not name the provider", cx, e.to_string());
    // The same from the dynamic value itself.
    // (The tagged wrapper is read from figments.)
    if at_tagged { return Ok(()) }
    let plain: Result<In, Error> = v.deserialize();
    let at = if wrap && how != "focus.extract" { &path[1..] } else { &path[..] };
    match plain { Ok(_) => fail!("{}: deserializing the value succeeds", cx), Err(e) => { judge(c, &format!("{} (Value::deserialize)", cx), &e, &kind, at, &says)?; check!(e.metadata.is_none(), "{}: a plain value has metadata", cx) } }
    c.cov.count(match raise { Raise::Custom(_) => "custom", Raise::Type(..) => "invalid type", Raise::Val(..) => "invalid value", Raise::Len(..) => "invalid length", Raise::Variant(..) => "unknown variant", Raise::Field(..) => "unknown field", Raise::Missing(_) => "missing field", Raise::Dup(_) => "duplicate field" });
    c.cov.distinct(&(format!("{:?}", raise), &path, how));
    c.cov.sample(|| cx.clone());
    Ok(())
}

/// A user's type that cannot be written.
struct Unwritable(String, usize);
impl Serialize for Unwritable {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        struct Bad<'a>(&'a str);
        impl Serialize for Bad<'_> { fn serialize<S: ser::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(ser::Error::custom(self.0)) } }
        match self.1 {
            0 => Err(ser::Error::custom(&self.0)),
            1 => { let mut m = s.serialize_map(None)?; m.serialize_entry("fine", &1)?; m.serialize_entry("bad", &Bad(&self.0))?; m.end() }
            2 => { let mut m = s.serialize_seq(None)?; m.serialize_element(&1)?; m.serialize_element(&Some(Bad(&self.0)))?; m.end() }
            3 => s.serialize_newtype_struct("N", &Bad(&self.0)),
            _ => s.serialize_newtype_variant("E", 0, "V", &Bad(&self.0)),
        }
    }
}

fn provider(c: &mut Ctx, r: &mut Rng) -> Res {
    let msg = gen_string(r);
    c.cov.distinct(&("provider", &msg));
    if r.bool() {
        let place = r.below(5);
        let got = Value::serialize(Unwritable(msg.clone(), place));
        match got { Ok(v) => fail!("a value that cannot be written gives {:?}", v), Err(e) => judge(c, "writing a value", &e, &Kind::Message(msg.clone()), &[], &[msg.clone()])? }
        let f = Figment::from(("good", 1)).merge(Serialized::default("at.key", Unwritable(msg.clone(), place)));
        for (how, e) in [("extract", f.extract::<Value>().err()), ("extract_inner", f.extract_inner::<u8>("good").err()), ("find_value", f.find_value("good").err())] {
            let e = e.ok_or_else(|| Fail::new(format!("{} succeeds with a provider that cannot be written", how)))?;
            check!(e.count() == 1 && e.kind == Kind::Message(msg.clone()), "{}: a provider that cannot be written ({:?}) gives {:?}", how, msg, e);
            check!(e.metadata.is_some() && e.to_string().contains(&msg), "{}: a provider that cannot be written gives {}", how, e);
            c.cov.eval();
        }
    } else {
        let path: Vec<String> = (0..r.below(4)).map(|_| r.pick(&["a", "b-c", "é", "0"]).to_string()).collect();
        let f = Figment::from(("good", 1)).join(Fails(msg.clone(), path.clone()));
        let e = f.extract::<Value>().err().ok_or_else(|| Fail::new("extraction succeeds with a failing provider"))?;
        judge(c, "a failing provider", &e, &Kind::Message(msg.clone()), &path, &[msg.clone()])?;
        check!(e.metadata.as_ref().map(|m| m.name.as_ref()) == Some("fails"), "a failing provider's error has the metadata {:?}", e.metadata);
    }
    c.cov.count("raised by providers");
    Ok(())
}

fn by_hand(c: &mut Ctx, r: &mut Rng) -> Res {
    let raise = Raise::gen(r);
    let (kind, says) = match r.below(8) {
        0 => (Kind::ISizeOutOfRange(-7), vec!["-7".to_string()]), 1 => (Kind::USizeOutOfRange(usize::MAX), vec![usize::MAX.to_string()]),
        2 => { let u = U::gen(r); (Kind::Unsupported(u.actual()), u.says()) }
        3 => { let (u, s) = (U::gen(r), gen_string(r)); (Kind::UnsupportedKey(u.actual(), s.clone().into()), { let mut v = u.says(); v.push(s); v }) }
        _ => (raise.kind(), raise.says()),
    };
    let mut e = Error::from(kind.clone());
    let mut path: Vec<String> = vec![];
    // Paths are appended, component by component; empty ones do not count.
    for _ in 0..r.below(4) {
        let ks: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["a", "b c", "é", "", "0", "key", " ", "\t", " key", "\n", "\u{a0}"])).collect();
        e = e.with_path(&ks.join("."));
        path.extend(ks.iter().filter(|k| !k.is_empty()).map(|k| k.to_string()));
    }
    judge(c, "made by hand", &e, &kind, &path, &says)?;
    check!(e.metadata.is_none() && e.profile.is_none(), "an error made by hand has metadata {:?} and profile {:?}", e.metadata, e.profile);
    check!(e == e.clone() || format!("{:?}", kind).contains("NaN"), "an error is not its clone");
    check!(kind.to_string() == Error::from(kind.clone()).to_string(), "an error's text {:?} is not its kind's {:?}", Error::from(kind.clone()).to_string(), kind.to_string());
    let msg = gen_string(r);
    check!(Error::from(msg.as_str()) == Error::from(msg.clone()) && Error::from(msg.clone()).kind == Kind::Message(msg.clone()) && Error::from(msg.clone()).to_string() == msg, "a message {:?} became {:?}", msg, Error::from(msg.clone()));
    check!(<Error as de::Error>::custom(&msg).kind == Kind::Message(msg.clone()) && <Error as ser::Error>::custom(&msg).kind == Kind::Message(msg.clone()), "a custom error {:?} lost its message", msg);
    // What was found, as serde says it and as the library says it.
    let u = U::gen(r);
    check!(format!("{:?}", Actual::from(u.unexpected())) == format!("{:?}", u.actual()), "{:?} became {:?}", u, Actual::from(u.unexpected()));
    for s in u.says() { check!(u.actual().to_string().contains(&s), "the text {:?} of {:?} does not contain {:?}", u.actual().to_string(), u, s); }
    // Chains: every error exactly once, the later one first, whatever is chained to what.
    let n = if r.chance(1, 400) { r.range(200, 900) } else { r.range(1, 12) };
    let gone = r.below(2 * n);
    let mut groups: Vec<(Error, Vec<String>)> = (0..n).map(|i| (if i == gone { Error::from(Kind::MissingField(format!("e{}!", i).into())) } else { Error::from(format!("e{}!", i)) }.with_path(&format!("k{}", i)), vec![if i == gone { format!("missing field `e{}!`", i) } else { format!("e{}!", i) }])).collect();
    while groups.len() > 1 {
        let i = r.below(groups.len());
        let (a, la) = groups.swap_remove(i);
        let j = r.below(groups.len());
        let (b, lb) = groups.swap_remove(j);
        // `a.chain(b)`: a is prepended to b.
        groups.push((a.chain(b), lb.into_iter().chain(la).collect()));
    }
    let (e, want) = groups.pop().unwrap();
    check!(e.count() == want.len(), "{} errors chained count {}", want.len(), e.count());
    check!(e.missing() == want[0].starts_with("missing"), "the first of {:?}: missing() is {}", want, e.missing());
    let t = e.to_string();
    let got: Vec<(String, Vec<String>)> = e.into_iter().map(|e| { let n = e.count(); (format!("{}{}", e.kind, if n == 1 { "" } else { " and more" }), e.path) }).collect();
    check!(got.iter().map(|g| &g.0).eq(&want), "chained errors are {:?}, expected {:?}", got, want);
    for (k, p) in &got { check!(p.len() == 1 && p[0] == format!("k{}", k.chars().filter(|c| c.is_ascii_digit()).collect::<String>()), "the chained error {:?} has the path {:?}", k, p); }
    let mut at = 0;
    for w in &want { match t[at..].find(w.as_str()) { Some(i) => at += i + w.len(), None => fail!("the text {:?} does not list {:?} in order", t, want) } }
    check!(t.matches('!').count() == want.len(), "the text {:?} repeats an error", t);
    c.cov.evals(10);
    c.cov.count("made by hand");
    c.cov.distinct(&("by hand", format!("{:?}", kind), &path, n));
    let alts = *r.pick(NAMES);
    let t = OneOf(alts).to_string();
    let mut at = 0;
    for n in alts { match t[at..].find(n) { Some(i) => at += i + n.len(), None => fail!("{:?} does not name all of {:?}", t, alts) } }
    Ok(())
}
