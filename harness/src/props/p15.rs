//! P15: numbers are never silently changed.
use std::collections::BTreeMap;
use figment::providers::{Format, Json, Serialized, Toml, Yaml};
use figment::value::{magic::Tagged, Num, Value};
use figment::{Figment, Profile};
use serde::{de::DeserializeOwned, Deserialize};
use crate::cov::*; use crate::mv::*; use crate::schema::*;
use crate::model::TP;
use crate::rng::Rng;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P15", case, quick: 4_000_000, thorough: 60_000_000, serial: false,
    rule: "every pair of the 14 numeric source variants (and decimal texts) with the 14 numeric target types, visited in turn, with values at and around every power of two and random ones, by ten routes, strict and lossy, judged by exact sign-and-magnitude arithmetic; non-trivial: the value does not fit the target, or source and target differ; distinct by (source, target, value)",
};

/// What came out, exactly.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum M { Int(bool, u128), F32(f32), F64(f64) }
impl M {
    fn same(self, o: M) -> bool {
        match (self, o) {
            (M::F32(a), M::F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (M::F64(a), M::F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (a, b) => a == b,
        }
    }
}

pub trait Tgt: DeserializeOwned { fn m(self) -> M; const T: Option<IntT>; const F32: bool = false; }
macro_rules! tgt { ($($t:ident $T:ident)*) => { $(impl Tgt for $t {
    #[allow(unused_comparisons)]
    fn m(self) -> M { if self < 0 { M::Int(true, (self as i128).unsigned_abs()) } else { M::Int(false, self as u128) } }
    const T: Option<IntT> = Some(IntT::$T);
})* } }
tgt!(u8 U8 u16 U16 u32 U32 u64 U64 u128 U128 usize USize i8 I8 i16 I16 i32 I32 i64 I64 i128 I128 isize ISize);
impl Tgt for f32 { fn m(self) -> M { M::F32(self) } const T: Option<IntT> = None; const F32: bool = true; }
impl Tgt for f64 { fn m(self) -> M { M::F64(self) } const T: Option<IntT> = None; }

/// The source: its exact value, and whether it is 128 bits wide.
#[derive(Clone, Debug)]
struct SrcNum { int: Option<(bool, u128)>, f32: Option<f32>, f64: Option<f64>, wide: bool }

fn judge<T: Tgt>(s: &SrcNum, got: &Result<T, String>, text: Option<&str>, route: &str) -> Result<(), String> where T: Clone {
    let got_m = got.as_ref().ok().map(|t| t.clone().m());
    let tname = std::any::type_name::<T>();
    let bad = |want: String| Err(format!("{} into {} by {}: got {:?}, expected {}", match text { Some(t) => format!("{:?}", t), None => format!("{:?}", s) }, tname, route, match got { Ok(_) => format!("{:?}", got_m.unwrap()), Err(e) => format!("error {:?}", e) }, want));
    match (s.int, T::T) {
        (Some(i), Some(t)) => {
            let must = t.fits(i) && (!s.wide || t.bits() == 128);
            match got_m {
                Some(m) if !t.fits(i) => bad(format!("an error, it does not fit; not {:?}", m)),
                Some(m) if m != M::Int(i.0, i.1) => bad("the same integer".into()),
                None if must => bad("the same integer".into()),
                _ => Ok(()),
            }
        }
        (Some((neg, mag)), None) => {
            let want = if T::F32 { let f = mag as f32; M::F32(if neg { -f } else { f }) } else { let f = mag as f64; M::F64(if neg { -f } else { f }) };
            match got_m {
                Some(m) if !m.same(want) => bad(format!("{:?}", want)),
                None if !s.wide => bad(format!("{:?}", want)),
                _ => Ok(()),
            }
        }
        (None, Some(_)) => match got_m { Some(m) => {
            // Only an integral float may be read as an integer, as that integer.
            let f = s.f64.unwrap();
            let ok = matches!(m, M::Int(neg, mag) if f.is_finite() && f.fract() == 0.0 && (mag as f64) == f.abs() && neg == (f < 0.0));
            if ok { Ok(()) } else { bad("an error or the same value".into()) }
        }, None => Ok(()) },
        (None, None) => {
            let ok = match got_m {
                Some(m) if T::F32 => m.same(M::F32(s.f64.unwrap() as f32)) || s.f32.map_or(false, |f| m.same(M::F32(f))),
                Some(m) => m.same(M::F64(s.f64.unwrap())),
                None => false,
            };
            if ok { Ok(()) } else { bad(format!("{:?}", s.f64.unwrap())) }
        }
    }
}

fn value_of(src: usize, r: &mut Rng) -> Num {
    if src == 12 || src == 13 {
        let f = match r.below(10) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => { let k = r.below(130) as i32; let f = 2f64.powi(k) + (r.below(5) as f64 - 2.0); if r.bool() { -f } else { f } } 4 => f32::from_bits(r.next() as u32) as f64, 5 => f64::from_bits(r.next()), _ => gen_float(r) };
        return if src == 12 { Num::F32(f as f32) } else { Num::F64(f) };
    }
    let t = INTS[src];
    loop {
        // Around powers of two, of ten, or anywhere.
        let k = r.below(129);
        let base: u128 = match r.below(4) { 0 => r.below(300) as u128, 1 => 10u128.pow(r.below(39) as u32), 2 => if k == 128 { u128::MAX } else { 1 << k }, _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128) };
        let mag = base.wrapping_add(r.below(7) as u128).wrapping_sub(3);
        let v = (mag != 0 && r.bool() && t.signed(), mag);
        if t.fits(v) { return t.make(v) }
    }
}

#[derive(Deserialize, Clone)] struct New<T>(T);
#[derive(Deserialize, Clone)] struct One<T> { k: T }
#[derive(Deserialize, Clone)] enum En<T> { V(T), S { x: T } }
impl<T> En<T> { fn get(self) -> T { match self { En::V(t) | En::S { x: t } => t } } }

fn es<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

fn routes<T: Tgt + Clone>(c: &mut Ctx, r: &mut Rng, v: &Value, s: &SrcNum, text: Option<&str>, lossy_only: bool) -> Res {
    let arr = Value::from(vec![v.clone()]);
    let global = r.bool();
    let raw = |k: &str, v: Value| Figment::from(TP { name: "n".into(), source: None, data: Ok(Profile::new(if global { "Global" } else { "default" }).collect([(k.to_string(), v)].into())), profile: None });
    fn ex<X: DeserializeOwned>(f: &Figment, k: &str, lossy: bool) -> Result<X, String> { es(if lossy { f.extract_inner_lossy(k) } else { f.extract_inner(k) }) }
    fn whole<X: DeserializeOwned>(f: &Figment, lossy: bool) -> Result<X, String> { es(if lossy { f.extract_lossy() } else { f.extract() }) }
    for lossy in [false, true] {
        if lossy_only && !lossy { continue }
        let l = if lossy { " lossily" } else { "" };
        let mut j = |route: &str, got: Result<T, String>| { c.cov.eval(); judge::<T>(s, &got, text, &format!("{}{}", route, l)).map_err(Fail::new) };
        let f = raw("k", v.clone());
        j("extract_inner", ex::<T>(&f, "k", lossy))?;
        match r.below(12) {
            0 => j("extract of a struct", whole::<One<T>>(&f, lossy).map(|o| o.k))?,
            1 => j("extract of a map", whole::<BTreeMap<String, T>>(&f, lossy).map(|mut o| o.remove("k").unwrap()))?,
            2 => j("extract of a sequence", ex::<Vec<T>>(&raw("k", arr.clone()), "k", lossy).map(|mut o| o.remove(0)))?,
            3 => j("extract of an option", ex::<Option<T>>(&f, "k", lossy).map(|o| o.unwrap()))?,
            4 => j("extract of a newtype", ex::<New<T>>(&f, "k", lossy).map(|o| o.0))?,
            5 => j("extract of a tagged", ex::<Tagged<T>>(&f, "k", lossy).map(|o| o.into_inner()))?,
            6 => { let d = Value::from(BTreeMap::from([(if r.bool() { "V" } else { "S" }, v.clone())])); let d = if d.find_ref("S").is_some() { Value::from(BTreeMap::from([("S", Value::from(BTreeMap::from([("x", v.clone())])))])) } else { d }; j("extract of a variant", ex::<En<T>>(&raw("k", d), "k", lossy).map(|o| o.get()))? }
            7 => j("a tuple provider", ex::<T>(&Figment::from(("a.b", v.clone())), "a.b", lossy))?,
            8 => j("Serialized", ex::<T>(&Figment::new().merge(Serialized::default("k", v.clone())), "k", lossy))?,
            9 => j("an array of arrays", ex::<Vec<(T,)>>(&raw("k", Value::from(vec![arr.clone()])), "k", lossy).map(|mut o| o.remove(0).0))?,
            10 => j("focus", whole::<One<T>>(&raw("d", Value::from(BTreeMap::from([("k", v.clone())]))).focus("d"), lossy).map(|o| o.k))?,
            _ => j("a figment in a figment", ex::<T>(&Figment::from(&f).select("x"), "k", lossy))?,
        }
        if !lossy {
            j("deserialize of a value", es(T::deserialize(v)))?;
            j("Value::deserialize", es(v.deserialize::<T>()))?;
            j("deserialize of a value in an array", es(arr.deserialize::<Vec<T>>().map(|mut v| v.remove(0))))?;
        }
    }
    c.cov.count(&format!("target {}", std::any::type_name::<T>()));
    Ok(())
}

/// Whether `Num` conversions and comparisons answer truthfully.
fn conversions(c: &mut Ctx, r: &mut Rng, n: Num, other: Num) -> Res {
    let v = Value::from(n);
    let i = int_of(&n);
    let wants = |u: bool| i.filter(|_| matches!(numval(&n), NumVal::U(_)) == u);
    let to_i = |(neg, mag): (bool, u128)| if neg { (mag as i128).wrapping_neg() } else { mag as i128 };
    check!(n.to_u128() == wants(true).map(|x| x.1), "{:?}.to_u128() is {:?}", n, n.to_u128());
    check!(n.to_i128() == wants(false).map(to_i), "{:?}.to_i128() is {:?}", n, n.to_i128());
    check!(n.to_u128_lossy() == i.filter(|x| !x.0).map(|x| x.1), "{:?}.to_u128_lossy() is {:?}", n, n.to_u128_lossy());
    let small = matches!(n, Num::U8(_) | Num::U16(_) | Num::U32(_));
    check!(n.to_u32() == wants(true).filter(|_| small).map(|x| x.1 as u32), "{:?}.to_u32() is {:?}", n, n.to_u32());
    let f = match n { Num::F32(f) => Some(f as f64), Num::F64(f) => Some(f), _ => None };
    let same = |a: Option<f64>, b: Option<f64>| match (a, b) { (Some(a), Some(b)) => M::F64(a).same(M::F64(b)), (a, b) => a.is_none() && b.is_none() };
    check!(same(n.to_f64(), f), "{:?}.to_f64() is {:?}", n, n.to_f64());
    check!(v.to_u128() == n.to_u128() && v.to_i128() == n.to_i128() && same(v.to_f64(), n.to_f64()), "the value of {:?} converts differently", n);
    let back = v.to_num_lossy();
    check!(back.map(|b| numval(&b)) == Some(numval(&n)), "{:?} as a value is {:?}", n, back);
    check!(v.to_num().map(|b| numval(&b)) == Some(numval(&n)), "{:?} as a value is {:?}", n, v.to_num());
    use figment::error::Actual;
    let actual = match (n.to_actual(), numval(&n)) { (Actual::Unsigned(a), NumVal::U(b)) => a == b, (Actual::Signed(a), NumVal::I(b)) => a == b, (Actual::Float(a), NumVal::F(b)) => M::F64(a).same(M::F64(f64::from_bits(b))), _ => false };
    check!(actual, "{:?} reports itself as {:?}", n, n.to_actual());
    // Comparison, within a class exactly, across classes never of different values.
    let o = match r.below(4) { 0 => n, 1 => near(n, r), _ => other };
    let eq = n == o;
    let want = match (numval(&n), numval(&o)) {
        (NumVal::F(a), NumVal::F(b)) => Some(f64::from_bits(a) == f64::from_bits(b)),
        (NumVal::U(a), NumVal::U(b)) => Some(a == b), (NumVal::I(a), NumVal::I(b)) => Some(a == b),
        _ if int_of(&n).is_some() && int_of(&o).is_some() => if int_of(&n) == int_of(&o) { None } else { Some(false) },
        _ => None,
    };
    if let Some(w) = want { check!(eq == w, "{:?} == {:?} is {}", n, o, eq); check!((v == Value::from(o)) == w, "as values, {:?} == {:?} is {}", n, o, !w); check!((o == n) == w, "equality of {:?} and {:?} is not symmetric", n, o); }
    c.cov.evals(10);
    Ok(())
}
/// Something that truncation or a change of sign would confuse with `n`.
fn near(n: Num, r: &mut Rng) -> Num {
    let t = *r.pick(&INTS);
    match int_of(&n) {
        Some((neg, mag)) => { let b = *r.pick(&[8, 16, 32, 64, 127]); let m2 = match r.below(4) { 0 => mag, 1 => mag.wrapping_add(1 << b), 2 => mag & ((1 << b) - 1), _ => (1u128 << b).wrapping_sub(mag) }; let v = (neg && m2 != 0 && t.signed(), m2); if t.fits(v) { t.make(v) } else { n } }
        None => Num::F64(n.to_f64().unwrap() as f32 as f64),
    }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let pair = (c.idx % (18 * 14)) as usize;
    let (src, tgt) = (pair / 14, pair % 14);
    // Sources 14..18 are texts: lossy strings, environment text, JSON, TOML or YAML.
    let num = if src < 14 { value_of(src, r) } else { let s = r.below(14); value_of(s, r) };
    let int = int_of(&num);
    let mut s = SrcNum { int, f32: if let Num::F32(f) = num { Some(f) } else { None }, f64: num.to_f64(), wide: matches!(num, Num::U128(_) | Num::I128(_)) };
    let mut text = None;
    let mut lossy_only = false;
    let v: Value = if src < 14 { Value::from(num) } else {
        let fits64 = int.map_or(true, |(neg, m)| if neg { m <= 1 << 63 } else { m <= u64::MAX as u128 });
        let t = match int { Some((neg, m)) => format!("{}{}{}", if neg { "-" } else { "" }, if src == 14 && r.chance(1, 8) { "00" } else { "" }, m), None => {
            let f = num.to_f64().unwrap();
            let f = if f.is_finite() { f } else { 0.5 };
            let mut t = match r.below(4) { 0 => format!("{}.{}", r.next() % 1000, r.next()), 1 => format!("{}{}.{:03}", if r.bool() { "-" } else { "" }, r.next(), r.below(1000)), _ => format!("{}", f) };
            if !t.contains('.') { t.push_str(".0"); }
            s.f64 = Some(t.parse().unwrap());
            s.f32 = Some(t.parse().unwrap());
            t
        } };
        s.wide = !fits64;
        if src != 14 && !fits64 { return Ok(()) }
        let v = match src {
            14 => { lossy_only = true; Value::from(t.clone()) }
            15 => t.parse::<Value>().unwrap(),
            16 => {
                // JSON's float parser may be off by one unit in the last place: exact decimals only.
                if int.is_none() { return Ok(()) }
                Figment::from(Json::string(&format!("{{\"n\": {}}}", t))).find_value("n").map_err(|e| Fail::new(format!("{}: {}", t, e)))?
            }
            _ => {
                let toml = r.bool() && int.map_or(true, |(_, m)| m <= i64::MAX as u128);
                let f = if toml { Figment::from(Toml::string(&format!("n = {}", t))) } else { Figment::from(Yaml::string(&format!("n: {}", t))) };
                f.find_value("n").map_err(|e| Fail::new(format!("{}: {}", t, e)))?
            }
        };
        text = Some(t);
        v
    };
    macro_rules! go { ($($i:literal $t:ident)*) => { match tgt { $($i => routes::<$t>(c, r, &v, &s, text.as_deref(), lossy_only),)* _ => unreachable!() } } }
    go!(0 u8 1 u16 2 u32 3 u64 4 u128 5 usize 6 i8 7 i16 8 i32 9 i64 10 i128 11 isize 12 f32 13 f64).map_err(|f| Fail { msg: format!("{}\n  source {:?}", f.msg, text.as_ref().map_or(format!("{:?}", num), |t| format!("text {} kind {}", t, src))), ..f })?;
    // Into a foreign dynamic value.
    if src < 14 && !s.wide && int.is_some() {
        let j: serde_json::Value = Figment::from(("k", v.clone())).extract_inner("k").map_err(|e| Fail::new(e.to_string()))?;
        let ok = match int.unwrap() { (false, m) => j.as_u64().map(u128::from) == Some(m), (true, m) => j.as_i64().map(|x| x.unsigned_abs() as u128) == Some(m) && j.as_i64() < Some(0) };
        check!(ok, "{:?} becomes {} as a JSON value", num, j);
        c.cov.eval();
    }
    if src >= 14 && int.is_some() && src != 14 {
        let x = v.to_num_lossy().and_then(|n| int_of(&n));
        check!(x == int, "the text {:?} is read as {:?}", text, v);
        c.cov.eval();
    }
    if src == 14 {
        let x = v.to_num_lossy();
        let ok = match int { Some(i) => x.and_then(|n| int_of(&n)) == Some(i), None => x.and_then(|n| n.to_f64()).map(|f| f.to_bits()) == s.f64.map(|f| f.to_bits()) };
        // (Integers beyond 128 bits cannot occur here.)
        check!(ok, "the string {:?} is the number {:?}", text, x);
        c.cov.eval();
    }
    let other = value_of(r.clone().below(14), r);
    conversions(c, r, num, other)?;
    if src != tgt { c.cov.distinct(&format!("{} {} {:?} {:?}", src, tgt, num, text)); }
    c.cov.count(match src { 14 => "source lossy text", 15 => "source environment text", 16 => "source JSON", 17 => "source TOML or YAML", _ => "source dynamic number" });
    c.cov.sample(|| format!("{:?} {:?} into target #{}", num, text, tgt));
    Ok(())
}
