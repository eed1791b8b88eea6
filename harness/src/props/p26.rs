//! P26: dynamic values are exactly what they were made from.
use std::collections::BTreeMap;
use figment::Figment;
use figment::error::Actual;
use figment::providers::{Json, Format, Serialized};
use figment::value::{Dict, Empty, Num, Tag, Value};
use crate::cov::*; use crate::model::perturb; use crate::mv::*; use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P26", case, quick: 1_000_000, thorough: 20_000_000, serial: false,
    rule: "random values of every kind, built by every conversion from ordinary types: every accessor and conversion, equality between related and unrelated values, with and without tags, and what they look like to other serializers, against the tree they were made from; distinct by value",
};

fn actual(n: &Node) -> Actual {
    match &n.v {
        MV::Bool(b) => Actual::Bool(*b), MV::Char(c) => Actual::Char(*c), MV::Str(s) => Actual::Str(s.clone()), MV::Unit => Actual::Unit, MV::None => Actual::Option,
        MV::Dict(_) => Actual::Map, MV::Arr(_) => Actual::Seq,
        MV::Num(x) => match numval(x) { NumVal::U(v) => Actual::Unsigned(v), NumVal::I(v) => Actual::Signed(v), NumVal::F(b) => Actual::Float(f64::from_bits(b)) },
    }
}

/// Equality of dynamic values: same kind and content; the width of a number and tags do not count, its signedness does.
fn equal(a: &Node, b: &Node) -> bool {
    match (&a.v, &b.v) {
        (MV::Dict(a), MV::Dict(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && equal(a, b)),
        (MV::Arr(a), MV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (MV::Num(a), MV::Num(b)) => match (numval(a), numval(b)) { (NumVal::F(a), NumVal::F(b)) => f64::from_bits(a) == f64::from_bits(b), (a, b) => a == b },
        (MV::Str(a), MV::Str(b)) => a == b,
        (MV::Char(a), MV::Char(b)) => a == b,
        (MV::Bool(a), MV::Bool(b)) => a == b,
        (MV::Unit, MV::Unit) | (MV::None, MV::None) => true,
        _ => false,
    }
}

/// Builds the value through the conversions from ordinary types.
fn convert(n: &Node, r: &mut Rng) -> Value {
    match &n.v {
        MV::Bool(b) => (*b).into(), MV::Char(c) => (*c).into(),
        MV::Str(s) => if r.bool() { s.as_str().into() } else { s.clone().into() },
        MV::Unit => Empty::Unit.into(), MV::None => Empty::None.into(),
        MV::Num(x) => match *x {
            _ if r.chance(1, 4) => (*x).into(),
            Num::U8(v) => v.into(), Num::U16(v) => v.into(), Num::U32(v) => v.into(), Num::U64(v) => v.into(), Num::U128(v) => v.into(), Num::USize(v) => v.into(),
            Num::I8(v) => v.into(), Num::I16(v) => v.into(), Num::I32(v) => v.into(), Num::I64(v) => v.into(), Num::I128(v) => v.into(), Num::ISize(v) => v.into(),
            Num::F32(v) => v.into(), Num::F64(v) => v.into(),
        },
        MV::Arr(a) => {
            let v: Vec<Value> = a.iter().map(|n| convert(n, r)).collect();
            match (r.below(4), v.len()) {
                (0, 1) => (&[v[0].clone()]).into(), (0, 2) => (&[v[0].clone(), v[1].clone()]).into(), (0, 3) => (&[v[0].clone(), v[1].clone(), v[2].clone()]).into(), (0, 4) => (&[v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()]).into(), (0, 5) => <&[Value; 5]>::try_from(&v[..]).unwrap().into(), (0, 6) => <&[Value; 6]>::try_from(&v[..]).unwrap().into(), (0, 7) => <&[Value; 7]>::try_from(&v[..]).unwrap().into(), (0, 8) => <&[Value; 8]>::try_from(&v[..]).unwrap().into(),
                (1, _) => v[..].into(),
                _ => v.into(),
            }
        }
        MV::Dict(d) => {
            let m: Vec<(String, Value)> = d.iter().map(|(k, n)| (k.clone(), convert(n, r))).collect();
            match r.below(3) { 0 => m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<BTreeMap<&str, Value>>().into(), _ => m.into_iter().collect::<Dict>().into() }
        }
    }
}

/// Hands out the values themselves.
struct Giver(Dict);
impl figment::Provider for Giver {
    fn metadata(&self) -> figment::Metadata { figment::Metadata::named("giver") }
    fn data(&self) -> Result<figment::value::Map<figment::Profile, Dict>, figment::Error> { Ok(figment::Profile::Default.collect(self.0.clone())) }
}

fn default_tags(v: &Value) -> bool {
    v.tag().is_default() && v.tag() == Tag::Default && match v { Value::Dict(_, d) => d.values().all(default_tags), Value::Array(_, a) => a.iter().all(default_tags), _ => true }
}

/// What any serializer is shown of the value.
fn as_json(n: &Node) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    Some(match &n.v {
        MV::Bool(b) => J::Bool(*b), MV::Char(c) => J::String(c.to_string()), MV::Str(s) => J::String(s.clone()), MV::Unit | MV::None => J::Null,
        MV::Num(x) => match (x, int_of(x)) {
            (_, Some((false, m))) => J::from(u64::try_from(m).ok()?),
            (_, Some((true, m))) => J::from(i64::try_from(-(i128::try_from(m).ok()?)).ok()?),
            (Num::F32(f), _) => serde_json::Number::from_f64(*f as f64).map_or(J::Null, J::Number),
            (Num::F64(f), _) => serde_json::Number::from_f64(*f).map_or(J::Null, J::Number),
            _ => return None,
        },
        MV::Arr(a) => J::Array(a.iter().map(as_json).collect::<Option<_>>()?),
        MV::Dict(d) => J::Object(d.iter().map(|(k, n)| Some((k.clone(), as_json(n)?))).collect::<Option<_>>()?),
    })
}

/// A map written and read with the entries of the value: keys in order.
fn keys_in_order(text: &str, d: &MDict) -> bool {
    let mut at = 0;
    d.keys().all(|k| { let k = format!("{}:", serde_json::to_string(k).unwrap()); match text[at..].find(&k) { Some(i) => { at += i + k.len(); true } None => false } })
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let g = Gen::small();
    let n = if r.chance(1, 120) { let (d, k) = (r.bool(), huge(r)); g.huge(r, d, k) } else if r.chance(1, 3) { Node::new(g.scalar(r)) } else if r.chance(1, 3) { Node::new(MV::Num(gen_num(r))) } else { g.node(r) };
    let v = convert(&n, r);
    let cx = || show(&n);
    c.cov.distinct(&show_full(&n));
    c.cov.sample(|| show(&n));
    Cmp::plain().node(&n, &v, "").map_err(|e| Fail::new(format!("conversion of {}: {}", cx(), e)))?;
    check!(default_tags(&v), "conversion of {} gives a tagged value", cx());
    // The same value from a figment, tagged, and another related to it.
    let tagged = { let mut f = Figment::from(Giver([("k".to_string(), v.clone())].into())); if r.bool() { f = f.select("x") } f.find_value("k").map_err(|e| Fail::new(format!("{} is not found: {}", cx(), e)))? };
    for (how, v) in [("plain", &v), ("tagged", &tagged)] {
        check!(v.as_str() == match &n.v { MV::Str(s) => Some(s.as_str()), _ => None }, "{} as_str of {} is {:?}", how, cx(), v.as_str());
        check!(v.clone().into_string().as_deref() == v.as_str(), "{} into_string of {} is {:?}", how, cx(), v.clone().into_string());
        check!(v.to_char() == match &n.v { MV::Char(c) => Some(*c), _ => None }, "{} to_char of {} is {:?}", how, cx(), v.to_char());
        check!(v.to_bool() == match &n.v { MV::Bool(b) => Some(*b), _ => None }, "{} to_bool of {} is {:?}", how, cx(), v.to_bool());
        check!(v.to_empty() == match &n.v { MV::Unit => Some(Empty::Unit), MV::None => Some(Empty::None), _ => None }, "{} to_empty of {} is {:?}", how, cx(), v.to_empty());
        check!(v.to_empty().map(|e| e.to_actual()) == match &n.v { MV::Unit => Some(Actual::Unit), MV::None => Some(Actual::Option), _ => None }, "{} to_empty of {} is {:?}", how, cx(), v.to_empty());
        match (&n.v, v.to_num()) {
            (MV::Num(x), Some(y)) => check!(std::mem::discriminant(x) == std::mem::discriminant(&y) && (numval(x) == numval(&y)), "{} to_num of {} is {:?}", how, cx(), y),
            (MV::Num(_), y) | (_, y @ Some(_)) => fail!("{} to_num of {} is {:?}", how, cx(), y),
            _ => {}
        }
        let (u, i, f) = match &n.v { MV::Num(x) => match numval(x) { NumVal::U(u) => (Some(u), None, None), NumVal::I(i) => (None, Some(i), None), NumVal::F(f) => (None, None, Some(f)) }, _ => (None, None, None) };
        check!(v.to_u128() == u, "{} to_u128 of {} is {:?}", how, cx(), v.to_u128());
        check!(v.to_i128() == i, "{} to_i128 of {} is {:?}", how, cx(), v.to_i128());
        let same = |a: Option<f64>, b: Option<u64>| match (a, b) { (Some(a), Some(b)) => a.to_bits() == b || a.is_nan() && f64::from_bits(b).is_nan(), (None, None) => true, _ => false };
        check!(same(v.to_f64(), f), "{} to_f64 of {} is {:?}", how, cx(), v.to_f64());
        match &n.v {
            MV::Dict(d) => {
                let (x, y) = (v.as_dict(), v.clone().into_dict());
                check!(x.is_some() && x == y.as_ref() || has_nan(&n), "{} as_dict of {} is {:?}", how, cx(), x);
                Cmp::plain().dict(d, x.unwrap(), "").map_err(|e| Fail::new(format!("{} as_dict of {}: {}", how, cx(), e)))?;
                Cmp::plain().dict(d, &y.unwrap(), "").map_err(|e| Fail::new(format!("{} into_dict of {}: {}", how, cx(), e)))?;
            }
            _ => check!(v.as_dict().is_none() && v.clone().into_dict().is_none(), "{} {} is a dictionary", how, cx()),
        }
        match &n.v {
            MV::Arr(a) => for (what, x) in [("as_array", v.as_array().map(|a| a.to_vec())), ("into_array", v.clone().into_array())] {
                let x = x.ok_or_else(|| Fail::new(format!("{} {} of {} is None", how, what, cx())))?;
                check!(x.len() == a.len(), "{} {} of {} is {:?}", how, what, cx(), x);
                for (n, v) in a.iter().zip(&x) { Cmp::plain().node(n, v, "").map_err(|e| Fail::new(format!("{} {} of {}: {}", how, what, cx(), e)))?; }
            },
            _ => check!(v.as_array().is_none() && v.clone().into_array().is_none(), "{} {} is an array", how, cx()),
        }
        let (a, b) = (v.to_actual(), actual(&n));
        check!(format!("{:?}", a) == format!("{:?}", b), "{} to_actual of {} is {:?}", how, cx(), a);
        // A clone is the same, tags included.
        let w = v.clone();
        check!(w.tag() == v.tag() && w.tag().profile() == v.tag().profile(), "a clone of {} has the tag {:?}, not {:?}", cx(), w.tag(), v.tag());
        Cmp::plain().node(&n, &w, "").map_err(|e| Fail::new(format!("clone of {}: {}", cx(), e)))?;
        c.cov.evals(14);
    }
    check!(!tagged.tag().is_default(), "{} from a figment has the default tag", cx());
    // Equality.
    let m = if r.chance(1, 3) { n.clone() } else if r.chance(1, 5) { change_one(r, &g, &n) } else if r.chance(1, 4) { retype(&n, r) } else { perturb(r, &g, &n, 3) };
    let w = convert(&m, r);
    let want = equal(&n, &m);
    for (a, b) in [(&v, &w), (&w, &v), (&tagged, &w), (&w, &tagged)] {
        check!((a == b) == want && (a != b) != want, "{} and {} are {}equal", cx(), show(&m), if want { "not " } else { "" });
    }
    c.cov.evals(4);
    c.cov.count(if want { "equal pairs" } else { "unequal pairs" });
    // What other serializers see.
    for v in [&v, &tagged] {
        if let (Some(want), Ok(text)) = (as_json(&n), serde_json::to_string(v)) {
            let got: serde_json::Value = serde_json::to_value(v).map_err(|e| Fail::new(format!("{} cannot be written as JSON: {}", cx(), e)))?;
            check!(same_json(&got, &want), "{} is written as {}", cx(), text);
            if let MV::Dict(d) = &n.v { if d.values().all(|n| !matches!(n.v, MV::Dict(_) | MV::Arr(_))) { check!(keys_in_order(&text, d), "the keys of {} are not written in order: {}", cx(), text); } }
            // And reading that gives the value, as far as JSON can tell.
            if let MV::Dict(_) = &n.v {
                let f = Figment::from(Json::string(&text));
                let back = f.extract::<Value>().map_err(|e| Fail::new(format!("{} written as {} is not read: {}", cx(), text, e)))?;
                check!(serde_json::to_value(&back).map_or(false, |b| near_json(&b, &serde_json::from_str(&text).unwrap())), "{} written as {} is read as {:?}", cx(), text, back);
                c.cov.eval();
            }
            c.cov.eval();
            c.cov.count("written as JSON");
        }
        let s = Value::serialize(v).map_err(|e| Fail::new(format!("{} cannot be serialized: {}", cx(), e)))?;
        Cmp::plain().node(&width(&n), &s, "").map_err(|e| Fail::new(format!("serializing {} gives: {}", cx(), e)))?;
        check!(widths(&width(&n), &s), "serializing {} gives numbers of other types: {:?}", cx(), s);
        let f = Figment::from(Serialized::default("k", v));
        let s = f.find_value("k").map_err(|e| Fail::new(format!("{} serialized is not found: {}", cx(), e)))?;
        Cmp::plain().node(&width(&n), &s, "").map_err(|e| Fail::new(format!("serializing {} into a figment gives: {}", cx(), e)))?;
        check!(widths(&width(&n), &s), "serializing {} into a figment gives numbers of other types: {:?}", cx(), s);
        c.cov.evals(2);
    }
    Ok(())
}

/// Every number has the type it has in the tree.
fn widths(n: &Node, v: &Value) -> bool {
    match (&n.v, v) {
        (MV::Num(a), Value::Num(_, b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
        (MV::Arr(a), Value::Array(_, b)) => a.iter().zip(b).all(|(a, b)| widths(a, b)),
        (MV::Dict(a), Value::Dict(_, b)) => a.values().zip(b.values()).all(|(a, b)| widths(a, b)),
        _ => true,
    }
}

/// Platform-width integers are written as 64-bit ones.
fn width(n: &Node) -> Node {
    Node::new(match &n.v {
        MV::Num(Num::USize(v)) => MV::Num(Num::U64(*v as u64)), MV::Num(Num::ISize(v)) => MV::Num(Num::I64(*v as i64)),
        MV::Arr(a) => MV::Arr(a.iter().map(width).collect()), MV::Dict(d) => MV::Dict(d.iter().map(|(k, n)| (k.clone(), width(n))).collect()),
        v => v.clone(),
    })
}

fn has_nan(n: &Node) -> bool {
    match &n.v { MV::Num(x) => matches!(numval(x), NumVal::F(b) if f64::from_bits(b).is_nan()), MV::Arr(a) => a.iter().any(has_nan), MV::Dict(d) => d.values().any(has_nan), _ => false }
}

/// The same value spelled with other widths, or a look-alike of another kind.
fn retype(n: &Node, r: &mut Rng) -> Node {
    Node::new(match &n.v {
        MV::Num(x) => match numval(x) {
            NumVal::U(v) => MV::Num(match r.below(4) { 0 => Num::U128(v), 1 => if v <= i128::MAX as u128 { Num::I128(v as i128) } else { *x }, 2 => Num::F64(v as f64), _ => u64::try_from(v).map_or(*x, Num::U64) }),
            NumVal::I(v) => MV::Num(match r.below(4) { 0 => Num::I128(v), 1 => if v >= 0 { Num::U128(v as u128) } else { *x }, 2 => Num::F64(v as f64), _ => i64::try_from(v).map_or(*x, Num::I64) }),
            NumVal::F(b) => MV::Num(match r.below(3) { 0 => Num::F64(f64::from_bits(b)), 1 => Num::F64(-f64::from_bits(b)), _ => Num::I64(f64::from_bits(b) as i64) }),
        },
        MV::Char(c) => MV::Str(c.to_string()),
        MV::Str(s) if s.chars().count() == 1 => MV::Char(s.chars().next().unwrap()),
        MV::Str(s) => MV::Str(crate::props::p25::recase(s, r)),
        MV::Bool(b) => if r.bool() { MV::Num(Num::U8(*b as u8)) } else { MV::Str(b.to_string()) },
        MV::Unit => MV::None, MV::None => MV::Unit,
        MV::Arr(a) => if a.len() > 1 && r.bool() { let mut a = a.clone(); a.rotate_left(1); MV::Arr(a) } else { MV::Arr(a.iter().map(|n| if r.bool() { retype(n, r) } else { n.clone() }).collect()) },
        MV::Dict(d) => if d.is_empty() && r.bool() { MV::Arr(vec![]) } else { MV::Dict(d.iter().map(|(k, n)| (if r.chance(1, 8) { k.to_ascii_uppercase() } else { k.clone() }, if r.bool() { retype(n, r) } else { n.clone() })).collect()) },
    })
}

fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool { a == b }
/// JSON's parser may be off by one unit in the last place.
fn near_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || match (x.as_f64(), y.as_f64()) { (Some(x), Some(y)) => x.to_bits().abs_diff(y.to_bits()) <= 1, _ => false },
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near_json(a, b)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| near_json(v, w))),
        (a, b) => a == b,
    }
}
