//! Target types built at run time: a schema drives a real serde deserialization (so any nesting of options,
//! sequences, tuples, maps, structs, enums, newtypes and figment's wrappers can be a target), and the same
//! schema drives an independent oracle of what extraction must yield or how it must fail.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::Mutex;
use figment::error::{Actual, Kind};
use figment::value::{Num, Value, magic::{Either, RelativePathBuf, Tagged}};
use figment::{Error, Figment, Profile};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor, IgnoredAny};
use crate::model::Model;
use crate::mv::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IntT { U8, U16, U32, U64, U128, USize, I8, I16, I32, I64, I128, ISize }
pub const INTS: [IntT; 12] = [IntT::U8, IntT::U16, IntT::U32, IntT::U64, IntT::U128, IntT::USize, IntT::I8, IntT::I16, IntT::I32, IntT::I64, IntT::I128, IntT::ISize];

impl IntT {
    pub fn bits(self) -> u32 { match self { IntT::U8 | IntT::I8 => 8, IntT::U16 | IntT::I16 => 16, IntT::U32 | IntT::I32 => 32, IntT::U128 | IntT::I128 => 128, _ => 64 } }
    pub fn signed(self) -> bool { matches!(self, IntT::I8 | IntT::I16 | IntT::I32 | IntT::I64 | IntT::I128 | IntT::ISize) }
    /// Whether an integer (negative, magnitude) is in range.
    pub fn fits(self, (neg, mag): (bool, u128)) -> bool {
        let b = self.bits();
        if self.signed() {
            let lim = 1u128 << (b - 1);
            if neg { mag <= lim } else { mag < lim }
        } else {
            (!neg || mag == 0) && (b == 128 || mag < 1u128 << b)
        }
    }
    pub fn make(self, (neg, mag): (bool, u128)) -> Num {
        let i = if neg { (mag as i128).wrapping_neg() } else { mag as i128 };
        match self {
            IntT::U8 => Num::U8(mag as u8), IntT::U16 => Num::U16(mag as u16), IntT::U32 => Num::U32(mag as u32), IntT::U64 => Num::U64(mag as u64),
            IntT::U128 => Num::U128(mag), IntT::USize => Num::USize(mag as usize), IntT::I8 => Num::I8(i as i8), IntT::I16 => Num::I16(i as i16),
            IntT::I32 => Num::I32(i as i32), IntT::I64 => Num::I64(i as i64), IntT::I128 => Num::I128(i), IntT::ISize => Num::ISize(i as isize),
        }
    }
    /// An in-range value, boundaries often.
    pub fn gen(self, r: &mut Rng) -> (bool, u128) {
        loop {
            let raw = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
            let v = match r.below(4) {
                0 => (false, r.below(3) as u128),
                1 if self.signed() => (r.bool(), (1u128 << (self.bits() - 1)) - r.below(2) as u128),
                1 => (false, if self.bits() == 128 { !0 } else { (1u128 << self.bits()) - 1 }),
                2 => (self.signed() && r.bool(), raw),
                _ => (self.signed() && r.bool(), r.below(200) as u128),
            };
            let v = if v.1 == 0 { (false, 0) } else { v };
            if self.fits(v) { return v }
        }
    }
}

pub type Fields = Vec<(&'static str, Sch)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Sch {
    Bool, Int(IntT), F32, F64, Char, Str, Unit,
    Opt(Box<Sch>), Seq(Box<Sch>), Tup(Vec<Sch>), Map(Box<Sch>),
    Struct(Fields, bool), Enum(Vec<(&'static str, VSch)>), New(Box<Sch>),
    Any, Tagged(Box<Sch>), Rel,
    /// Either of a tagged value (or a relative path) and something else.
    Either(Option<Box<Sch>>, Box<Sch>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum VSch { Unit, New(Sch), Tup(Vec<Sch>), Struct(Fields) }

/// What a real extraction produced.
#[derive(Clone, Debug)]
pub enum Out {
    Leaf(MV), None, Some(Box<Out>), Arr(Vec<Out>), Dict(BTreeMap<String, Out>),
    Var(String, Box<Out>), UnitVar, Tagged(Box<Tagged<Dyn>>), Rel(RelativePathBuf), Any(Value), Either(Box<Either<Out, Dyn2>>),
}

// ------------------------------------------------------------ serde side

static NAMES: Mutex<Option<HashMap<Vec<&'static str>, &'static [&'static str]>>> = Mutex::new(None);
fn intern(v: Vec<&'static str>) -> &'static [&'static str] {
    // What this keeps is the harness's own.
    crate::props::uncounted(|| intern_(v.clone()))
}
fn intern_(v: Vec<&'static str>) -> &'static [&'static str] {
    let mut g = NAMES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(s) = m.get(&v) { return s }
    let s: &'static [&'static str] = Box::leak(v.clone().into_boxed_slice());
    m.insert(v, s);
    s
}

thread_local! {
    static STACK: RefCell<Vec<Sch>> = const { RefCell::new(Vec::new()) };
    static STACK2: RefCell<Vec<Sch>> = const { RefCell::new(Vec::new()) };
}

type Stack = std::thread::LocalKey<RefCell<Vec<Sch>>>;
fn with_on<R>(stack: &'static Stack, s: &Sch, f: impl FnOnce() -> R) -> R {
    struct G(&'static Stack);
    impl Drop for G { fn drop(&mut self) { self.0.with(|s| { s.borrow_mut().pop(); }) } }
    stack.with(|st| st.borrow_mut().push(s.clone()));
    let _g = G(stack);
    f()
}
/// Runs `f` with `Dyn` meaning `s`.
pub fn with<R>(s: &Sch, f: impl FnOnce() -> R) -> R { with_on(&STACK, s, f) }
/// Runs `f` with `Dyn2` meaning `s`.
pub fn with2<R>(s: &Sch, f: impl FnOnce() -> R) -> R { with_on(&STACK2, s, f) }
fn top(stack: &'static Stack) -> Sch { stack.with(|s| s.borrow().last().cloned().expect("schema")) }

/// A type whose deserialization follows the schema given by `with`.
#[derive(Debug, Clone)]
pub struct Dyn(pub Out);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Seed(&top(&STACK)).deserialize(d).map(Dyn)
    }
}
impl serde::Serialize for Dyn { fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { Ser(&top(&STACK), &self.0).serialize(ser) } }

/// Another such type, for types with two parameters.
#[derive(Debug, Clone)]
pub struct Dyn2(pub Out);
impl<'de> Deserialize<'de> for Dyn2 { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Seed(&top(&STACK2)).deserialize(d).map(Dyn2) } }
impl serde::Serialize for Dyn2 { fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { Ser(&top(&STACK2), &self.0).serialize(ser) } }

pub struct Seed<'a>(pub &'a Sch);

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Out;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        fn num<'de, T: Deserialize<'de> + Into<Num>, D: Deserializer<'de>>(d: D) -> Result<Out, D::Error> { T::deserialize(d).map(|v| Out::Leaf(MV::Num(v.into()))) }
        match self.0 {
            Sch::Bool => bool::deserialize(d).map(|b| Out::Leaf(MV::Bool(b))),
            Sch::Int(t) => match t {
                IntT::U8 => num::<u8, D>(d), IntT::U16 => num::<u16, D>(d), IntT::U32 => num::<u32, D>(d), IntT::U64 => num::<u64, D>(d),
                IntT::U128 => num::<u128, D>(d), IntT::USize => num::<usize, D>(d), IntT::I8 => num::<i8, D>(d), IntT::I16 => num::<i16, D>(d),
                IntT::I32 => num::<i32, D>(d), IntT::I64 => num::<i64, D>(d), IntT::I128 => num::<i128, D>(d), IntT::ISize => num::<isize, D>(d),
            },
            Sch::F32 => num::<f32, D>(d),
            Sch::F64 => num::<f64, D>(d),
            Sch::Char => char::deserialize(d).map(|c| Out::Leaf(MV::Char(c))),
            Sch::Str => String::deserialize(d).map(|s| Out::Leaf(MV::Str(s))),
            Sch::Unit => <()>::deserialize(d).map(|_| Out::Leaf(MV::Unit)),
            Sch::Opt(s) => d.deserialize_option(OptV(s)),
            Sch::Seq(s) => d.deserialize_seq(SeqV(s)),
            Sch::Tup(s) => d.deserialize_tuple(s.len(), TupV(s)),
            Sch::Map(s) => d.deserialize_map(MapV(s)),
            Sch::Struct(f, deny) => {
                let names = intern(f.iter().map(|f| f.0).collect());
                d.deserialize_struct("S", names, StructV(f, *deny, names))
            }
            Sch::Enum(v) => {
                let names = intern(v.iter().map(|f| f.0).collect());
                d.deserialize_enum("E", names, EnumV(v, names))
            }
            Sch::New(s) => d.deserialize_newtype_struct("N", NewV(s)),
            Sch::Any => <Value as Deserialize>::deserialize(d).map(Out::Any),
            Sch::Tagged(s) => with(s, || Tagged::<Dyn>::deserialize(d)).map(|t| Out::Tagged(Box::new(t))),
            Sch::Either(Some(l), r) => with(l, || with2(r, || Either::<Tagged<Dyn>, Dyn2>::deserialize(d))).map(|e| Out::Either(Box::new(match e { Either::Left(t) => Either::Left(Out::Tagged(Box::new(t))), Either::Right(r) => Either::Right(r) }))),
            Sch::Either(None, r) => with2(r, || Either::<RelativePathBuf, Dyn2>::deserialize(d)).map(|e| Out::Either(Box::new(match e { Either::Left(t) => Either::Left(Out::Rel(t)), Either::Right(r) => Either::Right(r) }))),
            Sch::Rel => RelativePathBuf::deserialize(d).map(Out::Rel),
        }
    }
}

struct OptV<'a>(&'a Sch);
impl<'de, 'a> Visitor<'de> for OptV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E>(self) -> Result<Out, E> { Ok(Out::None) }
    fn visit_none<E>(self) -> Result<Out, E> { Ok(Out::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> { Seed(self.0).deserialize(d).map(|o| Out::Some(Box::new(o))) }
}
struct SeqV<'a>(&'a Sch);
impl<'de, 'a> Visitor<'de> for SeqV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? { v.push(x); }
        Ok(Out::Arr(v))
    }
}
struct TupV<'a>(&'a [Sch]);
impl<'de, 'a> Visitor<'de> for TupV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a tuple of size {}", self.0.len()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        for (i, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(s))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(i, &self)) }
        }
        Ok(Out::Arr(v))
    }
}
struct MapV<'a>(&'a Sch);
impl<'de, 'a> Visitor<'de> for MapV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut m = BTreeMap::new();
        while let Some(k) = a.next_key::<String>()? { let v = a.next_value_seed(Seed(self.0))?; m.insert(k, v); }
        Ok(Out::Dict(m))
    }
}
struct NewV<'a>(&'a Sch);
impl<'de, 'a> Visitor<'de> for NewV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple struct N") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> { Seed(self.0).deserialize(d) }
}

/// A struct field or enum variant name, as derived code reads it.
struct NameSeed<'a> { names: &'a [&'static str], mode: NameMode, all: &'static [&'static str] }
#[derive(PartialEq)]
enum NameMode { Field { deny: bool }, Variant }
impl<'de, 'a> DeserializeSeed<'de> for NameSeed<'a> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) }
}
impl<'de, 'a> Visitor<'de> for NameSeed<'a> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(if self.mode == NameMode::Variant { "variant identifier" } else { "field identifier" }) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.names.len() { return Ok(Some(v as usize)) }
        match self.mode {
            NameMode::Field { .. } => Ok(None),
            NameMode::Variant => Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index 0 <= i < n")),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match (self.names.iter().position(|n| *n == v), self.mode) {
            (Some(i), _) => Ok(Some(i)),
            (None, NameMode::Variant) => Err(E::unknown_variant(v, self.all)),
            (None, NameMode::Field { deny: true }) => Err(E::unknown_field(v, self.all)),
            (None, NameMode::Field { deny: false }) => Ok(None),
        }
    }
}

struct StructV<'a>(&'a Fields, bool, &'static [&'static str]);
impl<'de, 'a> Visitor<'de> for StructV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct S") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut m: BTreeMap<String, Out> = BTreeMap::new();
        while let Some(k) = a.next_key_seed(NameSeed { names: self.2, mode: NameMode::Field { deny: self.1 }, all: self.2 })? {
            match k {
                Some(i) => {
                    if m.contains_key(self.0[i].0) { return Err(de::Error::duplicate_field(self.0[i].0)) }
                    let v = a.next_value_seed(Seed(&self.0[i].1))?;
                    m.insert(self.0[i].0.into(), v);
                }
                None => { a.next_value::<IgnoredAny>()?; }
            }
        }
        for (n, s) in self.0 {
            if !m.contains_key(*n) {
                match s { Sch::Opt(_) => { m.insert(n.to_string(), Out::None); } _ => return Err(de::Error::missing_field(n)) }
            }
        }
        Ok(Out::Dict(m))
    }
}
struct EnumV<'a>(&'a [(&'static str, VSch)], &'static [&'static str]);
impl<'de, 'a> Visitor<'de> for EnumV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum E") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Out, A::Error> {
        let (i, v) = a.variant_seed(NameSeed { names: self.1, mode: NameMode::Variant, all: self.1 })?;
        let (name, s) = &self.0[i.unwrap()];
        let o = match s {
            VSch::Unit => { v.unit_variant()?; Out::UnitVar }
            VSch::New(s) => v.newtype_variant_seed(Seed(s))?,
            VSch::Tup(s) => v.tuple_variant(s.len(), TupV(s))?,
            VSch::Struct(f) => { let n = intern(f.iter().map(|f| f.0).collect()); v.struct_variant(n, StructV(f, false, n))? }
        };
        Ok(Out::Var(name.to_string(), Box::new(o)))
    }
}

// ------------------------------------------------------------ oracle side

#[derive(Clone, Debug)]
pub enum FK { Type(Node), UnitVariant, Len(usize), Variant(String), Field(String), Missing(String), Message, Undet }
#[derive(Clone, Debug)]
pub struct Fault { pub path: Vec<String>, pub kind: FK, pub srcs: Vec<Src>, pub root: bool }

/// How a lossy extraction reads a string as a number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LN { Int(bool, u128), Float(f64), No, Undet }

pub fn lossy_num(s: &str) -> LN {
    let (neg, body) = match s.strip_prefix('-') { Some(b) => (true, b), None => (false, s) };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if digits(body) {
        return match body.parse::<u128>() {
            Ok(m) if !neg || m <= 1u128 << 127 => LN::Int(neg && m != 0, m),
            _ => LN::No,
        }
    }
    if let Some((a, b)) = body.split_once('.') { if digits(a) && digits(b) { return LN::Float(s.parse().unwrap()) } }
    if s.trim().parse::<f64>().is_ok() || s.trim().parse::<i128>().is_ok() || s.trim().parse::<u128>().is_ok() || s.trim() != s { return LN::Undet }
    LN::No
}

/// What `LN` a node yields for a numeric target, and whether its source is 128 bits wide.
fn as_num(n: &Node, lossy: bool) -> (LN, bool) {
    match &n.v {
        MV::Num(x) => match int_of(x) {
            Some((neg, m)) => (LN::Int(neg, m), matches!(x, Num::U128(_) | Num::I128(_))),
            None => match numval(x) { NumVal::F(b) => (LN::Float(f64::from_bits(b)), false), _ => unreachable!() },
        },
        MV::Str(s) if lossy => match lossy_num(s) {
            LN::Int(neg, m) => (LN::Int(neg, m), if neg { m > 1 << 63 } else { m > u64::MAX as u128 }),
            x => (x, false),
        },
        _ => (LN::No, false),
    }
}

/// What a lossy or strict extraction reads a node as for a boolean target.
pub fn as_bool(n: &Node, lossy: bool) -> Option<bool> {
    match &n.v {
        MV::Bool(b) => Some(*b),
        MV::Str(s) if lossy => match s.to_ascii_lowercase().as_str() {
            "true" | "yes" | "1" | "on" => Some(true),
            "false" | "no" | "0" | "off" => Some(false),
            _ => None,
        },
        MV::Num(x) if lossy => match int_of(x) { Some((_, 0)) => Some(false), Some((false, 1)) => Some(true), _ => None },
        _ => None,
    }
}

thread_local! { static EITHER_STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Judges the alternatives of either wrappers as if extraction were strict.
pub fn either_strict<R>(f: impl FnOnce() -> R) -> R { EITHER_STRICT.with(|c| c.set(true)); let x = f(); EITHER_STRICT.with(|c| c.set(false)); x }
fn alternatives(l: &Option<Box<Sch>>, r: &Sch, n: &Node, lossy: bool) -> (Vec<Fault>, Vec<Fault>) {
    let lossy = lossy && !EITHER_STRICT.with(|c| c.get());
    (Oracle::of(l.as_deref().unwrap_or(&Sch::Rel), n, lossy), Oracle::of(r, n, lossy))
}
fn undet(l: &Option<Box<Sch>>, r: &Sch, n: &Node, lossy: bool) -> bool {
    let (l, r) = alternatives(l, r, n, lossy);
    let u = |f: &Vec<Fault>| f.iter().any(|f| matches!(f.kind, FK::Undet));
    u(&l) || u(&r)
}
/// Which alternative it must be, if any.
pub fn either(l: &Option<Box<Sch>>, r: &Sch, n: &Node, lossy: bool) -> Option<bool> {
    if undet(l, r, n, lossy) { return None }
    let (l, r) = alternatives(l, r, n, lossy);
    if l.is_empty() { Some(true) } else if r.is_empty() { Some(false) } else { None }
}

pub struct Oracle { pub lossy: bool, pub faults: Vec<Fault> }

impl Oracle {
    pub fn of(s: &Sch, n: &Node, lossy: bool) -> Vec<Fault> {
        let mut o = Oracle { lossy, faults: vec![] };
        let mut path = vec![];
        o.walk(s, n, &mut path, true);
        o.faults
    }
    fn add(&mut self, path: &[String], kind: FK, srcs: &[Src], root: bool) { self.faults.push(Fault { path: path.to_vec(), kind, srcs: srcs.to_vec(), root }) }
    fn ty(&mut self, n: &Node, path: &[String], root: bool) { self.add(path, FK::Type(n.clone()), &n.srcs, root) }

    fn walk(&mut self, s: &Sch, n: &Node, path: &mut Vec<String>, root: bool) {
        match s {
            Sch::Bool => if as_bool(n, self.lossy).is_none() { self.ty(n, path, root) },
            Sch::Int(t) => match as_num(n, self.lossy) {
                (LN::Undet, _) => self.add(path, FK::Undet, &[], root),
                (LN::Int(..), true) if t.bits() < 128 => self.add(path, FK::Undet, &[], root),
                (LN::Int(neg, m), _) if t.fits((neg, m)) => {}
                _ => self.ty(n, path, root),
            },
            Sch::F32 | Sch::F64 => match as_num(n, self.lossy) {
                (LN::Undet, _) | (LN::Int(..), true) => self.add(path, FK::Undet, &[], root),
                (LN::No, _) => self.ty(n, path, root),
                _ => {}
            },
            Sch::Char => match &n.v { MV::Char(_) => {} MV::Str(s) if s.chars().count() == 1 => {} _ => self.ty(n, path, root) },
            Sch::Str | Sch::Rel => match &n.v { MV::Str(_) | MV::Char(_) => {} _ => self.ty(n, path, root) },
            Sch::Unit => if !matches!(n.v, MV::Unit) { self.ty(n, path, root) },
            Sch::Opt(s) => if !matches!(n.v, MV::Unit | MV::None) { self.walk(s, n, path, root) },
            Sch::New(s) | Sch::Tagged(s) => self.walk(s, n, path, root),
            Sch::Any => {}
            Sch::Either(l, r) => match either(l, r, n, self.lossy) { Some(_) => {} None if undet(l, r, n, self.lossy) => self.add(path, FK::Undet, &[], root), None => self.add(path, FK::Message, &n.srcs, root) },
            Sch::Seq(s) => match &n.v {
                MV::Arr(a) => for (i, x) in a.iter().enumerate() { path.push(i.to_string()); self.walk(s, x, path, false); path.pop(); },
                _ => self.ty(n, path, root),
            },
            Sch::Tup(ss) => self.tup(ss, n, path, root),
            Sch::Map(s) => match &n.v {
                MV::Dict(d) => for (k, x) in d { path.push(k.clone()); self.walk(s, x, path, false); path.pop(); },
                _ => self.ty(n, path, root),
            },
            Sch::Struct(f, deny) => self.strukt(f, *deny, n, path, root),
            Sch::Enum(vs) => match &n.v {
                MV::Str(v) => match vs.iter().find(|x| x.0 == v) {
                    Some((_, VSch::Unit)) => {}
                    Some(_) => self.add(path, FK::UnitVariant, &n.srcs, root),
                    None => self.add(path, FK::Variant(v.clone()), &n.srcs, root),
                },
                MV::Dict(d) if d.len() == 1 => {
                    let (k, x) = d.iter().next().unwrap();
                    path.push(k.clone());
                    match vs.iter().find(|v| v.0 == k) {
                        None => self.add(path, FK::Variant(k.clone()), &x.srcs, false),
                        Some((_, VSch::Unit)) => if !matches!(x.v, MV::Unit) { self.ty(x, path, false) },
                        Some((_, VSch::New(s))) => self.walk(s, x, path, false),
                        Some((_, VSch::Tup(ss))) => self.tup(ss, x, path, false),
                        Some((_, VSch::Struct(f))) => self.strukt(f, false, x, path, false),
                    }
                    path.pop();
                }
                MV::Dict(d) if d.len() > 1 => self.add(path, FK::Undet, &[], root),
                MV::Num(_) => self.add(path, FK::Undet, &[], root),
                _ => self.ty(n, path, root),
            },
        }
    }
    fn tup(&mut self, ss: &[Sch], n: &Node, path: &mut Vec<String>, root: bool) {
        match &n.v {
            MV::Arr(a) => {
                for (i, (s, x)) in ss.iter().zip(a).enumerate() { path.push(i.to_string()); self.walk(s, x, path, false); path.pop(); }
                if a.len() < ss.len() { self.add(path, FK::Len(a.len()), &n.srcs, root) }
            }
            _ => self.ty(n, path, root),
        }
    }
    fn strukt(&mut self, f: &Fields, deny: bool, n: &Node, path: &mut Vec<String>, root: bool) {
        let d = match &n.v { MV::Dict(d) => d, _ => return self.ty(n, path, root) };
        for (k, x) in d {
            path.push(k.clone());
            match f.iter().find(|f| f.0 == k) {
                Some((_, s)) => self.walk(s, x, path, false),
                None => if deny { self.add(path, FK::Field(k.clone()), &x.srcs, false) },
            }
            path.pop();
        }
        for (k, s) in f {
            if !d.contains_key(*k) && !matches!(s, Sch::Opt(_)) { self.add(path, FK::Missing(k.to_string()), &n.srcs, root) }
        }
    }
}

/// Whether the value an error reports is the one found.
pub fn actual_ok(n: &Node, a: &Actual, lossy: bool) -> bool {
    let int = |neg: bool, m: u128| match a {
        Actual::Unsigned(v) => !neg && *v == m,
        Actual::Signed(v) => (*v < 0) == neg && v.unsigned_abs() == m,
        // Serde itself describes 128-bit integers by their type alone.
        Actual::Other(s) => s.contains(&format!("{}{}", if neg { "-" } else { "" }, m)) || matches!(s.as_str(), "u128" | "i128"),
        _ => false,
    };
    match &n.v {
        MV::Str(s) => matches!(a, Actual::Str(t) if s == t) || lossy && match lossy_num(s) {
            LN::Int(neg, m) => int(neg, m),
            LN::Float(f) => matches!(a, Actual::Float(g) if f == *g),
            _ => false,
        },
        MV::Char(c) => matches!(a, Actual::Char(d) if c == d) || matches!(a, Actual::Str(s) if *s == c.to_string()),
        MV::Bool(b) => matches!(a, Actual::Bool(c) if b == c),
        MV::Num(x) => match int_of(x) {
            Some((neg, m)) => int(neg, m),
            None => matches!(a, Actual::Float(f) if NumVal::F(f.to_bits()) == numval(x)),
        },
        MV::Unit => matches!(a, Actual::Unit),
        MV::None => matches!(a, Actual::Option),
        MV::Dict(_) => matches!(a, Actual::Map),
        MV::Arr(_) => matches!(a, Actual::Seq),
    }
}

impl Fault {
    pub fn kind_ok(&self, k: &Kind, lossy: bool) -> bool {
        match (&self.kind, k) {
            (FK::Type(n), Kind::InvalidType(a, _)) | (FK::Type(n), Kind::InvalidValue(a, _)) => actual_ok(n, a, lossy),
            (FK::UnitVariant, Kind::InvalidType(Actual::UnitVariant, _)) => true,
            (FK::Len(n), Kind::InvalidLength(m, _)) => n == m,
            (FK::Variant(v), Kind::UnknownVariant(w, _)) => v == w,
            (FK::Field(v), Kind::UnknownField(w, _)) => v == w,
            (FK::Missing(v), Kind::MissingField(w)) => v == w,
            (FK::Message, Kind::Message(_)) => true,
            (FK::Undet, _) => true,
            _ => false,
        }
    }

    /// Does `e` report exactly this fault? `prefix` is the path extracted from; with `src` provenance is judged too.
    pub fn matches(&self, e: &Error, prefix: &[String], lossy: bool, src: Option<(&Figment, &Model)>) -> Result<(), String> {
        if matches!(self.kind, FK::Undet) { return Ok(()) }
        let want: Vec<String> = prefix.iter().chain(&self.path).cloned().collect();
        if e.path != want { return Err(format!("path is {:?}, the offending value is at {:?}", e.path, want)) }
        if !self.kind_ok(&e.kind, lossy) { return Err(format!("kind is {:?}, the fault at {:?} is {}", e.kind, want, self.show())) }
        if e.count() != 1 { return Err(format!("{} errors for one fault", e.count())) }
        if let Some((fig, m)) = src {
            // The root dictionary belongs to no single provider.
            if self.root && prefix.is_empty() { return Ok(()) }
            let md = e.metadata.as_ref().map(|m| m.name.to_string());
            let ok = self.srcs.iter().any(|s| m.metas.get(&s.prov).map(|x| x.name.as_str()) == md.as_deref() && match s.cls {
                Cls::Default => e.profile == Some(Profile::Default),
                Cls::Global => e.profile == Some(Profile::Global),
                Cls::Custom => e.profile.as_ref() == Some(fig.profile()),
            });
            if !ok { return Err(format!("attributed to provider {:?}, profile {:?}; the value at {:?} came from one of {:?}", md, e.profile, want, self.srcs)) }
        }
        Ok(())
    }
    pub fn show(&self) -> String { match &self.kind { FK::Type(n) => format!("a mismatch: {}", show(n)), k => cut_str(&format!("{:?}", k), 300) } }
}

/// Compares an extracted value with what the oracle expects of a conforming node.
pub struct Agree<'a> { pub lossy: bool, pub src: Option<(&'a Figment, &'a Model)> }
impl<'a> Agree<'a> {
    pub fn go(&self, s: &Sch, n: &Node, o: &Out, path: &str) -> Result<(), String> {
        let bad = || Err(format!("at {:?}: extracted {} from {}", path, cut(o), show(n)));
        match (s, o) {
            (Sch::Bool, Out::Leaf(MV::Bool(b))) if as_bool(n, self.lossy) == Some(*b) => Ok(()),
            (Sch::Int(_), Out::Leaf(MV::Num(x))) => match (as_num(n, self.lossy).0, int_of(x)) {
                (LN::Int(neg, m), Some(v)) if (neg && m != 0, m) == v => Ok(()),
                _ => bad(),
            },
            (Sch::F64, Out::Leaf(MV::Num(Num::F64(x)))) => match as_num(n, self.lossy).0 {
                LN::Int(neg, m) if *x == if neg { (m as i128).wrapping_neg() as f64 } else { m as f64 } => Ok(()),
                LN::Float(f) if f.to_bits() == x.to_bits() || f.is_nan() && x.is_nan() => Ok(()),
                _ => bad(),
            },
            (Sch::F32, Out::Leaf(MV::Num(Num::F32(x)))) => match as_num(n, self.lossy).0 {
                LN::Int(neg, m) if *x == if neg { (m as i128).wrapping_neg() as f32 } else { m as f32 } => Ok(()),
                LN::Float(f) if (f as f32).to_bits() == x.to_bits() || f.is_nan() && x.is_nan() => Ok(()),
                _ => bad(),
            },
            (Sch::Char, Out::Leaf(MV::Char(c))) => match &n.v { MV::Char(d) if c == d => Ok(()), MV::Str(s) if *s == c.to_string() => Ok(()), _ => bad() },
            (Sch::Str, Out::Leaf(MV::Str(c))) => match &n.v { MV::Char(d) if *c == d.to_string() => Ok(()), MV::Str(s) if s == c => Ok(()), _ => bad() },
            (Sch::Rel, Out::Rel(p)) => {
                let t = match &n.v { MV::Char(d) => d.to_string(), MV::Str(s) => s.clone(), _ => return bad() };
                if p.original() == std::path::Path::new(&t) { Ok(()) } else { bad() }
            }
            (Sch::Unit, Out::Leaf(MV::Unit)) => Ok(()),
            (Sch::Opt(_), Out::None) if matches!(n.v, MV::Unit | MV::None) => Ok(()),
            (Sch::Opt(s), Out::Some(o)) if !matches!(n.v, MV::Unit | MV::None) => self.go(s, n, o, path),
            (Sch::New(s), o) => self.go(s, n, o, path),
            (Sch::Any, Out::Any(v)) => {
                let mut f = |n: &Node, v: &Value, p: &str| match self.src {
                    Some((fig, m)) if !n.srcs.is_empty() => crate::props::check_tag(fig, n, v.tag(), p, m),
                    _ => Ok(()),
                };
                Cmp { ints_by_value: false, tags: Some(&mut f), nodes: 0 }.node(n, v, path)
            }
            (Sch::Tagged(s), Out::Tagged(t)) => {
                if let (Some((fig, m)), false) = (self.src, n.srcs.is_empty()) { crate::props::check_tag(fig, n, t.tag(), path, m)?; }
                self.go(s, n, &t.0, path)
            }
            (Sch::Either(l, r), Out::Either(e)) => {
                let strict = Agree { lossy: self.lossy && !EITHER_STRICT.with(|c| c.get()), src: None };
                match (either(l, r, n, self.lossy), &**e) {
                    (Some(true), Either::Left(o)) => {
                        if let (Out::Tagged(t), Some((fig, m)), false) = (o, self.src, n.srcs.is_empty()) { crate::props::check_tag(fig, n, t.tag(), path, m)?; }
                        strict.go(&l.as_ref().map_or(Sch::Rel, |l| Sch::Tagged(l.clone())), n, o, path)
                    }
                    (Some(false), Either::Right(o)) => strict.go(r, n, &o.0, path),
                    (w, _) => Err(format!("at {:?}: extracted {} from {}, the {} alternative was due", path, cut(o), show(n), if w == Some(true) { "left" } else { "right" })),
                }
            }
            (Sch::Seq(s), Out::Arr(os)) => match &n.v {
                MV::Arr(a) if a.len() == os.len() => { for (i, (x, o)) in a.iter().zip(os).enumerate() { self.go(s, x, o, &format!("{}/{}", path, i))?; } Ok(()) }
                _ => bad(),
            },
            (Sch::Tup(ss), Out::Arr(_)) => self.tup(ss, n, o, path),
            (Sch::Map(s), Out::Dict(os)) => match &n.v {
                MV::Dict(d) if d.len() == os.len() => {
                    for (k, x) in d { match os.get(k) { Some(o) => self.go(s, x, o, &format!("{}/{}", path, k))?, None => return bad() } }
                    Ok(())
                }
                _ => bad(),
            },
            (Sch::Struct(f, _), Out::Dict(_)) => self.strukt(f, n, o, path),
            (Sch::Enum(vs), Out::Var(name, o)) => {
                let (key, x) = match &n.v { MV::Str(s) => (s, None), MV::Dict(d) => { let (k, x) = d.iter().next().unwrap(); (k, Some(x)) } _ => return bad() };
                if key != name { return bad() }
                let path = format!("{}/{}", path, name);
                match (&vs.iter().find(|v| v.0 == name).unwrap().1, x) {
                    (VSch::Unit, _) => if matches!(**o, Out::UnitVar) { Ok(()) } else { bad() },
                    (VSch::New(s), Some(x)) => self.go(s, x, o, &path),
                    (VSch::Tup(ss), Some(x)) => self.tup(ss, x, o, &path),
                    (VSch::Struct(f), Some(x)) => self.strukt(f, x, o, &path),
                    _ => bad(),
                }
            }
            _ => bad(),
        }
    }
    fn tup(&self, ss: &[Sch], n: &Node, o: &Out, path: &str) -> Result<(), String> {
        match (&n.v, o) {
            (MV::Arr(a), Out::Arr(os)) if os.len() == ss.len() && a.len() >= os.len() => {
                for (i, ((s, x), o)) in ss.iter().zip(a).zip(os).enumerate() { self.go(s, x, o, &format!("{}/{}", path, i))?; }
                Ok(())
            }
            _ => Err(format!("at {:?}: extracted {} from {}", path, cut(o), show(n))),
        }
    }
    fn strukt(&self, f: &Fields, n: &Node, o: &Out, path: &str) -> Result<(), String> {
        match (&n.v, o) {
            (MV::Dict(d), Out::Dict(os)) if os.len() == f.len() => {
                for (k, s) in f {
                    match (d.get(*k), &os[*k]) {
                        (Some(x), o) => self.go(s, x, o, &format!("{}/{}", path, k))?,
                        (None, Out::None) => {}
                        (None, o) => return Err(format!("at {:?}: absent field {:?} extracted as {}", path, k, cut(o))),
                    }
                }
                Ok(())
            }
            _ => Err(format!("at {:?}: extracted {} from {}", path, cut(o), show(n))),
        }
    }
}

// ------------------------------------------------------------ generation

pub const NAMES_POOL: [&str; 12] = ["a", "b", "c", "key", "name", "A", "port", "ключ", "Va", "Vb", "x-y", "value"];

#[derive(Clone, Copy)]
pub struct SGen { pub magic: bool, pub any: bool }

fn some_names(r: &mut Rng, n: usize) -> Vec<&'static str> {
    let mut v = NAMES_POOL.to_vec();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

impl SGen {
    pub fn scalar(self, r: &mut Rng) -> Sch {
        match r.below(12) {
            0 => Sch::Bool, 1..=4 => Sch::Int(*r.pick(&INTS)), 5 => Sch::F32, 6 => Sch::F64, 7 => Sch::Char, 8 | 9 => Sch::Str, 10 => Sch::Unit,
            _ => if self.magic && r.bool() { Sch::Rel } else if self.any { Sch::Any } else { Sch::Str },
        }
    }
    pub fn gen(self, r: &mut Rng, depth: usize) -> Sch {
        if depth == 0 || r.chance(1, 4) { return self.scalar(r) }
        let d = depth - 1;
        match r.below(12) {
            0 => { let s = self.gen(r, d); if s.nullish() { s } else { Sch::Opt(Box::new(s)) } }
            1 | 2 => Sch::Seq(Box::new(self.gen(r, d))),
            3 => { let n = if r.chance(1, 8) { 0 } else { r.range(1, 4) }; Sch::Tup((0..n).map(|_| self.gen(r, d)).collect()) }
            4 | 5 => Sch::Map(Box::new(self.gen(r, d))),
            6..=8 => self.strukt(r, d),
            9 => {
                let n = r.range(1, 4);
                Sch::Enum(some_names(r, n).into_iter().map(|n| (n, match r.below(5) {
                    0 | 1 => VSch::Unit,
                    2 => VSch::New(self.gen(r, d)),
                    3 => { let k = if r.chance(1, 6) { 0 } else { r.range(1, 3) }; VSch::Tup((0..k).map(|_| self.gen(r, d)).collect()) }
                    _ => { let k = r.range(0, 3); VSch::Struct(some_names(r, k).into_iter().map(|n| (n, self.gen(r, d))).collect()) }
                })).collect())
            }
            10 => Sch::New(Box::new(self.gen(r, d))),
            _ => if self.magic { let s = self.gen(r, d); Sch::Tagged(Box::new(s)) } else { self.strukt(r, d) },
        }
    }
    pub fn strukt(self, r: &mut Rng, d: usize) -> Sch {
        let n = r.range(0, 5);
        Sch::Struct(some_names(r, n).into_iter().map(|n| (n, self.gen(r, d))).collect(), r.chance(1, 4))
    }
    /// A schema whose root accepts dictionaries.
    pub fn root(self, r: &mut Rng, depth: usize) -> Sch {
        let s = if r.chance(1, 6) { Sch::Map(Box::new(self.gen(r, depth - 1))) } else { self.strukt(r, depth - 1) };
        match r.below(10) { 0 if self.magic => Sch::Tagged(Box::new(s)), 1 => Sch::New(Box::new(s)), 2 => Sch::Opt(Box::new(s)), _ => s }
    }
}

impl Sch {
    /// May be written as an empty value, so that an option around it would be ambiguous.
    pub fn nullish(&self) -> bool {
        match self { Sch::Opt(_) | Sch::Unit | Sch::Any => true, Sch::New(s) | Sch::Tagged(s) => s.nullish(), _ => false }
    }
    /// Whether values of it may be large themselves.
    pub fn has_seq(&self) -> bool {
        match self { Sch::Seq(_) | Sch::Map(_) | Sch::Any => true, Sch::Opt(s) | Sch::New(s) | Sch::Tagged(s) => s.has_seq(), Sch::Either(..) | Sch::Enum(_) => true, Sch::Tup(v) => v.iter().any(|s| s.has_seq()), Sch::Struct(f, _) => f.iter().any(|f| f.1.has_seq()), _ => false }
    }
    pub fn has_magic(&self) -> bool {
        match self {
            Sch::Tagged(_) | Sch::Rel | Sch::Either(..) => true,
            Sch::Opt(s) | Sch::Seq(s) | Sch::Map(s) | Sch::New(s) => s.has_magic(),
            Sch::Tup(v) => v.iter().any(|s| s.has_magic()),
            Sch::Struct(f, _) => f.iter().any(|f| f.1.has_magic()),
            Sch::Enum(v) => v.iter().any(|v| match &v.1 { VSch::Unit => false, VSch::New(s) => s.has_magic(), VSch::Tup(v) => v.iter().any(|s| s.has_magic()), VSch::Struct(f) => f.iter().any(|f| f.1.has_magic()) }),
            _ => false,
        }
    }
    /// Adds tagged wrappers at random positions.
    pub fn wrapped(&self, r: &mut Rng) -> Sch {
        let w = |s: &Sch, r: &mut Rng| s.wrapped(r);
        // A missing optional field is fine, a missing tagged one is not: keep options outermost in fields.
        let fs = |f: &Fields, r: &mut Rng| -> Fields { f.iter().map(|(n, s)| (*n, match s { Sch::Opt(s) => Sch::Opt(Box::new(w(s, r))), s => w(s, r) })).collect() };
        let s = match self {
            Sch::Opt(s) => Sch::Opt(Box::new(w(s, r))), Sch::Seq(s) => Sch::Seq(Box::new(w(s, r))), Sch::Map(s) => Sch::Map(Box::new(w(s, r))),
            Sch::New(s) => Sch::New(Box::new(w(s, r))), Sch::Tagged(s) => Sch::Tagged(Box::new(w(s, r))),
            Sch::Tup(v) => Sch::Tup(v.iter().map(|s| w(s, r)).collect()),
            Sch::Struct(f, d) => Sch::Struct(fs(f, r), *d),
            Sch::Enum(v) => Sch::Enum(v.iter().map(|(n, v)| (*n, match v { VSch::Unit => VSch::Unit, VSch::New(s) => VSch::New(w(s, r)), VSch::Tup(v) => VSch::Tup(v.iter().map(|s| w(s, r)).collect()), VSch::Struct(f) => VSch::Struct(fs(f, r)) })).collect()),
            s => s.clone(),
        };
        if r.chance(1, 3) { Sch::Tagged(Box::new(s)) } else { s }
    }
    /// A value that conforms. With `lossy`, sometimes one that only conforms to lossy extraction.
    pub fn conform(&self, r: &mut Rng, lossy: bool) -> Node {
        let n = match self {
            Sch::Bool => {
                let b = r.bool();
                if lossy && r.bool() {
                    let t = *r.pick(if b { &["true", "YES", "1", "On", "tRuE", "yes"] } else { &["false", "NO", "0", "oFF", "False", "no"] });
                    if r.chance(1, 3) { MV::Num(r.pick(&INTS).make((false, b as u128))) } else { MV::Str(t.into()) }
                } else { MV::Bool(b) }
            }
            Sch::Int(t) => {
                let v = t.gen(r);
                if lossy && r.bool() { MV::Str(format!("{}{}", if v.0 { "-" } else { "" }, v.1)) }
                else {
                    let fit: Vec<IntT> = INTS.iter().copied().filter(|u| u.fits(v) && (t.bits() == 128 || u.bits() <= 64)).collect();
                    MV::Num(r.pick(&fit).make(v))
                }
            }
            Sch::F32 | Sch::F64 => {
                let f = if r.bool() { gen_float(r) } else { gen_float_simple(r) };
                if lossy && r.bool() { let f = gen_float_simple(r); MV::Str(if r.chance(1, 4) { format!("{}", f as i64) } else { format!("{:?}", f) }).fix_exp() }
                else { match r.below(4) { 0 => MV::Num(Num::I64(r.next() as i64 >> r.below(64))), 1 => MV::Num(Num::F32(f as f32)), _ => MV::Num(Num::F64(f)) } }
            }
            Sch::Char => { let c = gen_char(r); if r.bool() { MV::Char(c) } else { MV::Str(c.to_string()) } }
            Sch::Str | Sch::Rel => if r.chance(1, 8) { MV::Char(gen_char(r)) } else { MV::Str(gen_string(r)) },
            Sch::Unit => MV::Unit,
            Sch::Opt(s) => if r.chance(1, 4) { if r.bool() { MV::None } else { MV::Unit } } else { return s.conform(r, lossy) },
            Sch::Seq(s) => { let n = r.size(3, 30); if r.chance(1, 250) && !s.has_seq() { let n = huge(r); return Node::new(MV::Arr((0..n).map(|_| s.conform(r, lossy)).collect())) } MV::Arr((0..n.min(40)).map(|_| s.conform(r, lossy)).collect()) }
            Sch::Tup(ss) => { let mut v: Vec<Node> = ss.iter().map(|s| s.conform(r, lossy)).collect(); if r.chance(1, 8) { v.push(Node::new(MV::Bool(true))); } MV::Arr(v) }
            Sch::Map(s) => { let n = r.below(5); if r.chance(1, 250) && !s.has_seq() { let n = huge(r); return Node::new(MV::Dict((0..n).map(|i| (format!("k{}", i), s.conform(r, lossy))).collect())) } MV::Dict((0..n).map(|_| (r.pick(KEYS).to_string(), s.conform(r, lossy))).collect()) }
            Sch::Struct(f, deny) => return Node::new(Sch::fields(f, *deny, r, lossy)),
            Sch::Enum(vs) => {
                let (n, v) = r.pick(vs);
                let inner = match v {
                    VSch::Unit => if r.chance(2, 3) { return Node::new(MV::Str(n.to_string())) } else { Node::new(MV::Unit) },
                    VSch::New(s) => s.conform(r, lossy),
                    VSch::Tup(ss) => Node::new(MV::Arr(ss.iter().map(|s| s.conform(r, lossy)).collect())),
                    VSch::Struct(f) => Node::new(Sch::fields(f, false, r, lossy)),
                };
                MV::Dict([(n.to_string(), inner)].into_iter().collect())
            }
            Sch::New(s) | Sch::Tagged(s) => return s.conform(r, lossy),
            Sch::Any => return Gen::small().with_depth(1).node(r),
            Sch::Either(l, s) => return match l { _ if r.bool() => s.conform(r, lossy), Some(l) => l.conform(r, lossy), None => Sch::Rel.conform(r, lossy) },
        };
        Node::new(n)
    }
    fn fields(f: &Fields, deny: bool, r: &mut Rng, lossy: bool) -> MV {
        let mut d: MDict = f.iter().filter_map(|(n, s)| {
            if matches!(s, Sch::Opt(_)) && r.chance(1, 4) { return None }
            Some((n.to_string(), s.conform(r, lossy)))
        }).collect();
        if !deny && r.chance(1, 6) { d.insert("zz_extra".into(), Gen::small().with_depth(1).node(r)); }
        MV::Dict(d)
    }
    /// Changes one random part of a value so that it (probably) no longer conforms.
    pub fn sabotage(&self, r: &mut Rng, n: &mut Node, depth: usize) {
        let here = |r: &mut Rng, s: &Sch, n: &mut Node| {
            *n = match (s, r.below(4)) {
                (Sch::Int(t), 0) if t.bits() < 64 => { let lim = 1u128 << t.bits(); Node::new(MV::Num(Num::U64((lim + r.below(3) as u128) as u64))) }
                (Sch::Int(t), 1) if !t.signed() => Node::new(MV::Num(Num::I64(-1 - r.below(300) as i64))),
                (Sch::Int(_), 2) => Node::new(MV::Num(Num::F64(gen_float(r)))),
                (Sch::Bool, 0) => Node::new(MV::Num(Num::U8(2))),
                (Sch::Enum(_), 0) => Node::new(MV::Str("Unknown".into())),
                (Sch::Enum(_), 1) => Node::new(MV::Dict([("Unknown".to_string(), Node::new(MV::Bool(true)))].into_iter().collect())),
                _ => {
                    let mut x = Gen::small().with_depth(1).node(r);
                    for _ in 0..10 { if !Oracle::of(s, &x, true).is_empty() { break } x = Gen::small().with_depth(1).node(r); }
                    x
                }
            };
        };
        if depth > 6 { return here(r, self, n) }
        let stop = r.chance(1, 5);
        match (self, &mut n.v) {
            (Sch::New(s), _) | (Sch::Tagged(s), _) => s.sabotage(r, n, depth),
            (Sch::Opt(s), MV::Unit) | (Sch::Opt(s), MV::None) => { let _ = s; here(r, self, n) }
            (Sch::Opt(s), _) => s.sabotage(r, n, depth),
            _ if stop => here(r, self, n),
            (Sch::Seq(s), MV::Arr(a)) if !a.is_empty() => { let i = r.below(a.len()); s.sabotage(r, &mut a[i], depth + 1) }
            (Sch::Tup(ss), MV::Arr(_)) if ss.is_empty() => here(r, self, n),
            (Sch::Tup(ss), MV::Arr(a)) => { if r.chance(1, 4) { let k = r.below(ss.len()); a.truncate(k); } else { let i = r.below(ss.len().min(a.len())); if i < a.len() { ss[i].sabotage(r, &mut a[i], depth + 1) } } }
            (Sch::Map(s), MV::Dict(d)) if !d.is_empty() => { let i = r.below(d.len()); s.sabotage(r, d.values_mut().nth(i).unwrap(), depth + 1) }
            (Sch::Struct(f, deny), MV::Dict(d)) => Sch::sab_fields(f, *deny, r, d, depth),
            (Sch::Enum(vs), MV::Dict(d)) if d.len() == 1 => {
                let (k, x) = d.iter_mut().next().unwrap();
                let Some(v) = vs.iter().find(|v| v.0 == k) else { return };
                match &v.1 {
                    VSch::Unit => *x = Node::new(MV::Num(Num::U8(3))),
                    VSch::New(s) => s.sabotage(r, x, depth + 1),
                    VSch::Tup(ss) => Sch::Tup(ss.clone()).sabotage(r, x, depth + 1),
                    VSch::Struct(f) => Sch::Struct(f.clone(), false).sabotage(r, x, depth + 1),
                }
            }
            _ => here(r, self, n),
        }
    }
    fn sab_fields(f: &Fields, deny: bool, r: &mut Rng, d: &mut MDict, depth: usize) {
        if deny && r.chance(1, 4) { d.insert(r.pick(&["unknown", "zz", "0", "aa"]).to_string(), Node::new(MV::Bool(true))); return }
        let present: Vec<usize> = (0..f.len()).filter(|i| d.contains_key(f[*i].0)).collect();
        if present.is_empty() { return }
        let i = *r.pick(&present);
        if r.chance(1, 5) { d.remove(f[i].0); } else { f[i].1.sabotage(r, d.get_mut(f[i].0).unwrap(), depth + 1) }
    }
    /// A random dictionary path into the schema with the schema there.
    pub fn descend<'a>(&'a self, r: &mut Rng, n: &Node, path: &mut Vec<String>) -> (&'a Sch, Node) {
        let dot = |k: &str| k.is_empty() || k.contains('.');
        match (self, &n.v) {
            (Sch::New(s), _) | (Sch::Tagged(s), _) => s.descend(r, n, path),
            (Sch::Opt(s), v) if !matches!(v, MV::Unit | MV::None) => s.descend(r, n, path),
            (Sch::Map(s), MV::Dict(d)) if !d.is_empty() && (path.is_empty() || r.chance(2, 3)) => {
                let (k, x) = d.iter().nth(r.below(d.len())).unwrap();
                if dot(k) { return (self, n.clone()) }
                path.push(k.clone());
                s.descend(r, x, path)
            }
            (Sch::Struct(f, _), MV::Dict(d)) if path.is_empty() || r.chance(2, 3) => {
                let present: Vec<&(&'static str, Sch)> = f.iter().filter(|f| d.contains_key(f.0)).collect();
                if present.is_empty() { return (self, n.clone()) }
                let (k, s) = *r.pick(&present);
                path.push(k.to_string());
                s.descend(r, &d[*k], path)
            }
            _ => (self, n.clone()),
        }
    }
}

impl MV {
    fn fix_exp(self) -> MV { match self { MV::Str(s) if s.contains('e') => MV::Str("1.5".into()), x => x } }
}

// ------------------------------------------------------------ typed values to serialize

impl Sch {
    /// A value of the type.
    pub fn value(&self, r: &mut Rng) -> Out {
        let fields = |f: &Fields, r: &mut Rng| Out::Dict(f.iter().map(|(n, s)| (n.to_string(), s.value(r))).collect());
        match self {
            Sch::Bool => Out::Leaf(MV::Bool(r.bool())),
            Sch::Int(t) => { let v = t.gen(r); Out::Leaf(MV::Num(t.make(v))) }
            Sch::F32 => Out::Leaf(MV::Num(Num::F32(match r.below(5) { 0 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, -0.0]), 1 => f32::from_bits(r.next() as u32), _ => gen_float(r) as f32 }))),
            Sch::F64 => Out::Leaf(MV::Num(Num::F64(match r.below(5) { 0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324, -0.0]), 1 => f64::from_bits(r.next()), _ => gen_float(r) }))),
            Sch::Char => Out::Leaf(MV::Char(gen_char(r))),
            Sch::Str => Out::Leaf(MV::Str(gen_string(r))),
            Sch::Unit => Out::Leaf(MV::Unit),
            Sch::Opt(s) => if r.chance(1, 3) { Out::None } else { Out::Some(Box::new(s.value(r))) },
            Sch::Seq(s) => { let n = r.size(3, 60); Out::Arr((0..n.min(70)).map(|_| s.value(r)).collect()) }
            Sch::Tup(v) => Out::Arr(v.iter().map(|s| s.value(r)).collect()),
            Sch::Map(s) => { let n = r.size(4, 80); Out::Dict((0..n.min(90)).map(|i| (if i < 6 { r.pick(KEYS_ODD).to_string() } else { format!("k{}", i) }, s.value(r))).collect()) }
            Sch::Struct(f, _) => fields(f, r),
            Sch::Enum(vs) => {
                let (n, v) = r.pick(vs);
                Out::Var(n.to_string(), Box::new(match v {
                    VSch::Unit => Out::UnitVar, VSch::New(s) => s.value(r),
                    VSch::Tup(v) => Out::Arr(v.iter().map(|s| s.value(r)).collect()), VSch::Struct(f) => fields(f, r),
                }))
            }
            Sch::New(s) => s.value(r),
            Sch::Any => Out::Any(Gen::small().with_depth(2).node(r).to_value()),
            Sch::Tagged(_) | Sch::Rel | Sch::Either(..) => unreachable!("not serialized from nothing"),
        }
    }
}

/// Serializes a value of a schema's type as derived code does.
pub struct Ser<'a>(pub &'a Sch, pub &'a Out);
impl<'a> serde::Serialize for Ser<'a> {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match (self.0, self.1) {
            (Sch::F32, Out::Leaf(MV::Num(Num::F32(x)))) => ser.serialize_f32(*x),
            (_, Out::Leaf(MV::Bool(b))) => ser.serialize_bool(*b),
            (_, Out::Leaf(MV::Num(n))) => match *n {
                Num::U8(v) => v.serialize(ser), Num::U16(v) => v.serialize(ser), Num::U32(v) => v.serialize(ser), Num::U64(v) => v.serialize(ser), Num::U128(v) => v.serialize(ser), Num::USize(v) => v.serialize(ser),
                Num::I8(v) => v.serialize(ser), Num::I16(v) => v.serialize(ser), Num::I32(v) => v.serialize(ser), Num::I64(v) => v.serialize(ser), Num::I128(v) => v.serialize(ser), Num::ISize(v) => v.serialize(ser),
                Num::F32(v) => v.serialize(ser), Num::F64(v) => v.serialize(ser),
            },
            (_, Out::Leaf(MV::Char(c))) => ser.serialize_char(*c),
            (_, Out::Leaf(MV::Str(c))) => ser.serialize_str(c),
            (_, Out::Leaf(MV::Unit)) => ser.serialize_unit(),
            (Sch::Opt(_), Out::None) => ser.serialize_none(),
            (Sch::Opt(s), Out::Some(o)) => ser.serialize_some(&Ser(s, o)),
            (Sch::Seq(s), Out::Arr(v)) => { let mut q = ser.serialize_seq(if v.len() % 3 == 0 { None } else { Some(v.len()) })?; for o in v { q.serialize_element(&Ser(s, o))?; } q.end() }
            (Sch::Tup(ss), Out::Arr(v)) => {
                if ss.len() % 2 == 0 { let mut q = ser.serialize_tuple(v.len())?; for (s, o) in ss.iter().zip(v) { q.serialize_element(&Ser(s, o))?; } q.end() }
                else { let mut q = ser.serialize_tuple_struct("T", v.len())?; for (s, o) in ss.iter().zip(v) { q.serialize_field(&Ser(s, o))?; } q.end() }
            }
            (Sch::Map(s), Out::Dict(d)) => {
                let mut q = ser.serialize_map(if d.len() % 3 == 0 { None } else { Some(d.len()) })?;
                for (k, o) in d { if k.len() % 2 == 0 { q.serialize_entry(k, &Ser(s, o))?; } else { q.serialize_key(k)?; q.serialize_value(&Ser(s, o))?; } }
                q.end()
            }
            (Sch::Struct(f, _), Out::Dict(d)) => { let mut q = ser.serialize_struct("S", f.len())?; for (n, s) in f { q.serialize_field(n, &Ser(s, &d[*n]))?; } q.end() }
            (Sch::Enum(vs), Out::Var(name, o)) => {
                let i = vs.iter().position(|v| v.0 == name).unwrap();
                let n = vs[i].0;
                match (&vs[i].1, &**o) {
                    (VSch::Unit, _) => ser.serialize_unit_variant("E", i as u32, n),
                    (VSch::New(s), o) => ser.serialize_newtype_variant("E", i as u32, n, &Ser(s, o)),
                    (VSch::Tup(ss), Out::Arr(v)) => { let mut q = ser.serialize_tuple_variant("E", i as u32, n, v.len())?; for (s, o) in ss.iter().zip(v) { q.serialize_field(&Ser(s, o))?; } q.end() }
                    (VSch::Struct(f), Out::Dict(d)) => { let mut q = ser.serialize_struct_variant("E", i as u32, n, f.len())?; for (n, s) in f { q.serialize_field(n, &Ser(s, &d[*n]))?; } q.end() }
                    _ => unreachable!(),
                }
            }
            (Sch::New(s), o) => ser.serialize_newtype_struct("N", &Ser(s, o)),
            (_, Out::Any(v)) => v.serialize(ser),
            (Sch::Tagged(s), Out::Tagged(t)) => with(s, || t.serialize(ser)),
            (Sch::Rel, Out::Rel(p)) => p.serialize(ser),
            (Sch::Either(l, r), Out::Either(e)) => match (l, &**e) {
                (Some(l), Either::Left(Out::Tagged(t))) => with(l, || Either::<_, Dyn2>::Left(&**t).serialize(ser)),
                (_, Either::Left(Out::Rel(p))) => Either::<_, Dyn2>::Left(p).serialize(ser),
                (_, Either::Right(d)) => with2(r, || Either::<RelativePathBuf, _>::Right(d).serialize(ser)),
                _ => unreachable!(),
            },
            (s, o) => unreachable!("{:?} {:?}", s, o),
        }
    }
}

pub fn value_node(v: &Value) -> Node {
    use figment::value::Empty;
    Node::new(match v {
        Value::String(_, s) => MV::Str(s.clone()), Value::Char(_, c) => MV::Char(*c), Value::Bool(_, b) => MV::Bool(*b), Value::Num(_, n) => MV::Num(*n),
        Value::Empty(_, Empty::Unit) => MV::Unit, Value::Empty(_, Empty::None) => MV::None,
        Value::Dict(_, d) => MV::Dict(d.iter().map(|(k, v)| (k.clone(), value_node(v))).collect()),
        Value::Array(_, a) => MV::Arr(a.iter().map(value_node).collect()),
    })
}

/// Equality of two typed values; numbers of dynamic values by class and value, NaN equals NaN.
pub fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Leaf(MV::Num(x)), Out::Leaf(MV::Num(y))) => numval(x) == numval(y) && std::mem::discriminant(x) == std::mem::discriminant(y),
        (Out::Leaf(x), Out::Leaf(y)) => Cmp::plain().node(&Node::new(x.clone()), &Node::new(y.clone()).to_value(), "").is_ok(),
        (Out::None, Out::None) | (Out::UnitVar, Out::UnitVar) => true,
        (Out::Some(x), Out::Some(y)) => same_out(x, y),
        (Out::Arr(x), Out::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_out(x, y)),
        (Out::Dict(x), Out::Dict(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && same_out(x, y)),
        (Out::Var(m, x), Out::Var(n, y)) => m == n && same_out(x, y),
        (Out::Tagged(x), Out::Tagged(y)) => same_out(&x.0, &y.0),
        (Out::Either(x), Out::Either(y)) => match (&**x, &**y) { (Either::Left(x), Either::Left(y)) => same_out(x, y), (Either::Right(x), Either::Right(y)) => same_out(&x.0, &y.0), _ => false },
        (Out::Rel(x), Out::Rel(y)) => x.original() == y.original() && x.relative() == y.relative(),
        (Out::Any(x), Out::Any(y)) => Cmp::plain().node(&value_node(x), y, "").is_ok(),
        _ => false,
    }
}
