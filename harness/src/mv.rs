//! Model values: the reference model's own value representation, independent of figment's coalescing,
//! lookup and (de)serialization code. Generators, conversion and comparison live here too.
use std::collections::BTreeMap;
use figment::value::{Value, Num, Empty, Tag, Dict};
use crate::rng::Rng;

/// Where a value came from: provider id (as assigned by the model) and profile class.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Src { pub prov: u32, pub cls: Cls }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cls { Default, Global, Custom }

impl Cls {
    pub fn of(profile: &str) -> Cls {
        match profile.to_ascii_lowercase().as_str() { "default" => Cls::Default, "global" => Cls::Global, _ => Cls::Custom }
    }
}

#[derive(Clone, Debug)]
pub enum MV {
    Str(String), Char(char), Bool(bool), Num(Num), Unit, None,
    Dict(MDict), Arr(Vec<Node>),
}
pub type MDict = BTreeMap<String, Node>;

/// A value with the set of sources it may legitimately be attributed to (exactly one for leaves).
#[derive(Clone, Debug)]
pub struct Node { pub v: MV, pub srcs: Vec<Src> }

impl Node {
    pub fn new(v: MV) -> Node { Node { v, srcs: vec![] } }
    pub fn dict(&self) -> Option<&MDict> { if let MV::Dict(d) = &self.v { Some(d) } else { None } }
    /// Attribute the whole tree to one source.
    pub fn tag(&mut self, s: Src) {
        self.srcs = vec![s];
        match &mut self.v {
            MV::Dict(d) => d.values_mut().for_each(|n| n.tag(s)),
            MV::Arr(a) => a.iter_mut().for_each(|n| n.tag(s)),
            _ => {}
        }
    }
    pub fn size(&self) -> usize {
        1 + match &self.v {
            MV::Dict(d) => d.values().map(|n| n.size()).sum(),
            MV::Arr(a) => a.iter().map(|n| n.size()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        1 + match &self.v {
            MV::Dict(d) => d.values().map(|n| n.depth()).max().unwrap_or(0),
            MV::Arr(a) => a.iter().map(|n| n.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn to_value(&self) -> Value {
        match &self.v {
            MV::Str(s) => Value::String(Tag::Default, s.clone()),
            MV::Char(c) => Value::Char(Tag::Default, *c),
            MV::Bool(b) => Value::Bool(Tag::Default, *b),
            MV::Num(n) => Value::Num(Tag::Default, *n),
            MV::Unit => Value::Empty(Tag::Default, Empty::Unit),
            MV::None => Value::Empty(Tag::Default, Empty::None),
            MV::Dict(d) => Value::Dict(Tag::Default, dict_to_value(d)),
            MV::Arr(a) => Value::Array(Tag::Default, a.iter().map(|n| n.to_value()).collect()),
        }
    }
    /// Walks a key path: components up to the first empty one.
    pub fn walk(&self, path: &[String]) -> Option<&Node> {
        let mut cur = self;
        for k in path { cur = cur.dict()?.get(k)?; }
        Some(cur)
    }
    pub fn kind(&self) -> &'static str {
        match &self.v {
            MV::Str(_) => "str", MV::Char(_) => "char", MV::Bool(_) => "bool", MV::Num(_) => "num",
            MV::Unit => "unit", MV::None => "none", MV::Dict(_) => "dict", MV::Arr(_) => "array",
        }
    }
}

pub fn dict_to_value(d: &MDict) -> Dict { d.iter().map(|(k, n)| (k.clone(), n.to_value())).collect() }

/// Mathematical value and class of a number: ('u'|'i'|'f', text).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NumVal { U(u128), I(i128), F(u64) }
pub fn numval(n: &Num) -> NumVal {
    match *n {
        Num::U8(v) => NumVal::U(v.into()), Num::U16(v) => NumVal::U(v.into()), Num::U32(v) => NumVal::U(v.into()),
        Num::U64(v) => NumVal::U(v.into()), Num::U128(v) => NumVal::U(v), Num::USize(v) => NumVal::U(v as u128),
        Num::I8(v) => NumVal::I(v.into()), Num::I16(v) => NumVal::I(v.into()), Num::I32(v) => NumVal::I(v.into()),
        Num::I64(v) => NumVal::I(v.into()), Num::I128(v) => NumVal::I(v), Num::ISize(v) => NumVal::I(v as i128),
        Num::F32(v) => NumVal::F(f64_bits(v as f64)), Num::F64(v) => NumVal::F(f64_bits(v)),
    }
}
fn f64_bits(v: f64) -> u64 { if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() } }

/// Signless integer value of a number, if it is an integer: (negative, magnitude).
pub fn int_of(n: &Num) -> Option<(bool, u128)> {
    match numval(n) {
        NumVal::U(v) => Some((false, v)),
        NumVal::I(v) => Some((v < 0, v.unsigned_abs())),
        NumVal::F(_) => None,
    }
}

/// Same kind and same value; numbers of the same class (unsigned, signed, float) by mathematical value.
/// `ints_by_value`: integers compare by value even across signedness (for text formats).
pub fn same_scalar(m: &MV, v: &Value, ints_by_value: bool) -> bool {
    match (m, v) {
        (MV::Str(a), Value::String(_, b)) => a == b,
        (MV::Char(a), Value::Char(_, b)) => a == b,
        (MV::Bool(a), Value::Bool(_, b)) => a == b,
        (MV::Num(a), Value::Num(_, b)) => {
            if ints_by_value && int_of(a).is_some() { int_of(a) == int_of(b) } else { numval(a) == numval(b) }
        }
        (MV::Unit, Value::Empty(_, Empty::Unit)) => true,
        (MV::None, Value::Empty(_, Empty::None)) => true,
        _ => false,
    }
}

pub struct Cmp<'a> {
    pub ints_by_value: bool,
    /// Called on every node of the tree with the observed tag.
    pub tags: Option<&'a mut dyn FnMut(&Node, &Value, &str) -> Result<(), String>>,
    pub nodes: u64,
}

impl<'a> Cmp<'a> {
    pub fn plain() -> Cmp<'static> { Cmp { ints_by_value: false, tags: None, nodes: 0 } }
    pub fn ints() -> Cmp<'static> { Cmp { ints_by_value: true, tags: None, nodes: 0 } }

    pub fn dict(&mut self, m: &MDict, v: &Dict, path: &str) -> Result<(), String> {
        for k in m.keys() {
            if !v.contains_key(k) { return Err(format!("key {:?} missing under {:?}: model has {}", k, path, show(&m[k]))) }
        }
        for k in v.keys() {
            if !m.contains_key(k) { return Err(format!("unexpected key {:?} under {:?}: {:?}", k, path, cut(&v[k]))) }
        }
        for (k, n) in m { self.node(n, &v[k], &format!("{}/{}", path, k))?; }
        Ok(())
    }

    pub fn node(&mut self, m: &Node, v: &Value, path: &str) -> Result<(), String> {
        self.nodes += 1;
        if let Some(f) = &mut self.tags { f(m, v, path)?; }
        match (&m.v, v) {
            (MV::Dict(d), Value::Dict(_, e)) => self.dict(d, e, path),
            (MV::Arr(a), Value::Array(_, b)) => {
                if a.len() != b.len() {
                    return Err(format!("array at {:?} has {} elements, model has {}: {} vs {:?}", path, b.len(), a.len(), show(m), cut(v)))
                }
                for (i, (x, y)) in a.iter().zip(b).enumerate() { self.node(x, y, &format!("{}/[{}]", path, i))?; }
                Ok(())
            }
            (x, y) if same_scalar(x, y, self.ints_by_value) => Ok(()),
            _ => Err(format!("at {:?}: got {:?}, model says {}", path, cut(v), show(m))),
        }
    }
}

pub fn cut<T: std::fmt::Debug + ?Sized>(v: &T) -> String { cut_str(&format!("{:?}", v), 400) }
pub fn cut_str(s: &str, n: usize) -> String {
    if s.len() <= n { return s.into() }
    let mut i = n;
    while !s.is_char_boundary(i) { i -= 1 }
    format!("{}…(+{} bytes)", &s[..i], s.len() - i)
}
pub fn show(n: &Node) -> String { cut_str(&show_full(n), 400) }
pub fn show_full(n: &Node) -> String {
    match &n.v {
        MV::Str(s) => format!("{:?}", s), MV::Char(c) => format!("{:?}", c), MV::Bool(b) => format!("{}", b),
        MV::Num(x) => format!("{:?}", x), MV::Unit => "()".into(), MV::None => "None".into(),
        MV::Dict(d) => show_dict(d),
        MV::Arr(a) => format!("[{}]", a.iter().map(show_full).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show_dict(d: &MDict) -> String {
    format!("{{{}}}", d.iter().map(|(k, v)| format!("{:?}: {}", k, show_full(v))).collect::<Vec<_>>().join(", "))
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Gen {
    pub depth: usize,
    pub width: usize,
    pub big: usize,
    /// Only data expressible in every text format: no chars, units, none, 128-bit or non-finite numbers.
    pub text: bool,
    pub null: bool,
    /// Keys are non-empty and dot-free (addressable by key paths).
    pub addressable: bool,
    pub keys: &'static [&'static str],
}

pub const KEYS: &[&str] = &["a", "b", "c", "key", "name", "A", "a_b", "x-y", "port", "0", "12", "ключ", "日本", "with space", "debug", "default", "global", "é"];
pub const KEYS_ODD: &[&str] = &["a", "b", "c", "key", "", "a.b", ".", "A", "a_b", "ключ", " ", "b.", "\n", "\"q\"", "'", "\u{1F600}", "___figment", "default", "very_long_key_name_that_goes_on_and_on_and_on_and_on_and_on_for_more_than_sixty_four_bytes"];

impl Gen {
    pub fn small() -> Gen { Gen { depth: 3, width: 4, big: 66, text: false, null: true, addressable: false, keys: KEYS_ODD } }
    pub fn addr() -> Gen { Gen { addressable: true, keys: KEYS, ..Gen::small() } }
    pub fn text() -> Gen { Gen { text: true, addressable: true, null: false, keys: KEYS, ..Gen::small() } }

    pub fn key(&self, r: &mut Rng) -> String {
        if r.chance(1, 25) {
            let n = r.range(1, 6);
            let s = string_of(r, n, ALPH_IDENT);
            return s;
        }
        r.pick(self.keys).to_string()
    }

    pub fn num(&self, r: &mut Rng) -> Num {
        if self.text {
            return match r.below(5) {
                0 => Num::I64(*r.pick(&[0, -1, -128, i64::MIN, i64::MAX, 255, -32769, 1 << 31, 1 << 53])),
                1 => Num::F64(gen_float_simple(r)),
                2 => Num::U64(r.below(300) as u64),
                3 => Num::I64(-(r.below(100000) as i64)),
                _ => Num::I64(r.next() as i64 >> r.below(64)),
            }
        }
        gen_num(r)
    }

    pub fn scalar(&self, r: &mut Rng) -> MV {
        loop {
            return match r.below(9) {
                0..=2 => MV::Str(gen_string(r)),
                3 => MV::Bool(r.bool()),
                4 | 5 => MV::Num(self.num(r)),
                6 if !self.text => MV::Char(*r.pick(&['a', 'é', '\0', '\u{10FFFF}', '1', '.', '日'])),
                7 if !self.text => MV::Unit,
                8 if self.null => MV::None,
                6..=8 => continue,
                _ => unreachable!(),
            }
        }
    }

    pub fn node(&self, r: &mut Rng) -> Node { self.node_at(r, self.depth) }
    fn node_at(&self, r: &mut Rng, depth: usize) -> Node {
        if depth == 0 || r.chance(2, 5) { return Node::new(self.scalar(r)) }
        if r.chance(3, 5) { Node::new(MV::Dict(self.dict_at(r, depth - 1))) }
        else { Node::new(MV::Arr(self.arr_at(r, depth - 1))) }
    }
    fn arr_at(&self, r: &mut Rng, depth: usize) -> Vec<Node> {
        let n = if self.big > 60 && r.chance(1, 700) { huge(r) } else { r.size(self.width, self.big) };
        let depth = if n > 60 { 0 } else if n > 12 { depth.min(1) } else { depth };
        (0..n).map(|_| self.node_at(r, depth)).collect()
    }
    pub fn dict(&self, r: &mut Rng) -> MDict { self.dict_at(r, self.depth) }
    pub fn dict_at(&self, r: &mut Rng, depth: usize) -> MDict {
        let n = if self.big > 60 && r.chance(1, 700) { huge(r) } else { r.size(self.width, self.big) };
        let depth = if n > 60 { 0 } else if n > 12 { depth.min(1) } else { depth };
        (0..n).map(|i| {
            let k = if n > 12 { format!("k{}", i * 7 % 4001) } else { self.key(r) };
            (k, self.node_at(r, depth))
        }).collect()
    }
    /// A chain `depth` levels deep, for depth-sensitive behaviour.
    pub fn deep(&self, r: &mut Rng, depth: usize) -> Node {
        let mut n = Node::new(self.scalar(r));
        for _ in 0..depth {
            n = if r.chance(2, 3) {
                let mut d = MDict::new();
                d.insert(self.key(r), n);
                if r.chance(1, 4) { d.insert(self.key(r), Node::new(self.scalar(r))); }
                Node::new(MV::Dict(d))
            } else {
                Node::new(MV::Arr(vec![n]))
            };
        }
        n
    }
}

/// A size beyond most small buffers and counters.
pub fn huge(r: &mut Rng) -> usize {
    match r.below(8) { 0 => r.range(300, 3000), 1 => *r.pick(&[255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049]), _ => r.range(100, 300) }
}

impl Gen {
    /// An array or dictionary of so many simple elements.
    pub fn huge(&self, r: &mut Rng, dict: bool, n: usize) -> Node {
        let salt = r.below(1000);
        let one = |r: &mut Rng, i: usize| Node::new(if r.chance(1, 20) { self.scalar(r) } else { MV::Num(if self.text { Num::I64((i * 31 + salt) as i64) } else { Num::U32((i * 31 + salt) as u32) }) });
        Node::new(if dict { let at = r.below(3) * n / 2; MV::Dict((at..at + n).map(|i| (format!("k{}", i), one(r, i))).collect()) } else { MV::Arr((0..n).map(|i| one(r, i)).collect()) })
    }
}

/// The same tree but for one leaf, anywhere in it.
pub fn change_one(r: &mut Rng, g: &Gen, n: &Node) -> Node {
    Node::new(match &n.v {
        MV::Arr(a) if !a.is_empty() => { let mut a = a.clone(); let i = r.below(a.len()); a[i] = change_one(r, g, &a[i]); MV::Arr(a) }
        MV::Dict(d) if !d.is_empty() => { let mut d = d.clone(); let i = r.below(d.len()); let x = d.values_mut().nth(i).unwrap(); *x = change_one(r, g, x); MV::Dict(d) }
        _ => g.scalar(r),
    })
}

pub const ALPH_IDENT: &[char] = &['a', 'b', 'z', 'A', 'Q', '0', '9', '_', '-'];

pub fn string_of(r: &mut Rng, n: usize, alph: &[char]) -> String { (0..n).map(|_| *r.pick(alph)).collect() }

pub fn gen_string(r: &mut Rng) -> String {
    const FIXED: &[&str] = &["", "hi", "true", "false", "1", "0", "-1", "1.5", "on", "NO", "null", "~", "[1]", "{a=1}", "a b", " pad ",
        "é", "日本語", "\u{1F600}", "\"q\"", "back\\slash", "line\nbreak", "tab\t", "\0", "#", "a: b", "- x", "'", "=", "yes", "0x10", "1e5", ".5", "inf", "NaN", "${X}", "%", "\u{feff}", "\r\n"];
    match r.below(8) {
        0..=4 => r.pick(FIXED).to_string(),
        5 | 6 => { let n = r.size(8, 600); string_of(r, n, &['a', 'b', 'c', ' ', 'é', '\\', '"', '\'', '\n', '1', '.', '日', '{', ']', ',', '\u{1F600}', '\t', '=']) }
        _ => { let n = r.below(6); (0..n).map(|_| gen_char(r)).collect() }
    }
}

/// The text with some characters replaced by ones that are the same only to an over-eager case folding.
pub fn lookalike(s: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if r.chance(1, 2) { o.push(c); continue }
        match c {
            'k' | 'K' => o.push('\u{212a}'), 's' | 'S' => o.push(*r.pick(&['\u{17f}', 'ß', 'ẞ'])), 'i' | 'I' => o.push(*r.pick(&['İ', 'ı'])), 'é' => o.push('É'), 'É' => o.push('é'), 'å' => o.push('\u{212b}'), 'ω' => o.push('\u{2126}'),
            'f' | 'F' => o.push('\u{fb00}'), 'n' | 'N' => o.push('\u{149}'), 'j' | 'J' => o.push('\u{1f0}'), 'a' | 'A' => o.push(*r.pick(&['Ⱥ', 'ａ', 'а'])), 'e' | 'E' => o.push('е'), '_' => o.push('＿'), c => o.push(c),
        }
    }
    o
}

pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let m = *r.pick(&[0x80u32, 0x800, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.next() as u32 % m) { return c }
    }
}

pub fn gen_float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.5, 0.1, 0.3, 1e10, 3.14159, 1e-7, 123456.789, f64::MAX, f64::MIN_POSITIVE, 1e300, -1e-300, 16777217.0]),
        1 => (r.below(2000) as f64 - 1000.0) / 8.0,
        2 => (r.below(100000) as f64) / 1000.0,
        3 => r.below(1000) as f64,
        _ => loop { let f = f64::from_bits(r.next()); if f.is_finite() { break f } },
    }
}

/// Floats every text parser reads exactly.
pub fn gen_float_simple(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.5, 0.1, 0.3, 3.14159, 123456.789, -2.0, 100.0, 1e15]),
        1 => (r.below(20000) as f64 - 10000.0) / 8.0,
        _ => (r.below(100000) as f64) / 1000.0,
    }
}

pub fn gen_num(r: &mut Rng) -> Num {
    let s = r.below(129) as u32;
    let raw = ((r.next() as u128) << 64 | r.next() as u128).checked_shr(s).unwrap_or(0);
    let raw = match r.below(5) {
        0 => raw, 1 => 0, 2 => !0u128, 3 => (r.below(6) as u128).wrapping_sub(3),
        // Near powers of two: boundaries of types, and values that look small when cut off.
        _ => (1u128 << *r.pick(&[7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 96, 127])).wrapping_mul(r.range(1, 3) as u128).wrapping_add(r.below(5) as u128).wrapping_sub(2),
    };
    match r.below(14) {
        0 => Num::U8(raw as u8), 1 => Num::U16(raw as u16), 2 => Num::U32(raw as u32), 3 => Num::U64(raw as u64),
        4 => Num::U128(raw), 5 => Num::USize(raw as usize), 6 => Num::I8(raw as i8), 7 => Num::I16(raw as i16),
        8 => Num::I32(raw as i32), 9 => Num::I64(raw as i64), 10 => Num::I128(raw as i128), 11 => Num::ISize(raw as isize),
        12 => Num::F32(gen_float(r) as f32), _ => Num::F64(gen_float(r)),
    }
}
