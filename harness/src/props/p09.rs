//! P09: environment values parse exactly by the documented grammar, else stay verbatim.
use figment::value::{Num, Value};
use figment::providers::Env;
use figment::Figment;
use crate::cov::*; use crate::mv::*;
use crate::rng::Rng;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P09", case, quick: 2_800_000, thorough: 30_000_000, serial: false,
    rule: "random values rendered in the documented syntax (varied whitespace, quoting and escapes) must parse back to themselves; those texts randomly damaged, random token sequences and random strings must give what an independent reference parser of the documented grammar gives; both through FromStr and through the environment; non-trivial: contains a delimiter or escape; distinct by text",
};

/// An independent reading of the documentation. `unspec` is set where it leaves the result open.
pub struct Ref { c: Vec<char>, i: usize, depth: usize, pub unspec: bool }
struct No;
type R<T> = Result<T, No>;

impl Ref {
    /// The value denoted by `s`, and whether the documentation settles it.
    pub fn parse(s: &str) -> (Node, bool) {
        let t = s.trim();
        if t.is_empty() { return (Node::new(MV::Unit), true) }
        let mut p = Ref { c: t.chars().collect(), i: 0, depth: 0, unspec: false };
        let v = p.value(true);
        match v {
            Ok(v) if p.i == p.c.len() => (v, !p.unspec),
            _ => (Node::new(MV::Str(t.into())), !p.unspec),
        }
    }
    fn at(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn ws(&mut self) { while self.at().is_some_and(|c| c.is_whitespace()) { self.i += 1; } }
    fn value(&mut self, top: bool) -> R<Node> {
        self.ws();
        let v = match self.at() {
            Some('"') => MV::Str(self.string()?),
            Some('\'') => {
                if self.c.get(self.i + 2) != Some(&'\'') { return Err(No) }
                self.i += 3;
                MV::Char(self.c[self.i - 2])
            }
            Some('[') => MV::Arr(self.list(']', |p| p.value(false))?),
            Some('{') => {
                let es = self.list('}', |p| {
                    let k = p.key()?;
                    p.ws();
                    if p.at() != Some('=') { return Err(No) }
                    p.i += 1;
                    let v = p.value(false)?;
                    Ok((k, v))
                })?;
                let mut d = MDict::new();
                for (k, v) in es { if d.insert(k, v).is_some() { self.unspec = true } }
                MV::Dict(d)
            }
            Some(_) => {
                let start = self.i;
                while self.at().is_some_and(|c| !matches!(c, ',' | '[' | ']' | '{' | '}')) { self.i += 1; }
                let text: String = self.c[start..self.i].iter().collect();
                if text.trim().is_empty() && !top { MV::Str(String::new()) } else { self.bare(text.trim()) }
            }
            None => { if !top { self.unspec = true } MV::Unit }
        };
        self.ws();
        Ok(Node::new(v))
    }
    fn bare(&mut self, t: &str) -> MV {
        if t == "true" { return MV::Bool(true) }
        if t == "false" { return MV::Bool(false) }
        let (neg, body) = match t.strip_prefix('-') { Some(b) => (true, b), None => (false, t) };
        if !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit()) {
            if let Ok(m) = body.parse::<u128>() {
                if !neg && m <= u64::MAX as u128 { return MV::Num(Num::USize(m as usize)) }
                if neg && m <= 1 << 63 { return MV::Num(Num::ISize((m as i128).wrapping_neg() as isize)) }
            }
            return MV::Str(t.into())
        }
        // "Any float containing a dot": whatever the language reads as one.
        if t.contains('.') {
            if let Ok(f) = t.parse::<f64>() {
                if !f.is_finite() { self.unspec = true }
                return MV::Num(Num::F64(f))
            }
        }
        // A sign before an integer is not mentioned.
        if t.parse::<f64>().is_ok() && t.bytes().any(|b| b.is_ascii_digit()) && t.starts_with('+') { self.unspec = true }
        MV::Str(t.into())
    }
    fn key(&mut self) -> R<String> {
        if self.at() == Some('"') { return self.string() }
        let start = self.i;
        while self.at().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { self.i += 1; }
        if self.i == start { self.unspec = true }
        Ok(self.c[start..self.i].iter().collect())
    }
    fn string(&mut self) -> R<String> {
        self.i += 1;
        let mut o = String::new();
        // Find the end first: an unterminated string is no string at all.
        loop {
            match self.at().ok_or(No)? {
                '"' => { self.i += 1; return Ok(o) }
                '\\' => {
                    let e = *self.c.get(self.i + 1).ok_or(No)?;
                    self.i += 2;
                    o.push(match e {
                        'b' => '\u{8}', 't' => '\t', 'n' => '\n', 'f' => '\u{c}', 'r' => '\r', '"' => '"', '\\' => '\\',
                        'u' | 'U' => {
                            let n = if e == 'u' { 4 } else { 8 };
                            let mut v = 0u64;
                            for _ in 0..n { v = v * 16 + self.at().and_then(|c| c.to_digit(16)).ok_or(No)? as u64; self.i += 1; }
                            char::from_u32(u32::try_from(v).map_err(|_| No)?).ok_or(No)?
                        }
                        _ => return Err(No),
                    });
                }
                // Raw control characters are not mentioned.
                c if c.is_ascii_control() && c != '\t' => { self.unspec = true; return Err(No) }
                c => { o.push(c); self.i += 1; }
            }
        }
    }
    fn list<T>(&mut self, end: char, item: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.depth += 1;
        if self.depth > 100 { self.unspec = true; return Err(No) }
        self.i += 1;
        let mut v = vec![];
        self.ws();
        while self.at() != Some(end) {
            v.push(item(self)?);
            self.ws();
            if self.at() != Some(',') { break }
            self.i += 1;
            self.ws();
        }
        if self.at() != Some(end) { return Err(No) }
        self.i += 1;
        self.depth -= 1;
        Ok(v)
    }
}

// ------------------------------------------------------------ rendering

fn ws(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", " ", "  ", "\t", "\n", " \u{a0}"]) }

fn quoted(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\u{8}' if r.bool() => o.push_str("\\b"), '\u{c}' if r.bool() => o.push_str("\\f"), '\n' if r.bool() => o.push_str("\\n"), '\r' if r.bool() => o.push_str("\\r"), '\t' if r.bool() => o.push_str("\\t"),
            c if (c as u32) < 0x10000 && (c.is_ascii_control() && c != '\t' || r.chance(1, 12)) => o.push_str(&if r.bool() { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) }),
            c if r.chance(1, 12) => o.push_str(&format!("\\U{:08X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// May `s` stand without quotes, nested or not?
fn bare_ok(s: &str, top: bool) -> bool {
    if s.is_empty() || s.trim() != s || s.starts_with(['"', '\'']) || s.contains([',', '[', ']', '{', '}']) { return false }
    let mut p = Ref { c: vec![], i: 0, depth: 0, unspec: false };
    let _ = top;
    matches!(p.bare(s), MV::Str(_)) && !p.unspec
}

pub fn render(n: &Node, r: &mut Rng, top: bool, o: &mut String) {
    o.push_str(ws(r));
    match &n.v {
        MV::Str(s) => if bare_ok(s, top) && r.chance(2, 3) { o.push_str(s) } else { o.push_str(&quoted(s, r)) },
        MV::Char(c) => { o.push('\''); o.push(*c); o.push('\''); }
        MV::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        MV::Num(x) => match numval(x) {
            NumVal::F(b) => { let s = format!("{}", f64::from_bits(b)); o.push_str(&s); if !s.contains('.') { o.push_str(".0") } }
            _ => o.push_str(&crate::render::num_text(x)),
        },
        MV::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } render(x, r, false, o); }
            if !a.is_empty() && r.chance(1, 8) { o.push(','); }
            o.push_str(ws(r)); o.push(']');
        }
        MV::Dict(d) => {
            o.push('{');
            for (i, (k, x)) in d.iter().enumerate() {
                if i > 0 { o.push(','); }
                o.push_str(ws(r));
                if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') && r.bool() { o.push_str(k) } else { o.push_str(&quoted(k, r)) }
                o.push_str(ws(r)); o.push('=');
                render(x, r, false, o);
            }
            if !d.is_empty() && r.chance(1, 8) { o.push(','); }
            o.push_str(ws(r)); o.push('}');
        }
        MV::Unit | MV::None => {}
    }
    o.push_str(ws(r));
}

/// Restricts a value to what the syntax can express; numbers become the types it documents.
pub fn expressible(r: &mut Rng, n: &mut Node) {
    match &mut n.v {
        MV::Dict(d) => d.values_mut().for_each(|n| expressible(r, n)),
        MV::Arr(a) => a.iter_mut().for_each(|n| expressible(r, n)),
        MV::Num(x) => *x = match int_of(x) {
            Some((false, m)) => Num::USize(m as usize),
            Some((true, m)) => Num::ISize(-((m >> 1) as i64).saturating_abs() as isize),
            None => Num::F64(gen_float(r)),
        },
        MV::Unit | MV::None => n.v = MV::Str(String::new()),
        _ => {}
    }
    if let MV::Num(Num::ISize(0)) = n.v { n.v = MV::Num(Num::USize(0)) }
}

const TOKENS: &[&str] = &["[", "]", "{", "}", ",", "=", "\"", "'", "\\", "\\u", "\\U", "00e9", "0001F600", "D800", "\\n", "\\x", "a", "key", "true", "false", "1", "-1", "1.5", "-", ".", "-0", "-0.0", "18446744073709551616", "18446744073709551615",
    "-9223372036854775808", "-9223372036854775809", " ", "\t", "\n", "é", "日", "\u{1F600}", "\u{a0}", "a b", "{a=1}", "[1]", "\"x\"", "'c'", "'''", "''", "\"\\\"\"", "_", "1e5", "0x1", "True", "+1", "=1", "\0", "\u{7f}", "\u{feff}", "٣", "1.", ".5", "1.2.3", "-.5", "-1.", "+1.5", "1.5e3", "1.E-2", ".5e1", "-0.", "00.10", "1.5e", "1.5f", "1,5", "1.5e400", "1.e-400", "1_0", "inf", "NaN", ";", ":", "|", "(", ")", "<", ">", "#", "//", "/*", "*/", "`", "~", "null", "None", "()", "->", "=>", "==", ",,", "..", "yes", "on", "off", "$", "%", "&", "*", "?", "!", "@", "^", "\r", "\x0b", "\u{85}", "\u{2028}"];

fn damage(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(c.len() + 1);
        match r.below(5) {
            0 if i < c.len() => { c.remove(i); }
            1 => c.truncate(i),
            2 if i < c.len() => { c[i] = *r.pick(&['[', ']', '{', '}', ',', '"', '\'', '\\', '=', 'x', ' ', 'u', '0', 'é', ';', ':', '(', ')', '.', '-', '+', '#', '_', '\n', '|', '<', '/', '*', 'U', 'n', '\t', '&', '$', '!', '~', '`', '@', '%']); }
            3 if i < c.len() => { let j = r.below(c.len()); c.swap(i, j); }
            _ => { let t: Vec<char> = r.pick(TOKENS).chars().collect(); c.splice(i..i, t); }
        }
    }
    c.into_iter().collect()
}

pub fn strip_ws(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let kind = r.below(9);
    let mut want: Option<Node> = None;
    let mut g = Gen { null: false, ..Gen::small() };
    g.big = 70;
    let text = match kind {
        0..=2 => {
            let mut n = if r.chance(1, 20) { let d = r.range(5, 100); g.deep(r, d) } else { g.node(r) };
            expressible(r, &mut n);
            let mut t = String::new();
            render(&n, r, true, &mut t);
            if kind == 2 { damage(r, &t) } else { want = Some(n); t }
        }
        3 => { let n = r.size(8, 200); (0..n.min(220)).map(|_| *r.pick(TOKENS)).collect() }
        4 => { let n = r.range(1, 4); let inner: String = (0..n).map(|_| *r.pick(TOKENS)).collect(); let q = *r.pick(&["\"", "[", "{a=", "'", "{\""]); let e = *r.pick(&["\"", "]", "}", "'", "\"=1}", ""]); format!("{}{}{}", q, inner, e) }
        // Short texts over few characters: every small corner of the grammar.
        5 | 6 => {
            const SMALL: &[char] = &['[', ']', '{', '}', ',', '=', '"', '\'', '\\', 'a', '1', '-', '.', ' ', 'u', 'é'];
            let k = r.range(2, 6);
            let alphabet: Vec<char> = (0..k).map(|_| *r.pick(SMALL)).collect();
            let n = r.range(1, 9);
            (0..n).map(|_| *r.pick(&alphabet)).collect()
        }
        7 => {
            let q = *r.pick(&["'", "'", "\""]);
            let n = r.below(4);
            let s: String = (0..n).map(|_| *r.pick(&["\\", "'", "\"", "n", "t", "a", "u0041", "x41", "é", " ", "]", ","])).collect();
            let t = format!("{}{}{}", q, s, q);
            match r.below(4) { 0 => format!("[{}]", t), 1 => format!("{{a={}}}", t), _ => t }
        }
        _ => gen_string(r),
    };
    let (m, settled) = Ref::parse(&text);
    if let Some(w) = &want {
        // The reference parser must agree with the renderer: it is checked too.
        if let Err(e) = Cmp::plain().node(w, &m.to_value(), "") { fail!("reference parser disagrees with the renderer on {:?}: {}", text, e) }
    }
    let judge = |v: &Value, how: &str| -> Res {
        if settled { return Cmp::plain().node(&m, v, "").map_err(|e| Fail::new(format!("{} of {:?}: {}", how, cut_str(&text, 600), e))) }
        // At the very least a string result is the text itself.
        if let Value::String(_, s) = v { check!(s == text.trim() || text.trim().starts_with('"'), "{} of {:?} is the string {:?}", how, cut_str(&text, 600), s) }
        Ok(())
    };
    let v: Value = text.parse().unwrap_or_else(|e| match e {});
    judge(&v, "parsing")?;
    c.cov.eval();
    if !text.contains('\0') && c.idx % 4 == 0 {
        std::env::set_var("VH_P09", &text);
        let e = Env::prefixed("VH_").only(&["p09"]);
        let v = Figment::from(e).find_value("p09");
        match v { Ok(v) => judge(&v, "environment value")?, Err(e) => fail!("environment value {:?} is not found: {}", text, e) }
        let var = Env::var("vh_P09");
        check!(var.as_deref() == Some(text.trim()), "Env::var gives {:?} for {:?}", var, text);
        c.cov.evals(2);
        c.cov.count("read through the environment");
        std::env::remove_var("VH_P09");
    }
    c.cov.count(match (want.is_some(), settled, matches!(m.v, MV::Str(_))) {
        (true, ..) => "rendered values", (_, false, _) => "text the documentation leaves open", (_, _, true) => "text that is a string", _ => "text that is a structure or scalar",
    });
    if text.contains(['[', '{', '"', '\'', '\\']) { c.cov.distinct(&text); }
    c.cov.sample(|| format!("{:?} = {}", text, show(&m)));
    Ok(())
}
