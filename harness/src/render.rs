//! Renders model values as JSON, TOML, YAML and environment-value text in varied styles.
use crate::mv::*;
use crate::rng::Rng;
use figment::value::Num;

fn ws(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", " ", "  "]) }

pub fn json_str(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' if r.bool() => o.push_str("\\n"), '\t' if r.bool() => o.push_str("\\t"),
            '\r' if r.bool() => o.push_str("\\r"),
            '/' if r.bool() => o.push_str("\\/"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if r.chance(1, 12) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&if *u % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) }); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn num_text(n: &Num) -> String {
    match numval(n) {
        NumVal::U(v) => v.to_string(), NumVal::I(v) => v.to_string(),
        NumVal::F(b) => { let s = format!("{:?}", f64::from_bits(b)); s }
    }
}

pub fn json(n: &Node, r: &mut Rng) -> String { let nl = r.chance(1, 4); let mut o = String::new(); json_at(n, r, nl, 0, &mut o); o }
fn json_at(n: &Node, r: &mut Rng, nl: bool, ind: usize, o: &mut String) {
    let brk = |o: &mut String, r: &mut Rng, ind: usize| if nl { o.push('\n'); o.push_str(&" ".repeat(ind)); } else { o.push_str(ws(r)); };
    match &n.v {
        MV::Str(s) => o.push_str(&json_str(s, r)),
        MV::Char(c) => o.push_str(&json_str(&c.to_string(), r)),
        MV::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        MV::Num(n) => o.push_str(&num_text(n)),
        MV::Unit | MV::None => o.push_str("null"),
        MV::Dict(d) => {
            o.push('{');
            let mut ks: Vec<_> = d.iter().collect();
            r.shuffle(&mut ks);
            for (i, (k, v)) in ks.into_iter().enumerate() {
                if i > 0 { o.push(','); }
                brk(o, r, ind + 1);
                o.push_str(&json_str(k, r));
                o.push_str(ws(r)); o.push(':'); o.push_str(ws(r));
                json_at(v, r, nl, ind + 1, o);
            }
            brk(o, r, ind);
            o.push('}');
        }
        MV::Arr(a) => {
            o.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 { o.push(','); }
                brk(o, r, ind + 1);
                json_at(v, r, nl, ind + 1, o);
            }
            brk(o, r, ind);
            o.push(']');
        }
    }
}

// ------------------------------------------------------------ TOML

fn toml_basic(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' if r.bool() => o.push_str("\\t"), '\u{8}' => o.push_str("\\b"), '\u{c}' => o.push_str("\\f"),
            c if c.is_control() && c != '\t' || r.chance(1, 15) => o.push_str(&if (c as u32) < 0x10000 { format!("\\u{:04X}", c as u32) } else { format!("\\U{:08x}", c as u32) }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn toml_str(s: &str, r: &mut Rng) -> String {
    let clean = |c: char| c == '\t' || !c.is_control();
    match r.below(6) {
        0 | 1 if !s.contains('\'') && s.chars().all(clean) => format!("'{}'", s),
        2 if !s.contains("'''") && !s.starts_with('\'') && !s.ends_with('\'') && s.chars().all(|c| clean(c) || c == '\n') => format!("'''\n{}'''", s),
        3 => {
            let mut o = String::from("\"\"\"\n");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push('\n'),
                    c if !clean(c) => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => { if r.chance(1, 30) && !c.is_whitespace() { o.push_str("\\\n   "); } o.push(c) }
                }
            }
            o.push_str("\"\"\"");
            o
        }
        _ => toml_basic(s, r),
    }
}

fn toml_key(k: &str, r: &mut Rng) -> String {
    let bare = !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-');
    if bare && !r.chance(1, 6) { k.into() }
    else if r.bool() && !k.contains('\'') && k.chars().all(|c| !c.is_control()) { format!("'{}'", k) }
    else { toml_basic(k, r) }
}

fn group_digits(s: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() { if i > 0 && r.chance(1, 3) { o.push('_'); } o.push(c); }
    o
}

fn toml_num(n: &Num, r: &mut Rng) -> String {
    match int_of(n) {
        Some((neg, m)) => {
            if !neg && r.chance(1, 5) {
                let s = match r.below(4) { 0 => format!("0x{:x}", m), 1 => format!("0x{:X}", m), 2 => format!("0o{:o}", m), _ => format!("0b{:b}", m) };
                return format!("{}{}", &s[..2], if r.bool() { group_digits(&s[2..], r) } else { s[2..].into() })
            }
            let sign = if neg { "-" } else if r.chance(1, 8) { "+" } else { "" };
            format!("{}{}", sign, if r.chance(1, 6) { group_digits(&m.to_string(), r) } else { m.to_string() })
        }
        None => {
            let f = match numval(n) { NumVal::F(b) => f64::from_bits(b), _ => unreachable!() };
            if f.is_nan() { return r.pick(&["nan", "+nan"]).to_string() }
            if f.is_infinite() { return if f > 0.0 { r.pick(&["inf", "+inf"]).to_string() } else { "-inf".into() } }
            match r.below(4) { 0 => format!("{:e}", f), 1 => format!("{:E}", f), _ => format!("{:?}", f) }
        }
    }
}

fn toml_inline(n: &Node, r: &mut Rng, nl_ok: bool, o: &mut String) {
    match &n.v {
        MV::Str(s) => o.push_str(&toml_str(s, r)),
        MV::Char(c) => o.push_str(&toml_str(&c.to_string(), r)),
        MV::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        MV::Num(n) => o.push_str(&toml_num(n, r)),
        MV::Unit | MV::None => unreachable!("TOML has no null"),
        MV::Arr(a) => {
            let nl = r.chance(1, 4);
            let gap = |r: &mut Rng| if nl { *r.pick(&["\n", "\n  ", " # a comment, with ] and \"\n"]) } else { ws(r) };
            o.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(gap(r)); toml_inline(x, r, nl_ok, o); o.push_str(gap(r)); }
            if !a.is_empty() && r.chance(1, 5) { o.push(','); }
            o.push_str(gap(r));
            o.push(']');
        }
        MV::Dict(d) => {
            o.push('{');
            for (i, (k, x)) in d.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(ws(r)); o.push_str(&toml_key(k, r)); o.push_str(ws(r)); o.push('='); o.push_str(ws(r)); toml_inline(x, r, nl_ok, o); }
            o.push_str(ws(r));
            o.push('}');
        }
    }
}

fn toml_eol(r: &mut Rng) -> &'static str { *r.pick(&["\n", "\n", "\n", " # c\n", "\n\n", "\n# [x]\n", "\r\n"]) }

fn toml_dotted(prefix: &str, d: &MDict, r: &mut Rng, o: &mut String) {
    for (k, x) in d {
        let p = format!("{}{}{}", prefix, r.pick(&[".", " . "]), toml_key(k, r));
        match &x.v {
            MV::Dict(e) if !e.is_empty() && r.bool() => toml_dotted(&p, e, r, o),
            _ => { o.push_str(&p); o.push_str(" = "); toml_inline(x, r, true, o); o.push_str(toml_eol(r)); }
        }
    }
}

fn toml_table(path: &str, d: &MDict, r: &mut Rng, o: &mut String) {
    let mut later: Vec<(&String, &Node)> = vec![];
    let mut ks: Vec<_> = d.iter().collect();
    r.shuffle(&mut ks);
    for (k, x) in ks {
        match &x.v {
            MV::Dict(e) => match r.below(6) {
                0 => { o.push_str(&toml_key(k, r)); o.push_str(" = "); toml_inline(x, r, true, o); o.push_str(toml_eol(r)); }
                1 if !e.is_empty() => { let p = toml_key(k, r); toml_dotted(&p, e, r, o) }
                _ => later.push((k, x)),
            },
            MV::Arr(a) if !a.is_empty() && a.iter().all(|n| n.dict().is_some()) && r.chance(3, 4) => later.push((k, x)),
            _ => { o.push_str(ws(r)); o.push_str(&toml_key(k, r)); o.push_str(ws(r)); o.push('='); o.push_str(ws(r)); toml_inline(x, r, true, o); o.push_str(toml_eol(r)); }
        }
    }
    for (k, x) in later {
        let p = if path.is_empty() { toml_key(k, r) } else { format!("{}{}{}", path, r.pick(&[".", ".", " . "]), toml_key(k, r)) };
        match &x.v {
            MV::Dict(e) => {
                // A table holding only tables needs no header of its own.
                let implied = !e.is_empty() && e.values().all(|n| n.dict().is_some()) && r.bool();
                if implied { for (k, x) in e { let q = format!("{}.{}", p, toml_key(k, r)); o.push_str(&format!("[{}]{}", q, toml_eol(r))); toml_table(&q, x.dict().unwrap(), r, o); } }
                else { o.push_str(&format!("[{}{}{}]{}", ws(r), p, ws(r), toml_eol(r))); toml_table(&p, e, r, o); }
            }
            MV::Arr(a) => for x in a { o.push_str(&format!("[[{}]]{}", p, toml_eol(r))); toml_table(&p, x.dict().unwrap(), r, o); },
            _ => unreachable!(),
        }
    }
}

pub fn toml(d: &MDict, r: &mut Rng) -> String {
    let mut o = String::new();
    if r.chance(1, 8) { o.push_str("# a document\n\n"); }
    toml_table("", d, r, &mut o);
    if r.chance(1, 6) { o.truncate(o.trim_end_matches(['\n', '\r']).len()); }
    o
}

// ------------------------------------------------------------ YAML

fn yaml_printable(c: char) -> bool { !c.is_control() && !matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}') && (c as u32) & 0xfffe != 0xfffe }

fn yaml_plain_ok(s: &str) -> bool {
    let first = s.chars().next().is_some_and(|c| c.is_ascii_alphabetic());
    first && s.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-' | b'.' | b'/' | b' ')) && !s.ends_with(' ') && !s.contains("  ") && !s.contains(" -")
        && !matches!(s.to_ascii_lowercase().as_str(), "true" | "false" | "null" | "nan" | "inf" | "infinity" | "y" | "n")
}

fn yaml_dq(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\0' if r.bool() => o.push_str("\\0"), '\u{1b}' => o.push_str("\\e"), '\u{85}' => o.push_str("\\N"),
            c if !yaml_printable(c) || r.chance(1, 15) => o.push_str(&match c as u32 { v @ 0..=0xff if r.bool() => format!("\\x{:02x}", v), v @ 0..=0xffff => format!("\\u{:04X}", v), v => format!("\\U{:08x}", v) }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn yaml_str(s: &str, r: &mut Rng) -> String {
    if yaml_plain_ok(s) && r.chance(2, 3) { return s.into() }
    if s.chars().all(|c| yaml_printable(c)) && r.bool() { return format!("'{}'", s.replace('\'', "''")) }
    yaml_dq(s, r)
}

fn yaml_num(n: &Num, r: &mut Rng) -> String {
    match int_of(n) {
        Some((false, m)) if r.chance(1, 6) => if r.bool() { format!("0x{:x}", m) } else { format!("0o{:o}", m) },
        Some((neg, m)) => format!("{}{}", if neg { "-" } else { "" }, m),
        None => {
            let f = match numval(n) { NumVal::F(b) => f64::from_bits(b), _ => unreachable!() };
            if f.is_nan() { return r.pick(&[".nan", ".NaN", ".NAN"]).to_string() }
            if f.is_infinite() { return format!("{}{}", if f < 0.0 { "-" } else { "" }, r.pick(&[".inf", ".Inf", ".INF"])) }
            format!("{:?}", f)
        }
    }
}

fn yaml_flow(n: &Node, r: &mut Rng, o: &mut String) {
    match &n.v {
        MV::Str(s) => o.push_str(&yaml_str(s, r)),
        MV::Char(c) => o.push_str(&yaml_str(&c.to_string(), r)),
        MV::Bool(b) => o.push_str(if *b { r.pick(&["true", "True", "TRUE"]) } else { r.pick(&["false", "False", "FALSE"]) }),
        MV::Num(n) => o.push_str(&yaml_num(n, r)),
        MV::Unit | MV::None => o.push_str(r.pick(&["null", "~", "Null", "NULL"])),
        MV::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { o.push_str(r.pick(&[", ", " , "])); } yaml_flow(x, r, o); }
            if !a.is_empty() && r.chance(1, 8) { o.push_str(" ,"); }
            o.push_str(" ]");
        }
        MV::Dict(d) => {
            o.push('{');
            for (i, (k, x)) in d.iter().enumerate() { if i > 0 { o.push_str(", "); } o.push_str(&yaml_str(k, r)); o.push_str(": "); yaml_flow(x, r, o); }
            o.push_str(" }");
        }
    }
}

fn yaml_block_scalar(s: &str, ind: usize, r: &mut Rng, o: &mut String) -> bool {
    let body = s.trim_end_matches('\n');
    if !s.contains('\n') || body.is_empty() || !s.chars().all(|c| c == '\n' || yaml_printable(c)) || s.starts_with([' ', '\n', '\t']) || body.lines().any(|l| l.trim() != l) || !r.chance(2, 3) { return false }
    let trail = s.len() - body.len();
    o.push_str(match trail { 0 => "|-", 1 => "|", _ => "|+" });
    o.push('\n');
    for l in body.split('\n') { if !l.is_empty() { o.push_str(&" ".repeat(ind + 2)); o.push_str(l); } o.push('\n'); }
    for _ in 1..trail { o.push('\n'); }
    true
}

fn yaml_eol(r: &mut Rng) -> &'static str { *r.pick(&["\n", "\n", "\n", " # c: {\n", "\n\n"]) }

/// Renders after `key:` or `-`, ending the line.
fn yaml_after(n: &Node, ind: usize, r: &mut Rng, o: &mut String) {
    match &n.v {
        MV::Dict(d) if !d.is_empty() && r.chance(3, 4) => { o.push('\n'); yaml_map(d, ind + *r.pick(&[1, 2, 4]), r, o) }
        MV::Arr(a) if !a.is_empty() && r.chance(3, 4) => { o.push('\n'); yaml_seq(a, ind + *r.pick(&[1, 2, 3]), r, o) }
        MV::Str(s) => { o.push(' '); if !yaml_block_scalar(s, ind, r, o) { o.push_str(&yaml_str(s, r)); o.push_str(yaml_eol(r)); } }
        MV::Unit | MV::None if r.chance(1, 4) => o.push('\n'),
        _ => { o.push(' '); yaml_flow(n, r, o); o.push_str(yaml_eol(r)); }
    }
}
fn yaml_map(d: &MDict, ind: usize, r: &mut Rng, o: &mut String) {
    let mut ks: Vec<_> = d.iter().collect();
    r.shuffle(&mut ks);
    for (k, x) in ks {
        o.push_str(&" ".repeat(ind));
        if r.chance(1, 20) { o.push_str("? "); o.push_str(&yaml_str(k, r)); o.push('\n'); o.push_str(&" ".repeat(ind)); o.push(':'); yaml_after(x, ind, r, o); continue }
        o.push_str(&yaml_str(k, r));
        o.push_str(r.pick(&[":", ":", " :"]));
        yaml_after(x, ind, r, o);
    }
}
fn yaml_seq(a: &[Node], ind: usize, r: &mut Rng, o: &mut String) {
    for x in a { o.push_str(&" ".repeat(ind)); o.push('-'); yaml_after(x, ind, r, o); }
}

pub fn yaml(d: &MDict, r: &mut Rng) -> String {
    let mut o = String::new();
    if r.chance(1, 5) { o.push_str(r.pick(&["---\n", "# comment\n---\n", "%YAML 1.2\n---\n"])); }
    if d.is_empty() || r.chance(1, 8) { yaml_flow(&Node::new(MV::Dict(d.clone())), r, &mut o); o.push('\n'); }
    else { yaml_map(d, 0, r, &mut o); }
    if r.chance(1, 8) { o.push_str("...\n"); }
    o
}
