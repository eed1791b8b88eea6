//! P17: tagged and either wrappers are transparent.
use figment::providers::Serialized;
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Tag, Value};
use figment::{Error, Figment, Provider};
use crate::cov::*; use crate::model::*; use crate::mv::*; use crate::schema::*;
use crate::rng::Rng;
use super::{Prop, p04};
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P17", case, quick: 240_000, thorough: 2_000_000, serial: false,
    rule: "random target schemas and the same schemas with tagged and either wrappers at random positions, over multi-provider configurations (conforming or partly sabotaged), extracted whole, partially and lossily; wrapped and direct results are compared with each other and with the oracle, tags with the provenance model; what was extracted is then serialized into further figments and extracted again, values and tags compared; non-trivial: at least one wrapper reached; distinct by (schema, data)",
};

/// Without the tagged wrappers, numbering how many there were.
fn strip(o: &Out, tags: &mut Vec<Tag>) -> Out {
    match o {
        Out::Tagged(t) => { tags.push(t.tag()); strip(&t.0, tags) }
        Out::Some(o) => Out::Some(Box::new(strip(o, tags))),
        Out::Arr(v) => Out::Arr(v.iter().map(|o| strip(o, tags)).collect()),
        Out::Dict(d) => Out::Dict(d.iter().map(|(k, o)| (k.clone(), strip(o, tags))).collect()),
        Out::Var(n, o) => Out::Var(n.clone(), Box::new(strip(o, tags))),
        Out::Either(e) => { if let Either::Left(Out::Tagged(t)) = &**e { tags.push(t.tag()) } o.clone() }
        o => o.clone(),
    }
}

/// Replaces random parts of a schema by either wrappers.
fn eitherize(s: &Sch, r: &mut Rng) -> Sch {
    let w = eitherize;
    let fs = |f: &Fields, r: &mut Rng| -> Fields { f.iter().map(|(n, s)| (*n, match s { Sch::Opt(s) => Sch::Opt(Box::new(w(s, r))), s => w(s, r) })).collect() };
    if r.chance(1, 4) {
        let other = SGen { magic: false, any: false }.gen(r, 2);
        let (a, b) = if r.bool() { (s.clone(), other) } else { (other, s.clone()) };
        // An option around an either wrapper must stay unambiguous.
        if a.has_magic() || b.has_magic() || a.nullish() || b.nullish() { return s.clone() }
        return Sch::Either(if r.chance(1, 4) { None } else { Some(Box::new(a)) }, Box::new(b))
    }
    match s {
        Sch::Opt(s) => Sch::Opt(Box::new(w(s, r))), Sch::Seq(s) => Sch::Seq(Box::new(w(s, r))), Sch::Map(s) => Sch::Map(Box::new(w(s, r))), Sch::New(s) => Sch::New(Box::new(w(s, r))),
        Sch::Tup(v) => Sch::Tup(v.iter().map(|s| w(s, r)).collect()),
        Sch::Struct(f, d) => Sch::Struct(fs(f, r), *d),
        Sch::Enum(v) => Sch::Enum(v.iter().map(|(n, v)| (*n, match v { VSch::Unit => VSch::Unit, VSch::New(s) => VSch::New(w(s, r)), VSch::Tup(v) => VSch::Tup(v.iter().map(|s| w(s, r)).collect()), VSch::Struct(f) => VSch::Struct(fs(f, r)) })).collect()),
        s => s.clone(),
    }
}
fn has_either(s: &Sch) -> bool { format!("{:?}", s).contains("Either(") }

fn run(f: &Figment, s: &Sch, lossy: bool, path: Option<&str>) -> Result<Out, Error> {
    with(s, || match (path, lossy) {
        (None, false) => f.extract::<Dyn>(), (None, true) => f.extract_lossy::<Dyn>(),
        (Some(p), false) => f.extract_inner::<Dyn>(p), (Some(p), true) => f.extract_inner_lossy::<Dyn>(p),
    }).map(|d| d.0)
}

fn expected(s: &Sch, n: &Node, lossy: bool, res: &Result<Out, Error>, src: (&Figment, &Model)) -> Result<(), String> {
    let faults = Oracle::of(s, n, lossy);
    if faults.iter().any(|f| matches!(f.kind, FK::Undet)) { return Ok(()) }
    match res {
        Ok(o) => match faults.first() { Some(f) => Err(format!("succeeds with {} although {} at {:?}", cut(o), f.show(), f.path)), None => Agree { lossy, src: Some(src) }.go(s, n, o, "") },
        Err(e) if faults.is_empty() => Err(format!("fails although everything conforms: {}", e)),
        Err(_) => Ok(()),
    }
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    if c.idx % 50 == 7 { return nested(c, r) }
    if c.idx % 20 == 9 { return mixed(c, r) }
    let depth = r.range(2, 5);
    let either = r.bool();
    let base = SGen { magic: false, any: !either }.root(r, depth);
    let base = if either { eitherize(&base, r) } else { base };
    let wrapped = base.wrapped(r);
    let lossy_data = r.bool();
    let mut n = wrapped.conform(r, lossy_data);
    if r.chance(1, 3) { base.sabotage(r, &mut n, 0); }
    let d = match n.v { MV::Dict(d) => d, _ => MDict::new() };
    let mut w = World::new();
    let p = p04::build(r, &mut w, &d);
    let root = Node::new(MV::Dict(p.m.extract()));
    let ctx = |e: String| format!("{}\n  direct  {}\n  wrapped {}\n  after {}", e, cut_str(&format!("{:?}", base), 800), cut_str(&format!("{:?}", wrapped), 800), p.describe());
    let mut tags = vec![];
    let mut whole = None;
    for lossy in [false, true] {
        let mut path = vec![];
        let (sub, n) = wrapped.descend(r, &root, &mut path);
        // The direct schema at the same place.
        let direct = at(&base, &root, &path);
        let text = path.join(".");
        let mut routes: Vec<(Option<&str>, &Sch, &Sch, &Node)> = vec![(None, &base, &wrapped, &root)];
        if let (Some(direct), false) = (direct, path.is_empty()) { routes.push((Some(&text), direct, sub, &n)); }
        for (path, base, wrapped, n) in routes {
            let (a, b) = (run(&p.fig, base, lossy, path), run(&p.fig, wrapped, lossy, path));
            let judge = || -> Result<Vec<Tag>, String> {
                let mut tags = vec![];
                match (&a, &b) {
                    (Ok(a), Ok(b)) => {
                        let s = strip(b, &mut tags);
                        if !same_out(&strip(a, &mut vec![]), &s) { return Err(format!("directly {}, wrapped {}", cut(a), cut(b))) }
                    }
                    (Err(_), Err(_)) => {}
                    (Ok(a), Err(e)) => return Err(format!("directly {}, wrapped fails: {}", cut(a), e)),
                    (Err(e), Ok(b)) => return Err(format!("directly fails: {}; wrapped {}", e, cut(b))),
                }
                expected(wrapped, n, lossy, &b, (&p.fig, &p.m)).map_err(|e| format!("wrapped: {}", e))?;
                Ok(tags)
            };
            match judge() {
                Ok(t) => tags.extend(t),
                Err(e) => {
                    // The recorded deviation, exactly: alternatives are tried strictly.
                    let known = lossy && has_either(wrapped) && either_strict(judge).is_ok();
                    return Err(Fail { msg: ctx(format!("{}{}: {}", if lossy { "lossy" } else { "strict" }, path.map(|p| format!(" at {:?}", p)).unwrap_or_default(), e)), known: if known { Some("either-lossy") } else { None } })
                }
            }
            c.cov.evals(2);
            c.cov.count(match (a.is_ok(), lossy) { (true, false) => "extractions, strict", (true, true) => "extractions, lossy", (false, _) => "failures, both" });
            if let Ok(o) = b { if path.is_none() { whole = Some(o) } }
        }
    }
    c.cov.add("tags checked", tags.len() as u64);
    if either { c.cov.count("schemas with either wrappers"); }
    if !tags.is_empty() || either { c.cov.distinct(&(format!("{:?}", wrapped), show_full(&root))); }
    c.cov.sample(|| format!("{:?} from {}", wrapped, show_full(&root)));
    if let Some(o) = whole { again(c, r, &p, &wrapped, &o).map_err(|f| Fail { msg: ctx(f.msg), known: f.known })?; }
    Ok(())
}

/// The schema at a path of dictionary keys.
fn at<'a>(s: &'a Sch, n: &Node, path: &[String]) -> Option<&'a Sch> {
    match s {
        Sch::New(s) | Sch::Tagged(s) => return at(s, n, path),
        Sch::Opt(s) if !matches!(n.v, MV::Unit | MV::None) => return at(s, n, path),
        _ => {}
    }
    let Some((k, rest)) = path.split_first() else { return Some(s) };
    let x = n.dict()?.get(k)?;
    match s { Sch::Map(s) => at(s, x, rest), Sch::Struct(f, _) => at(&f.iter().find(|f| f.0 == k)?.1, x, rest), _ => None }
}

/// Wrappers with known tags, in order.
fn all_tags(o: &Out) -> Vec<Tag> { let mut t = vec![]; strip(o, &mut t); t }

/// Alternatives that would be read otherwise from what was serialized.
fn stable(s: &Sch, o: &Out) -> bool {
    match (s, o) {
        (Sch::Either(l, b), Out::Either(e)) => match &**e {
            Either::Left(_) => true,
            Either::Right(x) => match Value::serialize(Ser(b, &x.0)) { Ok(v) => alone(l, b, &value_node(&v)), Err(_) => false },
        },
        (Sch::Opt(s), Out::Some(o)) => stable(s, o),
        (Sch::New(s), o) => stable(s, o),
        (Sch::Tagged(s), Out::Tagged(t)) => stable(s, &t.0),
        (Sch::Seq(s), Out::Arr(v)) => v.iter().all(|o| stable(s, o)),
        (Sch::Map(s), Out::Dict(d)) => d.values().all(|o| stable(s, o)),
        (Sch::Tup(ss), Out::Arr(v)) => ss.iter().zip(v).all(|(s, o)| stable(s, o)),
        (Sch::Struct(f, _), Out::Dict(d)) => f.iter().all(|(n, s)| stable(s, &d[*n])),
        (Sch::Enum(vs), Out::Var(n, o)) => match (&vs.iter().find(|v| v.0 == n).unwrap().1, &**o) {
            (VSch::New(s), o) => stable(s, o),
            (VSch::Tup(ss), Out::Arr(v)) => ss.iter().zip(v).all(|(s, o)| stable(s, o)),
            (VSch::Struct(f), Out::Dict(d)) => f.iter().all(|(n, s)| stable(s, &d[*n])),
            _ => true,
        },
        _ => true,
    }
}
fn alone(l: &Option<Box<Sch>>, b: &Sch, n: &Node) -> bool { schema_either(l, b, n) == Some(false) }
use crate::schema::either as schema_either_;
fn schema_either(l: &Option<Box<Sch>>, b: &Sch, n: &Node) -> Option<bool> { schema_either_(l, b, n, false) }

/// Serializes what was extracted into further figments and extracts it again.
fn again(c: &mut Ctx, r: &mut Rng, p: &Pair, s: &Sch, o: &Out) -> Res {
    if !stable(s, o) { return Ok(()) }
    let mut cur = o.clone();
    let known: Vec<Tag> = all_tags(o);
    for round in 0..r.range(1, 4) {
        let prof = *r.pick(&["default", "global", "debug"]);
        let key = *r.pick(&["k", "a.b", "value"]);
        let whole = r.bool();
        let ser = Ser(s, &cur);
        let prov = if whole { Serialized::from(ser, prof) } else { Serialized::from(ser, prof).key(key) };
        let f = match r.below(3) { 0 => Figment::from(prov), 1 => Figment::from(("zz_unrelated", 1)).merge(prov), _ => Figment::new().join(prov).merge(p.fig.clone().focus("nowhere")) }.select("debug");
        // A wrapper at the root turns the whole into something else than its own dictionary.
        if whole && matches!(f.data(), Err(_)) { continue }
        let res = if whole { run(&f, s, false, None) } else { run(&f, s, false, Some(key)) };
        // With everything at the root, unrelated keys may clash with the target.
        if whole && has_unknown_clash(s) { continue }
        match res {
            Ok(x) => {
                check!(same_out(o, &x), "serialized ({}, round {}) and extracted again: {} became {}", if whole { "whole" } else { key }, round, cut(o), cut(&x));
                let now = all_tags(&x);
                check!(now.len() == known.len(), "{} tags became {}", known.len(), now.len());
                for (a, b) in known.iter().zip(&now) {
                    // A tag that is not known is filled in.
                    if a.is_default() { continue }
                    check!(a == b && a.profile() == b.profile() && format!("{:?}", a) == format!("{:?}", b), "the tag {:?} became {:?} (round {})", a, b, round);
                    // It still resolves where it came from, and nowhere else.
                    check!(p.fig.get_metadata(*b).is_some(), "the tag {:?} does not resolve", b);
                    c.cov.count("tags preserved through serialization");
                }
                c.cov.evals(1 + now.len() as u64);
                cur = x;
            }
            Err(e) => fail!("serialized ({}, round {}) {} is not extracted again: {:?}", if whole { "whole" } else { key }, round, cut(&cur), e),
        }
    }
    c.cov.count("serialized and extracted again");
    Ok(())
}

/// Whether extra root keys matter to the target.
fn has_unknown_clash(s: &Sch) -> bool {
    match s { Sch::Struct(_, deny) => *deny, Sch::New(s) | Sch::Opt(s) | Sch::Tagged(s) => has_unknown_clash(s), _ => true }
}

/// Whatever is inside a tagged value, its tag is that of the value itself.
fn mixed(c: &mut Ctx, r: &mut Rng) -> Res {
    let mut cfg = HistCfg::std(Gen { depth: 3, ..Gen::addr() });
    cfg.steps = (2, 6);
    if r.bool() { cfg.ops = vec![Op::Adjoin, Op::Admerge]; }
    let mut w = World::new();
    let mut p = Pair::history(r, &mut w, &cfg);
    if r.bool() {
        // Arrays put together from several owners' parts, some of them empty.
        for _ in 0..r.range(2, 4) {
            let mut d = MDict::new();
            for k in ["arr", "brr"] { let n = r.below(3); d.insert(k.into(), Node::new(MV::Arr((0..n).map(|_| cfg.gen.clone().with_depth(1).node(r)).collect()))); }
            p.add_custom(&mut w, *r.pick(&[Op::Adjoin, Op::Admerge]), vec![("default".into(), d)], None, false);
        }
    }
    // One value of the root, with everything below it handed from figment to figment or to a new owner.
    let raw: Value = p.fig.extract().map_err(|e| Fail::new(e.to_string()))?;
    let f = match r.below(3) { 0 => Figment::new().admerge(("zz.zz", 1)).admerge(&p.fig).select(p.fig.profile().clone()), 1 => { let d = raw.as_dict().unwrap().clone(); Figment::from(("zz", 1)).admerge(Serialized::globals(d)) } _ => p.fig.clone() };
    let raw: Value = f.extract().map_err(|e| Fail::new(e.to_string()))?;
    type B = std::collections::BTreeMap<String, Tagged<Value>>;
    fn go(c: &mut Ctx, f: &Figment, path: &str, v: &Value, p: &Pair) -> Res {
        let same = |how: &str, t: Tag, v: &Value| -> Res {
            check!(t == v.tag() && t.profile() == v.tag().profile(), "the value {} at {:?} has the tag {:?}, read as {} {:?} after {}", cut(v), path, v.tag(), how, t, p.describe());
            Ok(())
        };
        let e = |e: Error| Fail::new(format!("{:?}: {} after {}", path, e, p.describe()));
        same("Tagged<Value>", f.extract_inner::<Tagged<Value>>(path).map_err(e)?.tag(), v)?;
        same("Option<Tagged<Tagged<Value>>>", f.extract_inner_lossy::<Tagged<Tagged<Value>>>(path).map_err(e)?.into_inner().tag(), v)?;
        c.cov.evals(2);
        match v {
            Value::Array(_, a) => {
                let t: Tagged<Vec<Tagged<Value>>> = f.extract_inner(path).map_err(e)?;
                same("Tagged<Vec<_>>", t.tag(), v)?;
                check!(t.len() == a.len(), "{:?} has {} elements, read as a tagged array {}", path, a.len(), t.len());
                for (x, y) in t.iter().zip(a) { same("an element of a tagged array", x.tag(), y)?; }
                let t: Vec<Tagged<Value>> = f.extract_inner(path).map_err(e)?;
                for (x, y) in t.iter().zip(a) { same("an element of an array", x.tag(), y)?; }
                c.cov.evals(a.len() as u64 + 1);
                if a.iter().any(|x| x.tag() != v.tag()) { c.cov.count("arrays of several owners"); }
            }
            Value::Dict(_, d) => {
                same("Tagged<Map>", f.extract_inner::<Tagged<B>>(path).map_err(e)?.tag(), v)?;
                let t: Tagged<Option<Tagged<B>>> = f.extract_inner(path).map_err(e)?;
                same("Tagged<Option<Tagged<Map>>>", t.tag(), v)?;
                if let Some(t) = t.into_inner() { same("the inner Tagged<Map>", t.tag(), v)?; for (k, x) in t.iter() { same("an entry of a tagged map", x.tag(), &d[k])?; } }
                c.cov.evals(3);
                if d.values().any(|x| x.tag() != v.tag()) { c.cov.count("dictionaries of several owners"); }
                for (k, x) in d { if !k.is_empty() && !k.contains('.') { go(c, f, &format!("{}.{}", path, k), x, p)?; } }
            }
            _ => {}
        }
        Ok(())
    }
    for (k, v) in raw.as_dict().unwrap() { if !k.is_empty() && !k.contains('.') { go(c, &f, k, v, &p)?; } }
    c.cov.distinct(&p.log);
    Ok(())
}

/// Magic inside the alternatives themselves, and helpers of the wrappers.
fn nested(c: &mut Ctx, r: &mut Rng) -> Res {
    let (n, t) = (r.next() as u32, gen_string(r));
    let f = Figment::from(("n", n)).merge(("t", t.clone())).merge(("l", vec![n as u64, 2]));
    let val = |k: &str| f.find_value(k).map(|v| v.tag()).map_err(|e| Fail::new(e.to_string()));
    // Conversions, dereferencing, comparison.
    let x: Tagged<u32> = f.extract_inner("n").map_err(|e| Fail::new(e.to_string()))?;
    check!(*x == n && x.tag() == val("n")? && x.clone().into_inner() == n, "Tagged<u32> is {:?}", x);
    check!(x == Tagged::from(n) && Tagged::from(n).tag().is_default() && x != Tagged::from(n.wrapping_add(1)), "comparing Tagged");
    check!(f.get_metadata(x.tag()).is_some() && x.tag() != val("t")?, "the tag {:?} of n", x.tag());
    c.cov.evals(3);
    type Inner = Either<Tagged<u32>, String>;
    let outcomes: [(&str, Result<Result<bool, String>, Error>, &str); 4] = [
        ("Either<Tagged<u64>, Either<Tagged<u32>, String>> of a string", f.extract_inner::<Either<Tagged<u64>, Inner>>("t").map(|e| match e { Either::Right(Either::Right(s)) => Ok(s == t), e => Err(format!("{:?}", e)) }), ""),
        ("Either<Tagged<bool>, Either<Tagged<u32>, String>> of an integer", f.extract_inner::<Either<Tagged<bool>, Inner>>("n").map(|e| match e { Either::Right(Either::Left(s)) => Ok(*s == n && s.tag() == x.tag()), e => Err(format!("{:?}", e)) }), "either-nested-magic"),
        ("Either<RelativePathBuf, Tagged<u32>> of an integer", f.extract_inner::<Either<RelativePathBuf, Tagged<u32>>>("n").map(|e| match e { Either::Right(s) => Ok(*s == n && s.tag() == x.tag()), e => Err(format!("{:?}", e)) }), "either-nested-magic"),
        ("Either<Tagged<Vec<Tagged<u64>>>, bool> of an array", f.extract_inner::<Either<Tagged<Vec<Tagged<u64>>>, bool>>("l").map(|e| match e { Either::Left(v) => Ok(v.len() == 2 && *v[0] == n as u64), e => Err(format!("{:?}", e)) }), "either-nested-magic"),
    ];
    let mut known = None;
    for (what, res, sig) in outcomes {
        let bad = match res {
            Ok(Ok(true)) => { c.cov.eval(); continue }
            Ok(x) => format!("{}: {:?}", what, x),
            // The recorded deviation is that such an alternative fails.
            Err(e) if !sig.is_empty() => { known = Some(Fail { msg: format!("{} fails: {}", what, e), known: Some(sig_static(sig)) }); continue }
            Err(e) => format!("{} fails: {}", what, e),
        };
        fail!("{}", bad)
    }
    known.map_or(Ok(()), Err)
}
fn sig_static(_: &str) -> &'static str { "either-nested-magic" }
