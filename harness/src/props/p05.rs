//! P05: provider failures are never lost.
use figment::{Error, Figment, Provider};
use figment::error::Kind;
use figment::value::{Dict, Value};
use figment::providers::{Serialized, Json, Toml, Yaml, Format};
use crate::cov::*; use crate::model::*; use crate::mv::*;
use super::Prop;
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P05", case, quick: 200_000, thorough: 900_000, serial: false,
    rule: "random histories with failing providers (custom, malformed documents, unserializable values, missing required files) at random positions, nested, cloned, focused and selected; every read operation's error is compared, failure by failure, with the model's list; plus random trees of Error::chain; non-trivial: at least one failure and one success; distinct by operation list",
};

fn check_err(e: &Error, want: &[(u32, String)], m: &Model, what: &str, log: &str) -> Res {
    let all: Vec<Error> = e.clone().into_iter().collect();
    check!(e.count() == want.len(), "{}: count() is {}, {} providers failed: {:?} after {}", what, e.count(), want.len(), e.to_string(), log);
    check!(all.len() == want.len(), "{}: iteration yields {} errors, {} providers failed after {}", what, all.len(), want.len(), log);
    let text = e.to_string();
    for (i, ((id, msg), e)) in want.iter().zip(&all).enumerate() {
        let ok = match &e.kind { Kind::Message(s) => s == msg || (msg.is_empty() && !s.is_empty()), k => msg.is_empty() && !k.to_string().is_empty() };
        check!(ok, "{}: failure {} is {:?}, expected {:?} (order of addition) after {}", what, i, e.kind, msg, log);
        let name = e.metadata.as_ref().map(|m| m.name.to_string());
        check!(name.as_deref() == m.metas.get(id).map(|m| m.name.as_str()), "{}: failure {} ({:?}) attributed to {:?}, supplied by p{} after {}", what, i, msg, name, id, log);
        check!(e.count() == 1, "{}: an iterated error still counts {}", what, e.count());
        if !msg.is_empty() { check!(text.contains(msg.as_str()), "{}: display {:?} does not show {:?}", what, text, msg); }
    }
    Ok(())
}

fn judge(c: &mut Ctx, fig: &Figment, m: &Model, log: &str, path: &str) -> Res {
    if m.errs.is_empty() {
        check!(fig.extract::<Dict>().is_ok(), "a figment without failing providers fails: {:?} after {}", fig.extract::<Dict>().err().map(|e| e.to_string()), log);
        check!(fig.data().is_ok(), "data() fails without a failing provider after {}", log);
        check!(fig.find_value("").is_ok(), "find_value(\"\") fails without a failing provider after {}", log);
        c.cov.evals(3);
        return Ok(())
    }
    fn one(c: &mut Ctx, m: &Model, log: &str, what: &str, e: Option<Error>) -> Res {
        c.cov.eval();
        match e {
            Some(e) => check_err(&e, &m.errs, m, what, log),
            None => fail!("{} succeeds although {} providers failed: {:?} after {}", what, m.errs.len(), m.errs, log),
        }
    }
    one(c, m, log, "extract", fig.extract::<Dict>().err())?;
    one(c, m, log, "extract (optional)", fig.extract::<Option<Value>>().err())?;
    one(c, m, log, "extract (ignored)", fig.extract::<()>().err())?;
    one(c, m, log, "extract_lossy", fig.extract_lossy::<Value>().err())?;
    one(c, m, log, "extract_inner", fig.extract_inner::<Value>(path).err())?;
    one(c, m, log, "extract_inner_lossy", fig.extract_inner_lossy::<Option<u8>>(path).err())?;
    one(c, m, log, "find_value", fig.find_value(path).err())?;
    one(c, m, log, "find_value of the root", fig.find_value("").err())?;
    check!(!fig.contains(path) && !fig.contains(""), "contains({:?}) holds in a failed figment after {}", path, log);
    check!(fig.find_metadata(path).is_none(), "find_metadata({:?}) succeeds in a failed figment after {}", path, log);
    check!(fig.data().is_err(), "data() of a failed figment succeeds after {}", log);
    check!(fig.profiles().count() == 0, "a failed figment reports profiles after {}", log);
    c.cov.evals(4);
    let f = fig.focus(path);
    one(c, m, log, "focus + extract", f.extract::<Dict>().err())?;
    one(c, m, log, "focus + find_value", f.find_value("x").err())?;
    let s = fig.clone().select("whatever");
    one(c, m, log, "select + extract", s.extract::<Dict>().err())?;
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    if c.idx % 6 == 0 { return chains(c) }
    let mut r = c.rng.fork();
    let r = &mut r;
    let mut cfg = HistCfg::std(Gen { depth: 2, width: 3, ..Gen::addr() });
    cfg.fail = (r.below(3), 4);
    cfg.nest_depth = 2;
    cfg.steps = (1, 8);
    let mut w = World::new();
    let mut p = Pair::new();
    let n = r.range(cfg.steps.0, cfg.steps.1);
    for _ in 0..n {
        if r.chance(1, 4) { add_bad(c, r, &mut w, &mut p); } else { p.step(r, &mut w, &cfg); }
        if r.chance(1, 10) {
            // Focusing in the middle of a history keeps the failures.
            if !p.m.errs.is_empty() {
                let at = *r.pick(&["a.b", "", ".", "a", ".b", "nope"]);
                p.fig = p.fig.focus(at);
                p.log.push(format!("focus({:?})", at));
            }
        }
        let path = *r.pick(&["a", "b.c", "nope.nope", "key", "a", "b", "", ".", ".a", "a."]);
        let (fig, m, log) = (p.fig.clone(), p.m.clone(), p.describe());
        judge(c, &fig, &m, &log, path)?;
    }
    if !p.m.errs.is_empty() && p.m.errs.len() < p.m.metas.len() { c.cov.distinct(&p.log); }
    c.cov.add("failures injected", p.m.errs.len() as u64);
    if r.chance(1, 3) {
        // Nest a failed figment repeatedly, with more data and failures around it.
        for _ in 0..r.range(1, 3) {
            let mut q = Pair::new();
            if r.bool() { q.add_custom(&mut w, *r.pick(&OPS), vec![], None, false); }
            if r.chance(1, 3) { q.add_failing(&mut w, *r.pick(&OPS), "outer", None); }
            q.add_figment(&mut w, *r.pick(&OPS), &p, r.bool());
            if r.chance(1, 3) { q.add_failing(&mut w, *r.pick(&OPS), "after", None); }
            judge(c, &q.fig.clone(), &q.m.clone(), &q.describe(), "a.b")?;
            p = q;
        }
        c.cov.count("nested failed figments");
    }
    c.cov.sample(|| p.describe());
    Ok(())
}

/// Failures of the library's own providers. Their message is not predicted (empty expectation: any).
fn add_bad(c: &mut Ctx, r: &mut crate::rng::Rng, w: &mut World, p: &mut Pair) {
    let id = w.id();
    let op = *r.pick(&OPS);
    let name = format!("p{}", id);
    let fig = std::mem::take(&mut p.fig);
    let what;
    p.fig = match r.below(8) {
        0 => { what = "malformed JSON"; op.apply(fig, Named(Json::string("{\"a\": "), name.clone())) }
        1 => { what = "malformed TOML"; op.apply(fig, Named(Toml::string("a = = 1"), name.clone())) }
        2 => { what = "malformed YAML"; op.apply(fig, Named(Yaml::string("a: [1, 2"), name.clone())) }
        3 => { what = "JSON array root"; op.apply(fig, Named(Json::string("[1, 2]"), name.clone())) }
        4 => { what = "non-dictionary Serialized"; op.apply(fig, Named(Serialized::defaults(7u8), name.clone())) }
        5 => {
            what = "non-string map key";
            let m: std::collections::BTreeMap<u8, u8> = [(1, 2)].into_iter().collect();
            op.apply(fig, Named(Serialized::defaults(m), name.clone()))
        }
        6 => { what = "missing required file"; op.apply(fig, Named(Toml::file("/nonexistent/vh.toml").required(true), name.clone())) }
        _ => { what = "nested JSON with a non-dictionary profile"; op.apply(fig, Named(Json::string("{\"a\": 1}").nested(), name.clone())) }
    };
    c.cov.count(what);
    p.log.push(format!("{:?}({} {})", op, name, what));
    p.m.metas.insert(id, Meta { name });
    p.m.errs.push((id, String::new()));
}

/// `Error::chain` in general: an arbitrary tree of chains preserves all errors of both operands.
fn chains(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = if r.chance(1, 20) { r.range(20, 300) } else { r.range(1, 9) };
    let mut pool: Vec<(Error, Vec<String>)> = (0..n).map(|i| {
        let mut e = Error::from(format!("e{}", i));
        if r.bool() { e = e.with_path(&format!("k{}.x", i)); }
        (e, vec![format!("e{}", i)])
    }).collect();
    let mut desc = String::new();
    while pool.len() > 1 {
        let (a, sa) = pool.remove(r.below(pool.len()));
        let (b, sb) = pool.remove(r.below(pool.len()));
        desc += &format!("({} . {})", sa.join("+"), sb.join("+"));
        let want: usize = sa.len() + sb.len();
        let e = a.clone().chain(b.clone());
        check!(e.count() == want, "chain of {} and {} errors counts {}: {}", sa.len(), sb.len(), e.count(), desc);
        let got: Vec<String> = e.clone().into_iter().map(|e| e.kind.to_string()).collect();
        check!(got.len() == want, "chain of {} and {} errors iterates {}: {}", sa.len(), sb.len(), got.len(), desc);
        let (mut x, mut y) = (got.clone(), sa.iter().chain(&sb).cloned().collect::<Vec<_>>());
        x.sort(); y.sort();
        check!(x == y, "chain of {:?} and {:?} iterates {:?}", sa, sb, got);
        // Each operand's own order is preserved.
        let pos = |s: &String| got.iter().position(|g| g == s).unwrap();
        for ss in [&sa, &sb] { check!(ss.windows(2).all(|w| pos(&w[0]) < pos(&w[1])), "chain of {:?} and {:?} reorders: {:?}", sa, sb, got); }
        let text = e.to_string();
        for s in &y { check!(text.contains(s.as_str()), "display {:?} misses {:?}", text, s); }
        check!(text.lines().count() == want, "display of {} errors has {} lines", want, text.lines().count());
        for i in e.clone() { if !i.path.is_empty() { check!(i.path.len() == 2 && i.path[0] == format!("k{}", &i.kind.to_string()[1..]), "path {:?} of {} changed", i.path, i.kind) } }
        c.cov.evals(5);
        pool.push((e, got));
    }
    c.cov.distinct(&desc);
    c.cov.count("chain trees");
    Ok(())
}
