//! P04: extraction errors name the offending key, provider and profile; conforming values always extract.
use figment::{Error, Figment, Provider};
use figment::value::Value;
use crate::cov::*; use crate::model::*; use crate::mv::*; use crate::schema::*;
use crate::rng::Rng;
use super::{Prop, p07};
use crate::check;

pub const P: Prop = Prop {
    id: "P04", case, quick: 400_000, thorough: 1_500_000, serial: false,
    rule: "random target schemas (scalars, options, sequences, tuples, maps, structs, enums, newtypes, tagged, relative paths, raw values), a conforming configuration split over several providers and profiles, one value then sabotaged; every extraction route's result or error (path, kind, provider, profile) is compared with the oracle's list of faults; non-trivial: exactly one fault, below the root; distinct by (schema, data)",
};

/// Splits a dictionary's leaves over providers.
fn scatter(r: &mut Rng, d: &MDict, k: usize) -> Vec<MDict> {
    let mut out = vec![MDict::new(); k];
    for (key, n) in d {
        match &n.v {
            MV::Dict(inner) if !inner.is_empty() && r.chance(1, 2) => {
                for (i, part) in scatter(r, inner, k).into_iter().enumerate() {
                    if !part.is_empty() { out[i].insert(key.clone(), Node::new(MV::Dict(part))); }
                }
            }
            _ => {
                let owner = r.below(k);
                out[owner].insert(key.clone(), n.clone());
                if n.dict().is_none() && r.chance(1, 4) && owner > 0 {
                    // An earlier provider's value, overridden.
                    let j = r.below(owner);
                    out[j].insert(key.clone(), Node::new(Gen::small().scalar(r)));
                }
            }
        }
    }
    out
}

/// A figment whose data is `d`, spread over providers and profiles of increasing precedence.
pub fn build(r: &mut Rng, w: &mut World, d: &MDict) -> Pair {
    let mut p = Pair::new();
    let sel = r.pick(&["debug", "Release", "default", "x y"]).to_string();
    let k = r.range(1, 4);
    let parts = scatter(r, d, k);
    // Precedence is by profile first, then by order of merging.
    let mut layers: Vec<String> = (0..k).map(|_| r.pick(&["default", "sel", "global"]).to_string()).collect();
    layers.sort_by_key(|l| match l.as_str() { "default" => 0, "sel" => 1, _ => 2 });
    if r.chance(1, 3) { p.select(&sel); }
    for (part, layer) in parts.into_iter().zip(layers) {
        let prof = if layer == "sel" { sel.clone() } else { layer };
        p.add_custom(w, Op::Merge, vec![(prof, part)], None, r.chance(1, 6));
    }
    if r.chance(1, 4) { p.add_custom(w, Op::Join, vec![("unrelated".into(), d.clone())], None, false); }
    p.select(&sel);
    match r.below(6) {
        0 => { let mut q = Pair::new(); q.m.ordered = false; q.add_figment(w, Op::Merge, &p, r.bool()); q }
        1 => p.clone(),
        _ => p,
    }
}

fn err_cmp(what: &str, res: Result<Dyn, Error>, s: &Sch, n: &Node, prefix: &[String], lossy: bool, src: Option<(&Figment, &Model)>) -> Result<bool, String> {
    let faults = Oracle::of(s, n, lossy);
    if faults.iter().any(|f| matches!(f.kind, FK::Undet)) { return Ok(false) }
    match res {
        Ok(Dyn(o)) => {
            if let Some(f) = faults.first() { return Err(format!("{} succeeds with {} although the value at {:?} does not conform: {}", what, cut(&o), f.path, f.show())) }
            Agree { lossy, src }.go(s, n, &o, "").map_err(|e| format!("{}: {}", what, e))?;
        }
        Err(e) => {
            if faults.is_empty() { return Err(format!("{} fails although every value conforms: {:?} (path {:?})", what, e.to_string(), e.path)) }
            let mut why = vec![];
            for f in &faults { match f.matches(&e, prefix, lossy, src) { Ok(()) => return Ok(true), Err(x) => why.push(x) } }
            return Err(format!("{} reports {:?} with path {:?}: {}", what, e.to_string(), e.path, cut_str(&why.join(" / "), 600)))
        }
    }
    Ok(true)
}

/// Judges every route of extracting `s` from a figment.
pub fn judge(c: &mut Ctx, r: &mut Rng, p: &Pair, s: &Sch) -> Res {
    let root = Node::new(MV::Dict(p.m.extract()));
    let ctx = |e: String| Fail::new(format!("{}\n  target {}\n  after {}", e, cut_str(&format!("{:?}", s), 900), p.describe()));
    let src = Some((&p.fig, &p.m));
    let mut judged = 0;
    for lossy in [false, true] {
        let res = with(s, || if lossy { p.fig.extract_lossy::<Dyn>() } else { p.fig.extract::<Dyn>() });
        judged += err_cmp(if lossy { "extract_lossy" } else { "extract" }, res, s, &root, &[], lossy, src).map_err(ctx)? as u64;
        // Partially.
        for _ in 0..2 {
            let mut path = vec![];
            let (sub, n) = s.descend(r, &root, &mut path);
            if path.is_empty() { continue }
            let mut text = path.join(".");
            if r.chance(1, 12) { text.push('.'); }
            let res = with(sub, || if lossy { p.fig.extract_inner_lossy::<Dyn>(&text) } else { p.fig.extract_inner::<Dyn>(&text) });
            judged += err_cmp(&format!("extract_inner{}({:?})", if lossy { "_lossy" } else { "" }, text), res, sub, &n, &path, lossy, src).map_err(ctx)? as u64;
            // From a figment focused on (part of) the path.
            if let (Some(_), true) = (n.dict(), r.bool()) {
                let (m, clean) = p.m.focus(&path);
                if clean {
                    let f = p.fig.focus(&text);
                    let focused = Node::new(MV::Dict(m.extract()));
                    let res = with(sub, || if lossy { f.extract_lossy::<Dyn>() } else { f.extract::<Dyn>() });
                    judged += err_cmp(&format!("focus({:?}).extract", text), res, sub, &focused, &[], lossy, Some((&f, &m))).map_err(ctx)? as u64;
                    c.cov.count("extractions from focused figments");
                }
            }
        }
    }
    // Through the dynamic value alone: same paths and kinds, no provenance.
    if !s.has_magic() {
        let v: Value = p.fig.extract().map_err(|e| Fail::new(e.to_string()))?;
        let res = with(s, || v.deserialize::<Dyn>());
        judged += err_cmp("Value::deserialize", res, s, &root, &[], false, None).map_err(ctx)? as u64;
    }
    c.cov.evals(judged);
    c.cov.add("results judged", judged);
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let r = &mut r;
    let depth = r.range(2, 5);
    let sg = SGen { magic: r.chance(2, 3), any: true };
    let s = sg.root(r, depth);
    let mut n = s.conform(r, r.clone().chance(1, 5));
    let n_sab = match r.below(8) { 0 | 1 => 0, 2 => 2, _ => 1 };
    for _ in 0..n_sab { s.sabotage(r, &mut n, 0); }
    let d = match n.v { MV::Dict(d) => d, _ => MDict::new() };
    let mut w = World::new();
    let p = build(r, &mut w, &d);
    let root = Node::new(MV::Dict(p.m.extract()));
    let faults = Oracle::of(&s, &root, false);
    if faults.len() == 1 && !faults[0].root { c.cov.distinct(&(format!("{:?}", s), show_full(&root))); }
    for f in &faults {
        c.cov.count(match &f.kind { FK::Type(_) => "faults: wrong type or value", FK::UnitVariant => "faults: data variant as bare string", FK::Len(_) => "faults: tuple too short", FK::Variant(_) => "faults: unknown variant", FK::Field(_) => "faults: unknown field", FK::Missing(_) => "faults: missing field", FK::Message => "faults: no alternative", FK::Undet => "undetermined" });
    }
    c.cov.count(match faults.len() { 0 => "configurations that conform", 1 => "configurations with one fault", _ => "configurations with several faults" });
    c.cov.sample(|| format!("faults {:?} of {:?} in {}", faults.iter().map(|f| f.path.join(".")).collect::<Vec<_>>(), s, show_full(&root)));
    judge(c, r, &p, &s)?;
    // An absent path.
    let path = p07::gen_path(r, root.dict().unwrap());
    if root.walk(&p07::comps(&path)).is_none() {
        let e = p.fig.extract_inner::<Option<u8>>(&path).err();
        check!(e.as_ref().map_or(false, |e| e.missing()), "extract_inner of the absent {:?} gives {:?}", path, e);
        c.cov.eval();
    }
    let _ = p.fig.profile();
    let _ = Provider::metadata(&p.fig);
    Ok(())
}
