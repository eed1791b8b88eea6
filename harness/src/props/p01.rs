//! P01: the conflict table, over whole histories.
use figment::Provider;
use crate::cov::*; use crate::model::*; use crate::mv::*;
use super::Prop;
use crate::check;

pub const P: Prop = Prop {
    id: "P01", case, quick: 40_000, thorough: 900_000, serial: false,
    rule: "random histories of join/adjoin/merge/admerge steps (custom, Serialized, keyed, tuple, JSON and nested-figment providers, by value and by reference) on a real figment and the table-driven model; non-trivial: at least two data providers and at least one conflicting key; distinct by operation list and data",
};

pub fn compare_data(p: &Pair) -> Result<u64, String> {
    let data = p.fig.data().map_err(|e| format!("figment fails without a failing provider: {}", e))?;
    let mut nodes = 0;
    for (prof, d) in &data {
        let name = lower(prof.as_str().as_str());
        let m = match p.m.data.get(&name) { Some(m) => m, None => return Err(format!("profile {:?} appeared from nowhere", prof)) };
        let mut c = Cmp::ints();
        c.dict(m, d, &name)?;
        nodes += c.nodes;
    }
    for k in p.m.data.keys() {
        if !data.keys().any(|p| lower(p.as_str().as_str()) == *k) { return Err(format!("profile {:?} lost", k)) }
    }
    Ok(nodes)
}

fn conflicts(a: &MDict, b: &MDict, n: &mut u64) {
    for (k, x) in a {
        if let Some(y) = b.get(k) {
            match (&x.v, &y.v) { (MV::Dict(a), MV::Dict(b)) => conflicts(a, b, n), _ => *n += 1 }
        }
    }
}

fn case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mut cfg = HistCfg::std(if r.chance(1, 3) { Gen::addr() } else { Gen::small() });
    cfg.nest_depth = 2;
    if r.chance(1, 3) { cfg.ops = vec![*r.pick(&OPS)]; }
    if r.chance(1, 3) { cfg.profiles = false; }
    let mut w = World::new();
    let mut p = Pair::new();
    let n = if r.chance(1, 80) { if r.chance(1, 10) { r.range(60, 300) } else { r.range(15, 60) } } else { r.range(2, 6) };
    if r.chance(1, 150) {
        // Very deep conflicts.
        let depth = r.range(20, 120);
        let n = cfg.gen.deep(r, depth);
        if let MV::Dict(d) = n.v { p.add_custom(&mut w, Op::Merge, vec![("default".into(), d)], None, false); }
    }
    let mut conf = 0;
    for _ in 0..n {
        let before = p.m.data.clone();
        p.step(r, &mut w, &cfg);
        // Judge after every step: a wrong intermediate state must not be repaired by later steps.
        let nodes = compare_data(&p).map_err(|e| Fail::new(format!("{}\n  after {}", e, p.describe())))?;
        c.cov.eval();
        c.cov.add("nodes compared", nodes);
        for (k, d) in &p.m.data { if let Some(b) = before.get(k) { conflicts(b, d, &mut conf); } }
    }
    // What extraction sees must be the same thing.
    let got = p.fig.extract::<figment::value::Dict>().map_err(|e| Fail::new(format!("extraction fails: {} after {}", e, p.describe())))?;
    Cmp::ints().dict(&p.m.extract(), &got, "extracted").map_err(|e| Fail::new(format!("{}\n  after {}", e, p.describe())))?;
    c.cov.eval();
    c.cov.add("steps", p.log.len() as u64);
    c.cov.add("keys present before and after a step", conf);
    if p.m.metas.len() >= 2 && conf > 0 { c.cov.distinct(&p.log); }
    c.cov.sample(|| p.describe());
    check!(c.cov.evaluations > 0, "nothing judged");
    Ok(())
}
