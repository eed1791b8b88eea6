//! Reference model of a figment and a driver that performs every operation on both the model and a real
//! `Figment`, so that any history can be judged.
use std::collections::BTreeMap;
use figment::{Figment, Profile, Provider, Metadata, Error};
use figment::value::{Map, Dict, Value};
use figment::providers::{Serialized, Json, Format};
use crate::mv::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Join, Adjoin, Merge, Admerge }
pub const OPS: [Op; 4] = [Op::Join, Op::Adjoin, Op::Merge, Op::Admerge];

impl Op {
    fn keeps_existing(self) -> bool { matches!(self, Op::Join | Op::Adjoin) }
    fn concats(self) -> bool { matches!(self, Op::Adjoin | Op::Admerge) }
    pub fn apply<P: Provider>(self, f: Figment, p: P) -> Figment {
        match self { Op::Join => f.join(p), Op::Adjoin => f.adjoin(p), Op::Merge => f.merge(p), Op::Admerge => f.admerge(p) }
    }
}

/// The documented conflict table.
pub fn combine(ex: &Node, inc: &Node, op: Op) -> Node {
    let both = || { let mut s = ex.srcs.clone(); s.extend(inc.srcs.iter().copied()); s };
    match (&ex.v, &inc.v) {
        (MV::Dict(a), MV::Dict(b)) => Node { v: MV::Dict(combine_dicts(a, b, op)), srcs: both() },
        (MV::Arr(a), MV::Arr(b)) if op.concats() => {
            Node { v: MV::Arr(a.iter().chain(b.iter()).cloned().collect()), srcs: both() }
        }
        _ if op.keeps_existing() => ex.clone(),
        _ => inc.clone(),
    }
}

pub fn combine_dicts(ex: &MDict, inc: &MDict, op: Op) -> MDict {
    let mut out = MDict::new();
    for k in ex.keys().chain(inc.keys()) {
        if out.contains_key(k) { continue }
        let v = match (ex.get(k), inc.get(k)) {
            (Some(a), Some(b)) => combine(a, b, op),
            (Some(a), None) => a.clone(),
            (None, Some(b)) => b.clone(),
            (None, None) => unreachable!(),
        };
        out.insert(k.clone(), v);
    }
    out
}

pub fn lower(p: &str) -> String { p.to_ascii_lowercase() }

#[derive(Clone, Debug)]
pub struct Meta { pub name: String }

#[derive(Clone, Debug)]
pub struct Model {
    pub profile: String,
    pub data: BTreeMap<String, MDict>,
    pub errs: Vec<(u32, String)>,
    pub metas: BTreeMap<u32, Meta>,
    /// Whether metadata order is determined by the order of addition to this figment alone.
    pub ordered: bool,
}

impl Model {
    pub fn new() -> Model {
        Model { profile: "default".into(), data: BTreeMap::new(), errs: vec![], metas: BTreeMap::new(), ordered: true }
    }
    pub fn layered(&self, profile: &str) -> MDict {
        let mut out = self.data.get("default").cloned().unwrap_or_default();
        let p = lower(profile);
        if p != "default" && p != "global" {
            if let Some(d) = self.data.get(&p) { out = combine_dicts(&out, d, Op::Merge); }
        }
        if let Some(d) = self.data.get("global") { out = combine_dicts(&out, d, Op::Merge); }
        out
    }
    pub fn extract(&self) -> MDict { self.layered(&self.profile) }

    fn provide(&mut self, data: Result<BTreeMap<String, MDict>, Vec<(u32, String)>>, profile: Option<String>, op: Op) {
        if let Some(p) = profile { if !op.keeps_existing() { self.profile = p; } }
        match data {
            Ok(d) => if self.errs.is_empty() {
                for (p, new) in d {
                    let merged = match self.data.get(&p) { Some(old) => combine_dicts(old, &new, op), None => new };
                    self.data.insert(p, merged);
                }
            },
            Err(e) => self.errs.extend(e),
        }
    }

    /// Per-profile focus, plus whether the result is free of masking (a non-dictionary at or above the
    /// path in one profile together with a dictionary at the path in another).
    pub fn focus(&self, path: &[String]) -> (Model, bool) {
        let mut m = self.clone();
        m.data.clear();
        let (mut some_dict, mut masked) = (false, false);
        for (p, d) in &self.data {
            let root = Node::new(MV::Dict(d.clone()));
            match root.walk(path) {
                Some(Node { v: MV::Dict(d), .. }) => { some_dict = true; m.data.insert(p.clone(), d.clone()); }
                Some(_) => masked = true,
                None => {
                    // Is there a non-dictionary strictly above the path?
                    for i in 1..path.len() {
                        if let Some(n) = root.walk(&path[..i]) { if n.dict().is_none() { masked = true } }
                    }
                }
            }
        }
        (m, !(some_dict && masked))
    }
}

/// A custom provider with arbitrary data.
#[derive(Clone)]
pub struct TP {
    pub name: String,
    pub data: Result<Map<Profile, Dict>, Error>,
    pub profile: Option<Profile>,
    pub source: Option<String>,
}
impl Provider for TP {
    fn metadata(&self) -> Metadata {
        let m = Metadata::named(self.name.clone());
        match &self.source { Some(s) => m.source(s.clone()), None => m }
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.data.clone() }
    fn profile(&self) -> Option<Profile> { self.profile.clone() }
}

/// Any provider, under a unique name.
pub struct Named<P>(pub P, pub String);
impl<P: Provider> Provider for Named<P> {
    fn metadata(&self) -> Metadata { Metadata::named(self.1.clone()).source(format!("src of {}", self.1)) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.0.data() }
    fn profile(&self) -> Option<Profile> { self.0.profile() }
}

pub const PROFILES: &[&str] = &["default", "Default", "DEFAULT", "global", "Global", "debug", "Debug", "DEBUG", "release", "RELEASE",
    "staging", "prod-1", "é", "É", "x y", "", "defaults", "globall", "global.eu", "default.2", "debug.x", "global/", "global:0",  "global-eu", "default-2", "aglobal", "debug ", " debug", "\tdebug", " ", "debug\u{a0}", "a_very_long_profile_name_of_more_than_thirty_two_bytes"];

pub fn gen_profile(r: &mut Rng) -> String { r.pick(PROFILES).to_string() }

#[derive(Clone)]
pub struct HistCfg {
    pub gen: Gen,
    pub steps: (usize, usize),
    pub ops: Vec<Op>,
    pub fail: (usize, usize),
    pub nest_depth: usize,
    pub profiles: bool,
    pub focus: bool,
    /// Probability (out of 20) that a history focuses on deep chains.
    pub deep: usize,
}

impl HistCfg {
    pub fn std(gen: Gen) -> HistCfg {
        HistCfg { gen, steps: (1, 6), ops: OPS.to_vec(), fail: (0, 1), nest_depth: 1, profiles: true, focus: false, deep: 1 }
    }
}

pub struct World { pub next: u32 }
impl World { pub fn new() -> World { World { next: 0 } } pub fn id(&mut self) -> u32 { self.next += 1; self.next } }

#[derive(Clone)]
pub struct Pair { pub fig: Figment, pub m: Model, pub log: Vec<String> }

fn to_profiles(data: &[(String, MDict)]) -> Map<Profile, Dict> {
    data.iter().map(|(p, d)| (Profile::new(p), dict_to_value(d))).collect()
}

fn tagged(data: Vec<(String, MDict)>, id: u32) -> BTreeMap<String, MDict> {
    let mut out = BTreeMap::new();
    for (p, mut d) in data {
        for n in d.values_mut() { n.tag(Src { prov: id, cls: Cls::of(&p) }); }
        out.insert(lower(&p), d);
    }
    out
}

pub fn nest_model(path: &[String], n: Node) -> MDict {
    let mut n = n;
    for k in path.iter().skip(1).rev() { let mut d = MDict::new(); d.insert(k.clone(), n); n = Node::new(MV::Dict(d)); }
    let mut d = MDict::new();
    d.insert(path[0].clone(), n);
    d
}

/// Overlap new data with existing keys so that conflicts are common.
fn related_dict(r: &mut Rng, g: &Gen, existing: Option<&MDict>) -> MDict {
    let mut d = g.dict(r);
    if let Some(ex) = existing {
        if r.chance(3, 5) {
            for (k, n) in ex {
                if r.chance(1, 2) { d.insert(k.clone(), perturb(r, g, n, 3)); }
            }
        }
    }
    d
}

/// A value shaped like `n`, with changed parts: same-kind and different-kind conflicts at depth.
pub fn perturb(r: &mut Rng, g: &Gen, n: &Node, depth: usize) -> Node {
    if depth == 0 || r.chance(1, 6) { return g.clone().with_depth(1).node(r) }
    match &n.v {
        MV::Dict(d) => {
            let mut out = MDict::new();
            for (k, c) in d { if r.chance(2, 3) { out.insert(k.clone(), perturb(r, g, c, depth - 1)); } }
            if r.chance(1, 2) { out.insert(g.key(r), Node::new(g.scalar(r))); }
            Node::new(MV::Dict(out))
        }
        MV::Arr(_) => { let k = r.below(4); Node::new(MV::Arr((0..k).map(|_| Node::new(g.scalar(r))).collect())) }
        _ => Node::new(g.scalar(r)),
    }
}

impl Gen { pub fn with_depth(mut self, d: usize) -> Gen { self.depth = d; self } }

impl Pair {
    pub fn new() -> Pair { Pair { fig: Figment::new(), m: Model::new(), log: vec![] } }

    pub fn describe(&self) -> String { cut_str(&self.log.join("; "), 1500) }

    fn finish<P: Provider>(&mut self, op: Op, p: P, by_ref: bool) {
        let fig = std::mem::take(&mut self.fig);
        self.fig = if by_ref { op.apply(fig, &p) } else { op.apply(fig, p) };
    }

    pub fn select(&mut self, p: &str) {
        let fig = std::mem::take(&mut self.fig);
        self.fig = fig.select(p);
        self.m.profile = p.into();
        self.log.push(format!("select({:?})", p));
    }

    /// One data-carrying step with a provider that emits `data`.
    pub fn add_custom(&mut self, w: &mut World, op: Op, data: Vec<(String, MDict)>, profile: Option<String>, by_ref: bool) -> u32 {
        let id = w.id();
        self.log.push(format!("{:?}(p{} {:?} {})", op, id, profile,
            data.iter().map(|(p, d)| format!("{:?}: {}", p, show_dict(d))).collect::<Vec<_>>().join(", ")));
        let tp = TP { name: format!("p{}", id), data: Ok(to_profiles(&data)), profile: profile.as_deref().map(Profile::new), source: Some(format!("src of p{}", id)) };
        self.finish(op, tp, by_ref);
        self.m.metas.insert(id, Meta { name: format!("p{}", id) });
        self.m.provide(Ok(tagged(data, id)), profile, op);
        id
    }

    pub fn add_failing(&mut self, w: &mut World, op: Op, msg: &str, profile: Option<String>) -> u32 {
        let id = w.id();
        self.log.push(format!("{:?}(p{} FAILS {:?})", op, id, msg));
        let tp = TP { name: format!("p{}", id), data: Err(Error::from(msg.to_string())), profile: profile.as_deref().map(Profile::new), source: Some(format!("src of p{}", id)) };
        self.finish(op, tp, false);
        self.m.metas.insert(id, Meta { name: format!("p{}", id) });
        self.m.provide(Err(vec![(id, msg.into())]), profile, op);
        id
    }

    pub fn add_named<P: Provider>(&mut self, w: &mut World, op: Op, p: P, desc: &str, data: Vec<(String, MDict)>) -> u32 {
        let id = w.id();
        self.log.push(format!("{:?}(p{} {} {})", op, id, desc, data.iter().map(|(p, d)| format!("{:?}: {}", p, show_dict(d))).collect::<Vec<_>>().join(", ")));
        self.finish(op, Named(p, format!("p{}", id)), false);
        self.m.metas.insert(id, Meta { name: format!("p{}", id) });
        self.m.provide(Ok(tagged(data, id)), None, op);
        id
    }

    pub fn add_figment(&mut self, w: &mut World, op: Op, other: &Pair, by_ref: bool) {
        let id = w.id();
        self.log.push(format!("{:?}(figment[{}])", op, other.log.join("; ")));
        let f = other.fig.clone();
        self.finish(op, f, by_ref);
        for (k, v) in &other.m.metas { self.m.metas.insert(*k, v.clone()); }
        self.m.metas.insert(id, Meta { name: "Default".into() });
        self.m.ordered &= other.m.ordered;
        let data = if other.m.errs.is_empty() { Ok(other.m.data.clone()) } else { Err(other.m.errs.clone()) };
        self.m.provide(data, Some(other.m.profile.clone()), op);
    }

    /// One random step.
    pub fn step(&mut self, r: &mut Rng, w: &mut World, cfg: &HistCfg) {
        let op = *r.pick(&cfg.ops);
        let g = &cfg.gen;
        if cfg.fail.0 > 0 && r.chance(cfg.fail.0, cfg.fail.1) {
            let msg = format!("boom {}", r.below(1000));
            let prof = if cfg.profiles && r.chance(1, 4) { Some(gen_profile(r)) } else { None };
            self.add_failing(w, op, &msg, prof);
            return;
        }
        if cfg.profiles && r.chance(1, 8) { let p = gen_profile(r); self.select(&p); return }
        if g.big > 60 && r.chance(1, 600) {
            // The same large thing from both sides.
            let (p, k, n) = (if cfg.profiles { gen_profile(r) } else { "default".into() }, g.key(r), huge(r));
            let dict = r.bool();
            let a = g.huge(r, dict, n);
            let n = if r.bool() { huge(r) } else { n };
            let b = if r.chance(1, 4) { change_one(r, g, &a) } else { g.huge(r, dict, n) };
            let wrap = |x: Node| nest_model(&[k.clone(), "huge".to_string()][..if dict { 1 } else { 2 }], x);
            let (a, b) = (wrap(a), wrap(b));
            self.add_custom(w, op, vec![(p.clone(), a)], None, false);
            let op = *r.pick(&cfg.ops);
            self.add_custom(w, op, vec![(p, b)], None, r.bool());
            return
        }
        if cfg.profiles && r.chance(1, 500) {
            // Very many profiles at once.
            let n = r.range(20, 80);
            let mut data: Vec<(String, MDict)> = (0..n).map(|i| (format!("{}{}", ["p", "Team ", "global", "é"][i % 4], i), g.clone().with_depth(1).dict(r))).collect();
            r.shuffle(&mut data);
            let sel = r.pick(&data).0.clone();
            self.add_custom(w, op, data, if r.bool() { Some(sel) } else { None }, false);
            return
        }
        let prof = |r: &mut Rng| if cfg.profiles { gen_profile(r) } else { "default".to_string() };
        match r.below(12) {
            0..=5 => {
                let n = if cfg.profiles { r.range(1, 3) } else { 1 };
                let mut data: Vec<(String, MDict)> = vec![];
                for _ in 0..n {
                    let p = prof(r);
                    if data.iter().any(|(q, _)| lower(q) == lower(&p)) { continue }
                    let ex = self.m.data.get(&lower(&p)).or_else(|| self.m.data.get("default")).cloned();
                    data.push((p, related_dict(r, g, ex.as_ref())));
                }
                let p = if cfg.profiles && r.chance(1, 5) { Some(gen_profile(r)) } else { None };
                self.add_custom(w, op, data, p, r.chance(1, 5));
            }
            6 | 7 => {
                let p = prof(r);
                let ex = self.m.data.get(&lower(&p)).cloned();
                let d = related_dict(r, g, ex.as_ref());
                let v = Value::from(dict_to_value(&d));
                self.add_named(w, op, Serialized::from(v, p.as_str()), "Serialized", vec![(p, d)]);
            }
            8 => {
                let depth = if r.chance(1, 10) { r.range(4, 40) } else { r.range(1, 4) };
                let path: Vec<String> = (0..depth).map(|_| r.pick(KEYS).to_string()).collect();
                let n = g.clone().with_depth(2).node(r);
                let d = nest_model(&path, n.clone());
                let key = path.join(".");
                if cfg.profiles && r.bool() {
                    let p = prof(r);
                    self.add_named(w, op, Serialized::from(n.to_value(), p.as_str()).key(&key), "Serialized.key", vec![(p, d)]);
                } else if cfg.profiles {
                    self.add_named(w, op, (key, n.to_value()), "tuple", vec![("global".into(), d)]);
                } else {
                    self.add_named(w, op, Serialized::default(&key, n.to_value()), "Serialized::default", vec![("default".into(), d)]);
                }
            }
            9 => {
                let t = Gen { text: true, null: false, ..g.clone() }.with_depth(2);
                let p = prof(r);
                let d = t.dict(r);
                let s = crate::render::json(&Node::new(MV::Dict(d.clone())), r);
                let p2 = p.clone();
                self.add_named(w, op, Json::string(&s).profile(p2), "Json", vec![(p, d)]);
            }
            _ if cfg.nest_depth > 0 => {
                let mut c = cfg.clone();
                c.nest_depth -= 1;
                c.steps = (0, 3);
                let mut inner = Pair::new();
                let n = r.range(0, 3);
                for _ in 0..n { inner.step(r, w, &c); }
                self.add_figment(w, op, &inner, r.chance(1, 4));
            }
            _ => {
                let p = prof(r);
                let dd = r.range(3, 12);
                let n = g.deep(r, dd);
                let d = if let MV::Dict(d) = n.v { d } else { let mut d = MDict::new(); d.insert(g.key(r), n); d };
                self.add_custom(w, op, vec![(p, d)], None, false);
            }
        }
    }

    pub fn history(r: &mut Rng, w: &mut World, cfg: &HistCfg) -> Pair {
        let mut p = Pair::new();
        let n = if r.chance(1, 60) { if r.chance(1, 8) { r.range(60, 300) } else { r.range(15, 40) } } else { r.range(cfg.steps.0, cfg.steps.1) };
        for _ in 0..n { p.step(r, w, cfg); }
        p
    }
}
