//! P14: lossy extraction adds exactly the documented conversions.
use figment::value::{Num, Value};
use figment::Figment;
use figment::providers::Serialized;
use crate::cov::*; use crate::model::*; use crate::mv::*; use crate::schema::*;
use super::{Prop, p04};
use crate::{check, fail};

pub const P: Prop = Prop {
    id: "P14", case, quick: 200_000, thorough: 1_500_000, serial: false,
    rule: "random target schemas with configurations whose booleans and numbers are often given as strings, partly sabotaged; strict and lossy extraction, whole and partial, are both compared with an independent oracle of which conversions are documented; plus direct scalar conversions of hostile strings; non-trivial: strict fails and lossy succeeds, or both fail; distinct by (schema, data)",
};

const TRICKY: &[&str] = &["true", "TRUE", "tRue", "yes", "YES", "y", "t", "on", "ON", "off", "oFF", "no", "n", "f", "1", "0", "01", "00", "-0", "-1", "2", "10", "1.0", "0.0", "", " ", "truee", "tru", "yess", "o", "onn",
    "255", "256", "-128", "-129", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "0.1", "0.3", "1.5", "-2.25", "3.14159", "16777217.0", "123456789.123456789", "0.30000000000000004", "9007199254740993.0", "1.7976931348623157e308", "99999999999999999999999999.5",
    "0x10", "1_000", "1,000", "abc", "--1", "1.2.3", "1..2", "١", "Ⅷ", "ｔrue", "ﬀ", "oﬀ", "yeſ", "K", "null", "None", "[1]", "{a=1}", "\"1\"", "'1'"];

fn case(c: &mut Ctx) -> Res {
    if c.idx % 4 == 0 { return scalars(c) }
    let mut r = c.rng.fork();
    let r = &mut r;
    let depth = r.range(2, 5);
    let sg = SGen { magic: r.chance(1, 3), any: true };
    let s = sg.root(r, depth);
    let mut n = s.conform(r, true);
    if r.chance(1, 3) { s.sabotage(r, &mut n, 0); }
    if r.chance(1, 3) { stringify(r, &mut n); }
    let d = match n.v { MV::Dict(d) => d, _ => MDict::new() };
    let mut w = World::new();
    let p = p04::build(r, &mut w, &d);
    let root = Node::new(MV::Dict(p.m.extract()));
    let (st, lo) = (Oracle::of(&s, &root, false), Oracle::of(&s, &root, true));
    if !st.is_empty() && !st.iter().chain(&lo).any(|f| matches!(f.kind, FK::Undet)) { c.cov.distinct(&(format!("{:?}", s), show_full(&root))); }
    c.cov.count(match (st.is_empty(), lo.is_empty()) { (true, true) => "strict and lossy succeed", (false, true) => "only lossy succeeds", (false, false) => "both fail", (true, false) => "impossible" });
    check!(!(st.is_empty() && !lo.is_empty()), "oracle is inconsistent: {:?}", lo);
    c.cov.sample(|| format!("{:?} from {}", s, show_full(&root)));
    p04::judge(c, r, &p, &s)
}

fn stringify(r: &mut crate::rng::Rng, n: &mut Node) {
    match &mut n.v {
        MV::Dict(d) => d.values_mut().for_each(|n| stringify(r, n)),
        MV::Arr(a) => a.iter_mut().for_each(|n| stringify(r, n)),
        _ => if r.chance(1, 3) { n.v = MV::Str(r.pick(TRICKY).to_string()) },
    }
}

/// One scalar against every scalar target, through four routes and the direct conversions.
fn scalars(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let g = Gen::small();
    let n = Node::new(match r.below(4) { 0 | 1 => MV::Str(r.pick(TRICKY).to_string()), 2 => MV::Num(gen_num(r)), _ => g.scalar(r) });
    // Almost one of the documented strings.
    let n = if r.chance(1, 5) {
        let mut t: Vec<char> = r.pick(TRICKY).chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
        let i = match r.below(3) { 0 => 0, 1 => t.len(), _ => r.below(t.len() + 1) };
        t.insert(i, *r.pick(&[' ', '\t', '\n', '\0', '+', '-', '0', '1', 's', 'e', '.', ',', '_', '"', '\u{a0}', '\u{feff}']));
        Node::new(MV::Str(t.into_iter().collect()))
    } else { n };
    let n = if r.chance(1, 6) { Node::new(MV::Str(match r.below(3) { 0 => format!("{}", r.next() as i64), 1 => format!("{:?}", gen_float_simple(r)), _ => format!("{}.{}", r.next() as i32, r.below(100000)) })) } else { n };
    let v = n.to_value();
    let fig = Figment::from(Serialized::default("k", v.clone()));
    let mut targets: Vec<Sch> = INTS.iter().map(|t| Sch::Int(*t)).collect();
    targets.extend([Sch::Bool, Sch::F32, Sch::F64, Sch::Str, Sch::Char, Sch::Unit, Sch::Opt(Box::new(Sch::Bool)), Sch::New(Box::new(Sch::Int(IntT::I32))), Sch::Tagged(Box::new(Sch::Bool)), Sch::Any, Sch::Seq(Box::new(Sch::Bool)), Sch::Map(Box::new(Sch::F64))]);
    for s in &targets {
        for lossy in [false, true] {
            let faults = Oracle::of(s, &n, lossy);
            if faults.iter().any(|f| matches!(f.kind, FK::Undet)) { continue }
            let whole = Sch::Struct(vec![("k", s.clone())], true);
            let a = with(&whole, || if lossy { fig.extract_lossy::<Dyn>() } else { fig.extract::<Dyn>() });
            let b = with(s, || if lossy { fig.extract_inner_lossy::<Dyn>("k") } else { fig.extract_inner::<Dyn>("k") });
            c.cov.evals(2);
            let a = a.map(|Dyn(o)| match o { Out::Dict(mut d) => d.remove("k").unwrap(), o => o });
            for (what, x) in [("whole", a), ("partial", b.map(|d| d.0))] {
                match x {
                    Ok(o) => {
                        check!(faults.is_empty(), "{} {} extraction of {} into {:?} gives {} although that is no documented conversion", what, if lossy { "lossy" } else { "strict" }, show(&n), s, cut(&o));
                        Agree { lossy, src: None }.go(s, &n, &o, "k").map_err(|e| Fail::new(format!("{} {} extraction into {:?}: {}", what, if lossy { "lossy" } else { "strict" }, s, e)))?;
                    }
                    Err(e) => check!(!faults.is_empty(), "{} {} extraction of {} into {:?} fails: {}", what, if lossy { "lossy" } else { "strict" }, show(&n), s, e),
                }
            }
        }
    }
    // The conversions themselves.
    check!(v.to_bool_lossy() == as_bool(&n, true), "to_bool_lossy({}) is {:?}", show(&n), v.to_bool_lossy());
    match &n.v {
        MV::Str(s) => match (lossy_num(s), v.to_num_lossy()) {
            (LN::Undet, _) => {}
            (LN::No, None) => {}
            (LN::Int(neg, m), Some(x)) => check!(int_of(&x) == Some((neg, m)), "to_num_lossy({:?}) is {:?}", s, x),
            (LN::Float(f), Some(Num::F64(x))) => check!(f.to_bits() == x.to_bits(), "to_num_lossy({:?}) is {:?}", s, x),
            (LN::Float(f), Some(Num::F32(x))) => check!(f == x as f64, "to_num_lossy({:?}) is {:?}", s, x),
            (w, x) => fail!("to_num_lossy({:?}) is {:?}, expected {:?}", s, x, w),
        },
        MV::Num(x) => check!(v.to_num_lossy().map(|y| numval(&y)) == Some(numval(x)), "to_num_lossy({:?}) is {:?}", x, v.to_num_lossy()),
        _ => check!(v.to_num_lossy().is_none(), "to_num_lossy({}) is {:?}", show(&n), v.to_num_lossy()),
    }
    c.cov.evals(2);
    c.cov.count("scalars against all targets");
    c.cov.distinct(&show_full(&n));
    let _: Value = v;
    Ok(())
}
