//! P21: nothing reachable through safe calls is undefined, out of bounds, racy or leaked.
//!
//! A case runs another property's case, or a tour of the entry points, and ignores what that
//! property makes of it. The sanitizers and Miri (see san/P21.sh) watch the same cases; run
//! natively, this module watches the heap and the validity of the strings that come out.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use crate::cov::*; use crate::rng::Rng;
use super::{p24, Prop};
use crate::check;

pub const P: Prop = Prop {
    id: "P21", case, quick: 30_000, thorough: 2_000_000, serial: false,
    rule: "the cases of all other properties and tours of hostile calls over every entry point, each repeated under a counting allocator (no run of a repeated case, and no batch of dropped figments, may leave more memory behind), and run under AddressSanitizer with UB checks, ThreadSanitizer and Miri; distinct by (workload, seed)",
};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { LIVE.fetch_add(l.size() as i64, Relaxed); BLOCKS.fetch_add(1, Relaxed); } System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { LIVE.fetch_add(l.size() as i64, Relaxed); BLOCKS.fetch_add(1, Relaxed); } System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if ON.load(Relaxed) { LIVE.fetch_sub(l.size() as i64, Relaxed); BLOCKS.fetch_sub(1, Relaxed); } System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if ON.load(Relaxed) { LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed); } System.realloc(p, l, n) }
}
#[cfg(not(miri))]
#[global_allocator]
static A: Counting = Counting;
/// Bytes and blocks of the heap in use.
fn live() -> (i64, i64) { (LIVE.load(Relaxed), BLOCKS.load(Relaxed)) }

/// Runs `f` without counting what it allocates.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T { let on = ON.swap(false, Relaxed); let x = f(); ON.store(on, Relaxed); x }

/// Which sanitizer watches, if any.
fn san() -> String { if cfg!(miri) { "miri".into() } else { std::env::var("VH_SAN").unwrap_or_default() } }

fn run(which: usize, seed: u64, idx: u64, max: usize, scratch: &std::path::Path) {
    let mut cov = Cov::default();
    let mut ctx = Ctx { rng: Rng(seed), idx, seed, thorough: false, cov: &mut cov, scratch: scratch.to_path_buf() };
    // Verdicts and panics are other properties' business.
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if which == usize::MAX { let mut r = ctx.rng.fork(); let _ = p24::tour(&mut ctx, &mut r, max); } else { let _ = (super::ALL[which].case)(&mut ctx); }
    }));
    let _ = crate::sup::last_panic();
    drop(cov);
}

fn case(c: &mut Ctx) -> Res {
    let mut r = c.rng.fork();
    let san = san();
    let others: Vec<usize> = (0..super::ALL.len()).filter(|i| match super::ALL[*i].id {
        "P21" | "P24" => false,
        // The others are too slow to interpret, or make system calls Miri lacks.
        id if san == "miri" => matches!(id, "P04" | "P05" | "P06" | "P09" | "P11" | "P15" | "P20" | "P22" | "P23"),
        _ => true,
    }).collect();
    let p19 = (0..super::ALL.len()).find(|i| super::ALL[*i].id == "P19").unwrap();
    let which = match san.as_str() {
        "tsan" if r.chance(2, 3) => p19,
        "miri" if r.chance(5, 6) => usize::MAX,
        _ => if r.bool() { usize::MAX } else { *r.pick(&others) },
    };
    let name = if which == usize::MAX { "tour" } else { super::ALL[which].id };
    // P19's cases own several cores: the race detector has them, and a few here.
    if which == p19 && san.is_empty() && !r.chance(1, 20) { return Ok(()) }
    let (seed, idx, max) = (r.next(), 1_000_003 + 1000 * r.below(1 << 30) as u64, if san == "miri" { 8 } else { 30 });
    c.cov.count(name);
    c.cov.eval();
    c.cov.distinct(&(which, seed));
    if c.idx % 400 == 7 { c.cov.sample(|| format!("workload {} seed {:#x}", name, seed)); }
    p24::SOUND.with(|s| s.set(true));
    super::p30::CALM_DROPS.store(true, Relaxed);
    run(which, seed, idx, max, &c.scratch);
    check!(p24::SOUND.with(|s| s.get()), "workload {} seed {:#x}: a string that is not UTF-8 came out", name, seed);
    if !san.is_empty() { return Ok(()) }
    ON.store(true, Relaxed);
    run(which, seed, idx, max, &c.scratch);
    let mut grown = vec![];
    for _ in 0..6 {
        let a = live();
        run(which, seed, idx, max, &c.scratch);
        let b = live();
        if b.0 <= a.0 && b.1 <= a.1 { grown.clear(); break }
        grown.push((b.0 - a.0, b.1 - a.1));
    }
    c.cov.count("repeated for leaks");
    check!(grown.is_empty(), "workload {} seed {:#x}: every run leaves memory behind (bytes, blocks): {:?}", name, seed, grown);
    if c.idx % 500 == 3 {
        // Batches of different configurations, all dropped.
        for _ in 0..6 {
            let a = live();
            for _ in 0..60 { run(usize::MAX, r.next(), idx, max, &c.scratch); }
            let b = live();
            c.cov.count("batches");
            if b.0 <= a.0 && b.1 <= a.1 { grown.clear(); break }
            grown.push((b.0 - a.0, b.1 - a.1));
        }
        check!(grown.is_empty(), "every batch of dropped figments leaves memory behind (bytes, blocks): {:?}", grown);
    }
    Ok(())
}
