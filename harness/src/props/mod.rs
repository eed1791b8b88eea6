//! One module per property: a case generator and its oracle.
use crate::cov::{Ctx, Res};

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> Res,
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    /// One worker only (it owns all cores itself).
    pub serial: bool,
    pub rule: &'static str,
}

mod p01; mod p02; mod p03; mod p04; mod p05; mod p06; mod p07; mod p08; mod p09; mod p10; mod p11; mod p12; mod p13; mod p14; mod p15; mod p16; mod p17; mod p18; mod p19; mod p20; mod p21; mod p22; mod p23; pub mod p24; pub mod p25; mod p26; mod p27; mod p28; mod p29; pub mod p30;

pub use p21::uncounted;
pub use p03::check_tag;

pub const ALL: &[&Prop] = &[&p01::P, &p02::P, &p03::P, &p04::P, &p05::P, &p06::P, &p07::P, &p08::P, &p09::P, &p10::P, &p11::P, &p12::P, &p13::P, &p14::P, &p15::P, &p16::P, &p17::P, &p18::P, &p19::P, &p20::P, &p21::P, &p22::P, &p23::P, &p24::P, &p25::P, &p26::P, &p27::P, &p28::P, &p29::P, &p30::P];
