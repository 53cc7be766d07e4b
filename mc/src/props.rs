use crate::fam::*;
use crate::gram::*;
use crate::run::*;
use std::sync::Arc;

mod comb;
mod conv;
mod errs;
mod hist;
mod keep;
mod leaf;
mod misc;
mod pure;
mod rules;
mod term;
mod user;

pub type Parts = (Vec<Part>, Vec<&'static str>);

pub use pure::{first, race_first};

pub fn parts(id: &str, tier: Tier) -> Option<Parts> {
    Some(match id {
        "P01" => comb::p01(tier),
        "P02" => comb::p02(tier),
        "P03" => comb::p03(tier),
        "P04" => term::p04(tier),
        "P05" => comb::p05(tier),
        "P06" => errs::p06(tier),
        "P07" => comb::p07(tier),
        "P08" => comb::p08(tier),
        "P14" => comb::p14(tier),
        "P15" => comb::p15(tier),
        "P09" => conv::p09(tier),
        "P10" => leaf::p10(tier),
        "P11" => leaf::p11(tier),
        "P12" => leaf::p12(tier),
        "P13" => leaf::p13(tier),
        "P16" => rules::p16(tier),
        "P17" => pure::p17(tier),
        "P21" => misc::p21(tier),
        "P22" => misc::p22(tier),
        "P23" => misc::p23(tier),
        "P24" => user::p24(tier),
        "P25" => keep::p25(tier),
        "Pxx" => (comb::everything(tier, What::All), vec![]),
        _ => return None,
    })
}
