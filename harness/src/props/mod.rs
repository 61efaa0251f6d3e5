use crate::obs::{Env, Obs, Verdict};
use crate::rng::Rng;

#[cfg(feature = "concurrent")]
pub mod concurrent;
pub mod config;
pub mod data;
pub mod eval;
pub mod geom;
pub mod run;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Rng, &Env, &mut Obs) -> Verdict,
}

pub const ALL: &[Prop] = &[
    Prop { id: "P01", case: eval::p01 },
    Prop { id: "P02", case: eval::p02 },
    Prop { id: "P03", case: eval::p03 },
    Prop { id: "P04", case: eval::p04 },
    Prop { id: "P05", case: eval::p05 },
    Prop { id: "P06", case: eval::p06 },
    Prop { id: "P07", case: eval::p07 },
    Prop { id: "P08", case: eval::p08 },
    Prop { id: "P09", case: geom::p09 },
    Prop { id: "P10", case: geom::p10 },
    Prop { id: "P11", case: geom::p11 },
    Prop { id: "P12", case: geom::p12 },
    Prop { id: "P13", case: geom::p13 },
    Prop { id: "P14", case: geom::p14 },
    Prop { id: "P15", case: geom::p15 },
    Prop { id: "P16", case: data::p16 },
    Prop { id: "P17", case: data::p17 },
    Prop { id: "P18", case: data::p18 },
    Prop { id: "P19", case: data::p19 },
    Prop { id: "P20", case: data::p20 },
    Prop { id: "P21", case: data::p21 },
    Prop { id: "P22", case: data::p22 },
    Prop { id: "P23", case: config::p23 },
    Prop { id: "P24", case: config::p24 },
    Prop { id: "P25", case: config::p25 },
    #[cfg(feature = "concurrent")]
    Prop { id: "P26", case: concurrent::p26 },
    Prop { id: "P27", case: eval::p27 },
    Prop { id: "P28", case: run::p28 },
    Prop { id: "P29", case: run::p29 },
    Prop { id: "P30", case: run::p30 },
    Prop { id: "P31", case: run::p31 },
    Prop { id: "P32", case: run::p32 },
    Prop { id: "P33", case: run::p33 },
    Prop { id: "P34", case: run::p34 },
];
