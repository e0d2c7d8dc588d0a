//! Scenarios: one module per property, and what they share.

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod expr;
pub mod prod;
pub mod util;
pub mod within;
pub mod zoo;

use crate::runner::Scen;

pub static SCENS: &[Scen] = &[
    Scen { id: "C01", gen: c01::gen, exec: c01::exec, directed: c01::directed, large: 60 },
    Scen { id: "C02", gen: c02::gen, exec: c02::exec, directed: c02::directed, large: 60 },
    Scen { id: "C03", gen: c03::gen, exec: c03::exec, directed: c03::directed, large: 60 },
    Scen { id: "C04", gen: c04::gen, exec: c04::exec, directed: c04::directed, large: 60 },
    Scen { id: "C05", gen: c05::gen, exec: c05::exec, directed: c05::directed, large: 60 },
    Scen { id: "C06", gen: c06::gen, exec: c06::exec, directed: c06::directed, large: 60 },
    Scen { id: "C07", gen: c07::gen, exec: c07::exec, directed: c07::directed, large: 60 },
    Scen { id: "C08", gen: c08::gen, exec: c08::exec, directed: c08::directed, large: 300 },
    Scen { id: "C09", gen: c09::gen, exec: c09::exec, directed: c09::directed, large: 24 },
    Scen { id: "C10", gen: c10::gen, exec: c10::exec, directed: c10::directed, large: 60 },
    Scen { id: "C11", gen: c11::gen, exec: c11::exec, directed: c11::directed, large: 60 },
    Scen { id: "C12", gen: c12::gen, exec: c12::exec, directed: c12::directed, large: 60 },
    Scen { id: "C13", gen: c13::gen, exec: c13::exec, directed: c13::directed, large: 60 },
    Scen { id: "C14", gen: c14::gen, exec: c14::exec, directed: c14::directed, large: 60 },
];
