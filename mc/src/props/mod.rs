use crate::engine::{Ctx, Report};
use std::time::Instant;

mod common;
mod c27_ops;
mod c01_wire;
mod c02_decode;
mod c04_derive;
mod c05_script;
mod c07_numbers;
mod c09_bytearray;
mod c10_address;
mod c13_preimages;
mod c14_builder;
mod c15_signing;
mod c16_hashed;
mod c17_json;
mod c18_hash;
mod c19_slp;
mod c20_ecc;
mod c21_scripts;
pub mod c23_opcodes;
mod c25_serde;
mod c26_spend;
mod sigs;

pub fn run(c: &Ctx) {
    match c.prop.as_str() {
        "C01" => c01_wire::c01(c),
        "C02" => c02_decode::c02(c),
        "C03" => c01_wire::c03(c),
        "C04" => c04_derive::c04(c),
        "C05" => c05_script::c05(c),
        "C06" => c05_script::c06(c),
        "C07" => c07_numbers::c07(c),
        "C08" => c07_numbers::c08(c),
        "C09" => c09_bytearray::c09(c),
        "C10" => c10_address::c10(c),
        "C11" => c10_address::c11(c),
        "C12" => c10_address::c12(c),
        "C13" => c13_preimages::c13(c),
        "C14" => c14_builder::c14(c),
        "C15" => c15_signing::c15(c),
        "C16" => c16_hashed::c16(c),
        "C17" => c17_json::c17(c),
        "C18" => c18_hash::c18(c),
        "C19" => c19_slp::c19(c),
        "C20" => c20_ecc::c20(c),
        "C21" => c21_scripts::c21(c),
        "C22" => c21_scripts::c22(c),
        "C23" => c23_opcodes::c23(c),
        "C25" => c25_serde::c25(c),
        "C26" => c26_spend::c26(c),
        "C27" => c27_ops::c27(c),
        "C28" => c27_ops::c28(c),
        "C24" => c05_script::c24(c),
        p => panic!("ENGINE: unknown property {}", p),
    }
}

pub fn finish(prop: &str, tier: &str, t: Instant, rep: Report) -> i32 {
    crate::conclude(prop, tier, t, rep, serde_json::json!({}))
}
