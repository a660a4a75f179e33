//! Checks over the command line tools and the experiment library: P19-P25, P29.
#![allow(dead_code)]
#[path = "../../mc/src/fw.rs"]
mod fw;
#[path = "../../mc/src/common.rs"]
mod common;
#[path = "../../mc/src/fmt.rs"]
mod fmt;
#[path = "../../mc/src/low.rs"]
mod low;
#[path = "../../mc/src/ml.rs"]
mod ml;
#[path = "../../mc/src/query.rs"]
mod query;
#[path = "../../mc/src/rt.rs"]
mod rt;
#[path = "../../mc/src/stream.rs"]
mod stream;
mod alp;
mod cli;
mod exps;
mod tools;
mod tpch;

fn main() {
    fw::main(|cx| {
        if cx.only.is_none() && !cx.trace {
            fw::silence();
        }
        match cx.prop.as_str() {
            "P19" => tools::p19(cx),
            "P20" => tools::p20(cx),
            "P21" => tools::p21(cx),
            "P22" => tpch::p22(cx),
            "P23" => cli::p23(cx),
            "P24" => cli::p24(cx),
            "P25" => alp::p25(cx),
            "P29" => exps::p29(cx),
            _ => return false,
        }
        true
    });
}
