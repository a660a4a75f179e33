#![allow(dead_code)]
#[path = "../../mc/src/builds.rs"]
mod builds;
#[path = "../../mc/src/common.rs"]
mod common;
#[path = "../../mc/src/compat.rs"]
mod compat;
#[path = "../../mc/src/damage.rs"]
mod damage;
#[path = "../../mc/src/fmt.rs"]
mod fmt;
#[path = "../../mc/src/fw.rs"]
mod fw;
#[path = "../../mc/src/low.rs"]
mod low;
#[path = "../../mc/src/ml.rs"]
mod ml;
#[path = "../../mc/src/query.rs"]
mod query;
#[path = "../../mc/src/rt.rs"]
mod rt;
#[path = "../../mc/src/stream.rs"]
mod stream;

fn main() {
    fw::main(|cx| {
        match cx.prop.as_str() {
            "P31" => builds::portable(cx),
            _ => return false,
        }
        true
    });
}
