#![allow(dead_code)]
#[path = "../common.rs"]
mod common;
#[path = "../fw.rs"]
mod fw;
#[path = "../low.rs"]
mod low;

fn main() {
    fw::main(|cx| {
        match cx.prop.as_str() {
            "P14" => low::p14(cx),
            "P15" => low::p15(cx),
            "P16" => low::p16(cx),
            "P17" => low::p17(cx),
            _ => return false,
        }
        true
    });
}
