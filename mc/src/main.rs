#![allow(dead_code)]
mod builds;
mod common;
mod compat;
mod damage;
mod fmt;
mod fw;
mod low;
mod ml;
mod query;
mod rt;
mod stream;
mod times;

fn main() {
    fw::main(|cx| {
        match cx.prop.as_str() {
            "P01" => rt::p01(cx),
            "P02" => rt::p02(cx),
            "P03" => fmt::p03(cx),
            "P04" => fmt::p04(cx),
            "P05" => fmt::p05(cx),
            "P06" => fmt::p06(cx),
            "P07" => query::p07(cx),
            "P08" => query::p08(cx),
            "P09" => query::p09(cx),
            "P10" => ml::p10(cx),
            "P11" => ml::p11(cx),
            "P12" => ml::p12(cx),
            "P13" => ml::p13(cx),
            "P18" => query::p18(cx),
            "P28" => damage::p28(cx),
            "P30" => builds::checked(cx),
            "P33" => ml::p33(cx),
            "P32" => times::p32(cx),
            "P27" => stream::p27(cx),
            "P26" => {
                cx.select.lock().unwrap().0 = "lossless/".into();
                rt::p01(cx);
                cx.select.lock().unwrap().0 = "decimal/".into();
                rt::p02(cx);
            }
            _ => return false,
        }
        true
    });
}
