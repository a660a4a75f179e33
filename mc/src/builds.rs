//! P30 and P31: the explorations of the other properties on the code built differently - with overflow checks and
//! debug assertions (P30), and without vector instructions (P31). The oracle is the same, so the answers are too.
use crate::{fmt, fw::Cx, low, ml, query, rt, stream};

const SKIP: &[&str] = &[
    // the parts of the recorded defects
    "nan",
    "wide-scale",
];
const QUICK_SKIP: &[&str] = &["windows", "wide", "write-faults", "million"];

fn with(cx: &Cx, prefix: &str, also: &[&'static str], f: &dyn Fn(&Cx)) {
    *cx.select.lock().unwrap() = (prefix.to_string(), vec![]);
    let mut skip: Vec<&'static str> = SKIP.to_vec();
    if cx.quick() {
        skip.extend(QUICK_SKIP);
        skip.extend(also);
    }
    *cx.skip.lock().unwrap() = skip;
    f(cx);
}

/// P30
pub fn checked(cx: &Cx) {
    with(cx, "round-trip/", &[], &rt::p01);
    with(cx, "decimal/", &[], &rt::p02);
    with(cx, "file/", &[], &fmt::p03);
    with(cx, "metadata/", &[], &fmt::p04);
    with(cx, "input/", &[], &fmt::p05);
    with(cx, "fault/", &[], &fmt::p06);
    with(cx, "filter/", &["small"], &query::p07);
    with(cx, "materialize/", &[], &query::p08);
    with(cx, "aggregate/", &[], &query::p09);
    with(cx, "precision/", &[], &query::p18);
    with(cx, "expression/", &["very-long"], &ml::p10);
    with(cx, "knn/", &[], &ml::p11);
    with(cx, "matmul/", &[], &ml::p12);
    with(cx, "chunk-vectors/", &[], &ml::p33);
    with(cx, "history/", &[], &ml::p13);
    with(cx, "compressor/", &[], &low::p14);
    with(cx, "counts/", &[], &low::p15);
    with(cx, "bits-written/", &["histories"], &low::p16);
    with(cx, "bits-read/", &["histories"], &low::p17);
    with(cx, "stream/", &[], &stream::p27);
}

/// P31
pub fn portable(cx: &Cx) {
    with(cx, "decimal/", &[], &rt::p02);
    with(cx, "filter/", &[], &query::p07);
    with(cx, "materialize/", &[], &query::p08);
    with(cx, "aggregate/", &[], &query::p09);
    with(cx, "precision/", &[], &query::p18);
    with(cx, "knn/", &[], &ml::p11);
    with(cx, "matmul/", &[], &ml::p12);
    with(cx, "chunk-vectors/", &[], &ml::p33);
    with(cx, "history/", &[], &ml::p13);
}
