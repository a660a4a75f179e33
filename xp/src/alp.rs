//! P25: files of the ALP scheme. The scheme's own code - compressor, chunk reader, dispatch, configuration - is the
//! repository's; so is the binding's Rust side; the ALP library behind it is the stand-in in ../autocxx, a lossless codec that detects misuse. The
//! explorations are those of the other properties, with this scheme in place of the others.
use crate::{fmt, fw::Cx, low, ml, query, rt, stream};

pub fn p25(cx: &Cx) {
    let with = |prefix: &str, parts: &[&'static str], f: &dyn Fn(&Cx)| {
        *cx.select.lock().unwrap() = (prefix.to_string(), parts.to_vec());
        f(cx);
    };
    with("round-trip/", &["seqs", "first-values", "runs-all", "lengths", "nan"], &rt::p01);
    with("file/", &["tiling", "large", "wide", "many-chunks", "zero"], &fmt::p03);
    with("metadata/", &["times", "far"], &fmt::p04);
    with("input/", &["fragments", "byte-lengths", "read-errors", "files", "long"], &fmt::p05);
    with("fault/", &["crash-points", "truncation", "write-faults", "read-faults", "output-faults", "large"], &fmt::p06);
    with("filter/", &["small", "long"], &query::p07);
    with("materialize/", &["small", "long-masks", "long"], &query::p08);
    with("aggregate/", &["small", "long", "nothing-selected"], &query::p09);
    with("precision/", &["other-schemes"], &query::p18);
    with("expression/", &["exprs", "long", "very-long", "layouts"], &ml::p10);
    with("knn/", &["schemes", "empty-target", "long"], &ml::p11);
    with("matmul/", &["shapes", "misfit", "long"], &ml::p12);
    with("history/", &["chunk-reader", "decoder", "long"], &ml::p13);
    with("compressor/", &["histories", "sizes", "long"], &low::p14);
    with("stream/", &["compressors", "long", "sinks", "handles", "reader-histories"], &stream::p27);
}
