//! The TPC-H style queries of the experiment library over parquet files (P22).
use crate::{
    bail, ensure,
    fw::{guard, n_seqs, nth_seq, Case, Cx, Dig, Fail},
    tools::{hash, Scratch},
};
use arrow::{
    array::{ArrayRef, Decimal128Array, RecordBatch, StringArray},
    datatypes::{DataType, Field, Schema},
};
use ebi::{
    api::{
        decoder::{AggregationResult, Decoder, DecoderInput, DecoderOutput},
        encoder::{Encoder, EncoderInput, EncoderOutput},
    },
    compressor::CompressorConfig,
    encoder::ChunkOption,
};
use experimenter::tpch::{process_h01, process_h01_simplified, process_h06, tpch_command, TpchResult01, TpchResult06};
use std::{collections::HashMap, path::Path, sync::Arc};

const COLS: [&str; 4] = ["l_quantity", "l_extendedprice", "l_discount", "l_tax"];
/// quantity, price, discount, tax in hundredths
pub type Row = [i128; 4];

pub const ROWS: [Row; 10] = [
    [100, 90100, 5, 0],
    [2399, 10494950, 7, 8],
    [2400, 123456, 6, 2],
    [2300, 200000, 4, 1],
    [2401, 99999, 8, 8],
    [5000, 1, 10, 0],
    [1, 777777, 0, 3],
    [0, 31415, 6, 4],
    [1200, -4200, 5, 7],
    [-500, 50050, 7, 5],
];

fn schemes() -> Vec<(&'static str, CompressorConfig)> {
    vec![
        ("Uncompressed", CompressorConfig::uncompressed().build().into()),
        ("Chimp128", CompressorConfig::chimp128().build().into()),
        ("Chimp", CompressorConfig::chimp().build().into()),
        ("ElfOnChimp", CompressorConfig::elf_on_chimp().build().into()),
        ("Elf", CompressorConfig::elf().build().into()),
        ("Gorilla", CompressorConfig::gorilla().build().into()),
        ("RLE", CompressorConfig::rle().build().into()),
        ("Zstd", CompressorConfig::zstd().build().into()),
        ("Gzip", CompressorConfig::gzip().build().into()),
        ("Snappy", CompressorConfig::snappy().build().into()),
        ("FFIAlp", CompressorConfig::ffi_alp().build().into()),
        ("DeltaSprintz", CompressorConfig::delta_sprintz().scale(100).build().into()),
        ("BUFF", CompressorConfig::buff().scale(100).build().into()),
    ]
}

/// Write a parquet file; `order` is the order of the columns, `flags` adds the two text columns, `scale` the decimals
/// of the columns (rows are given in hundredths), `group` the number of rows per row group.
pub fn write_parquet(path: &Path, rows: &[Row], order: &[usize; 4], flags: bool, scale: i8, group: usize) {
    let mut fields = vec![];
    let mut cols: Vec<ArrayRef> = vec![];
    if flags {
        fields.push(Field::new("l_returnflag", DataType::Utf8, false));
        cols.push(Arc::new(StringArray::from(vec!["A"; rows.len()])));
    }
    for &c in order {
        let t = DataType::Decimal128(18, scale);
        fields.push(Field::new(COLS[c], t.clone(), false));
        let v: Vec<i128> = rows
            .iter()
            .map(|r| match scale {
                4 => r[c] * 100,
                3 => r[c] * 10,
                _ => r[c],
            })
            .collect();
        let a = Decimal128Array::from(v).with_precision_and_scale(18, scale).unwrap();
        cols.push(Arc::new(a));
    }
    if flags {
        fields.push(Field::new("l_linestatus", DataType::Utf8, false));
        cols.push(Arc::new(StringArray::from(vec!["F"; rows.len()])));
    }
    let schema = Arc::new(Schema::new(fields));
    let batch = RecordBatch::try_new(schema.clone(), cols).unwrap();
    let props = parquet::file::properties::WriterProperties::builder().set_max_row_group_size(group).build();
    let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(path).unwrap(), schema, Some(props)).unwrap();
    w.write(&batch).unwrap();
    w.close().unwrap();
}

/// The values a scheme keeps of a column.
fn stored(cfg: CompressorConfig, v: &[f64]) -> Result<Vec<f64>, Fail> {
    let r = guard(|| -> Result<Vec<f64>, String> {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(vec![]), ChunkOption::Full, cfg);
        e.encode().map_err(|e| format!("{e:?}"))?;
        let b = e.into_output().into_vec();
        let mut d = Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(b))).map_err(|e| format!("{e:?}"))?;
        let mut o = DecoderOutput::from_vec(vec![]);
        d.materialize(&mut o, None, None).map_err(|e| format!("{e:?}"))?;
        Ok(o.into_writer().into_inner().chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect())
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.into()),
        Err(e) => Err(format!("panicked: {e}").into()),
    }
}

fn call<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, Fail> {
    match guard(f) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("{what} failed: {e:#}").into()),
        Err(p) => Err(format!("{what} panicked: {p}").into()),
    }
}

fn close(g: f64, w: f64, mag: f64) -> bool {
    g == w || (g - w).abs() <= 1e-9 * mag.max(1.0)
}

fn compare(what: &str, scheme: &str, got: &[AggregationResult], want: &[(f64, f64)], count: Option<usize>) -> Case {
    let n = want.len() + count.is_some() as usize;
    ensure!(got.len() == n, "{what} with {scheme}: {n} results expected, got {got:?}");
    for (i, (w, mag)) in want.iter().enumerate() {
        let Some(g) = got[i].scalar() else { bail!("{what} with {scheme}: result {i} is {:?}", got[i]) };
        ensure!(close(g, *w, *mag), "{what} with {scheme}: result {i} is {w}, got {g} ({got:?})");
    }
    if let Some(c) = count {
        ensure!(matches!(got[n - 1], AggregationResult::Integer(g) if g == c), "{what} with {scheme}: {c} records, got {:?}", got[n - 1]);
    }
    Ok(())
}

/// sum of f over the rows and the sum of the magnitudes
fn total(n: usize, f: impl Fn(usize) -> f64) -> (f64, f64) {
    (0..n).fold((0.0, 0.0), |(s, m), i| (s + f(i), m + f(i).abs()))
}

pub struct Ref {
    h01: Vec<(f64, f64)>,
    simple: Vec<(f64, f64)>,
    h06: Vec<(f64, f64)>,
}
fn reference(rows: &[Row], cfg: CompressorConfig) -> Result<Ref, Fail> {
    let n = rows.len();
    let mut c = vec![];
    for k in 0..4 {
        let v: Vec<f64> = rows.iter().map(|r| r[k] as f64 / 100.0).collect();
        c.push(stored(cfg, &v)?);
        ensure2(c[k].len() == n, "a column lost records")?;
    }
    let (q, p, d, t) = (&c[0], &c[1], &c[2], &c[3]);
    let avg = |x: (f64, f64)| (x.0 / n as f64, x.1 / n as f64);
    let (sq, sp, sd) = (total(n, |i| q[i]), total(n, |i| p[i]), total(n, |i| d[i]));
    let sdp = total(n, |i| p[i] * (1.0 - d[i]));
    let sch = total(n, |i| p[i] * (1.0 - d[i]) * (1.0 + t[i]));
    let h06 = total(n, |i| if (5..=7).contains(&rows[i][2]) && rows[i][0] < 2400 { p[i] * d[i] } else { 0.0 });
    Ok(Ref {
        h01: vec![sq, sp, sdp, sch, avg(sq), avg(sp), avg(sd)],
        simple: vec![sq, sp, avg(sd), avg(sq), avg(sp)],
        h06: vec![h06],
    })
}
fn ensure2(c: bool, m: &str) -> Case {
    if c {
        Ok(())
    } else {
        Err(m.into())
    }
}

fn check_stats(what: &str, scheme: &str, rows: usize, st: &HashMap<String, experimenter::CompressStatistics>) -> Case {
    ensure!(st.len() == 4, "{what} with {scheme}: statistics of {} columns", st.len());
    for c in COLS {
        let Some(s) = st.get(c) else { bail!("{what} with {scheme}: no statistics for {c}") };
        ensure!(
            s.uncompressed_size == rows as u64 * 8 && s.compressed_size > s.compressed_size_chunk_only,
            "{what} with {scheme}: statistics of {c} are {s:?}"
        );
    }
    Ok(())
}

fn check_times(what: &str, total: u64, each: &[u64], t: &ebi::time::SerializableSegmentedExecutionTimes, names: usize, rows: usize) -> Case {
    ensure!(each.len() == names, "{what}: times of {} queries, names of {names}", each.len());
    ensure!(each.iter().sum::<u64>() == total, "{what}: {each:?} ns add up to {total}");
    crate::cli::fits(what, total, t, rows > 0)
}
pub fn check_h01(what: &str, r: &HashMap<String, TpchResult01>, rows: &[Row], refs: &[(String, Ref)], simple: bool) -> Case {
    ensure!(r.len() == refs.len(), "{what}: results of {} schemes", r.len());
    for (name, rf) in refs {
        let Some(x) = r.get(name) else { bail!("{what}: no result for {name}") };
        compare(what, name, &x.result, if simple { &rf.simple } else { &rf.h01 }, Some(rows.len()))?;
        check_stats(what, name, rows.len(), &x.compression)?;
        check_times(what, x.query_elapsed_time, &x.queries_elapsed_time, &x.timer, x.query_names.len(), rows.len())?;
        if !simple {
            let names: Vec<&str> = x.query_names.iter().skip(1).map(|s| s.as_str()).collect();
            ensure!(names == ["AVG(l_quantity)", "AVG(l_extendedprice)", "AVG(l_discount)"], "{what}: the averages are named {names:?}");
        }
    }
    Ok(())
}
pub fn check_h06(r: &HashMap<String, TpchResult06>, rows: &[Row], refs: &[(String, Ref)]) -> Case {
    ensure!(r.len() == refs.len(), "h06: results of {} schemes", r.len());
    for (name, rf) in refs {
        let Some(x) = r.get(name) else { bail!("h06: no result for {name}") };
        compare("h06", name, &x.result, &rf.h06, None)?;
        check_stats("h06", name, rows.len(), &x.compression)?;
        check_times("h06", x.query_elapsed_time, &x.queries_elapsed_time, &x.timer, x.query_names.len(), rows.len())?;
    }
    Ok(())
}

pub fn refs_of(rows: &[Row]) -> Result<Vec<(String, Ref)>, Fail> {
    schemes().into_iter().map(|(n, c)| Ok((n.to_string(), reference(rows, c)?))).collect()
}

fn run_queries(cx: &Cx, rows: &[Row], order: &[usize; 4], flags: bool, scale: i8, group: usize) -> Case {
    let d = Scratch::new();
    let p = d.path("h.parquet");
    write_parquet(&p, rows, order, flags, scale, group);
    let refs = refs_of(rows)?;
    check_h01("h01", &call("h01", || process_h01(&p))?, rows, &refs, false)?;
    check_h01("h01 simplified", &call("h01 simplified", || process_h01_simplified(&p))?, rows, &refs, true)?;
    check_h06(&call("h06", || process_h06(&p))?, rows, &refs)?;
    cx.step(3 * refs.len() as u64);
    Ok(())
}

pub fn p22(cx: &Cx) {
    let len = cx.pick(3, 4);
    let nr = ROWS.len() as u64;
    let perms = permutations();
    cx.run_desc(
        "rows",
        &format!("all tables of 1 to {len} rows out of {} rows around the filter bounds, the column order cycling through all 24, three queries, all 13 schemes", ROWS.len()),
        n_seqs(nr, 1, len),
        |c| {
            let rows: Vec<Row> = nth_seq(nr, 1, len, c).into_iter().map(|i| ROWS[i]).collect();
            cx.state(hash(format!("{rows:?}").as_bytes()));
            run_queries(cx, &rows, &perms[c as usize % 24], c % 2 == 0, 2, 100)
        },
        |c| format!("rows {:?}", nth_seq(nr, 1, len, c)),
    );
    let sizes: &[usize] = if cx.quick() { &[3, 1023, 1024, 1025, 2500] } else { &[3, 4, 7, 100, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 20000] };
    cx.run_desc(
        "layouts",
        &format!("tables of {sizes:?} rows x all 24 column orders x 2..4 decimals x row groups of 7, 1000 or all rows"),
        sizes.len() as u64 * 24,
        |c| {
            let mut g = Dig(c);
            let (n, o) = (sizes[g.take(sizes.len())], g.take(24));
            let rows: Vec<Row> = (0..n)
                .map(|i| {
                    let r = ROWS[(i * 7 + i / 10) % ROWS.len()];
                    [r[0] + (i % 3) as i128, r[1] + i as i128, r[2], r[3]]
                })
                .collect();
            cx.state(hash(format!("{n} {o}").as_bytes()));
            run_queries(cx, &rows, &perms[o], o % 2 == 1, 2 + (o % 3) as i8, [7, 1000, 1 << 20][(o / 3) % 3])
        },
        |c| format!("layout case {c}"),
    );
    cx.run_desc(
        "long",
        "tables of 66000 rows x 6 column orders x 2..4 decimals x row groups of 1000 or all rows",
        6,
        |c| {
            let rows: Vec<Row> = (0..66_000usize)
                .map(|i| {
                    let r = ROWS[(i * 7 + i / 10) % ROWS.len()];
                    [r[0] + (i % 3) as i128, r[1] + i as i128, r[2], r[3]]
                })
                .collect();
            cx.state(hash(format!("long {c}").as_bytes()));
            run_queries(cx, &rows, &perms[c as usize * 4], c % 2 == 1, 2 + (c % 3) as i8, [1000, 1 << 20][c as usize % 2])
        },
        |c| format!("long case {c}"),
    );
    // the whole command: files in a directory, other files skipped, missing files refused
    cx.run("directory", "h01.parquet and h06.parquet present or not, with an unrelated file: the command reports the three results or refuses", 4 * 3, |c| {
        let d = Scratch::new();
        let (h01, h06) = (c & 1 == 1, c & 2 == 2);
        let k = (c / 4) as usize;
        let r1: Vec<Row> = ROWS[k..k + 4].to_vec();
        let r6: Vec<Row> = ROWS[k + 1..k + 6].to_vec();
        if h01 {
            write_parquet(&d.path("h01.parquet"), &r1, &[0, 1, 2, 3], true, 2, 100);
        }
        if h06 {
            write_parquet(&d.path("h06.parquet"), &r6, &[2, 1, 0, 3], false, 2, 100);
        }
        std::fs::write(d.path("notes.txt"), "x").unwrap();
        cx.step(1);
        cx.state(c);
        match guard(|| tpch_command(&d.0)) {
            Err(p) => bail!("the command panicked: {p}"),
            Ok(Err(e)) => {
                ensure!(!(h01 && h06), "the command failed: {e:#}");
            }
            Ok(Ok(r)) => {
                ensure!(h01 && h06, "a file is missing but the command succeeded");
                let (f1, f6) = (refs_of(&r1)?, refs_of(&r6)?);
                check_h01("h01", &r.h01, &r1, &f1, false)?;
                check_h01("h01 simplified", &r.h01_simplified, &r1, &f1, true)?;
                check_h06(&r.h06, &r6, &f6)?;
            }
        }
        Ok(())
    });
}

fn permutations() -> Vec<[usize; 4]> {
    let mut v = vec![];
    for i in 0..256usize {
        let p = [i & 3, (i >> 2) & 3, (i >> 4) & 3, (i >> 6) & 3];
        if (0..4).all(|x| p.contains(&x)) {
            v.push(p);
        }
    }
    v
}
