//! The experiments over whole archives: 1-NN over UCR-style archives, embeddings and TPC-H from the command line (P29).
use crate::{
    bail,
    cli::{configs, exp, exp_limited, fits},
    common::{encode_cfg, materialize, open, same_bits},
    ensure,
    fw::{nth_seq, Case, Cx, Fail},
    tools::{dec_prec, hash, tail, Scratch},
    tpch::{check_h01, check_h06, refs_of, write_parquet, Row, ROWS},
};
use ebi::compressor::CompressorConfig;
use experimenter::{
    tpch::{TpchResult01, TpchResult06},
    CompressStatistics, Output, SimpleCompressionPerformanceForOneDataset, UCR2018Result, DEFAULT_CHUNK_OPTION,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    path::{Path, PathBuf},
};

/// everything below a directory
fn tree(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut st = vec![root.to_path_buf()];
    while let Some(d) = st.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                st.push(e.path());
            } else {
                m.insert(e.path(), fs::read(e.path()).unwrap());
            }
        }
    }
    m
}

/// The files a run added, which have to be in one new directory below `base`; nothing else may have changed.
fn added(what: &str, before: &BTreeMap<PathBuf, Vec<u8>>, root: &Path, base: &Path) -> Result<BTreeMap<String, Vec<u8>>, Fail> {
    let now = tree(root);
    for (p, b) in before {
        ensure3(now.get(p) == Some(b), || format!("{what} changed or removed {}", p.display()))?;
    }
    let new: Vec<_> = now.iter().filter(|(p, _)| !before.contains_key(*p)).collect();
    let dirs: BTreeSet<&Path> = new.iter().map(|(p, _)| p.parent().unwrap()).collect();
    ensure3(dirs.len() == 1, || format!("{what} wrote into {} directories: {dirs:?}", dirs.len()))?;
    let d = dirs.into_iter().next().unwrap();
    ensure3(d.parent() == Some(base), || format!("{what} wrote into {}, not into a directory of its own in {}", d.display(), base.display()))?;
    ensure3(!before.keys().any(|p| p.starts_with(d)), || format!("{what} added to the results of an earlier run in {}", d.display()))?;
    Ok(new.into_iter().map(|(p, b)| (p.file_name().unwrap().to_string_lossy().into_owned(), b.clone())).collect())
}
fn ensure3(c: bool, f: impl FnOnce() -> String) -> Case {
    if c {
        Ok(())
    } else {
        Err(f().into())
    }
}

struct Ucr {
    name: String,
    /// lies in the directory of the adjusted data sets
    adjusted: bool,
    head: [String; 2],
    train: Vec<(i64, Vec<String>)>,
    test: Vec<(i64, Vec<String>)>,
}
impl Ucr {
    fn text(head: &str, rows: &[(i64, Vec<String>)]) -> String {
        let mut s = format!("{head}\n");
        for (l, v) in rows {
            s += &format!("{l}\t{}\n", v.join("\t"));
        }
        s
    }
    fn write(&self, root: &Path) {
        let mut d = root.to_path_buf();
        if self.adjusted {
            d.push("Missing_value_and_variable_length_datasets_adjusted");
        }
        d.push(&self.name);
        fs::create_dir_all(&d).unwrap();
        fs::write(d.join(format!("{}_TRAIN.tsv", self.name)), Self::text(&self.head[0], &self.train)).unwrap();
        fs::write(d.join(format!("{}_TEST.tsv", self.name)), Self::text(&self.head[1], &self.test)).unwrap();
    }
    /// the most decimals of a value, leaving out less than 1% of the values
    fn prec(&self) -> usize {
        let text = Self::text(&self.head[0], &self.train);
        let mut p: Vec<usize> = text.lines().flat_map(|l| l.split('\t')).filter(|s| !s.is_empty()).map(|s| dec_prec(s.trim())).collect();
        p.sort();
        let n = p.len();
        (0..n).rev().find(|&i| (n - p.iter().position(|x| *x == p[i]).unwrap()) as f64 / n as f64 >= 0.01).map(|i| p[i]).unwrap()
    }
    fn values(rows: &[(i64, Vec<String>)], p: usize) -> Vec<Vec<f64>> {
        let s = 10f64.powi(p as i32);
        rows.iter()
            .map(|(_, v)| {
                v.iter()
                    .map(|x| {
                        let x: f64 = x.parse().unwrap();
                        if x.is_nan() {
                            0.0
                        } else {
                            (x * s).round() / s
                        }
                    })
                    .collect()
            })
            .collect()
    }
}

/// least and greatest number of right answers, the training values being at most `err.0` too small or `err.1` too great
fn right(train: &[Vec<f64>], tl: &[i64], test: &[Vec<f64>], el: &[i64], err: (f64, f64)) -> (usize, usize) {
    let (mut lo, mut hi) = (0, 0);
    for (t, l) in test.iter().zip(el) {
        let iv: Vec<(f64, f64)> = train
            .iter()
            .map(|v| {
                let (mut a, mut b) = (0.0, 0.0);
                for (x, y) in v.iter().zip(t) {
                    let (p, q) = (x - err.0 - y, x + err.1 - y);
                    let m = if p <= 0.0 && q >= 0.0 { 0.0 } else { p.abs().min(q.abs()) };
                    a += m * m;
                    b += p.abs().max(q.abs()).powi(2);
                }
                (a * (1.0 - 1e-9) - 1e-12, b * (1.0 + 1e-9) + 1e-12)
            })
            .collect();
        let best = iv.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
        let ok: Vec<bool> = iv.iter().zip(tl).filter(|(x, _)| x.0 <= best).map(|(_, m)| m == l).collect();
        lo += ok.iter().all(|x| *x) as usize;
        hi += ok.iter().any(|x| *x) as usize;
    }
    (lo, hi)
}

fn check_stat(what: &str, st: &CompressStatistics, v: &[f64], cfg: CompressorConfig) -> Case {
    let b = encode_cfg(cfg, DEFAULT_CHUNK_OPTION, v)?;
    let raw = 8 * v.len() as u64;
    let ratio = |g: f64, n: u64| raw == 0 || (g - n as f64 / raw as f64).abs() <= 1e-9 * g.abs();
    ensure!(
        st.uncompressed_size == raw
            && st.compressed_size == b.len() as u64
            && st.compressed_size_chunk_only <= st.compressed_size
            && ratio(st.compression_ratio, st.compressed_size)
            && ratio(st.compression_ratio_chunk_only, st.compressed_size_chunk_only),
        "{what}: {} records in {} bytes, reported {st:?}",
        v.len(),
        b.len()
    );
    Ok(())
}

fn floats(s: &str) -> Option<Vec<f64>> {
    s.strip_prefix('[')?.strip_suffix(']')?.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}

fn check_ucr(cx: &Cx, file: &str, u: &Ucr, r: &UCR2018Result, scheme: &str, at: Option<u32>) -> Case {
    let what = format!("{file}, data set {}", u.name);
    let Some(x) = r.results.get(&u.name) else { bail!("{what}: no result") };
    let p = u.prec();
    let scale = 10u64.pow(p as u32);
    let cfg = configs(scale).into_iter().find(|c| c.1 == scheme).unwrap().2;
    // nothing is claimed for scales that delta-Sprintz and BUFF cannot keep (P02)
    if scheme == "DeltaSprintz" && p > 9 {
        return Ok(());
    }
    let (train, test) = (Ucr::values(&u.train, p), Ucr::values(&u.test, p));
    ensure!(x.dataset_name == u.name, "{what}: named {}", x.dataset_name);
    ensure!(
        x.config.n == 5 && x.config.k == 1 && x.config.precision == at.map_or(-1, |p| p as isize),
        "{what}: the configuration is reported as {:?}",
        x.config
    );
    ensure!(
        format!("{:?}", x.compression_config.chunk_option) == format!("{DEFAULT_CHUNK_OPTION:?}")
            && x.compression_config.compressor_config.compression_scheme() == cfg.compression_scheme()
            && x.compression_config.compressor_config.scale() == cfg.scale(),
        "{what}: precision {p}, compressed with {:?}",
        x.compression_config
    );
    let flat: Vec<f64> = train.concat();
    check_stat(&what, &x.compression_statistics, &flat, cfg)?;
    // BUFF keeps what rounds to the same decimal, and cuts it off at the precision it is read with
    let half = 0.5 * 10f64.powi(-(p as i32));
    let err = match (scheme, at) {
        ("BUFF", Some(a)) if (a as usize) < p => (half + 10f64.powi(-(a as i32)), half),
        ("BUFF", _) => (half, half),
        _ => (0.0, 0.0),
    };
    let d = &x.decompression_result;
    ensure!(
        d.n == 5 && d.elapsed_time_nanos.len() == 5 && d.execution_times.len() == 5 && d.result_string.len() == 5,
        "{what}: not 5 decompressions"
    );
    for s in &d.result_string {
        let Some(g) = floats(s) else { bail!("{what}: the first values are reported as {s:?}") };
        let ok = g.len() == flat.len().min(5)
            && g.iter().zip(&flat).all(|(g, w)| match scheme {
                "BUFF" => *g >= w - err.0 - 1e-12 * w.abs() && *g <= w + err.1 + 1e-12 * w.abs(),
                "DeltaSprintz" => (g - w).abs() <= 1e-12 * w.abs().max(1.0),
                _ => g.to_bits() == w.to_bits(),
            });
        ensure!(ok, "{what}: the first values of {flat:?} (precision {p}, read at {at:?}) are reported as {g:?}");
    }
    ensure!(
        x.elapsed_time_nanos.len() == test.len()
            && x.execution_times.len() == test.len()
            && x.elapsed_time_nanos.iter().all(|v| v.len() == 5)
            && x.execution_times.iter().all(|v| v.len() == 5),
        "{what}: not 5 measurements of each of the {} vectors",
        test.len()
    );
    for (e, t) in d.elapsed_time_nanos.iter().zip(&d.execution_times) {
        fits(&format!("{what}: decompressing"), *e, t, !flat.is_empty())?;
    }
    for (e, t) in x.elapsed_time_nanos.iter().flatten().zip(x.execution_times.iter().flatten()) {
        fits(&format!("{what}: searching"), *e, t, !flat.is_empty())?;
    }
    let (tl, el): (Vec<i64>, Vec<i64>) = (u.train.iter().map(|x| x.0).collect(), u.test.iter().map(|x| x.0).collect());
    let (lo, hi) = right(&train, &tl, &test, &el, err);
    let n = test.len() as f64;
    ensure!(
        (lo..=hi).any(|k| (x.accuracy - k as f64 / n).abs() < 1e-9),
        "{what}: {lo} to {hi} of {n} test vectors are next to a training vector with their label, reported accuracy {}; train {:?} test {:?}",
        x.accuracy,
        u.train,
        u.test
    );
    cx.step(1);
    Ok(())
}

const PRECS: [u32; 4] = [1, 3, 5, 8];

fn ucr_run(cx: &Cx, sets: &[&Ucr], nth: u64) -> Case {
    let s = Scratch::new();
    let root = s.path("UCRArchive_2018");
    for u in sets {
        u.write(&root);
    }
    // a file next to the data sets is none
    fs::write(root.join("DataSummary.csv"), "x,y\n").unwrap();
    if nth % 2 == 1 {
        // an interrupted earlier experiment
        fs::create_dir_all(s.path("result/ucr2018/000")).unwrap();
        fs::write(s.path("result/ucr2018/000/Chimp.json"), "kept").unwrap();
    }
    for round in 0..2 {
        let before = tree(&s.0);
        let (code, _, err) = exp(&["-i", root.to_str().unwrap(), "ucr2018", "-o", s.0.to_str().unwrap()], &s.0)?;
        ensure!(code == Some(0), "ucr2018 ended with {code:?}: {}", tail(&err));
        let new = added("ucr2018", &before, &s.0, &s.path("result/ucr2018"))?;
        let mut want: BTreeMap<String, (&str, Option<u32>)> = configs(1).iter().map(|c| (format!("{}.json", c.1), (c.1, None))).collect();
        for p in PRECS {
            want.insert(format!("BUFF_{p}.json"), ("BUFF", Some(p)));
        }
        ensure!(new.keys().eq(want.keys()), "ucr2018 wrote {:?}", new.keys());
        for (f, (scheme, at)) in &want {
            let o: Output = serde_json::from_slice(&new[f]).map_err(|e| format!("{f} cannot be read: {e}"))?;
            let Output::UCR2018(r) = o else { bail!("{f} holds something else") };
            ensure!(r.results.len() == sets.len(), "{f}: {} results for {} data sets", r.results.len(), sets.len());
            for u in sets {
                check_ucr(cx, f, u, &r, scheme, *at)?;
                if round == 0 {
                    cx.state(hash(format!("{f} {} {:?} {:?}", u.name, u.train, u.test).as_bytes()));
                }
            }
        }
        if cx.quick() && nth % 2 == 0 {
            break;
        }
    }
    Ok(())
}

fn ucr_sets(cx: &Cx) -> Vec<Ucr> {
    const PT: [[&str; 2]; 3] = [["0.0", "0.0"], ["1.5", "0.25"], ["-2.25", "3.0"]];
    let row = |k: usize| (1 + (k / 3) as i64, PT[k % 3].iter().map(|x| x.to_string()).collect::<Vec<_>>());
    const Q: [[&str; 2]; 4] = [["0.25", "0.0"], ["1.25", "0.25"], ["-2.0", "2.5"], ["0.75", "0.5"]];
    let q = |k: usize, l: i64| (l, Q[k].iter().map(|x| x.to_string()).collect::<Vec<_>>());
    let mut v = vec![];
    let len = cx.pick(3, 4);
    for i in 0..crate::fw::n_seqs(6, 1, len) {
        let train: Vec<_> = nth_seq(6, 1, len, i).into_iter().map(row).collect();
        for t in 0..5 {
            let test = if t < 4 { vec![q(t, 1)] } else { (0..4).map(|k| q(k, 1 + (k as i64 + i as i64) % 2)).collect() };
            v.push(Ucr { name: format!("D{i}x{t}"), adjusted: (i + t as u64) % 7 == 3, head: ["1\t9.5\t9.5".into(), "2\t1.5\t0.25".into()], train: train.clone(), test });
        }
    }
    // decimals, notations, missing values, one or many values per vector
    for p in 0..=12usize {
        for w in [1usize, 3, 7] {
            let num = |k: usize| {
                if p == 0 {
                    format!("{}", k * 3)
                } else {
                    format!("{}.{:0p$}", (k * 7) % 4, (k * 1_234_567 + 1) % 10usize.pow(p as u32))
                }
            };
            let rows = |a: usize, n: usize| (0..n).map(|i| ([3i64, -1, 3, 0][i % 4], (0..w).map(|j| num(a + i * w + j)).collect())).collect::<Vec<(i64, Vec<String>)>>();
            v.push(Ucr { name: format!("P{p}w{w}"), adjusted: p % 3 == 0, head: [format!("1\t{}", vec![num(5); w].join("\t")), format!("1\t{}", vec![num(5); w].join("\t"))], train: rows(3, 5), test: rows(40, 6) });
        }
    }
    for (k, x) in ["NaN", "1e-2", "2.5E1", "-0.0", "+3.5", "1e2", "12345.678"].iter().enumerate() {
        let mk = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
        v.push(Ucr { name: format!("N{k}"), adjusted: k % 2 == 1, head: ["7\tNaN\t0.5".into(), "8\t1\t1".into()], train: vec![(1, mk(x, "2.5")), (2, mk("6.5", x)), (-3, mk("11.25", "-4"))], test: vec![(1, mk(x, "2.25")), (2, mk("7", x)), (1, mk("10", "NaN")), (-3, mk("10", "-3"))] });
    }
    // a few values with more decimals than the precision that is kept
    let many: Vec<(i64, Vec<String>)> = (0..60).map(|i| (i % 3, (0..4).map(|j| if i == 17 && j == 2 { "3.123456".into() } else { format!("{}.{}", (i * 5 + j) % 40, j) }).collect())).collect();
    // long vectors, and many of them
    for (k, (w, n, q)) in [(300usize, 40usize, 3usize), (1500, 8, 2), (4099, 4, 1), (5, 2000, 2)].into_iter().enumerate() {
        let rows = |a: usize, n: usize| (0..n).map(|i| ((i % 5) as i64, (0..w).map(|j| format!("{}.{:02}", ((a + i) * 13 + j * 7) % 30, ((a + i) * 31 + j * 17) % 100)).collect())).collect::<Vec<(i64, Vec<String>)>>();
        v.push(Ucr { name: format!("L{k}"), adjusted: false, head: [format!("1\t{}", vec!["0.5"; w].join("\t")), format!("1\t{}", vec!["0.5"; w].join("\t"))], train: rows(3, n), test: rows(5, q) });
    }
    v.push(Ucr { name: "Rounded".into(), adjusted: false, head: ["0\t1.5\t1.5\t1.5\t1.5".into(), "0\t1\t1\t1\t1".into()], train: many.clone(), test: many[10..25].to_vec() });
    v
}

// ---- embeddings

struct Emb {
    name: String,
    values: Vec<f64>,
    prec: u64,
    written: f64,
}

fn embeddings(cx: &Cx) -> Vec<Emb> {
    const A: [f64; 4] = [0.0, -1.25, 0.07, 31.5];
    let mut v = vec![];
    let len = cx.pick(3, 5);
    for i in 0..crate::fw::n_seqs(4, 0, len) {
        let values: Vec<f64> = nth_seq(4, 0, len, i).into_iter().map(|k| A[k]).collect();
        let prec = 2 + i % 4;
        v.push(Emb { name: format!("e{i}"), values, prec, written: prec as f64 + [0.0, 0.3, -0.4][i as usize % 3] });
    }
    for prec in 0..=22u64 {
        let s = 10f64.powi((prec as i32).min(9));
        let values: Vec<f64> = (0..20i64).map(|i| ((i * 7919 - 50) as f64 / s * s).round() / s).collect();
        v.push(Emb { name: format!("p.{prec}"), values, prec, written: prec as f64 });
    }
    v.push(Emb { name: "runs".into(), values: (0..3000).map(|i| (i / 100) as f64 / 4.0).collect(), prec: 2, written: 2.4 });
    v
}

fn check_emb(cx: &Cx, e: &Emb, r: &HashMap<String, SimpleCompressionPerformanceForOneDataset>) -> Case {
    for (_, scheme, cfg) in configs(10u64.checked_pow(e.prec as u32).unwrap_or(0)) {
        let what = format!("embedding {} with {scheme}", e.name);
        let fixed = cfg.scale().is_some();
        if fixed && e.prec > 12 {
            ensure!(!r.contains_key(scheme), "{what}: a result for a precision of {}", e.prec);
            continue;
        }
        let Some(x) = r.get(scheme) else { bail!("{what}: no result") };
        ensure!(x.dataset_name == e.name && x.precision == e.prec && x.n == 10, "{what}: {} / precision {} (of {}) / n {}", x.dataset_name, x.precision, e.prec, x.n);
        let c = &x.compression_config;
        ensure!(
            format!("{:?}", c.chunk_option) == format!("{DEFAULT_CHUNK_OPTION:?}")
                && c.compressor_config.compression_scheme() == cfg.compression_scheme()
                && c.compressor_config.scale() == cfg.scale(),
            "{what}: compressed with {c:?}"
        );
        ensure!(
            [
                x.compression_elapsed_time_nanos.len(),
                x.compression_segmented_execution_times.len(),
                x.compression_statistics.len(),
                x.compression_result_string.len(),
                x.decompression_elapsed_time_nanos.len(),
                x.decompression_segmented_execution_times.len(),
                x.decompression_result_string.len()
            ]
            .iter()
            .all(|n| *n == 10),
            "{what}: not 10 measurements of each kind"
        );
        for (el, t) in x.compression_elapsed_time_nanos.iter().zip(&x.compression_segmented_execution_times) {
            fits(&format!("{what}: compressing"), *el, t, !e.values.is_empty())?;
        }
        for (el, t) in x.decompression_elapsed_time_nanos.iter().zip(&x.decompression_segmented_execution_times) {
            fits(&format!("{what}: decompressing"), *el, t, !e.values.is_empty())?;
        }
        if scheme == "DeltaSprintz" && e.prec > 9 {
            continue;
        }
        for st in &x.compression_statistics {
            check_stat(&what, st, &e.values, cfg)?;
        }
        let b = encode_cfg(cfg, DEFAULT_CHUNK_OPTION, &e.values)?;
        let stored = materialize(&mut open(b.clone())?, None, None)?;
        ensure!(fixed || same_bits(&stored, &e.values), "{what}: the values are not kept");
        let out: Vec<u8> = stored.iter().flat_map(|x| x.to_le_bytes()).take(5).collect();
        for s in &x.compression_result_string {
            ensure!(*s == format!("{:?}", &b[..5]), "{what}: the compressed bytes are reported as {s}");
        }
        for s in &x.decompression_result_string {
            ensure!(*s == format!("{out:?}"), "{what}: the first bytes are {out:?}, reported {s}");
        }
        cx.step(1);
    }
    let n = configs(1).len() - if e.prec > 12 { 2 } else { 0 };
    ensure!(r.len() == n, "embedding {}: results of {} schemes, {n} expected", e.name, r.len());
    Ok(())
}

fn emb_run(cx: &Cx, es: &[Emb], nth: u64) -> Case {
    let s = Scratch::new();
    let (data, out) = (s.path("in/data"), s.path("out"));
    fs::create_dir_all(&data).unwrap();
    fs::create_dir_all(&out).unwrap();
    for e in es {
        fs::write(data.join(format!("{}.bin", e.name)), e.values.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
    }
    let m: BTreeMap<&str, f64> = es.iter().map(|e| (e.name.as_str(), e.written)).collect();
    fs::write(data.join("precision_data.json"), serde_json::to_string(&m).unwrap()).unwrap();
    // other files and directories are left alone
    fs::write(data.join("notes.txt"), "x").unwrap();
    fs::write(data.join("README"), "x").unwrap();
    fs::create_dir_all(data.join("old.bin")).unwrap();
    if nth % 2 == 1 {
        fs::create_dir_all(out.join("result/embedding/000")).unwrap();
        fs::write(out.join("result/embedding/000/embedding_result.json"), "kept").unwrap();
    }
    for round in 0..2 {
        let before = tree(&s.0);
        let (code, _, err) = exp(&["-i", data.to_str().unwrap(), "embedding", "-o", out.to_str().unwrap()], &s.0)?;
        ensure!(code == Some(0), "embedding ended with {code:?}: {}", tail(&err));
        let new = added("embedding", &before, &s.0, &out.join("result/embedding"))?;
        ensure!(new.keys().eq(["embedding_result.json"].iter()), "embedding wrote {:?}", new.keys());
        let o: Output = serde_json::from_slice(&new["embedding_result.json"]).map_err(|e| format!("the result cannot be read: {e}"))?;
        let Output::Embedding(r) = o else { bail!("the result holds something else") };
        ensure!(r.len() == es.len(), "embedding: results of {} data sets, {} expected", r.len(), es.len());
        for e in es {
            let Some(x) = r.get(&e.name) else { bail!("embedding: no result of {}", e.name) };
            check_emb(cx, e, x)?;
            if round == 0 {
                cx.state(hash(format!("{} {:?} {}", e.name, e.values, e.prec).as_bytes()));
            }
        }
    }
    Ok(())
}

// ---- TPC-H

fn tpch_run(cx: &Cx, c: u64) -> Case {
    let s = Scratch::new();
    let (data, out) = (s.path("data"), s.path("out"));
    fs::create_dir_all(&data).unwrap();
    fs::create_dir_all(&out).unwrap();
    let k = (c / 2) as usize % 4;
    let r1: Vec<Row> = ROWS[k..k + 5].to_vec();
    let r6: Vec<Row> = ROWS[k + 1..k + 6].iter().rev().copied().collect();
    write_parquet(&data.join("h01.parquet"), &r1, &[3, 1, 0, 2], c & 1 == 0, 2, 100);
    write_parquet(&data.join("h06.parquet"), &r6, &[2, 1, 0, 3], c & 1 == 1, 2, 3);
    if c & 1 == 1 {
        fs::create_dir_all(out.join("result/tpch/000")).unwrap();
        fs::write(out.join("result/tpch/000/tpch_01.json"), "kept").unwrap();
    }
    let (f1, f6) = (refs_of(&r1)?, refs_of(&r6)?);
    for _ in 0..2 {
        let before = tree(&s.0);
        let (code, _, err) = exp(&["tpch", "-i", data.to_str().unwrap(), "-o", out.to_str().unwrap()], &s.0)?;
        ensure!(code == Some(0), "tpch ended with {code:?}: {}", tail(&err));
        let new = added("tpch", &before, &s.0, &out.join("result/tpch"))?;
        ensure!(new.keys().eq(["tpch_01.json", "tpch_01_simplified.json", "tpch_06.json"].iter()), "tpch wrote {:?}", new.keys());
        for (f, simple) in [("tpch_01.json", false), ("tpch_01_simplified.json", true)] {
            let r: Vec<HashMap<String, TpchResult01>> = serde_json::from_slice(&new[f]).map_err(|e| format!("{f} cannot be read: {e}"))?;
            ensure!(r.len() == 5, "{f}: {} runs", r.len());
            for x in &r {
                check_h01(f, x, &r1, &f1, simple)?;
                cx.step(1);
            }
        }
        let r: Vec<HashMap<String, TpchResult06>> = serde_json::from_slice(&new["tpch_06.json"]).map_err(|e| format!("tpch_06.json cannot be read: {e}"))?;
        ensure!(r.len() == 5, "tpch_06.json: {} runs", r.len());
        for x in &r {
            check_h06(x, &r6, &f6)?;
            cx.step(1);
        }
    }
    cx.state(c);
    Ok(())
}

/// An experiment that cannot run or whose results do not fit says so.
fn refused(cx: &Cx, c: u64) -> Case {
    let s = Scratch::new();
    let (data, out) = (s.path("in/data"), s.path("in"));
    fs::create_dir_all(&data).unwrap();
    let k = c / 3;
    let cmd = ["ucr2018", "embedding", "tpch"][c as usize % 3];
    match cmd {
        "ucr2018" => {
            let u = Ucr { name: "A".into(), adjusted: false, head: ["1\t1".into(), "1\t1".into()], train: vec![(1, vec!["1.5".into()])], test: vec![(1, vec!["1.5".into()])] };
            u.write(&data);
            if k == 1 {
                fs::remove_file(data.join("A/A_TRAIN.tsv")).unwrap();
            }
        }
        "embedding" => {
            fs::write(data.join("a.bin"), 1.5f64.to_le_bytes()).unwrap();
            if k != 1 {
                fs::write(data.join("precision_data.json"), "{\"a\": 1}").unwrap();
            }
        }
        _ => {
            write_parquet(&data.join("h01.parquet"), &ROWS[..3], &[0, 1, 2, 3], true, 2, 100);
            if k != 1 {
                write_parquet(&data.join("h06.parquet"), &ROWS[..3], &[0, 1, 2, 3], true, 2, 100);
            }
        }
    }
    let dir = if k == 0 { s.path("nowhere") } else { data.clone() };
    let (i, o) = (dir.to_str().unwrap(), out.to_str().unwrap());
    let args: Vec<&str> = if cmd == "tpch" { vec!["tpch", "-i", i, "-o", o] } else { vec!["-i", i, cmd, "-o", o] };
    // results are some kilobytes long
    let limit = if k >= 2 { Some([0u64, 100, 1000][k as usize - 2]) } else { None };
    let (code, _, err) = exp_limited(&args, &s.0, limit)?;
    cx.step(1);
    cx.state(c);
    let why = ["the input directory does not exist", "a file is missing", "the results do not fit", "the results do not fit", "the results do not fit"][k as usize];
    ensure!(code != Some(0), "{cmd} ended with {code:?} although {why} (limit {limit:?}): {}", tail(&err));
    Ok(())
}

/// Earlier results stay as they are, however many there are.
fn numbered(cx: &Cx, cmd: usize, gap: usize, n: usize) -> Case {
    let s = Scratch::new();
    // the results of ucr2018 lie next to the archive
    let (data, out) = (s.path("data"), if cmd == 0 { s.0.clone() } else { s.path("out") });
    fs::create_dir_all(&data).unwrap();
    let name = ["ucr2018", "embedding", "tpch"][cmd];
    match cmd {
        0 => Ucr { name: "A".into(), adjusted: false, head: ["1\t1".into(), "1\t1".into()], train: vec![(1, vec!["1.5".into()])], test: vec![(1, vec!["1.5".into()])] }.write(&data),
        1 => {
            fs::write(data.join("a.bin"), 1.5f64.to_le_bytes()).unwrap();
            fs::write(data.join("precision_data.json"), "{\"a\": 1}").unwrap();
        }
        _ => ["h01.parquet", "h06.parquet"].iter().for_each(|f| write_parquet(&data.join(f), &ROWS[..3], &[0, 1, 2, 3], true, 2, 100)),
    }
    let base = out.join("result").join(name);
    fs::create_dir_all(&base).unwrap();
    let skip = [usize::MAX, n / 2][gap];
    for i in (0..n).filter(|&i| i != skip) {
        let d = base.join(format!("{i:03}"));
        fs::create_dir(&d).unwrap();
        for f in ["RLE.json", "embedding_result.json", "tpch_06.json"] {
            fs::write(d.join(f), "earlier").unwrap();
        }
    }
    for _ in 0..2 {
        let before = tree(&s.0);
        let (i, o) = (data.to_str().unwrap(), out.to_str().unwrap());
        let args: Vec<&str> = if cmd == 2 { vec!["tpch", "-i", i, "-o", o] } else { vec!["-i", i, name, "-o", o] };
        let (code, _, err) = exp(&args, &s.0)?;
        ensure!(code == Some(0), "{name} after {n} experiments ended with {code:?}: {}", tail(&err));
        added(&format!("{name} after {n} experiments (without number {skip})"), &before, &s.0, &base)?;
        cx.step(1);
    }
    cx.state((n * 6 + cmd * 2 + gap) as u64);
    Ok(())
}

pub fn p29(cx: &Cx) {
    let sets = ucr_sets(cx);
    let n = cx.pick(48, 60) as usize;
    // mix small and large data sets
    let k = sets.len().div_ceil(n);
    let groups: Vec<Vec<&Ucr>> = (0..k).map(|g| sets.iter().skip(g).step_by(k).collect()).collect();
    cx.run_desc(
        "ucr",
        &format!("{} data sets (all training sets of 1 to {} out of 6 labelled vectors x 5 test sets; 0 to 12 decimals x 1, 3 or 7 values; missing values and notations) in {k} archives: 13 schemes, BUFF also at {PRECS:?} decimals, run once or twice", sets.len(), cx.pick(3, 4)),
        k as u64,
        |c| ucr_run(cx, &groups[c as usize], c),
        |c| format!("archive {c}: {:?}", groups[c as usize].iter().map(|u| &u.name).collect::<Vec<_>>()),
    );
    let es = embeddings(cx);
    let eg: Vec<&[Emb]> = es.chunks(10).collect();
    cx.run_desc(
        "embedding",
        &format!("{} files (all of 0 to {} values out of 4; a precision of 0 to 22; long runs), each experiment run twice", es.len(), cx.pick(3, 5)),
        eg.len() as u64,
        |c| emb_run(cx, eg[c as usize], c),
        |c| format!("files {:?}", eg[c as usize].iter().map(|e| &e.name).collect::<Vec<_>>()),
    );
    cx.run("tpch", "4 pairs of tables x 2 layouts, the command run twice", 8, |c| tpch_run(cx, c));
    cx.run("refused", "the three experiments with a missing directory, a missing file or room for 0, 100 or 1000 bytes per file", 15, |c| refused(cx, c));
    let tops: Vec<usize> = if cx.quick() { vec![0, 1, 2, 9, 10, 99, 100, 101, 999, 1000, 1001] } else { (0..120).chain(990..1010).collect() };
    cx.run_desc(
        "numbered",
        &format!("the three experiments, run twice after {tops:?} others, with or without one missing between them"),
        (tops.len() * 6) as u64,
        |c| {
            let mut d = crate::fw::Dig(c);
            let (cmd, gap) = (d.take(3), d.take(2));
            numbered(cx, cmd, gap, tops[d.take(tops.len())])
        },
        |c| format!("{c}"),
    );
}
