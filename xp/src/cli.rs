//! The experimenter's commands (P23), and the configuration and result files they use (P24).
use crate::{
    bail,
    common::{chunk_sizes, materialize, open, same_bits, Bound, Pred},
    ensure,
    fw::{guard, nth_seq, Case, Cx, Dig, Fail},
    tools::{bin, hash, run, tail, Scratch},
};
use ebi::{api::decoder::ChunkId, compressor::CompressorConfig, encoder::ChunkOption};
use experimenter::{
    CompressionConfig, FilterConfig, FilterMaterializeConfig, MaterializeConfig, MaxConfig, Output, SumConfig,
};
use std::{
    collections::{BTreeMap, HashMap},
    fs,
    path::{Path, PathBuf},
    process::Command,
};

pub fn configs(scale: u64) -> Vec<(&'static str, &'static str, CompressorConfig)> {
    vec![
        ("uncompressed", "Uncompressed", CompressorConfig::uncompressed().build().into()),
        ("chimp128", "Chimp128", CompressorConfig::chimp128().build().into()),
        ("chimp", "Chimp", CompressorConfig::chimp().build().into()),
        ("elf_on_chimp", "ElfOnChimp", CompressorConfig::elf_on_chimp().build().into()),
        ("elf", "Elf", CompressorConfig::elf().build().into()),
        ("gorilla", "Gorilla", CompressorConfig::gorilla().build().into()),
        ("rle", "RLE", CompressorConfig::rle().build().into()),
        ("zstd", "Zstd", CompressorConfig::zstd().build().into()),
        ("gzip", "Gzip", CompressorConfig::gzip().build().into()),
        ("snappy", "Snappy", CompressorConfig::snappy().build().into()),
        ("ffi_alp", "FFIAlp", CompressorConfig::ffi_alp().build().into()),
        ("delta_sprintz", "DeltaSprintz", CompressorConfig::delta_sprintz().scale(scale).build().into()),
        ("buff", "BUFF", CompressorConfig::buff().scale(scale).build().into()),
    ]
}

pub fn exp(args: &[&str], cwd: &Path) -> Result<(Option<i32>, String, String), Fail> {
    exp_limited(args, cwd, None)
}
/// `limit`: no file may grow beyond this many bytes
pub fn exp_limited(args: &[&str], cwd: &Path, limit: Option<u64>) -> Result<(Option<i32>, String, String), Fail> {
    use std::os::unix::process::CommandExt;
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut cmd = Command::new(bin("experimenter"));
    cmd.args(args).current_dir(cwd).env("LD_PRELOAD", format!("{dir}/target/xp-shim.so")).env("RUST_BACKTRACE", "0");
    if let Some(l) = limit {
        // SAFETY: only async-signal-safe calls
        unsafe {
            cmd.pre_exec(move || {
                let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    run(&mut cmd)
}

fn datasets(thorough: bool) -> Vec<(String, Vec<f64>)> {
    const A: [f64; 5] = [0.0, 1.25, -3.5, 100.01, 0.07];
    let mut v = vec![];
    let n = if thorough { 3 } else { 2 };
    for i in 0..crate::fw::n_seqs(5, 1, n) {
        v.push((format!("s{i:03}"), nth_seq(5, 1, n, i).into_iter().map(|k| A[k]).collect()));
    }
    v.push(("t_runs".into(), vec![2.5, 2.5, 2.5, 7.0, 7.0, -1.0, -1.0, -1.0, -1.0, 2.5]));
    v.push(("t_ramp".into(), (0..15).map(|i| i as f64 / 4.0).collect()));
    v.push(("t_long".into(), (0..9001).map(|i| ((i * 37) % 2003) as f64 / 4.0 - 100.0).collect()));
    v.push(("t.dots.in.name".into(), vec![3.25, 4.5, 3.25]));
    v
}

fn write_bins(root: &Path, data: &[(String, Vec<f64>)]) {
    fs::create_dir_all(root.join("binary")).unwrap();
    for (n, v) in data {
        fs::write(root.join(format!("binary/{n}.bin")), v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
    }
}

struct World<'a> {
    s: Scratch,
    data: &'a [(String, Vec<f64>)],
    opt: ChunkOption,
    cfg: CompressorConfig,
    mem: bool,
    /// the values the scheme keeps
    stored: HashMap<String, Vec<f64>>,
    /// result files seen so far and their contents
    seen: BTreeMap<PathBuf, Vec<u8>>,
}

fn all_json(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut st = vec![root.join("result")];
    while let Some(d) = st.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                st.push(e.path());
            } else {
                m.insert(e.path(), fs::read(e.path()).unwrap());
            }
        }
    }
    m
}

impl World<'_> {
    /// Run a command over all files and return the result written for each data set.
    fn command(&mut self, cmd: &str, cfg_json: &str, ext: &str) -> Result<HashMap<String, Output>, Fail> {
        let root = self.s.0.clone();
        fs::write(root.join("config.json"), cfg_json).unwrap();
        let mem = self.mem.to_string();
        let (code, _, err) = exp(
            &[
                "--input",
                &format!("{}/binary/*.{ext}", root.display()),
                cmd,
                "--config",
                &format!("{}/config.json", root.display()),
                "--in-memory",
                &mem,
            ],
            &root,
        )?;
        ensure_(code == Some(0), || format!("{cmd} ended with {code:?}: {}", tail(&err)))?;
        let now = all_json(&root);
        for (p, b) in &self.seen {
            ensure_(now.get(p) == Some(b), || format!("{cmd} changed or removed the earlier result {}", p.display()))?;
        }
        let mut out = HashMap::new();
        let dir = cmd.replace('-', "_");
        for (n, _) in self.data {
            let d = root.join("result").join(n).join(&dir);
            let new: Vec<_> = now.iter().filter(|(p, _)| p.starts_with(&d) && !self.seen.contains_key(*p)).collect();
            ensure_(new.len() == 1, || format!("{cmd} on {n}: {} new results; stderr: {}", new.len(), tail(&err)))?;
            let o: Output = serde_json::from_slice(new[0].1).map_err(|e| Fail::from(format!("{cmd} on {n}: the result cannot be read: {e}")))?;
            fits_output(&format!("{cmd} on {n}"), &o, cmd == "compress")?;
            out.insert(n.clone(), o);
        }
        let fresh = now.len() - self.seen.len();
        ensure_(fresh == self.data.len(), || format!("{cmd}: {fresh} new results for {} files", self.data.len()))?;
        self.seen = now;
        Ok(out)
    }
    /// indices of the records a mask and a chunk select
    fn select(&self, n: usize, mask: &Option<Vec<u32>>, chunk: Option<usize>) -> Vec<usize> {
        let mut start = 0;
        let mut range = 0..n;
        if let Some(c) = chunk {
            for (i, k) in chunk_sizes(self.opt, n).into_iter().enumerate() {
                if i == c {
                    range = start..start + k;
                }
                start += k;
            }
        }
        range.filter(|i| mask.as_ref().is_none_or(|m| m.contains(&(*i as u32)))).collect()
    }
    fn check_common(&self, what: &str, in_mem: bool, c: &CompressionConfig, file: &str, name: &str) -> Case {
        ensure!(in_mem == self.mem, "{what}: in_memory is reported as {in_mem}");
        ensure!(
            format!("{:?}", c.chunk_option) == format!("{:?}", self.opt)
                && c.compressor_config.compression_scheme() == self.cfg.compression_scheme()
                && c.compressor_config.scale() == self.cfg.scale(),
            "{what}: the configuration is reported as {c:?}"
        );
        ensure!(Path::new(file).file_stem().is_some_and(|s| s.to_string_lossy() == name), "{what}: the input is reported as {file}");
        Ok(())
    }
    fn output_file(&self, name: &str, ext: &str) -> Result<Vec<f64>, Fail> {
        let p = self.s.0.join("binary").join(format!("{name}.{ext}"));
        let b = fs::read(&p).map_err(|e| format!("{}: {e}", p.display()))?;
        crate::common::f64s_of(&b).ok_or_else(|| "an output holds a partial record".into())
    }
}
fn ensure_(c: bool, f: impl FnOnce() -> String) -> Case {
    if c {
        Ok(())
    } else {
        Err(f().into())
    }
}

fn parse_bitmap(s: &str) -> Option<Vec<usize>> {
    let a = s.find('[')?;
    let b = s.rfind(']')?;
    s[a + 1..b].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}

fn world(cx: &Cx, ci: usize, opt: ChunkOption, mem: bool, data: &[(String, Vec<f64>)]) -> Case {
    let (_, scheme, cfg) = configs(100)[ci];
    let s = Scratch::new();
    write_bins(&s.0, data);
    let mut w = World { s, data, opt, cfg, mem, stored: HashMap::new(), seen: BTreeMap::new() };
    // compress
    let json = serde_json::to_string(&CompressionConfig::new(opt, cfg)).unwrap();
    let out = w.command("compress", &json, "bin")?;
    let mut stored = HashMap::new();
    for (n, v) in data {
        let Output::Compress(o) = &out[n] else { bail!("compress {n}: not a compress result") };
        w.check_common("compress", o.in_memory, &o.compression_config, &o.input_filename, n)?;
        ensure!(o.result_string.ends_with(&format!(" {}", v.len())), "compress {n}: {} records, reported {:?}", v.len(), o.result_string);
        let p = w.s.0.join("binary").join(format!("{n}.ebi"));
        let b = fs::read(&p).map_err(|e| format!("compress {n}: {}: {e}", p.display()))?;
        let (len, st) = (b.len() as u64, &o.command_specific);
        ensure!(
            st.uncompressed_size == 8 * v.len() as u64
                && st.compressed_size == len
                && st.compressed_size_chunk_only < len
                && (st.compression_ratio - len as f64 / (8.0 * v.len() as f64)).abs() < 1e-9,
            "compress {n} with {scheme}: {} records in {len} bytes, reported {st:?}",
            v.len()
        );
        let got = materialize(&mut open(b)?, None, None)?;
        let ok = got.len() == v.len() && got.iter().zip(v).all(|(a, b)| (a * 100.0).round() == (b * 100.0).round());
        ensure!(ok && (cfg.scale().is_some() || same_bits(&got, v)), "compress {n} with {scheme} {opt:?}: the file decodes to {got:?}");
        stored.insert(n.clone(), got);
        cx.step(1);
    }
    w.stored = stored;
    let masks: [Option<Vec<u32>>; 3] = [None, Some(vec![0, 2, 3, 9]), Some((0..20).collect())];
    let chunks = [None, Some(0usize)];
    for mask in &masks {
        for &chunk in &chunks {
            let id = chunk.map(ChunkId::new);
            // materialize
            let json = serde_json::to_string(&MaterializeConfig { chunk_id: id, bitmask: mask.clone() }).unwrap();
            let out = w.command("materialize", &json, "ebi")?;
            for (n, v) in data {
                let Output::Materialize(o) = &out[n] else { bail!("materialize {n}: not a materialize result") };
                w.check_common("materialize", o.in_memory, &o.compression_config, &o.input_filename, n)?;
                let want: Vec<f64> = w.select(v.len(), mask, chunk).iter().map(|&i| w.stored[n][i]).collect();
                if mem {
                    ensure!(o.result_string.ends_with(&format!(" {}", want.len() * 8)), "materialize {n} ({scheme}, mask {mask:?}, chunk {chunk:?}): {} bytes, reported {:?}", want.len() * 8, o.result_string);
                } else {
                    let got = w.output_file(n, "materialized")?;
                    ensure!(same_bits(&got, &want), "materialize {n} ({scheme} {opt:?}, mask {mask:?}, chunk {chunk:?}): {want:?}, written {got:?}");
                }
                cx.step(1);
            }
            // max, sum
            let json = serde_json::to_string(&MaxConfig { chunk_id: id, bitmask: mask.clone() }).unwrap();
            let out = w.command("max", &json, "ebi")?;
            for (n, v) in data {
                let Output::Max(o) = &out[n] else { bail!("max {n}: not a max result") };
                w.check_common("max", o.in_memory, &o.compression_config, &o.input_filename, n)?;
                let want = w.select(v.len(), mask, chunk).iter().map(|&i| w.stored[n][i]).fold(f64::NEG_INFINITY, f64::max);
                let got: f64 = o.result_string.parse().map_err(|_| format!("max {n}: reported {:?}", o.result_string))?;
                ensure!((got - want).abs() <= 1e-9 * want.abs(), "max {n} ({scheme} {opt:?}, mask {mask:?}, chunk {chunk:?}): {want}, reported {got}");
                cx.step(1);
            }
            let json = serde_json::to_string(&SumConfig { chunk_id: id, bitmask: mask.clone() }).unwrap();
            let out = w.command("sum", &json, "ebi")?;
            for (n, v) in data {
                let Output::Sum(o) = &out[n] else { bail!("sum {n}: not a sum result") };
                w.check_common("sum", o.in_memory, &o.compression_config, &o.input_filename, n)?;
                let sel = w.select(v.len(), mask, chunk);
                let want: f64 = sel.iter().map(|&i| w.stored[n][i]).sum();
                let mag: f64 = sel.iter().map(|&i| w.stored[n][i].abs()).sum();
                let got: f64 = o.result_string.parse().map_err(|_| format!("sum {n}: reported {:?}", o.result_string))?;
                ensure!((got - want).abs() <= 1e-9 * mag.max(1.0), "sum {n} ({scheme} {opt:?}, mask {mask:?}, chunk {chunk:?}): {want}, reported {got}");
                cx.step(1);
            }
        }
    }
    // filters
    let preds = [
        Pred::Eq(1.25),
        Pred::Ne(1.25),
        Pred::Range(Bound::Exc(0.0), Bound::None),
        Pred::Range(Bound::Inc(-3.5), Bound::Exc(1.25)),
        Pred::Range(Bound::None, Bound::Inc(0.07)),
    ];
    for (k, pred) in preds.iter().enumerate() {
        let mask = &masks[k % 3];
        let chunk = chunks[k % 2];
        let id = chunk.map(ChunkId::new);
        let sel = |w: &World, n: &str, v: &[f64]| -> Vec<usize> {
            let _ = n;
            w.select(v.len(), mask, chunk).into_iter().filter(|&i| pred.holds(v[i])).collect()
        };
        let json = serde_json::to_string(&FilterConfig { predicate: pred.to(), chunk_id: id, bitmask: mask.clone() }).unwrap();
        let out = w.command("filter", &json, "ebi")?;
        for (n, v) in data {
            let Output::Filter(o) = &out[n] else { bail!("filter {n}: not a filter result") };
            w.check_common("filter", o.in_memory, &o.compression_config, &o.input_filename, n)?;
            let want = sel(&w, n, v);
            let got = parse_bitmap(&o.result_string);
            // long lists are abbreviated by RoaringBitmap's own printer
            let brief = want.len() >= 16 && o.result_string == format!("{:?}", want.iter().map(|&i| i as u32).collect::<roaring::RoaringBitmap>());
            ensure!(brief || got.as_ref() == Some(&want), "filter {n} {pred:?} ({scheme} {opt:?}, mask {mask:?}, chunk {chunk:?}): {want:?}, reported {:?}", o.result_string);
            cx.step(1);
        }
        let json = serde_json::to_string(&FilterMaterializeConfig { predicate: pred.to(), chunk_id: id, bitmask: mask.clone() }).unwrap();
        let out = w.command("filter-materialize", &json, "ebi")?;
        for (n, v) in data {
            let Output::FilterMaterialize(o) = &out[n] else { bail!("filter-materialize {n}: not such a result") };
            w.check_common("filter-materialize", o.in_memory, &o.compression_config, &o.input_filename, n)?;
            let want: Vec<f64> = sel(&w, n, v).iter().map(|&i| w.stored[n][i]).collect();
            if mem {
                ensure!(o.result_string.ends_with(&format!(" {}", want.len() * 8)), "filter-materialize {n} {pred:?} ({scheme}): {} bytes, reported {:?}", want.len() * 8, o.result_string);
            } else {
                let got = w.output_file(n, "filter_materialized")?;
                ensure!(same_bits(&got, &want), "filter-materialize {n} {pred:?} ({scheme} {opt:?}, mask {mask:?}, chunk {chunk:?}): {want:?}, written {got:?}");
            }
            cx.step(1);
        }
    }
    cx.state(hash(format!("{scheme} {opt:?} {mem}").as_bytes()));
    Ok(())
}

fn sorted(v: &[f64]) -> Vec<f64> {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.total_cmp(b));
    s
}

/// the five filters created for a data set
fn check_filter_configs(dir: &Path, v: &[f64]) -> Case {
    let s = sorted(v);
    let n = s.len();
    let (p10, p50, p90) = (s[n * 10 / 100], s[n / 2], s[n * 90 / 100]);
    let want = [
        ("greater_10th_percentile", Pred::Range(Bound::Exc(p10), Bound::None)),
        ("greater_50th_percentile", Pred::Range(Bound::Exc(p50), Bound::None)),
        ("greater_90th_percentile", Pred::Range(Bound::Exc(p90), Bound::None)),
        ("eq", Pred::Eq(p50)),
        ("ne", Pred::Ne(p50)),
    ];
    for (name, p) in want {
        let f = dir.join(format!("{name}.json"));
        let b = fs::read(&f).map_err(|e| format!("{}: {e}", f.display()))?;
        let c: FilterConfig = serde_json::from_slice(&b).map_err(|e| format!("{}: {e}", f.display()))?;
        ensure!(
            format!("{:?}", c.predicate) == format!("{:?}", p.to()) && c.chunk_id.is_none() && c.bitmask.is_none(),
            "{}: {p:?} expected for {v:?}, written {c:?}",
            f.display()
        );
    }
    Ok(())
}
fn check_compressor_configs(dir: &Path, prec: usize) -> Case {
    for (name, _, cfg) in configs(10u64.checked_pow(prec as u32).unwrap_or(0)) {
        let f = dir.join(format!("{name}.json"));
        if cfg.scale().is_some() && prec > 19 {
            ensure!(!f.exists(), "{} was written for a precision of {prec}", f.display());
            continue;
        }
        let b = fs::read(&f).map_err(|e| format!("{}: {e}", f.display()))?;
        let c: CompressionConfig = serde_json::from_slice(&b).map_err(|e| format!("{}: {e}", f.display()))?;
        ensure!(
            c.compressor_config.compression_scheme() == cfg.compression_scheme() && c.compressor_config.scale() == cfg.scale(),
            "{}: {cfg:?} expected, written {c:?}",
            f.display()
        );
    }
    Ok(())
}

/// the segments of a measurement lie within it, and reading is one of them
pub fn fits(what: &str, elapsed: u64, t: &ebi::time::SerializableSegmentedExecutionTimes, reads: bool) -> Case {
    let t = *t;
    let s: [u128; 9] =
        [t.io_read_nanos, t.io_write_nanos, t.xor_nanos, t.delta_nanos, t.quantization_nanos, t.bit_packing_nanos, t.compare_insert_nanos, t.sum_nanos, t.decompression_nanos];
    ensure!(elapsed > 0, "{what}: it took no time");
    ensure!(s.iter().sum::<u128>() <= elapsed as u128, "{what}: it took {elapsed} ns, its segments {s:?} more");
    ensure!(!reads || s[0] > 0, "{what}: no time for reading: {s:?}");
    Ok(())
}
fn fits_output(what: &str, o: &Output, reads: bool) -> Case {
    let (e, t) = match o {
        Output::Compress(w) => (w.elapsed_time_nanos, w.execution_times),
        Output::Filter(w) => (w.elapsed_time_nanos, w.execution_times),
        Output::FilterMaterialize(w) => (w.elapsed_time_nanos, w.execution_times),
        Output::Materialize(w) => (w.elapsed_time_nanos, w.execution_times),
        Output::Max(w) => (w.elapsed_time_nanos, w.execution_times),
        Output::Sum(w) => (w.elapsed_time_nanos, w.execution_times),
        _ => return Ok(()),
    };
    fits(what, e, &t, reads)
}

/// the results of one data set and one scheme
#[allow(clippy::too_many_arguments)]
fn check_all(cx: &Cx, name: &str, v: &[f64], scheme: &str, fixed: bool, r: &experimenter::AllOutputInner, n: usize, mem: bool) -> Case {
    ensure!(
        r.compress.len() == n && r.materialize.len() == n && r.max.len() == n && r.sum.len() == n && r.filters.len() == 5
            && r.filters.values().all(|f| f.filter.len() == n && f.filter_materialize.len() == n),
        "{name} with {scheme}: not {n} results of each query"
    );
    // decimals in the fixed-precision schemes are kept up to the precision only
    let tol = if fixed { 0.06 } else { 1e-9 };
    for k in 0..n {
        let max: f64 = r.max[k].result_string.parse().unwrap_or(f64::NAN);
        let sum: f64 = r.sum[k].result_string.parse().unwrap_or(f64::NAN);
        let (wm, ws) = (v.iter().copied().fold(f64::NEG_INFINITY, f64::max), v.iter().sum::<f64>());
        ensure!((max - wm).abs() <= tol, "{name} with {scheme}: max {wm}, reported {max}");
        ensure!((sum - ws).abs() <= tol * v.len() as f64, "{name} with {scheme}: sum {ws}, reported {sum}");
        ensure!(r.compress[k].result_string.ends_with(&format!(" {}", v.len())), "{name} with {scheme}: {:?}", r.compress[k].result_string);
        ensure!(r.compress[k].in_memory == mem, "{name} with {scheme}: in_memory is reported as {}", r.compress[k].in_memory);
        let what = format!("{name} with {scheme}");
        fits(&format!("compressing {what}"), r.compress[k].elapsed_time_nanos, &r.compress[k].execution_times, true)?;
        fits(&format!("materializing {what}"), r.materialize[k].elapsed_time_nanos, &r.materialize[k].execution_times, true)?;
        fits(&format!("max of {what}"), r.max[k].elapsed_time_nanos, &r.max[k].execution_times, true)?;
        fits(&format!("sum of {what}"), r.sum[k].elapsed_time_nanos, &r.sum[k].execution_times, true)?;
        for (n, f) in &r.filters {
            fits(&format!("filter {n} on {what}"), f.filter[k].elapsed_time_nanos, &f.filter[k].execution_times, true)?;
            fits(&format!("filter_materialize {n} on {what}"), f.filter_materialize[k].elapsed_time_nanos, &f.filter_materialize[k].execution_times, true)?;
        }
        let m = sorted(v)[v.len() / 2];
        for (f, p) in [("eq", Pred::Eq(m)), ("ne", Pred::Ne(m)), ("greater_50th_percentile", Pred::Range(Bound::Exc(m), Bound::None))] {
            let Some(x) = r.filters.get(f) else { bail!("{name} with {scheme}: no result for {f}") };
            let want: Vec<usize> = (0..v.len()).filter(|&i| p.holds(v[i])).collect();
            let got = parse_bitmap(&x.filter[k].result_string);
            ensure!(got.as_ref() == Some(&want), "{name} with {scheme}: {f} selects {want:?}, reported {:?}", x.filter[k].result_string);
        }
        cx.step(5);
    }
    Ok(())
}

pub fn p23(cx: &Cx) {
    let opts: Vec<ChunkOption> = if cx.quick() {
        vec![ChunkOption::Full, ChunkOption::RecordCount(2)]
    } else {
        vec![ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(2), ChunkOption::RecordCount(7), ChunkOption::ByteSizeBestEffort(16), ChunkOption::ByteSizeBestEffort(100)]
    };
    let data = datasets(!cx.quick());
    cx.run_desc(
        "commands",
        &format!("13 schemes x {opts:?} x in memory or in files: compress, materialize/max/sum with 3 masks x 2 chunk choices, 5 filters with and without output, on {} data sets each", data.len()),
        (13 * opts.len() * 2) as u64,
        |c| {
            let mut d = Dig(c);
            let (ci, o, m) = (d.take(13), d.take(opts.len()), d.take(2) == 1);
            world(cx, ci, opts[o], m, &data)
        },
        |c| format!("world {c}"),
    );
    // created configurations
    let extra: Vec<(String, Vec<f64>)> = (1..=cx.pick(25, 120)).map(|n| (format!("u{n:03}"), (0..n).map(|i| ((i * 37) % 50) as f64 - 10.5).collect())).collect();
    let groups: Vec<&[(String, Vec<f64>)]> = data.chunks(8).chain(extra.chunks(8)).collect();
    cx.run_desc(
        "filter-configs",
        &format!("filters created for {} data sets of 1 to {} values", data.len() + extra.len(), cx.pick(25, 120)),
        groups.len() as u64,
        |c| {
            let s = Scratch::new();
            let g = groups[c as usize];
            write_bins(&s.0, g);
            // a file without any record and one with NaN are refused and spoil nothing
            fs::write(s.path("binary/aa_empty.bin"), b"").unwrap();
            fs::write(s.path("binary/ab_nan.bin"), f64::NAN.to_le_bytes()).unwrap();
            let (code, _, err) = exp(&["--input", &format!("{}/binary/*.bin", s.0.display()), "create-filter-config"], &s.0)?;
            ensure!(code == Some(0), "create-filter-config ended with {code:?}: {}", tail(&err));
            for (n, v) in g {
                check_filter_configs(&s.0.join("filter_config").join(n), v)?;
                cx.step(1);
                cx.state(hash(format!("{v:?}").as_bytes()));
            }
            for n in ["aa_empty", "ab_nan"] {
                let k = fs::read_dir(s.0.join("filter_config").join(n)).map_or(0, |d| d.count());
                ensure!(k == 0, "filters were created for {n}");
            }
            Ok(())
        },
        |c| format!("group {c}"),
    );
    let texts: Vec<(String, usize)> = {
        let mut v = vec![];
        for p in 0..=21usize {
            v.push((format!("1{}\n2,3", if p == 0 { "".to_string() } else { format!(".{:0>p$}", 1) }), p));
            v.push((format!("5e-{p},7\n"), p));
        }
        v
    };
    cx.run("compressor-configs", "configurations created for texts of 0 to 21 decimals in two notations, exact precision or not", 2, |c| {
        let s = Scratch::new();
        for (i, (t, _)) in texts.iter().enumerate() {
            fs::write(s.path(&format!("f{i:02}.csv")), t).unwrap();
        }
        let glob = format!("{}/*.csv", s.0.display());
        let mut a = vec!["--input", &glob, "create-default-compressor-config"];
        if c == 1 {
            a.push("--exact-precision");
        }
        let (code, _, err) = exp(&a, &s.0)?;
        ensure!(code == Some(0), "create-default-compressor-config ended with {code:?}: {}", tail(&err));
        for (i, (_, p)) in texts.iter().enumerate() {
            check_compressor_configs(&s.0.join("compressor_configs").join(format!("f{i:02}")), *p)?;
            cx.step(1);
            cx.state(i as u64);
        }
        Ok(())
    });
    // a file size limit stands for a full disk
    let step = cx.pick(13, 1);
    let top = 2600 / step;
    let cmds = ["compress", "materialize", "filter-materialize", "filter", "max", "sum"];
    cx.run_desc(
        "disk-full",
        &format!("6 commands, no file may grow beyond any of {top} sizes from 0 in steps of {step} bytes: a file reported as finished has complete results"),
        6 * top,
        |c| {
            let mut d = Dig(c);
            let (ci, limit) = (d.take(6), d.0 * step);
            let cmd = cmds[ci];
            let s = Scratch::new();
            let v: Vec<f64> = (0..40).map(|i| i as f64 * 0.5).collect();
            write_bins(&s.0, &[("d".into(), v.clone())]);
            let cc = CompressionConfig::new(ChunkOption::RecordCount(16), CompressorConfig::uncompressed().build().into());
            let json = match cmd {
                "compress" => serde_json::to_string(&cc).unwrap(),
                "filter" | "filter-materialize" => serde_json::to_string(&FilterConfig { predicate: Pred::Ne(1.0).to(), chunk_id: None, bitmask: None }).unwrap(),
                _ => "{}".into(),
            };
            let json = if json == "{}" { serde_json::to_string(&MaxConfig { chunk_id: None, bitmask: None }).unwrap() } else { json };
            fs::write(s.path("config.json"), json).unwrap();
            let ebi = crate::common::encode_cfg(cc.compressor_config, cc.chunk_option, &v)?;
            if cmd != "compress" {
                fs::write(s.path("binary/d.ebi"), &ebi).unwrap();
            }
            let (code, out, err) = exp_limited(
                &["--input", &format!("{}/binary/*.{}", s.0.display(), if cmd == "compress" { "bin" } else { "ebi" }), cmd, "--config", s.path("config.json").to_str().unwrap()],
                &s.0,
                Some(limit),
            )?;
            ensure!(code == Some(0), "{cmd} with {limit} bytes ended with {code:?}: {}", tail(&err));
            cx.step(1);
            let finished = out.contains("Finished processing file");
            cx.state((c << 1) | finished as u64);
            ensure!(finished || limit < 2400, "{cmd} with {limit} bytes did not finish: {}", tail(&err));
            ensure!(finished || err.contains("Failed to process file"), "{cmd} with {limit} bytes says nothing of what happened");
            if finished {
                let t = fs::read(s.path(&format!("result/d/{}/000.json", cmd.replace('-', "_")))).map_err(|e| format!("{cmd} with {limit} bytes finished without a result: {e}"))?;
                let _: Output = serde_json::from_slice(&t).map_err(|e| format!("{cmd} with {limit} bytes finished, its result cannot be read: {e}"))?;
                let (f, n) = match cmd {
                    "compress" => ("binary/d.ebi", 40),
                    "materialize" => ("binary/d.materialized", 40),
                    "filter-materialize" => ("binary/d.filter_materialized", 39),
                    _ => return Ok(()),
                };
                let b = fs::read(s.path(f)).map_err(|e| format!("{cmd} with {limit} bytes finished without output: {e}"))?;
                let got = if cmd == "compress" { materialize(&mut open(b)?, None, None)? } else { crate::common::f64s_of(&b).unwrap_or_default() };
                let want: Vec<f64> = v.iter().copied().filter(|x| n == 40 || *x != 1.0).collect();
                ensure!(same_bits(&got, &want), "{cmd} with {limit} bytes finished, its output holds {got:?}");
            }
            Ok(())
        },
        |c| format!("{} with {} bytes", cmds[c as usize % 6], c / 6 * step),
    );
    // results that are there already stay, whatever their number
    let tops = if cx.quick() { vec![0usize, 1, 9, 10, 99, 100, 101, 998, 999, 1000, 1001] } else { (0..=1100).collect() };
    cx.run_desc(
        "numbered",
        &format!("{} earlier results, without or with a gap, then two more runs of a command: each leaves one more result and the earlier ones as they were", if cx.quick() { format!("{tops:?}") } else { "0 to 1100".into() }),
        (tops.len() * 3) as u64,
        |c| {
            let mut d = Dig(c);
            let (gap, n) = (d.take(3), tops[d.take(tops.len())]);
            let s = Scratch::new();
            write_bins(&s.0, &[("d".into(), vec![1.5, 2.5, 2.5])]);
            let cc = CompressionConfig::new(ChunkOption::Full, CompressorConfig::rle().build().into());
            fs::write(s.path("config.json"), serde_json::to_string(&cc).unwrap()).unwrap();
            let dir = s.path("result/d/compress");
            fs::create_dir_all(&dir).unwrap();
            let skip = [usize::MAX, n / 2, n.wrapping_sub(2)][gap];
            for i in (0..n).filter(|&i| i != skip) {
                fs::write(dir.join(format!("{i:03}.json")), format!("earlier {i}")).unwrap();
            }
            let mut before = all_json(&s.0);
            for run in 0..2 {
                let (code, _, err) = exp(&["--input", &format!("{}/binary/*.bin", s.0.display()), "compress", "--config", s.path("config.json").to_str().unwrap()], &s.0)?;
                ensure!(code == Some(0), "compress ended with {code:?}: {}", tail(&err));
                cx.step(1);
                let after = all_json(&s.0);
                for (p, t) in &before {
                    ensure!(after.get(p) == Some(t), "{n} earlier results (gap {skip}), run {run}: {} was changed", p.display());
                }
                ensure!(after.len() == before.len() + 1, "{n} earlier results (gap {skip}), run {run}: {} results became {}", before.len(), after.len());
                let (p, t) = after.iter().find(|(p, _)| !before.contains_key(*p)).unwrap();
                ensure!(matches!(serde_json::from_slice::<Output>(t), Ok(Output::Compress(_))), "{} cannot be read", p.display());
                before = after;
            }
            cx.state(c);
            Ok(())
        },
        |c| format!("{} earlier results, gap {}", tops[c as usize / 3], c % 3),
    );
    // the whole experiment
    cx.run("all", "the whole experiment on three data sets, in memory or in files, one or two repetitions", 4, |c| {
        let (mem, n) = (c & 1 == 1, 1 + (c as usize >> 1));
        let s = Scratch::new();
        let data: Vec<(String, Vec<f64>)> = vec![
            ("d1".into(), vec![1.25, 2.5, 2.5, -3.75, 10.0, 0.5]),
            ("d2".into(), (0..14).map(|i| i as f64 / 10.0).collect()),
            ("d3".into(), vec![5.0]),
        ];
        write_bins(&s.0, &data);
        for (n, v) in &data {
            fs::write(s.path(&format!("{n}.csv")), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")).unwrap();
        }
        for d in ["cc", "fc", "save"] {
            fs::create_dir_all(s.path(d)).unwrap();
        }
        let (b, cc, fc, sv, ns) = (s.path("binary"), s.path("cc"), s.path("fc"), s.path("save"), n.to_string());
        let mut a = vec!["all", "--create-config", "--exact-precision", "--compressor-config-dir", cc.to_str().unwrap(), "--filter-config-dir", fc.to_str().unwrap(), "--binary-dir", b.to_str().unwrap(), "--save-dir", sv.to_str().unwrap(), "--n", &ns];
        if mem {
            a.push("--in-memory");
        }
        let (code, _, err) = exp(&a, &s.0)?;
        ensure!(code == Some(0), "all ended with {code:?}: {}", tail(&err));
        let t = fs::read(s.path("result/all/000.json")).map_err(|e| format!("no result was written: {e}"))?;
        let o: Output = serde_json::from_slice(&t).map_err(|e| format!("the result cannot be read: {e}"))?;
        let Output::All(o) = o else { bail!("not an `all` result") };
        ensure!(o.0.len() == data.len(), "results of {} data sets", o.0.len());
        for (name, v) in &data {
            let Some(per) = o.0.get(name) else { bail!("no result for {name}") };
            ensure!(per.len() == 13, "{name}: results of {} schemes", per.len());
            for (_, scheme, cfg) in configs(100) {
                let Some(r) = per.get(scheme) else { bail!("{name}: no result for {scheme}") };
                check_all(cx, name, v, scheme, cfg.scale().is_some(), r, n, mem)?;
            }
        }
        cx.state(c);
        Ok(())
    });
    cx.run("all-patch", "new results for 4 choices of schemes and 4 of data sets, with or without a data set that is new, in memory or not", 64, |c| {
        let mut d = Dig(c);
        let (pc, pd, new, mem) = (d.take(4), d.take(4), d.take(2) == 1, d.take(2) == 1);
        let s = Scratch::new();
        let data: Vec<(String, Vec<f64>)> = vec![("d1".into(), vec![1.25, 2.5, 2.5, -3.75, 10.0, 0.5]), ("d2".into(), vec![4.5, 3.25]), ("d3".into(), vec![5.0, 6.5, 7.25])];
        let add = |k: usize| {
            write_bins(&s.0, &data[k..k + 1]);
            fs::write(s.path(&format!("{}.csv", data[k].0)), data[k].1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")).unwrap();
        };
        add(0);
        add(1);
        for d in ["cc", "fc", "save"] {
            fs::create_dir_all(s.path(d)).unwrap();
        }
        let (b, cc, fc, sv) = (s.path("binary"), s.path("cc"), s.path("fc"), s.path("save"));
        let common = ["--create-config", "--exact-precision", "--compressor-config-dir", cc.to_str().unwrap(), "--filter-config-dir", fc.to_str().unwrap(), "--binary-dir", b.to_str().unwrap(), "--save-dir", sv.to_str().unwrap(), "--n"];
        let mut a = vec!["all"];
        a.extend(common);
        a.push("1");
        let (code, _, err) = exp(&a, &s.0)?;
        ensure!(code == Some(0), "all ended with {code:?}: {}", tail(&err));
        let old = fs::read(s.path("result/all/000.json")).map_err(|e| format!("no result was written: {e}"))?;
        if new {
            add(2);
        }
        let inp = s.path("result/all/000.json");
        let pcs: &[&str] = [&[][..], &["rle"], &["buff", "gorilla"], &["elf_on_chimp"]][pc];
        let names: &[&str] = [&[][..], &["RLE"], &["BUFF", "Gorilla"], &["ElfOnChimp"]][pc];
        let pds: &[&str] = [&[][..], &["d1"], &["d3"], &["d2", "d3"]][pd];
        let mut a = vec!["--input", inp.to_str().unwrap(), "all-patch"];
        a.extend(common);
        a.push("2");
        if mem {
            a.push("--in-memory");
        }
        pcs.iter().for_each(|x| a.extend(["--pc", x]));
        pds.iter().for_each(|x| a.extend(["--pd", x]));
        let (code, _, err) = exp(&a, &s.0)?;
        ensure!(code == Some(0), "all-patch {pcs:?} {pds:?} ended with {code:?}: {}", tail(&err));
        ensure!(fs::read(&inp).is_ok_and(|t| t == old), "all-patch changed the result it started from");
        let parse = |t: &[u8]| -> Result<experimenter::AllOutput, Fail> {
            match serde_json::from_slice::<Output>(t) {
                Ok(Output::All(o)) => Ok(o),
                Ok(_) => Err("not an `all` result".into()),
                Err(e) => Err(format!("the result cannot be read: {e}").into()),
            }
        };
        let t = fs::read(s.path("result/all_patch/000.json")).map_err(|e| format!("no result was written: {e}"))?;
        let (old, o) = (parse(&old)?, parse(&t)?);
        for (k, (name, v)) in data.iter().enumerate() {
            if k == 2 && !new {
                ensure!(!o.0.contains_key(name), "all-patch {pcs:?} {pds:?}: there are results for {name}");
                continue;
            }
            let Some(per) = o.0.get(name) else { bail!("all-patch {pcs:?} {pds:?}: no results for {name}") };
            for (_, scheme, cfg) in configs(100) {
                let redo = names.contains(&scheme) || pds.contains(&name.as_str());
                let what = format!("all-patch {pcs:?} {pds:?}: {name}");
                match per.get(scheme) {
                    None => ensure!(k == 2 && !redo, "{what}: no result for {scheme}"),
                    Some(r) if redo => check_all(cx, &what, v, scheme, cfg.scale().is_some(), r, 2, mem)?,
                    Some(r) => {
                        ensure!(k != 2, "{what}: results for {scheme}");
                        let js = |r: &experimenter::AllOutputInner| serde_json::to_value((&r.materialize, &r.max, &r.sum)).unwrap();
                        ensure!(js(r) == js(&old.0[name][scheme]), "{what}: {scheme} was to be left alone");
                        check_all(cx, &what, v, scheme, cfg.scale().is_some(), r, 1, false)?;
                    }
                }
            }
            ensure!(per.len() == if k == 2 && !pds.contains(&"d3") { names.len() } else { 13 }, "all-patch {pcs:?} {pds:?}: {} schemes for {name}", per.len());
        }
        cx.state(c);
        Ok(())
    });
}

// ---------------------------------------------------------------- P24
fn wrap<T>(k: u64, cfg: CompressorConfig, t: T) -> experimenter::OutputWrapper<T> {
    experimenter::OutputWrapper {
        in_memory: k % 2 == 0,
        version: format!("0.{k}"),
        config_path: format!("c{k}.json"),
        compression_config: CompressionConfig::new(ChunkOption::RecordCount(k as usize + 1), cfg),
        command_specific: t,
        elapsed_time_nanos: [1000 + k, u64::MAX - k][k as usize % 2],
        execution_times: times(k),
        input_filename: format!("in \"{k}\"\u{e9}\n"),
        datetime: chrono::DateTime::from_timestamp(1_700_000_000 + k as i64, 123_456_789).unwrap(),
        result_string: ["", "1.5", "RoaringBitmap<[1, 2]>"][k as usize % 3].into(),
    }
}

fn times(k: u64) -> ebi::time::SerializableSegmentedExecutionTimes {
    let f = |i: u64| [0u128, 1, 999_999_999, 1 << 40, u64::MAX as u128][(k + i) as usize % 5] + if (k + i) % 5 < 4 { i as u128 } else { 0 };
    ebi::time::SerializableSegmentedExecutionTimes {
        io_read_nanos: f(0),
        io_write_nanos: f(1),
        xor_nanos: f(2),
        delta_nanos: f(3),
        quantization_nanos: f(4),
        bit_packing_nanos: f(5),
        compare_insert_nanos: f(6),
        sum_nanos: f(7),
        decompression_nanos: f(8),
    }
}

fn stats(k: u64) -> experimenter::CompressStatistics {
    let (u, c) = [(0u64, 100u64), (8, 108), (8000, 500), (1 << 40, 1 << 20)][k as usize % 4];
    experimenter::CompressStatistics {
        compression_elapsed_time_nano_secs: k * 7,
        uncompressed_size: u,
        compressed_size: c,
        compressed_size_chunk_only: c / 2,
        compression_ratio: c as f64 / u as f64,
        compression_ratio_chunk_only: (c / 2) as f64 / u as f64,
    }
}

fn inner(k: u64, runs: usize) -> experimenter::AllOutputInner {
    let cfg = configs(100)[k as usize % 13].2;
    let (id, m) = ((k % 2 == 0).then(|| ChunkId::new(k as usize)), (k % 3 == 0).then(|| vec![1u32, 2]));
    let f = FilterConfig { predicate: Pred::Ne(k as f64).to(), chunk_id: id, bitmask: m.clone() };
    let rep = |n: usize| 0..n;
    experimenter::AllOutputInner {
        compress: rep(runs).map(|_| wrap(k, cfg, stats(k))).collect(),
        filters: (0..k % 3)
            .map(|i| (format!("f{i}"), experimenter::FilterFamilyOutput { filter: vec![wrap(k, cfg, f.clone())], filter_materialize: vec![wrap(k, cfg, f.clone().into())] }))
            .collect(),
        materialize: rep(runs).map(|_| wrap(k, cfg, MaterializeConfig { chunk_id: id, bitmask: m.clone() })).collect(),
        max: rep(runs).map(|_| wrap(k, cfg, MaxConfig { chunk_id: id, bitmask: m.clone() })).collect(),
        sum: rep(runs).map(|_| wrap(k, cfg, SumConfig { chunk_id: id, bitmask: m.clone() })).collect(),
    }
}

fn jv<T: serde::Serialize>(x: &T) -> serde_json::Value {
    serde_json::to_value(x).unwrap()
}

/// Results survive being written and read, and their summaries are those of the results.
fn outputs(cx: &Cx) {
    let n = cx.pick(60u64, 780);
    cx.run_desc(
        "output-json",
        &format!("{n} results of each of the nine kinds, with the statistics of empty files and times up to 2^64 ns: what is read is what was written"),
        n * 9,
        |c| {
            let mut d = Dig(c);
            let (kind, k) = (d.take(9), d.0);
            let cfg = configs(100)[k as usize % 13].2;
            let (id, m) = ((k % 2 == 0).then(|| ChunkId::new(k as usize)), (k % 3 == 0).then(|| vec![1u32, 2]));
            let f = FilterConfig { predicate: Pred::Ne(k as f64).to(), chunk_id: id, bitmask: m.clone() };
            let t = chrono::DateTime::from_timestamp(1_700_000_000, 1).unwrap();
            let cc = CompressionConfig::new(ChunkOption::Full, cfg);
            let o: Output = match kind {
                0 => wrap(k, cfg, stats(k)).into(),
                1 => wrap(k, cfg, f).into(),
                2 => wrap(k, cfg, FilterMaterializeConfig::from(f)).into(),
                3 => wrap(k, cfg, MaterializeConfig { chunk_id: id, bitmask: m }).into(),
                4 => wrap(k, cfg, MaxConfig { chunk_id: id, bitmask: m }).into(),
                5 => wrap(k, cfg, SumConfig { chunk_id: id, bitmask: m }).into(),
                6 => experimenter::AllOutput((0..k % 3).map(|i| (format!("d{i}"), (0..k % 2 + 1).map(|j| (format!("m{j}"), inner(k + i + j, 1 + (k % 2) as usize))).collect())).collect()).into(),
                7 => experimenter::UCR2018Result {
                    results: (0..k % 2 + 1)
                        .map(|i| {
                            (
                                format!("d{i}"),
                                experimenter::UCR2018ResultForOneDataset {
                                    dataset_name: format!("d{i}"),
                                    config: experimenter::UCR2018Config { n: 3, precision: k as isize - 1, k: 5 },
                                    compression_config: cc.clone(),
                                    elapsed_time_nanos: vec![vec![], vec![k, u64::MAX]],
                                    execution_times: vec![vec![times(k)], vec![]],
                                    accuracy: [0.0, 0.25, 1.0][k as usize % 3],
                                    compression_statistics: stats(k),
                                    decompression_result: experimenter::UCR2018DecompressionResult { n: 1, elapsed_time_nanos: vec![k], execution_times: vec![times(k + 1)], result_string: vec!["x".into()] },
                                },
                            )
                        })
                        .collect(),
                    scale_fallbacked_dataset: (k % 3 == 0).then(|| vec!["d0".into()]),
                    start_time: t,
                    end_time: t,
                }
                .into(),
                _ => Output::Embedding(
                    (0..k % 3)
                        .map(|i| {
                            let p = experimenter::SimpleCompressionPerformanceForOneDataset {
                                n: 2,
                                dataset_name: format!("e{i}"),
                                compression_config: cc.clone(),
                                compression_elapsed_time_nanos: vec![k, k + 1],
                                compression_segmented_execution_times: vec![times(k), times(k + 1)],
                                compression_statistics: vec![stats(k), stats(k + 1)],
                                compression_result_string: vec!["a".into()],
                                decompression_elapsed_time_nanos: vec![3],
                                decompression_segmented_execution_times: vec![times(k + 2)],
                                decompression_result_string: vec![],
                                precision: k,
                            };
                            (format!("e{i}"), HashMap::from([("RLE".to_string(), p)]))
                        })
                        .collect(),
                ),
            };
            cx.step(1);
            cx.state(c);
            for s in [serde_json::to_string(&o), serde_json::to_string_pretty(&o)] {
                let s = s.map_err(|e| format!("{o:?} cannot be written: {e}"))?;
                let y: Output = serde_json::from_str(&s).map_err(|e| format!("{s} cannot be read: {e}"))?;
                ensure!(std::mem::discriminant(&y) == std::mem::discriminant(&o) && jv(&y) == jv(&o), "written {o:?}, read {y:?}");
                if let (Output::Compress(a), Output::Compress(b)) = (&o, &y) {
                    let f = |w: &experimenter::OutputWrapper<experimenter::CompressStatistics>| (w.command_specific.compression_ratio, w.command_specific.compression_ratio_chunk_only);
                    ensure!(f(a) == f(b), "ratios {:?} were read as {:?}", f(a), f(b));
                }
            }
            Ok(())
        },
        |c| format!("kind {} number {}", c % 9, c / 9),
    );
    // every table of up to 3 data sets and 3 schemes with any entry present or missing, and one to three runs
    cx.run("summaries", "every table of 3 data sets x 3 schemes with any entries missing x 1 to 3 equal runs: listings, transposition, averages", 512 * 3, |c| {
        let mut d = Dig(c);
        let (mask, runs) = (d.take(512), d.take(3) + 1);
        let mut all: HashMap<String, HashMap<String, experimenter::AllOutputInner>> = HashMap::new();
        let mut cells: BTreeMap<(String, String), u64> = BTreeMap::new();
        for i in 0..9usize {
            if mask >> i & 1 == 1 {
                let (a, b, k) = (format!("d{}", i / 3), format!("m{}", i % 3), (i as u64) * 4 + 1 + i as u64 % 3);
                all.entry(a.clone()).or_default().insert(b.clone(), inner(k, runs));
                cells.insert((a, b), k);
            }
        }
        let all = experimenter::AllOutput(all);
        let set = |f: fn(&(String, String)) -> &String| cells.keys().map(f).cloned().collect::<std::collections::HashSet<_>>();
        ensure!(all.clone().dataset_names() == set(|k| &k.0), "data sets of {:?} are {:?}", cells, all.dataset_names());
        ensure!(all.clone().compression_methods() == set(|k| &k.1), "schemes of {:?} are {:?}", cells, all.compression_methods());
        let m = all.clone().map(|x| x.compress[0].version.clone());
        let flat: BTreeMap<(String, String), String> = m.into_iter().flat_map(|(a, r)| r.into_iter().map(move |(b, v)| ((a.clone(), b), v))).collect();
        let want: BTreeMap<(String, String), String> = cells.iter().map(|(k, v)| (k.clone(), format!("0.{v}"))).collect();
        ensure!(flat == want, "map over {cells:?} gives {flat:?}");
        let t: BTreeMap<(String, String), String> = all.clone().transpose().into_iter().flat_map(|(b, r)| r.into_iter().map(move |(a, v)| ((a, b.clone()), v.compress[0].version.clone()))).collect();
        ensure!(t == want, "{cells:?} transposed is {t:?}");
        let count = all.clone().aggregate_per_compression_method(|x| x.len());
        let ratio = all.clone().aggregate_per_compression_method(experimenter::AllOutput::average_compression_ratio);
        let ct = all.clone().aggregate_per_compression_method(experimenter::AllOutput::average_compression_throughput);
        let dt = all.clone().aggregate_per_compression_method(experimenter::AllOutput::average_decompression_throughput);
        for b in set(|k| &k.1) {
            let ks: Vec<u64> = cells.iter().filter(|(k, _)| k.1 == b).map(|(_, v)| *v).collect();
            ensure!(count.get(&b) == Some(&ks.len()), "{b} of {cells:?}: {:?} data sets", count.get(&b));
            let mean = |f: &dyn Fn(u64) -> f64| ks.iter().map(|&k| f(k)).sum::<f64>() / ks.len() as f64;
            let close = |x: Option<&f64>, y: f64| x.is_some_and(|x| (x - y).abs() <= y.abs() * 1e-12 || *x == y || (x.is_nan() && y.is_nan()));
            ensure!(close(ratio.get(&b), mean(&|k| stats(k).compression_ratio)), "{b} of {cells:?}: average ratio {:?}", ratio.get(&b));
            let el = |k: u64| wrap(k, configs(100)[0].2, ()).elapsed_time_nanos as f64;
            let want = mean(&|k| stats(k).uncompressed_size as f64 / el(k));
            ensure!(close(ct.get(&b), want), "{b} of {cells:?}, {runs} equal runs: average compression throughput {:?}, each run has {want}", ct.get(&b));
            ensure!(close(dt.get(&b), want), "{b} of {cells:?}, {runs} equal runs: average decompression throughput {:?}, each run has {want}", dt.get(&b));
        }
        for k in cells.values() {
            let mut x = inner(*k, runs);
            x.clear();
            ensure!(x.compress.is_empty() && x.filters.is_empty() && x.materialize.is_empty() && x.max.is_empty() && x.sum.is_empty(), "cleared results still hold {x:?}");
        }
        cx.step(cells.len() as u64);
        cx.state(c);
        Ok(())
    });
}

fn rt<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(x: &T) -> Case {
    let s = serde_json::to_string(x).map_err(|e| format!("{x:?} cannot be written: {e}"))?;
    for s in [s, serde_json::to_string_pretty(x).unwrap()] {
        let y: T = serde_json::from_str(&s).map_err(|e| format!("{x:?}, written as {s}, cannot be read: {e}"))?;
        ensure!(format!("{x:?}") == format!("{y:?}"), "{x:?}, written as {s}, is read as {y:?}");
    }
    Ok(())
}

pub fn p24(cx: &Cx) {
    // configurations survive being written and read
    let mut cfgs: Vec<CompressorConfig> = vec![];
    let scales = [0u64, 1, 10, 100, 1_000_000, 10u64.pow(12), u32::MAX as u64, u64::MAX];
    for &s in &scales {
        cfgs.extend(configs(s).into_iter().filter(|c| c.2.scale().is_some()).map(|c| c.2));
    }
    cfgs.extend(configs(1).into_iter().map(|c| c.2));
    for cap in [0u64, 1, 8000, u32::MAX as u64, u64::MAX >> 4] {
        cfgs.push(CompressorConfig::uncompressed().capacity(cap).build().into());
        cfgs.push(CompressorConfig::rle().capacity(cap).build().into());
        cfgs.push(CompressorConfig::gorilla().capacity(cap).build().into());
        cfgs.push(CompressorConfig::chimp().capacity(cap).build().into());
        cfgs.push(CompressorConfig::chimp128().capacity(cap).build().into());
        cfgs.push(CompressorConfig::elf().capacity(cap).build().into());
        cfgs.push(CompressorConfig::elf_on_chimp().capacity(cap).build().into());
    }
    let mut opts = vec![ChunkOption::Full];
    for k in [1usize, 2, 1024, 1 << 24, u32::MAX as usize, usize::MAX] {
        opts.push(ChunkOption::RecordCount(k));
        opts.push(ChunkOption::ByteSizeBestEffort(k));
    }
    cx.run_desc(
        "compressor-json",
        &format!("{} compressor configurations x {} chunk options", cfgs.len(), opts.len()),
        (cfgs.len() * opts.len()) as u64,
        |c| {
            let mut d = Dig(c);
            let x = CompressionConfig::new(opts[d.take(opts.len())], cfgs[d.take(cfgs.len())]);
            cx.step(1);
            cx.state(hash(format!("{x:?}").as_bytes()));
            rt(&x)
        },
        |c| format!("{c}"),
    );
    let consts = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-9, 123456.789, 1e15, -2.5e-7, 1e300];
    let preds = crate::common::preds(&consts);
    let masks: Vec<Option<Vec<u32>>> = vec![None, Some(vec![]), Some(vec![0]), Some(vec![1, 5, u32::MAX])];
    let ids = [None, Some(0usize), Some(7), Some(usize::MAX)];
    cx.run_desc(
        "query-json",
        &format!("{} predicates over {consts:?} x 4 masks x 4 chunk choices, in all five query configurations", preds.len()),
        (preds.len() * 16) as u64,
        |c| {
            let mut d = Dig(c);
            let (m, id, p) = (masks[d.take(4)].clone(), ids[d.take(4)].map(ChunkId::new), preds[d.take(preds.len())].to());
            cx.step(5);
            cx.state(c);
            let f = FilterConfig { predicate: p, chunk_id: id, bitmask: m.clone() };
            rt(&f)?;
            let fm: FilterMaterializeConfig = f.clone().into();
            ensure!(
                format!("{:?}", (fm.predicate, fm.chunk_id, &fm.bitmask)) == format!("{:?}", (f.predicate, f.chunk_id, &f.bitmask)),
                "{f:?} becomes {fm:?}"
            );
            rt(&fm)?;
            rt(&MaterializeConfig { chunk_id: id, bitmask: m.clone() })?;
            rt(&MaxConfig { chunk_id: id, bitmask: m.clone() })?;
            rt(&SumConfig { chunk_id: id, bitmask: m })
        },
        |c| format!("{c}"),
    );
    // constants of any length: written text is read as the same number
    let long: Vec<f64> = (1..=cx.pick(2000u64, 100_000)).flat_map(|i| [i as f64 / 1000.0, i as f64 / 7.0, (i as f64).sqrt(), i as f64 * 0.1 + 0.2, -(i as f64) / 1e8, i as f64 * 1e17, i as f64 / 3e200]).collect();
    cx.run_desc(
        "constants-json",
        &format!("equality filters for {} constants of 1 to 17 digits", long.len()),
        (long.len() as u64).div_ceil(100),
        |c| {
            let mut known = None;
            for &x in &long[c as usize * 100..(c as usize * 100 + 100).min(long.len())] {
                let f = FilterConfig { predicate: Pred::Eq(x).to(), chunk_id: None, bitmask: None };
                cx.step(1);
                cx.state(x.to_bits());
                let s = serde_json::to_string(&f).unwrap();
                let y: FilterConfig = serde_json::from_str(&s).map_err(|e| format!("{s} cannot be read: {e}"))?;
                if format!("{y:?}") == format!("{f:?}") {
                    continue;
                }
                // the number parser reads some texts of 16 and 17 digits, or far from 1, as a neighbour
                let near: f64 = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
                let off = FilterConfig { predicate: Pred::Eq(near).to(), chunk_id: None, bitmask: None };
                let long_text = serde_json::to_string(&x).unwrap().bytes().take_while(|b| *b != b'e').filter(u8::is_ascii_digit).count() > 15 || !(1e-15..1e15).contains(&x.abs());
                ensure!(long_text && near != x && (near - x).abs() <= x.abs() * 5e-16 && format!("{y:?}") == format!("{off:?}"), "{f:?}, written as {s}, is read as {y:?}");
                known = Some(Fail { detail: format!("{f:?}, written as {s}, is read as {y:?}"), known: Some("json-16-digits".into()) });
            }
            known.map_or(Ok(()), Err)
        },
        |c| format!("constants {}..", c * 100),
    );
    outputs(cx);
    // saving never overwrites
    const OPS: usize = 9;
    let depth = cx.pick(4, 5);
    cx.run_desc(
        "save",
        &format!("all histories of {depth} steps: save one of two values to a file, a nested path, or below a file; create or remove something else in the way, a link to an earlier result included"),
        (OPS as u64).pow(depth),
        |c| {
            let s = Scratch::new();
            let mut model: BTreeMap<&str, String> = BTreeMap::new(); // files that exist
            let mut d = Dig(c);
            let vals = [serde_json::json!({"a": 1, "b": [1.5, null]}), serde_json::json!("x")];
            for _ in 0..depth {
                let op = d.take(OPS);
                cx.step(1);
                match op {
                    0..=4 => {
                        let (path, v) = [("r.json", 0), ("r.json", 1), ("deep/er/r.json", 0), ("r.json/below.json", 1), ("deep/er/r.json", 1)][op];
                        let r = guard(|| experimenter::save_json_safely(&vals[v], s.path(path))).map_err(|p| format!("saving panicked: {p}"))?;
                        let blocked = path == "r.json/below.json" && model.contains_key("r.json");
                        let dir_in_the_way = path == "r.json" && model.contains_key("r.json/below.json");
                        if blocked {
                            ensure!(r.is_err(), "saving below a file succeeded");
                        } else if !dir_in_the_way && !model.contains_key(path) {
                            ensure!(r.is_ok(), "saving to {path} failed: {:?}", r.err());
                            model.insert(path, serde_json::to_string_pretty(&vals[v]).unwrap());
                        }
                    }
                    8 => {
                        // a result that is a link to an earlier one
                        if !model.contains_key("r.json") && !model.contains_key("r.json/below.json") && !s.path("r.json").exists() {
                            fs::write(s.path("earlier.json"), "earlier").unwrap();
                            std::os::unix::fs::symlink(s.path("earlier.json"), s.path("r.json")).unwrap();
                            model.insert("r.json", "earlier".into());
                            model.insert("earlier.json", "earlier".into());
                        }
                    }
                    5 => {
                        if !model.contains_key("r.json/below.json") && !s.path("r.json").is_symlink() {
                            fs::write(s.path("r.json"), "mine").unwrap();
                            model.insert("r.json", "mine".into());
                        }
                    }
                    6 => {
                        if model.remove("r.json").is_some() {
                            fs::remove_file(s.path("r.json")).unwrap();
                        }
                    }
                    _ => {
                        if model.remove("deep/er/r.json").is_some() {
                            fs::remove_file(s.path("deep/er/r.json")).unwrap();
                        }
                    }
                }
                for (p, t) in &model {
                    let g = fs::read_to_string(s.path(p)).ok();
                    ensure!(g.as_ref() == Some(t), "{p} holds {g:?}, expected {t:?}");
                }
                for p in ["r.json", "deep/er/r.json", "r.json/below.json"] {
                    ensure!(model.contains_key(p) || !s.path(p).is_file(), "{p} exists");
                }
            }
            cx.state(c);
            Ok(())
        },
        |c| format!("history {c}"),
    );
    // reported sizes
    let lens = [1usize, 2, 3, 7, 64, 1000, 9001, 70_001];
    let sopts = [ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(3), ChunkOption::ByteSizeBestEffort(64)];
    cx.run_desc(
        "statistics",
        &format!("13 schemes x {lens:?} records x {sopts:?}: reported sizes and ratios are those of the file"),
        (13 * lens.len() * sopts.len()) as u64,
        |c| {
            let mut d = Dig(c);
            let (ci, n, o) = (d.take(13), lens[d.take(lens.len())], sopts[d.take(4)]);
            let (_, scheme, cfg) = configs(100)[ci];
            let v: Vec<f64> = (0..n).map(|i| ((i / 3) % 11) as f64 + 0.25).collect();
            let b = crate::common::encode_cfg(cfg, o, &v)?;
            let len = b.len() as u64;
            let dec = open(b)?;
            let st = match guard(|| experimenter::get_compress_statistics(&dec)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => bail!("{scheme}: {e:#}"),
                Err(p) => bail!("{scheme}: panicked: {p}"),
            };
            cx.step(1);
            cx.state(c);
            let raw = 8.0 * n as f64;
            ensure!(st.uncompressed_size == 8 * n as u64 && st.compressed_size == len, "{scheme} {o:?}: {n} records in {len} bytes, reported {st:?}");
            ensure!(
                (st.compression_ratio - len as f64 / raw).abs() < 1e-12
                    && (st.compression_ratio_chunk_only - st.compressed_size_chunk_only as f64 / raw).abs() < 1e-12,
                "{scheme} {o:?}: {st:?}"
            );
            // a header, a footer with a fixed part and a part per chunk surround the chunks
            let chunks = chunk_sizes(o, n).len() as u64;
            let rest = len.checked_sub(st.compressed_size_chunk_only);
            ensure!(rest.is_some_and(|r| r >= 16 * chunks && r <= 64 * chunks + 1024), "{scheme} {o:?}: {chunks} chunks of {} bytes in a file of {len} bytes", st.compressed_size_chunk_only);
            if scheme == "Uncompressed" {
                ensure!(st.compressed_size_chunk_only >= 8 * n as u64, "uncompressed chunks are smaller than the records: {st:?}");
            }
            Ok(())
        },
        |c| format!("{c}"),
    );
}
