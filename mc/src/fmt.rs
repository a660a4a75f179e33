//! P03 chunk tiling, P04 metadata, P05 input fragmentation, P06 I/O faults and crash points.
use crate::common::*;
use crate::fw::*;
use crate::{bail, ensure};
use ebi::{
    api::{
        decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput},
        encoder::{Encoder, EncoderInput, EncoderOutput},
    },
    compressor::CompressorConfig,
    decoder::FileReader,
    encoder::{ChunkOption, FileWriter},
    format::CompressionScheme,
    time::{SegmentedExecutionTimes, SerializableSegmentedExecutionTimes},
};
use std::cell::Cell;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub fn all_schemes() -> Vec<Sch> {
    let mut v = LOSSLESS.to_vec();
    if cfg!(not(feature = "alp")) {
        v.push(Sch::Buff(2));
        v.push(Sch::Spr(2));
    }
    v
}
fn scheme_id(s: Sch) -> CompressionScheme {
    match s {
        Sch::Unc => CompressionScheme::Uncompressed,
        Sch::Rle => CompressionScheme::RLE,
        Sch::Gor => CompressionScheme::Gorilla,
        Sch::Chimp => CompressionScheme::Chimp,
        Sch::Chimp128 => CompressionScheme::Chimp128,
        Sch::ElfChimp => CompressionScheme::ElfOnChimp,
        Sch::Elf => CompressionScheme::Elf,
        Sch::Zstd => CompressionScheme::Zstd,
        Sch::Gzip => CompressionScheme::Gzip,
        Sch::Snappy => CompressionScheme::Snappy,
        Sch::Buff(_) => CompressionScheme::BUFF,
        Sch::Spr(_) => CompressionScheme::DeltaSprintz,
        #[cfg(feature = "alp")]
        Sch::Alp => CompressionScheme::FFIAlp,
    }
}
/// decoded data equals the written data (fixed-precision schemes: after rounding)
pub fn same_data(s: Sch, got: &[f64], want: &[f64]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match s.prec() {
            None => g.to_bits() == w.to_bits(),
            Some(p) => round_to(*g, p) == *w || (round_to(*g, p) == 0.0 && *w == 0.0),
        })
}
pub fn sample(kind: usize, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| match kind {
            0 => dec(((i as i64 * 7919) % 2003) - 900, 2),
            1 => dec((i as i64 / 3) * 25, 2),
            _ => 7.25,
        })
        .collect()
}

/// structural invariants of a finished file
pub fn check_tiling(cx: &Cx, s: Sch, opt: ChunkOption, file: &[u8], v: &[f64]) -> Case {
    let n = v.len();
    let mut d = open(file.to_vec())?;
    cx.state(hash64(&file[..file.len().min(2048)]));
    let f = d.footer().clone();
    ensure!(f.number_of_records() == n as u64, "footer says {} records, wrote {n}", f.number_of_records());
    let nc = f.number_of_chunks() as usize;
    let cf: Vec<(u64, u64)> = d.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect();
    ensure!(cf.len() == nc, "footer says {nc} chunks but lists {}", cf.len());
    ensure!((nc == 0) == (n == 0), "{nc} chunks for {n} records");
    let end = d.header().footer_offset();
    ensure!(d.total_file_size() == file.len() as u64, "total_file_size {} but file has {} bytes", d.total_file_size(), file.len());
    ensure!(end + d.footer_size() == file.len() as u64, "footer_offset {end} + footer_size {} != {}", d.footer_size(), file.len());
    if nc > 0 {
        ensure!(cf[0].1 == 0, "first chunk starts at record {}", cf[0].1);
        ensure!(d.total_chunk_size() == end - cf[0].0, "total_chunk_size {} != {}", d.total_chunk_size(), end - cf[0].0);
    } else {
        ensure!(d.total_chunk_size() == 0, "chunk bytes in an empty file");
    }
    let mut sizes = vec![];
    for k in 0..nc {
        let (pe, le) = if k + 1 < nc { cf[k + 1] } else { (end, n as u64) };
        ensure!(cf[k].0 < pe || s == Sch::Unc && cf[k].0 <= pe, "chunk {k} occupies bytes {}..{pe}", cf[k].0);
        ensure!(cf[k].1 < le, "chunk {k} holds records {}..{le}", cf[k].1);
        sizes.push((le - cf[k].1) as usize);
    }
    match opt {
        ChunkOption::Full => ensure!(nc <= 1, "{nc} chunks with the one-chunk option"),
        ChunkOption::RecordCount(_) => {
            ensure!(sizes == chunk_sizes(opt, n), "chunk sizes {sizes:?}, option {opt:?}, {n} records")
        }
        ChunkOption::ByteSizeBestEffort(_) => {}
    }
    // metadata reader sees the same handles
    let mut fr = FileReader::new();
    let mut cur = Cursor::new(file);
    call("fetch_header", || fr.fetch_header(&mut cur).map(|_| ()))?;
    call("seek_to_footer", || fr.seek_to_footer(&mut cur))?;
    call("fetch_footer", || fr.fetch_footer(&mut cur).map(|_| ()))?;
    ensure!(cur.position() == file.len() as u64, "footer ends at {} of {}", cur.position(), file.len());
    let md = fr.into_metadata().unwrap();
    let mut covered = 0u64;
    let mut phys = cf.first().map_or(end, |c| c.0);
    for (k, h) in md.chunks_iter().enumerate() {
        ensure!(h.chunk_index() == k && h.is_last_chunk() == (k + 1 == nc), "handle {k} misnumbered");
        ensure!(h.logical_record_range() == (covered..covered + h.number_of_records()), "handle {k} range {:?} after {covered} records", h.logical_record_range());
        ensure!(
            h.logical_record_range_u32() == (covered as u32..(covered + h.number_of_records()) as u32),
            "handle {k} u32 range {:?}",
            h.logical_record_range_u32()
        );
        ensure!(h.physical_offset() == phys && h.logical_offset() == covered, "handle {k} offsets");
        covered += h.number_of_records();
        phys += h.chunk_size();
        ensure!(h.next_physical_offset() == phys && h.next_logical_offset() == covered, "handle {k} next offsets");
    }
    ensure!(covered == n as u64 && phys == end, "chunks cover {covered} records and bytes up to {phys}");
    // each chunk alone yields its slice, also when every other chunk's bytes are destroyed
    let mut off = 0;
    for k in 0..nc {
        let want = &v[off..off + sizes[k]];
        off += sizes[k];
        // of very many chunks, only some are read alone (the whole file is read below)
        if nc > 6000 && !(k < 2 || k + 2 >= nc || k % 2048 == 0 || k % 65536 == 65535) {
            continue;
        }
        let got = materialize(&mut d, None, Some(k))?;
        ensure!(same_data(s, &got, want), "chunk {k} read as {} want {}", show(&got), show(want));
        let (ps, pe) = (cf[k].0 as usize, if k + 1 < nc { cf[k + 1].0 } else { end } as usize);
        let mut iso = file.to_vec();
        for (i, b) in iso.iter_mut().enumerate() {
            if i >= cf[0].0 as usize && i < end as usize && !(ps..pe).contains(&i) {
                *b = 0xA5;
            }
        }
        let got = materialize(&mut open(iso)?, None, Some(k))?;
        ensure!(same_data(s, &got, want), "chunk {k} read as {} when the other chunks are overwritten, want {}", show(&got), show(want));
        cx.step(2);
    }
    let got = materialize(&mut d, None, None)?;
    ensure!(same_data(s, &got, v), "whole file read as {} want {}", show(&got), show(v));
    let past = materialize(&mut d, None, Some(nc))?;
    ensure!(past.is_empty(), "chunk id {nc} (past the end) yields {} records", past.len());
    cx.step(6 + nc as u64);
    Ok(())
}

pub fn p03(cx: &Cx) {
    let sch = all_schemes();
    let maxn = cx.pick(14usize, 40);
    let mut opts = vec![ChunkOption::Full];
    for k in 1..=maxn + 1 {
        opts.push(ChunkOption::RecordCount(k));
    }
    for b in 1..=cx.pick(33usize, 100) {
        opts.push(ChunkOption::ByteSizeBestEffort(b));
    }
    opts.push(ChunkOption::RecordCount(usize::MAX / 16));
    opts.truncate(opts.len() - 1);
    let dd = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let kind = g.take(3);
        (s, o, kind, g.0 as usize)
    };
    cx.run_desc(
        "tiling",
        &format!("every record count 0..={maxn} x every chunk option (one chunk, 1..={} records, 1.. bytes) x 12 schemes x 3 value laws", maxn + 1),
        (sch.len() * opts.len() * 3 * (maxn + 1)) as u64,
        |c| {
            let (s, o, k, n) = dd(c);
            let v = sample(k, n);
            let f = encode(s, o, &v)?;
            check_tiling(cx, s, o, &f, &v)
        },
        |c| format!("{:?}", dd(c)),
    );
    // larger files
    let big = [100usize, 255, 256, 257, 1000, 4096, 5000];
    let bo = [
        ChunkOption::Full,
        ChunkOption::RecordCount(1000),
        ChunkOption::RecordCount(256),
        ChunkOption::RecordCount(255),
        ChunkOption::RecordCount(100),
        ChunkOption::ByteSizeBestEffort(1024),
        ChunkOption::ByteSizeBestEffort(2048),
    ];
    cx.run_desc(
        "large",
        "record counts up to 5000 x 7 chunk options x 12 schemes x 3 value laws",
        (sch.len() * bo.len() * 3 * big.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = bo[g.take(bo.len())];
            let k = g.take(3);
            let v = sample(k, big[g.0 as usize]);
            let f = encode(s, o, &v)?;
            check_tiling(cx, s, o, &f, &v)
        },
        |c| format!("case {c}"),
    );
    // chunk settings and files beyond 2^16 records
    let wide = cx.pick(vec![65535usize, 65537, 140_000], vec![65535, 65536, 65537, 100_000, 140_000, 300_000]);
    let wo = [
        ChunkOption::Full,
        ChunkOption::RecordCount(65535),
        ChunkOption::RecordCount(65536),
        ChunkOption::RecordCount(65537),
        ChunkOption::RecordCount(139_999),
        ChunkOption::RecordCount(1 << 20),
        ChunkOption::ByteSizeBestEffort(1 << 19),
        ChunkOption::ByteSizeBestEffort(1 << 20),
    ];
    let dw = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = wo[g.take(wo.len())];
        (s, o, wide[g.0 as usize])
    };
    cx.run_desc(
        "wide",
        &format!("record counts {wide:?} x 8 chunk options up to 2^20 records x 12 schemes"),
        (sch.len() * wo.len() * wide.len()) as u64,
        |c| {
            let (s, o, n) = dw(c);
            let v = sample(n % 3, n);
            let f = encode(s, o, &v)?;
            check_tiling(cx, s, o, &f, &v)
        },
        |c| format!("{:?}", dw(c)),
    );
    let many = cx.pick(vec![65_537usize], vec![65_535, 65_536, 65_537, 131_073]);
    cx.run_desc(
        "many-chunks",
        &format!("{many:?} records in chunks of one record and of 8 bytes, and twice as many in chunks of two, x 12 schemes"),
        (sch.len() * many.len() * 3) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let n = many[g.take(many.len())];
            let (o, n) = [(ChunkOption::RecordCount(1), n), (ChunkOption::ByteSizeBestEffort(8), n), (ChunkOption::RecordCount(2), 2 * n)][g.take(3)];
            let v = sample(0, n);
            let f = encode(s, o, &v)?;
            check_tiling(cx, s, o, &f, &v)
        },
        |c| format!("case {c}"),
    );
    let huge = [1 << 20, (1 << 20) + 1, 2_000_000, 2_200_000, 1 << 22, (1 << 22) + 1];
    cx.run_desc(
        "huge",
        "uncompressed and run-length files of 2.2 and 4.3 million records in chunks of 2^20, 2^20+1, 2000000, 2200000, 2^22, 2^22+1 records",
        huge.len() as u64 * 4,
        |c| {
            let mut g = Dig(c);
            let s = [Sch::Unc, Sch::Rle][g.take(2)];
            let o = ChunkOption::RecordCount(huge[g.take(huge.len())]);
            let v = sample(1, [2_200_000, 4_300_000][g.0 as usize]);
            let f = encode(s, o, &v)?;
            check_tiling(cx, s, o, &f, &v)
        },
        |c| format!("case {c}"),
    );
    // a chunk size of zero cannot make progress: it must be refused, not lose the data
    cx.run_desc(
        "zero",
        "zero-sized chunk options x 12 schemes x record counts 1..=3",
        (sch.len() * 2 * 3) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = [ChunkOption::RecordCount(0), ChunkOption::ByteSizeBestEffort(0)][g.take(2)];
            let v = sample(0, 1 + g.0 as usize);
            cx.step(1);
            match encode(s, o, &v) {
                Err(e) if e.detail.contains("panicked") => Err(e),
                Err(_) => Ok(()),
                Ok(f) => check_tiling(cx, s, ChunkOption::ByteSizeBestEffort(0), &f, &v),
            }
        },
        |c| format!("case {c}"),
    );
}

// ---------------------------------------------------------------- P04
fn configs(cx: &Cx) -> Vec<(CompressorConfig, CompressionScheme, Option<u64>, usize)> {
    // (config, scheme, scale, payload size of the serialized form)
    let caps: &[u64] = if cx.quick() { &[0, 1, 255, 256, 8000, 1 << 20] } else { &[0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 8000, 1 << 20, (1 << 24) + 1] };
    let mut v: Vec<(CompressorConfig, CompressionScheme, Option<u64>, usize)> = vec![];
    for &c in caps {
        for s in [Sch::Unc, Sch::Rle, Sch::Gor, Sch::Chimp, Sch::Chimp128, Sch::ElfChimp, Sch::Elf] {
            v.push((s.config_cap(c), scheme_id(s), None, 8));
        }
    }
    for l in [-7, -1, 0, 1, 2, 3, 9, 19, 22] {
        v.push((CompressorConfig::zstd().level(l).build().into(), CompressionScheme::Zstd, None, 4));
    }
    for l in 0..=9 {
        v.push((CompressorConfig::gzip().level(l).build().into(), CompressionScheme::Gzip, None, 4));
    }
    v.push((CompressorConfig::snappy().build().into(), CompressionScheme::Snappy, None, 0));
    for p in 0..=12u32 {
        let s = 10u64.pow(p);
        v.push((CompressorConfig::buff().scale(s).build().into(), CompressionScheme::BUFF, Some(s), 8));
        if p <= 9 {
            for &c in caps {
                v.push((CompressorConfig::delta_sprintz().capacity(c).scale(s).build().into(), CompressionScheme::DeltaSprintz, Some(s), 16));
            }
        }
    }
    v
}

/// a file of which only some parts were written; the rest reads as zeros
struct Sparse {
    parts: Vec<(u64, Vec<u8>)>,
    pos: u64,
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        for (at, b) in &self.parts {
            if self.pos >= *at && self.pos < at + b.len() as u64 {
                let o = (self.pos - at) as usize;
                let n = buf.len().min(b.len() - o);
                buf[..n].copy_from_slice(&b[o..o + n]);
                self.pos += n as u64;
                return Ok(n);
            }
        }
        let next = self.parts.iter().map(|p| p.0).filter(|a| *a > self.pos).min();
        let Some(next) = next else { return Ok(0) };
        let n = buf.len().min((next - self.pos) as usize);
        buf[..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let end = self.parts.iter().map(|p| p.0 + p.1.len() as u64).max().unwrap_or(0);
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => end.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = p.ok_or(io::ErrorKind::InvalidInput)?;
        Ok(self.pos)
    }
}
pub fn p04(cx: &Cx) {
    let cfgs = configs(cx);
    let mut opts = vec![ChunkOption::Full];
    for v in [1usize, 2, 3, 255, 256, 65535, 65536, 1 << 32, (1 << 32) + 1, 0x0102_0304_0506] {
        opts.push(ChunkOption::RecordCount(v));
        opts.push(ChunkOption::ByteSizeBestEffort(v));
    }
    let ns = [0usize, 1, 2, 5];
    // huge options would allocate their chunk buffer up front: exercise those through the header only
    let huge = |o: &ChunkOption| matches!(o, ChunkOption::RecordCount(v) | ChunkOption::ByteSizeBestEffort(v) if *v > 1 << 20);
    cx.run_desc(
        "config",
        "every compressor configuration (capacity, level, scale grids) x every chunk option x 4 record counts: header and footer report what was asked for",
        (cfgs.len() * opts.len() * ns.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let (cfg, scheme, scale, payload) = cfgs[g.take(cfgs.len())];
            let opt = opts[g.take(opts.len())];
            let n = ns[g.0 as usize];
            let v = sample(0, n);
            // the configuration alone
            let mut ser = vec![];
            cfg.serialize(&mut ser).map_err(|e| format!("serialize: {e}"))?;
            ensure!(ser.len() == payload + 1 && ser[0] as usize == payload, "serialized config is {ser:?}, payload size {payload}");
            ensure!(cfg.serialized_size() == ser.len(), "serialized_size {} != {}", cfg.serialized_size(), ser.len());
            ensure!(cfg.compression_scheme() == scheme, "config claims scheme {:?}", cfg.compression_scheme());
            ensure!(cfg.scale() == scale, "config claims scale {:?}, asked {scale:?}", cfg.scale());
            let back = guard(|| CompressorConfig::from_le_bytes(&scheme, &ser[1..]))?;
            ensure!(back == cfg && format!("{back:?}") == format!("{cfg:?}"), "config {cfg:?} reads back as {back:?}");
            cx.step(4);
            if huge(&opt) {
                let mut fw = FileWriter::new(&[][..] as &[u8], cfg, opt);
                let mut h = vec![];
                call("write_header", || fw.write_header(&mut h))?;
                ensure!(h.len() == fw.file_header_size(), "header has {} bytes, announced {}", h.len(), fw.file_header_size());
                let mut fr = FileReader::new();
                let hd = *call("fetch_header", || fr.fetch_header(&h[..]).map(|h| Box::new(*h)))?;
                ensure!(*hd.config().chunk_option() == opt && *hd.config().compression_scheme() == scheme, "header reports {:?}", hd.config());
                cx.state(hash64(&h));
                cx.step(2);
                return Ok(());
            }
            let t0 = std::time::Instant::now();
            let f = encode_cfg(cfg, opt, &v)?;
            let wall = t0.elapsed();
            let d = open(f.clone())?;
            cx.state(hash64(&f[..f.len().min(64)]));
            let h = d.header();
            ensure!(h.magic_number() == b"EBI1", "magic number {:?}", h.magic_number());
            ensure!(*h.config().chunk_option() == opt, "header reports {:?}, asked {opt:?}", h.config().chunk_option());
            ensure!(*h.config().compression_scheme() == scheme, "header reports scheme {:?}, asked {scheme:?}", h.config().compression_scheme());
            let ft = d.footer();
            ensure!(*ft.compressor_config() == cfg && format!("{:?}", ft.compressor_config()) == format!("{cfg:?}"), "footer reports {:?}, asked {cfg:?}", ft.compressor_config());
            ensure!(ft.compressor_config().scale() == scale, "footer scale {:?}", ft.compressor_config().scale());
            ensure!(ft.number_of_records() == n as u64, "footer says {} records", ft.number_of_records());
            let e = ft.compression_elapsed_time();
            ensure!(e <= wall && !e.is_zero() && e.as_nanos() == ft.compression_elapsed_time_nano_secs(), "elapsed time {e:?}, encode took {wall:?}");
            let st = ft.segmented_execution_times();
            for t in [st.io_read(), st.io_write(), st.xor(), st.delta(), st.quantization(), st.bit_packing(), st.compare_insert(), st.sum(), st.decompression()] {
                ensure!(t <= wall, "segment time {t:?} exceeds {wall:?}");
            }
            cx.step(8);
            Ok(())
        },
        |c| {
            let mut g = Dig(c);
            let cfg = cfgs[g.take(cfgs.len())].0;
            format!("{cfg:?} {:?} n={}", opts[g.take(opts.len())], ns[g.0 as usize])
        },
    );
    let scales = [1u64, 2, 10, 1000, 12345, 1 << 32, u64::MAX];
    cx.run_desc(
        "rescaled",
        &format!("every compressor configuration x every pair of scales out of {scales:?} set one after the other: the scale alone changes, and only of schemes that have one"),
        (cfgs.len() * scales.len() * scales.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let (cfg, scheme, scale, payload) = cfgs[g.take(cfgs.len())];
            let (a, b) = (scales[g.take(scales.len())], scales[g.0 as usize]);
            let mut k = cfg;
            for x in [a, b] {
                k.set_scale(x);
                ensure!(k.compression_scheme() == scheme, "scheme {:?} after setting the scale of {cfg:?}", k.compression_scheme());
                ensure!(k.scale() == scale.map(|_| x), "scale {:?} after setting that of {cfg:?} to {x}", k.scale());
                let mut ser = vec![];
                k.serialize(&mut ser).map_err(|e| format!("serialize: {e}"))?;
                ensure!(ser.len() == payload + 1, "{cfg:?} takes {} bytes after setting the scale", ser.len());
                let back = guard(|| CompressorConfig::from_le_bytes(&scheme, &ser[1..]))?;
                ensure!(back == k && back.scale() == k.scale(), "config {k:?} reads back as {back:?}");
                cx.step(1);
            }
            if let Some(x) = scale {
                k.set_scale(x);
            }
            ensure!(k == cfg && format!("{k:?}") == format!("{cfg:?}"), "{cfg:?} is {k:?} after its scale was changed and set back");
            Ok(())
        },
        |c| {
            let mut g = Dig(c);
            let cfg = cfgs[g.take(cfgs.len())].0;
            format!("{cfg:?} {} {}", scales[g.take(scales.len())], scales[g.0 as usize])
        },
    );
    cx.run_desc(
        "elapsed",
        "a file that keeps any compression time: every value of every one of its low eight bytes, alone and over a pattern, x 12 schemes, is reported as kept",
        (8 * 256 * 2 * all_schemes().len()) as u64,
        |c| {
            let mut g = Dig(c);
            let sch = all_schemes();
            let s = sch[g.take(sch.len())];
            let k = g.take(8);
            let mut t = [[0u8; 8], [1, 2, 3, 4, 5, 6, 7, 8]][g.take(2)];
            t[k] = g.0 as u8;
            let want = u64::from_le_bytes(t);
            let mut f = encode(s, ChunkOption::RecordCount(2), &sample(0, 3))?;
            let at = f.len() - (16 + 9 * 16 + 4);
            f[at..at + 8].copy_from_slice(&t);
            f[at + 8..at + 16].fill(0);
            let d = open(f)?;
            let e = d.footer().compression_elapsed_time();
            ensure!(e == std::time::Duration::from_nanos(want) && d.footer().compression_elapsed_time_nano_secs() == want as u128, "{s:?}: compression time {want} ns is reported as {e:?}");
            cx.step(1);
            cx.state(mix(c, 0xE1));
            Ok(())
        },
        |c| format!("case {c}"),
    );
    // execution times: every segment independently, through the low-level writer
    let vals: [u128; 5] = [0, 1, 999_999_999, 1_000_000_001, 0x0102_0304_0506_0708];
    cx.run_desc(
        "times",
        "each of the nine segment timers x 5 durations x a second timer x 12 schemes, written by the footer writer and read back",
        (9 * 5 * 9 * all_schemes().len()) as u64,
        |c| {
            let mut g = Dig(c);
            let sch = all_schemes();
            let s = sch[g.take(sch.len())];
            let i = g.take(9);
            let j = g.take(9);
            let x = vals[g.take(5)];
            let mut t = [0u128; 9];
            t[j] = 123_456_789_012;
            t[i] = x;
            let ser = SerializableSegmentedExecutionTimes {
                io_read_nanos: t[0],
                io_write_nanos: t[1],
                xor_nanos: t[2],
                delta_nanos: t[3],
                quantization_nanos: t[4],
                bit_packing_nanos: t[5],
                compare_insert_nanos: t[6],
                sum_nanos: t[7],
                decompression_nanos: t[8],
            };
            let times: SegmentedExecutionTimes = ser.into();
            let v = sample(0, 5);
            let bytes = bytes_of(&v);
            let opt = ChunkOption::RecordCount(2);
            let mut out = Cursor::new(vec![]);
            call("low-level write", || {
                let mut fw = FileWriter::new(&bytes[..], s.config(), opt);
                fw.write_header(&mut out)?;
                while let Some(mut cw) = fw.chunk_writer() {
                    cw.write(&mut out)?;
                }
                fw.write_footer(&mut out, times)?;
                out.seek(SeekFrom::Start(fw.footer_offset_slot_offset() as u64))?;
                fw.write_footer_offset(&mut out)?;
                out.seek(SeekFrom::Start(fw.elapsed_time_slot_offset() as u64))?;
                fw.write_elapsed_time(&mut out)?;
                ebi::encoder::Result::Ok(())
            })?;
            let f = out.into_inner();
            check_tiling(cx, s, opt, &f, &v)?;
            let d = open(f)?;
            let r = d.footer().segmented_execution_times();
            let got = [r.io_read(), r.io_write(), r.xor(), r.delta(), r.quantization(), r.bit_packing(), r.compare_insert(), r.sum(), r.decompression()].map(|d| d.as_nanos());
            ensure!(got == t, "times written {t:?}, read {got:?}");
            ensure!(d.footer().compression_elapsed_time().as_secs() < 60, "elapsed time {:?}", d.footer().compression_elapsed_time());
            Ok(())
        },
        |c| format!("case {c}"),
    );
    // files larger than memory: real chunks, moved apart by gaps of every size
    let sch = all_schemes();
    let gaps: Vec<u64> = (0..48u32).flat_map(|k| [1u64 << k, (1u64 << k) + 3, (1u64 << k).wrapping_sub(40)]).filter(|g| *g < 1 << 50).collect();
    cx.run_desc(
        "far",
        "12 schemes x a gap of 2^k-40, 2^k, 2^k+3 bytes (k < 48) before the second or the third of four chunks: offsets are reported and every chunk behind the gap and the one before it is read in its place",
        (sch.len() * gaps.len() * 2) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let at = g.take(2) + 1;
            let gap = gaps[g.0 as usize];
            let v = sample(0, 11);
            let f = encode(s, ChunkOption::RecordCount(3), &v)?;
            let mut d = open(f.clone())?;
            let whole = materialize(&mut d, None, None)?;
            let cf: Vec<(u64, u64)> = d.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect();
            ensure!(cf.len() == 4, "{} chunks", cf.len());
            let foot = d.header().footer_offset();
            let split = cf[at].0;
            // the same file with a hole before chunk `at`
            let mut front = f[..split as usize].to_vec();
            let fo = std::mem::offset_of!(ebi::format::FileHeader, footer_offset);
            front[fo..fo + 8].copy_from_slice(&(foot + gap).to_le_bytes());
            let mut back = f[split as usize..].to_vec();
            let table = (foot - split) as usize + std::mem::size_of::<ebi::format::FileFooter0>();
            for (k, x) in cf.iter().enumerate().skip(at) {
                back[table + 16 * k..table + 16 * k + 8].copy_from_slice(&(x.0 + gap).to_le_bytes());
            }
            let far = Sparse { parts: vec![(0, front), (split + gap, back)], pos: 0 };
            cx.state(mix(gap, mix(at as u64, hash64(s.name().as_bytes()))));
            let mut d = call("open", || Decoder::new(DecoderInput::from_reader(far)))?;
            ensure!(d.header().footer_offset() == foot + gap, "footer_offset {}", d.header().footer_offset());
            ensure!(d.total_file_size() == f.len() as u64 + gap, "total_file_size {}", d.total_file_size());
            for (k, x) in cf.iter().enumerate() {
                let want = if k >= at { x.0 + gap } else { x.0 };
                let got = &d.chunk_footers()[k];
                ensure!((got.physical_offset(), got.logical_offset()) == (want, x.1), "chunk {k} reported at {}, is at {want}", got.physical_offset());
            }
            for k in (0..4).rev().chain(0..4) {
                if k + 1 == at {
                    continue; // the hole counts as part of this one
                }
                let b = call("materialize", || {
                    let mut o = DecoderOutput::from_vec(vec![]);
                    d.materialize(&mut o, None, Some(ChunkId::new(k)))?;
                    ebi::decoder::Result::Ok(o.into_writer().into_inner())
                })?;
                cx.step(1);
                let end = (3 * k + 3).min(11);
                ensure!(f64s_of(&b).is_some_and(|x| same_bits(&x, &whole[3 * k..end])), "chunk {k} of a file with a hole of {gap} bytes before chunk {at} reads differently");
            }
            Ok(())
        },
        |c| {
            let mut g = Dig(c);
            format!("{:?} chunk {} gap {}", sch[g.take(sch.len())], g.take(2) + 1, gaps[g.0 as usize])
        },
    );
}

// ---------------------------------------------------------------- P05
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rd {
    /// deliver at most this many bytes
    N(usize),
    /// fail once with Interrupted
    Intr,
}
struct Script<'a> {
    data: &'a [u8],
    pos: usize,
    script: &'a [Rd],
    at: usize,
    /// deliver at most this many bytes once the script is over
    tail: usize,
    /// from this byte position on, every read fails
    fail_at: Option<usize>,
}
/// a reader that fails at a byte position, once or for good, with some kind of error
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    cap: usize,
    at: usize,
    kind: io::ErrorKind,
    once: bool,
    failed: bool,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut left = self.data.len() - self.pos;
        if !(self.once && self.failed) {
            if self.pos >= self.at {
                self.failed = true;
                return Err(io::Error::new(self.kind, "device error"));
            }
            left = left.min(self.at - self.pos);
        }
        let n = self.cap.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// the kinds of error a failing input or file may report
const KINDS: [io::ErrorKind; 6] = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe];
impl Read for Script<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut lim = self.tail;
        if self.at < self.script.len() {
            self.at += 1;
            match self.script[self.at - 1] {
                Rd::N(n) => lim = n,
                Rd::Intr => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            }
        }
        let mut left = self.data.len() - self.pos;
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "device error"));
            }
            left = left.min(f - self.pos);
        }
        let n = lim.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn encode_reader<R: Read>(s: Sch, opt: ChunkOption, r: R) -> Result<Result<Vec<u8>, String>, Fail> {
    let x = guard(|| {
        let mut e = Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_vec(vec![]), opt, s.config());
        match e.encode() {
            Ok(()) => Ok(e.into_output().into_vec()),
            Err(x) => Err(format!("{x:?}")),
        }
    });
    x.map_err(|p| Fail::from(format!("encode panicked: {p}")))
}
/// the part of a file that does not depend on the clock
fn timeless(f: &[u8]) -> Result<Vec<u8>, Fail> {
    let d = open(f.to_vec())?;
    let e = d.header().footer_offset() as usize;
    // counts, chunk table and configuration follow the chunks; times come after them
    let n = d.footer().size() - (16 + 9 * 16 + 4);
    Ok(f[..e + n].to_vec())
}

pub fn p05(cx: &Cx) {
    let sch: Vec<Sch> = if cx.quick() && cfg!(not(feature = "alp")) { vec![Sch::Unc, Sch::Gor, Sch::Snappy] } else { all_schemes() };
    let al = [Rd::N(1), Rd::N(3), Rd::Intr, Rd::N(7), Rd::N(8), Rd::N(13)];
    let depth = cx.pick(4u32, 5);
    let opts = [ChunkOption::RecordCount(2), ChunkOption::ByteSizeBestEffort(8), ChunkOption::Full, ChunkOption::RecordCount(1), ChunkOption::RecordCount(100)];
    let tails = [usize::MAX, 1, 5];
    let extra = [0usize, 3];
    let per = (sch.len() * opts.len() * tails.len() * extra.len()) as u64;
    let dd = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let t = tails[g.take(3)];
        let x = extra[g.take(2)];
        let sc: Vec<Rd> = nth_seq(6, 0, depth, g.0).iter().map(|&i| al[i]).collect();
        (s, o, t, x, sc)
    };
    cx.run_desc(
        "fragments",
        &format!("every script of up to {depth} reads over {{1,3,7,8,13 bytes, interrupted}} then a steady tail of 1, 5 or unlimited bytes, x chunk options x schemes x trailing partial record"),
        n_seqs(6, 0, depth) * per,
        |c| {
            let (s, o, t, x, sc) = dd(c);
            let v = sample(0, 5);
            let reference = timeless(&encode(s, o, &v)?)?;
            let mut bytes = bytes_of(&v);
            bytes.extend(std::iter::repeat(0x40).take(x));
            let f = match encode_reader(s, o, Script { data: &bytes, pos: 0, script: &sc, at: 0, tail: t, fail_at: None })? {
                Ok(f) => f,
                Err(e) => bail!("{s:?} {o:?} reads {sc:?} then {t}: encode failed: {e}"),
            };
            cx.state(mix(hash64(&f[..f.len().min(256)]), c / per));
            cx.step(sc.len() as u64 + 1);
            let got = timeless(&f)?;
            if got != reference {
                let m = materialize(&mut open(f)?, None, None)?;
                bail!("{s:?} {o:?} reads {sc:?} then {t}, {x} trailing bytes: file differs from the one written from whole reads; it decodes to {m:?} instead of {v:?}");
            }
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // every byte length of input: only whole records are stored
    let all = all_schemes();
    cx.run_desc(
        "byte-lengths",
        "every input length 0..=40 bytes x chunk options x steady read size 1..=9 x 12 schemes",
        (41 * opts.len() * 9 * all.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let s = all[g.take(all.len())];
            let o = opts[g.take(opts.len())];
            let t = g.take(9) + 1;
            let len = g.0 as usize;
            let v = sample(0, 5);
            let bytes = bytes_of(&v);
            let f = match encode_reader(s, o, Script { data: &bytes[..len], pos: 0, script: &[], at: 0, tail: t, fail_at: None })? {
                Ok(f) => f,
                Err(e) => bail!("encode failed: {e}"),
            };
            check_tiling(cx, s, o, &f, &v[..len / 8])
        },
        |c| format!("case {c}"),
    );
    // inputs far larger than any buffer
    let lopts = [ChunkOption::Full, ChunkOption::RecordCount(8191), ChunkOption::RecordCount(65536), ChunkOption::ByteSizeBestEffort(65536), ChunkOption::ByteSizeBestEffort(1 << 20)];
    let ltails: &[usize] = if cx.quick() { &[7, 4095, 8193, 65535, 65536, 131072 + 3] } else { &[1, 7, 4095, 4096, 8191, 8192, 8193, 32767, 65535, 65536, 65537, 131072 + 3, 262144, 500001] };
    let lens = [8usize * 8192, 8 * 70001 + 3];
    let ld = |c: u64| {
        let mut g = Dig(c);
        (all[g.take(all.len())], lopts[g.take(lopts.len())], ltails[g.take(ltails.len())], lens[g.take(2)])
    };
    cx.run_desc(
        "long",
        "inputs of 64 KiB and of 560 KB with a partial record at the end, read in pieces of 1 byte to half a megabyte x 5 large chunk options x 12 schemes: the same file as from whole reads",
        (all.len() * lopts.len() * ltails.len() * 2) as u64,
        |c| {
            let (s, o, t, len) = ld(c);
            let v = sample(0, len / 8);
            let mut bytes = bytes_of(&v);
            bytes.resize(len, 0x40);
            let reference = timeless(&encode(s, o, &v)?)?;
            let script = [Rd::N(t), Rd::Intr, Rd::N(t / 2 + 1)];
            let f = match encode_reader(s, o, Script { data: &bytes, pos: 0, script: &script, at: 0, tail: t, fail_at: None })? {
                Ok(f) => f,
                Err(e) => bail!("{s:?} {o:?} {len} bytes in reads of {t}: encode failed: {e}"),
            };
            cx.state(mix(hash64(&f), c));
            cx.step((len / t + 1) as u64);
            ensure!(timeless(&f)? == reference, "{s:?} {o:?} {len} bytes in reads of {t}: the file differs from the one written from whole reads");
            let mut d = open(f)?;
            let m = materialize(&mut d, None, None)?;
            ensure!(m.len() == v.len(), "{s:?} {o:?} {len} bytes in reads of {t}: {} records stored instead of {}", m.len(), v.len());
            ensure!(same_data(s, &m, &v), "{s:?} {o:?} {len} bytes in reads of {t}: other records stored");
            // a device error far into the input
            for at in [len - 1, len / 2] {
                if encode_reader(s, o, Script { data: &bytes, pos: 0, script: &script, at: 0, tail: t, fail_at: Some(at) })?.is_ok() {
                    bail!("{s:?} {o:?} {len} bytes in reads of {t}: input failed after {at} bytes but encode reported success");
                }
            }
            Ok(())
        },
        |c| format!("{:?}", ld(c)),
    );
    // the reader breaks at every byte position: the encoder must say so
    cx.run_desc(
        "read-errors",
        "an error of 6 kinds, for good or just once, at every byte position of a 5-record input x chunk options x read sizes x 12 schemes",
        (41 * opts.len() * 3 * all.len() * 12) as u64,
        |c| {
            let mut g = Dig(c);
            let s = all[g.take(all.len())];
            let o = opts[g.take(opts.len())];
            let t = [usize::MAX, 8, 3][g.take(3)];
            let kind = KINDS[g.take(6)];
            let once = g.take(2) == 1;
            let at = g.0 as usize;
            let bytes = bytes_of(&sample(0, 5));
            cx.state(mix(c, 77));
            cx.step(1);
            match encode_reader(s, o, Failing { data: &bytes, pos: 0, cap: t, at, kind, once, failed: false })? {
                Err(_) => Ok(()),
                Ok(_) => Err(Fail::from(format!("{s:?} {o:?} reads of {t}: input failed after {at} bytes ({kind:?}, once={once}) but encode reported success"))),
            }
        },
        |c| format!("case {c}"),
    );
    // real files and buffered adapters
    let dir = std::env::temp_dir().join(format!("ebi-mc-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    cx.run_desc(
        "files",
        "12 schemes x chunk options x record counts x buffered/unbuffered file adapters: the same file as in memory",
        (all.len() * opts.len() * 4 * 2) as u64,
        |c| {
            let mut g = Dig(c);
            let s = all[g.take(all.len())];
            let o = opts[g.take(opts.len())];
            let n = [0usize, 1, 5, 2000][g.take(4)];
            let buffered = g.take(2) == 1;
            let v = sample(0, n);
            let inp = dir.join(format!("{c}.in"));
            let outp = dir.join(format!("{c}.out"));
            let decp = dir.join(format!("{c}.dec"));
            std::fs::write(&inp, bytes_of(&v)).map_err(|e| format!("{e}"))?;
            // an old, longer output must not leave anything behind
            std::fs::write(&outp, vec![0xEE; 100_000]).map_err(|e| format!("{e}"))?;
            let reference = timeless(&encode(s, o, &v)?)?;
            call("file encode", || {
                let i = EncoderInput::from_file(&inp)?;
                let out = EncoderOutput::from_file(&outp)?;
                if buffered {
                    Encoder::new(i, out.into_buffered(), o, s.config()).encode()
                } else {
                    Encoder::new(i, out, o, s.config()).encode()
                }
            })?;
            let f = std::fs::read(&outp).map_err(|e| format!("{e}"))?;
            ensure!(timeless(&f)? == reference, "{s:?} {o:?} n={n}: file on disk differs from the in-memory encoding");
            call("file decode", || {
                let i = DecoderInput::from_file(&outp)?;
                let mut out = DecoderOutput::from_file(&decp)?;
                if buffered {
                    let mut d = Decoder::new(i.into_buffered())?;
                    let mut b = out.into_buffered();
                    d.materialize(&mut b, None, None)?;
                    b.writer_mut().flush()?;
                } else {
                    Decoder::new(i)?.materialize(&mut out, None, None)?;
                }
                ebi::decoder::Result::Ok(())
            })?;
            let back = f64s_of(&std::fs::read(&decp).map_err(|e| format!("{e}"))?).ok_or("partial record")?;
            ensure!(same_data(s, &back, &v), "{s:?} {o:?} n={n} buffered={buffered}: decoded file differs");
            for p in [inp, outp, decp] {
                let _ = std::fs::remove_file(p);
            }
            cx.state(mix(hash64(&f[..f.len().min(256)]), c));
            cx.step(4);
            Ok(())
        },
        |c| format!("case {c}"),
    );
    let _ = std::fs::remove_dir_all(&dir);
}

// ---------------------------------------------------------------- P06
#[derive(Clone, Debug)]
enum Op {
    Write(Vec<u8>),
    Seek(u64),
    Flush,
}
/// logs every operation; fails from operation `fail_op` on (persistently or once), writes at most `cap` bytes per call
struct FaultFile {
    data: Cursor<Vec<u8>>,
    log: Vec<Op>,
    n: Rc<Cell<usize>>,
    fail_op: Option<usize>,
    once: bool,
    kind: io::ErrorKind,
    cap: usize,
}
impl FaultFile {
    fn hit(&mut self) -> io::Result<()> {
        let k = self.n.get();
        self.n.set(k + 1);
        if let Some(f) = self.fail_op {
            if k == f || (!self.once && k > f) {
                return Err(io::Error::new(self.kind, "injected"));
            }
        }
        Ok(())
    }
}
impl Write for FaultFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.hit()?;
        let n = b.len().min(self.cap);
        self.log.push(Op::Write(b[..n].to_vec()));
        self.data.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.hit()?;
        self.log.push(Op::Flush);
        Ok(())
    }
}
impl Seek for FaultFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.hit()?;
        let r = self.data.seek(p)?;
        self.log.push(Op::Seek(r));
        Ok(r)
    }
}
fn fault(n: Rc<Cell<usize>>, fail_op: Option<usize>, once: bool, kind: io::ErrorKind, cap: usize) -> FaultFile {
    FaultFile { data: Cursor::new(vec![]), log: vec![], n, fail_op, once, kind, cap }
}
struct FaultRead {
    data: Cursor<Vec<u8>>,
    n: usize,
    fail_op: usize,
    once: bool,
    kind: io::ErrorKind,
    cap: usize,
    ops: Rc<Cell<usize>>,
}
impl FaultRead {
    fn hit(&mut self) -> io::Result<()> {
        let k = self.n;
        self.n += 1;
        self.ops.set(self.n);
        if k == self.fail_op || (!self.once && k > self.fail_op) {
            return Err(io::Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}
impl Read for FaultRead {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.hit()?;
        let n = b.len().min(self.cap);
        self.data.read(&mut b[..n])
    }
}
impl Seek for FaultRead {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.hit()?;
        self.data.seek(p)
    }
}
struct FailOut(usize, usize);
impl Write for FailOut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 >= self.1 {
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        let n = b.len().min(self.1 - self.0);
        self.0 += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// what a reader may do with the bytes left by a crash: refuse, or give exactly the data
fn crash_ok(cx: &Cx, s: Sch, img: &[u8], v: &[f64], may_open: bool) -> Case {
    cx.step(1);
    cx.state(hash64(img));
    let r = guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(img.to_vec()))));
    match r {
        Err(p) => bail!("{s:?}: opening a {}-byte incomplete file panicked: {p}", img.len()),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(mut d)) => {
            ensure!(may_open, "{s:?}: a {}-byte incomplete file was opened as valid: {} records in {} chunks", img.len(), d.footer().number_of_records(), d.footer().number_of_chunks());
            let m = materialize(&mut d, None, None)?;
            ensure!(same_data(s, &m, v), "{s:?}: a complete-looking file yields {m:?} instead of {v:?}");
            Ok(())
        }
    }
}

pub fn p06(cx: &Cx) {
    let all = all_schemes();
    let mut opts = vec![
        ChunkOption::Full,
        ChunkOption::RecordCount(1),
        ChunkOption::RecordCount(2),
        ChunkOption::RecordCount(3),
        ChunkOption::ByteSizeBestEffort(8),
        ChunkOption::RecordCount(30),
    ];
    let mut ns = vec![0usize, 1, 5, 20];
    if !cx.quick() {
        opts.extend([4, 5, 7, 11].map(ChunkOption::RecordCount));
        opts.extend([24, 100].map(ChunkOption::ByteSizeBestEffort));
        ns.extend([2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 33, 70]);
    }
    let dd = |c: u64| {
        let mut g = Dig(c);
        let s = all[g.take(all.len())];
        let o = opts[g.take(opts.len())];
        let n = ns[g.take(ns.len())];
        (s, o, n, g.0)
    };
    let per = (all.len() * opts.len() * ns.len()) as u64;
    // crash points: every prefix of the write log at byte granularity
    cx.run_desc(
        "crash-points",
        &format!("every crash point (each byte of each write, in issue order; the 8-byte footer pointer as one unit) of encodes of {ns:?} records x {} chunk options x 12 schemes; the image must be refused or, once the pointer is in place, read exactly", opts.len()),
        per,
        |c| {
            let (s, o, n, _) = dd(c);
            let v = sample(0, n);
            let ctr = Rc::new(Cell::new(0));
            let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(fault(ctr.clone(), None, false, io::ErrorKind::Other, usize::MAX)), o, s.config());
            call("encode", || e.encode())?;
            let ff = e.into_output().into_inner();
            let full = ff.data.get_ref().clone();
            // replay the log
            let mut img: Vec<u8> = vec![];
            let mut pos = 0usize;
            let mut published = false;
            let mut points = 0u64;
            crash_ok(cx, s, &img, &v, false)?;
            for op in &ff.log {
                match op {
                    Op::Seek(p) => pos = *p as usize,
                    Op::Flush => {}
                    Op::Write(b) => {
                        // overwriting the header after the file body is what publishes the file
                        let patch = pos < img.len() && pos < 30;
                        for k in 1..=b.len() {
                            if img.len() < pos + k {
                                img.resize(pos + k, 0);
                            }
                            img[pos + k - 1] = b[k - 1];
                            if patch && k < b.len() {
                                continue;
                            }
                            published |= patch;
                            points += 1;
                            crash_ok(cx, s, &img, &v, published)?;
                        }
                        pos += b.len();
                    }
                }
            }
            cx.note("crash points", points);
            ensure!(img == full, "log replay does not reproduce the file");
            crash_ok(cx, s, &img, &v, true)?;
            ensure!(same_data(s, &materialize(&mut open(img)?, None, None)?, &v), "complete file does not read back");
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // truncation of a finished file
    cx.run_desc(
        "truncation",
        "every proper prefix of the finished file is refused",
        per,
        |c| {
            let (s, o, n, _) = dd(c);
            let v = sample(0, n);
            let f = encode(s, o, &v)?;
            for k in 0..f.len() {
                crash_ok(cx, s, &f[..k], &v, false)?;
            }
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // write faults
    let kinds = [io::ErrorKind::Other, io::ErrorKind::WriteZero, io::ErrorKind::BrokenPipe, io::ErrorKind::Interrupted];
    cx.run_desc(
        "write-faults",
        "a failure (persistent or once) at every write, seek and flush of the encode, 3 error kinds, full and 3-byte writes, raw and buffered: encode reports an error; interrupted once: an error or the right file",
        per * 2 * 4 * 2 * 2,
        |c| {
            let (s, o, n, rest) = dd(c);
            let mut g = Dig(rest);
            let mut once = g.take(2) == 1;
            let kind = kinds[g.take(4)];
            // an interruption that never ends is retried for ever
            once |= kind == io::ErrorKind::Interrupted;
            let cap = [usize::MAX, 3][g.take(2)];
            let buffered = g.take(2) == 1;
            let v = sample(0, n);
            let go = |fail: Option<usize>| -> Result<(Result<(), String>, usize, Vec<u8>), Fail> {
                let ctr = Rc::new(Cell::new(0));
                let out = EncoderOutput::from_writer(fault(ctr.clone(), fail, once, kind, cap));
                let r = guard(|| {
                    if buffered {
                        let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), out.into_buffered(), o, s.config());
                        let r = e.encode().map_err(|x| format!("{x:?}"));
                        let k = ctr.get();
                        let img = e.output();
                        let _ = img;
                        let inner = e.into_output().into_inner();
                        let (ff, _) = inner.into_parts();
                        (r, k, ff.data.into_inner())
                    } else {
                        let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), out, o, s.config());
                        let r = e.encode().map_err(|x| format!("{x:?}"));
                        let k = ctr.get();
                        (r, k, e.into_output().into_inner().data.into_inner())
                    }
                });
                r.map_err(|p| Fail::from(format!("{s:?} {o:?} n={n} fail={fail:?} {kind:?}: encode panicked: {p}")))
            };
            let (r, total, img) = go(None)?;
            ensure!(r.is_ok(), "encode failed without a fault: {r:?}");
            ensure!(same_data(s, &materialize(&mut open(img)?, None, None)?, &v), "{s:?} {o:?} n={n} cap={cap} buffered={buffered}: file written in short writes does not read back");
            for k in 0..total {
                let (r, _, img) = go(Some(k))?;
                cx.step(1);
                if kind == io::ErrorKind::Interrupted {
                    // writes are taken up again after an interruption
                    if r.is_ok() {
                        ensure!(same_data(s, &materialize(&mut open(img)?, None, None)?, &v), "{s:?} {o:?} n={n} buffered={buffered}: operation {k} of {total} was interrupted, encode reported success, other data stored");
                    }
                    continue;
                }
                ensure!(r.is_err(), "{s:?} {o:?} n={n} buffered={buffered}: operation {k} of {total} failed with {kind:?} (once={once}) but encode reported success; file {} bytes", img.len());
            }
            cx.state(mix(c, total as u64));
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // read faults while decoding
    cx.run_desc(
        "read-faults",
        "a failure of 6 kinds, for good or just once, at every read and seek of open+materialize/filter/sum, whole and short reads: an error is returned; interrupted once: an error or the same answer",
        per * 2 * 3,
        |c| {
            let (s, o, n, rest) = dd(c);
            let mut g = Dig(rest);
            let cap = [usize::MAX, 5][g.take(2)];
            let mode = g.take(3);
            let v = sample(0, n);
            let f = encode(s, o, &v)?;
            let go = |fail: usize, kind: io::ErrorKind, once: bool| -> Result<(Result<Vec<u8>, String>, usize), Fail> {
                let ops = Rc::new(Cell::new(0));
                let rd = FaultRead { data: Cursor::new(f.clone()), n: 0, fail_op: fail, once, kind, cap, ops: ops.clone() };
                let r = guard(|| -> Result<Vec<u8>, String> {
                    let mut d = Decoder::new(DecoderInput::from_reader(rd)).map_err(|e| format!("{e:?}"))?;
                    match mode {
                        0 => {
                            let mut out = DecoderOutput::from_vec(vec![]);
                            d.materialize(&mut out, None, None).map_err(|e| format!("{e:?}"))?;
                            Ok(out.into_writer().into_inner())
                        }
                        1 => Ok(d.filter(Pred::Range(Bound::None, Bound::None).to(), None, None).map_err(|e| format!("{e:?}"))?.iter().flat_map(|x| x.to_le_bytes()).collect()),
                        _ => Ok(d.sum(None, None).map_err(|e| format!("{e:?}"))?.to_le_bytes().to_vec()),
                    }
                });
                match r {
                    Ok(r) => Ok((r, ops.get())),
                    Err(p) => Err(Fail::from(format!("{s:?} {o:?} n={n} mode={mode}: decoding with read operation {fail} failing ({kind:?}) panicked: {p}"))),
                }
            };
            let (r, total) = go(usize::MAX, io::ErrorKind::Other, false)?;
            let want = match r {
                Ok(w) => w,
                Err(e) => bail!("{s:?} {o:?} n={n} cap={cap}: decode failed: {e}"),
            };
            if mode == 0 {
                ensure!(same_data(s, &f64s_of(&want).ok_or("partial record")?, &v), "{s:?} {o:?} n={n} cap={cap}: decoded data differ");
            }
            for k in 0..total {
                for kind in KINDS {
                    for once in [false, true] {
                        let (r, _) = go(k, kind, once)?;
                        ensure!(r.is_err(), "{s:?} {o:?} n={n} mode={mode}: read operation {k} of {total} failed ({kind:?}, once={once}) but decoding reported success");
                        cx.step(1);
                    }
                }
                if let (Ok(a), _) = go(k, io::ErrorKind::Interrupted, true)? {
                    ensure!(a == want, "{s:?} {o:?} n={n} mode={mode}: another answer after read operation {k} of {total} was interrupted");
                }
                cx.step(1);
            }
            cx.state(mix(c, total as u64));
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // the decode output fills up at every byte
    cx.run_desc(
        "output-faults",
        "the output fails after every number of bytes: materialize and filter_materialize report an error",
        per,
        |c| {
            let (s, o, n, _) = dd(c);
            let v = sample(0, n);
            let f = encode(s, o, &v)?;
            for lim in 0..8 * n {
                for fm in [false, true] {
                    let mut d = open(f.clone())?;
                    let mut out = DecoderOutput::from_writer(FailOut(0, lim));
                    let r = guard(|| {
                        if fm {
                            d.filter_materialize(&mut out, Pred::Range(Bound::None, Bound::None).to(), None, None).is_err()
                        } else {
                            d.materialize(&mut out, None, None).is_err()
                        }
                    })
                    .map_err(|p| format!("{s:?} {o:?} n={n} output limited to {lim} bytes: panicked: {p}"))?;
                    cx.step(1);
                    ensure!(r, "{s:?} {o:?} n={n}: output failed after {lim} bytes but success was reported (filter={fm})");
                }
            }
            cx.state(mix(c, 5));
            Ok(())
        },
        |c| format!("{:?}", dd(c)),
    );
    // files of many buffers
    let lopts = [ChunkOption::RecordCount(1000), ChunkOption::RecordCount(4099), ChunkOption::Full];
    let ld = |c: u64| {
        let mut g = Dig(c);
        (all[g.take(all.len())], lopts[g.take(3)], g.take(2) == 1)
    };
    cx.run_desc(
        "large",
        "files of 9001 records in 3 chunkings x 12 schemes: a failure at each write, seek and flush of the encode (raw and buffered, persistent and once) and at each read and seek of the decode (whole and buffered reads; where there are very many operations the first, the last and evenly spaced ones), outputs that fill up at and around every 4 KiB, and prefixes at every 1021st and around every 4096th byte and the last 400",
        (all.len() * 3 * 2) as u64,
        |c| {
            let (s, o, buffered) = ld(c);
            let n = 9001;
            let v = sample(0, n);
            let go = |fail: Option<usize>, once: bool| -> Result<(Result<(), String>, usize, Vec<u8>), Fail> {
                let ctr = Rc::new(Cell::new(0));
                let out = EncoderOutput::from_writer(fault(ctr.clone(), fail, once, io::ErrorKind::Other, usize::MAX));
                let r = guard(|| {
                    if buffered {
                        let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), out.into_buffered(), o, s.config());
                        let r = e.encode().map_err(|x| format!("{x:?}"));
                        let (ff, _) = e.into_output().into_inner().into_parts();
                        (r, ctr.get(), ff.data.into_inner())
                    } else {
                        let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), out, o, s.config());
                        let r = e.encode().map_err(|x| format!("{x:?}"));
                        (r, ctr.get(), e.into_output().into_inner().data.into_inner())
                    }
                });
                r.map_err(|p| Fail::from(format!("{s:?} {o:?} fail={fail:?}: encode panicked: {p}")))
            };
            let (r, total, f) = go(None, false)?;
            ensure!(r.is_ok(), "encode failed without a fault: {r:?}");
            for k in points(total, cx.pick(24, 200)) {
                for once in [false, true] {
                    let (r, _, _) = go(Some(k), once)?;
                    cx.step(1);
                    ensure!(r.is_err(), "{s:?} {o:?} n={n} buffered={buffered}: operation {k} of {total} failed (once={once}) but encode reported success");
                }
            }
            // decoding
            let dec = |fail: usize| -> Result<(Result<Vec<u8>, String>, usize), Fail> {
                let ops = Rc::new(Cell::new(0));
                let rd = FaultRead { data: Cursor::new(f.clone()), n: 0, fail_op: fail, once: false, kind: io::ErrorKind::Other, cap: usize::MAX, ops: ops.clone() };
                let r = guard(|| -> Result<Vec<u8>, String> {
                    let mut out = DecoderOutput::from_vec(vec![]);
                    if buffered {
                        let mut d = Decoder::new(DecoderInput::from_reader(std::io::BufReader::new(rd))).map_err(|e| format!("{e:?}"))?;
                        d.materialize(&mut out, None, None).map_err(|e| format!("{e:?}"))?;
                    } else {
                        let mut d = Decoder::new(DecoderInput::from_reader(rd)).map_err(|e| format!("{e:?}"))?;
                        d.materialize(&mut out, None, None).map_err(|e| format!("{e:?}"))?;
                    }
                    Ok(out.into_writer().into_inner())
                });
                match r {
                    Ok(r) => Ok((r, ops.get())),
                    Err(p) => Err(Fail::from(format!("{s:?} {o:?} n={n}: decoding with read operation {fail} failing panicked: {p}"))),
                }
            };
            let (r, total) = dec(usize::MAX)?;
            let want = match r {
                Ok(w) => w,
                Err(e) => bail!("{s:?} {o:?} n={n}: decode failed: {e}"),
            };
            ensure!(same_data(s, &f64s_of(&want).ok_or("partial record")?, &v), "{s:?} {o:?} n={n}: decoded data differ");
            for k in points(total, cx.pick(24, 200)) {
                let (r, _) = dec(k)?;
                cx.step(1);
                ensure!(r.is_err(), "{s:?} {o:?} n={n} buffered={buffered}: read operation {k} of {total} failed but decoding reported success");
            }
            // outputs that fill up
            let mut d = open(f.clone())?;
            let full = 8 * n;
            let mut lims: Vec<usize> = (0..full).step_by(4096).flat_map(|x| [x.max(1) - 1, x, x + 1]).chain([full - 8, full - 1]).filter(|&x| x < full).collect();
            lims.dedup();
            for lim in lims {
                let fm = buffered;
                let mut out = DecoderOutput::from_writer(FailOut(0, lim));
                let r = guard(|| {
                    if fm {
                        d.filter_materialize(&mut out, Pred::Range(Bound::None, Bound::None).to(), None, None).is_err()
                    } else {
                        d.materialize(&mut out, None, None).is_err()
                    }
                })
                .map_err(|p| format!("{s:?} {o:?} n={n} output limited to {lim} bytes: panicked: {p}"))?;
                cx.step(1);
                ensure!(r, "{s:?} {o:?} n={n}: output failed after {lim} bytes but success was reported (filter={fm})");
            }
            // prefixes
            let mut ks: Vec<usize> = (0..f.len()).step_by(1021).chain((4096..f.len()).step_by(4096).flat_map(|x| [x - 1, x, x + 1])).chain(f.len().saturating_sub(400)..f.len()).filter(|&k| k < f.len()).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                crash_ok(cx, s, &f[..k], &v, false)?;
            }
            cx.state(mix(c, hash64(&f)));
            Ok(())
        },
        |c| format!("{:?}", ld(c)),
    );
    let _ = ChunkId::new(0);
}

/// every point below `total` when there are few, otherwise the first and last ones and evenly spaced ones
fn points(total: usize, most: usize) -> Vec<usize> {
    if total <= 2 * most {
        return (0..total).collect();
    }
    let mut p: Vec<usize> = (0..most / 2).chain((0..most).map(|i| i * total / most)).chain(total - most / 2..total).collect();
    p.sort();
    p.dedup();
    p
}
