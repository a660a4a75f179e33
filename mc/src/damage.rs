//! P28: damaged and foreign files.
use crate::common::*;
use crate::fmt::{all_schemes, sample};
use crate::fw::*;
use crate::{bail, ensure};
use ebi::{
    api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput},
    decoder::query::{Predicate, Range, RangeValue},
    encoder::ChunkOption,
    format::{ChunkFooter, CompressionScheme, FileFooter0, FileFooter3, FileHeader},
};
use roaring::RoaringBitmap;
use std::io::Cursor;
use std::mem::{offset_of, size_of};

/// A well-formed file and what it holds.
struct Base {
    s: Sch,
    o: ChunkOption,
    file: Vec<u8>,
    /// where each chunk starts (bytes, records), then the footer
    cut: Vec<(usize, usize)>,
    values: Vec<f64>,
}
const HEADER: usize = size_of::<FileHeader>();

fn bases(cx: &Cx) -> Result<Vec<Base>, Fail> {
    let mut v = vec![];
    let shapes: &[(usize, usize, ChunkOption)] = &[
        (0, 9, ChunkOption::RecordCount(4)),
        (2, 6, ChunkOption::RecordCount(3)),
        (1, 40, ChunkOption::Full),
        (0, 0, ChunkOption::Full),
        (1, 75, ChunkOption::RecordCount(70)),
    ];
    for s in all_schemes() {
        for &(k, n, o) in &shapes[..cx.pick(4, 5)] {
            let file = encode(s, o, &sample(k, n))?;
            let mut d = open(file.clone())?;
            let mut cut: Vec<(usize, usize)> =
                d.chunk_footers().iter().map(|c| (c.physical_offset() as usize, c.logical_offset() as usize)).collect();
            cut.push((d.header().footer_offset() as usize, n));
            let values = materialize(&mut d, None, None)?;
            ensure!(values.len() == n, "{s:?}: {} values of {n}", values.len());
            v.push(Base { s, o, file, cut, values });
        }
    }
    Ok(v)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Zone {
    Magic,
    FieldType,
    Scheme,
    ChunkKind,
    /// describes the file without steering the reading of it
    Informative,
    FooterOffset,
    Chunk(usize),
    RecordCount,
    ChunkTable,
    Config,
}
fn zone(b: &Base, pos: usize) -> Zone {
    use ebi::format::{ChunkOption as O, FileConfig};
    let cfg = offset_of!(FileHeader, config);
    let opt = cfg + offset_of!(FileConfig, chunk_option);
    let fo = offset_of!(FileHeader, footer_offset);
    let foot = b.cut[b.cut.len() - 1].0;
    let table_end = foot + size_of::<FileFooter0>() + (b.cut.len() - 1) * size_of::<ChunkFooter>();
    let times = b.file.len() - size_of::<FileFooter3>();
    if pos < HEADER {
        if pos < 4 {
            Zone::Magic
        } else if pos == cfg + offset_of!(FileConfig, field_type) {
            Zone::FieldType
        } else if pos == cfg + offset_of!(FileConfig, compression_scheme) {
            Zone::Scheme
        } else if pos == opt + offset_of!(O, kind) {
            Zone::ChunkKind
        } else if (fo..fo + 8).contains(&pos) {
            Zone::FooterOffset
        } else {
            Zone::Informative
        }
    } else if pos < foot {
        Zone::Chunk(b.cut.iter().rposition(|c| c.0 <= pos).unwrap())
    } else if pos < foot + 8 {
        Zone::RecordCount
    } else if pos < table_end {
        Zone::ChunkTable
    } else if pos < times {
        Zone::Config
    } else {
        Zone::Informative
    }
}

/// every reading of a file; a panic fails the case, errors do not
fn readings(d: &mut Dec, c: Option<usize>, n: usize) -> Result<Vec<Option<u64>>, Fail> {
    let c = c.map(ChunkId::new);
    let mask: RoaringBitmap = (0..n.min(200) as u32).filter(|i| i % 3 != 1).collect();
    let mut out = vec![];
    let mut put = |what: &str, r: Result<ebi::decoder::Result<u64>, String>| -> Case {
        match r {
            Err(p) => bail!("{what} panicked: {p}"),
            Ok(r) => out.push(r.ok()),
        }
        Ok(())
    };
    let h = |o: DecoderOutput<Cursor<Vec<u8>>>| hash64(&o.into_writer().into_inner());
    for m in [None, Some(&mask)] {
        put("materialize", guard(|| {
            let mut o = DecoderOutput::from_vec(vec![]);
            d.materialize(&mut o, m, c)?;
            Ok(h(o))
        }))?;
        for p in [Predicate::Eq(0.25), Predicate::Ne(7.25), Predicate::Range(Range::new(RangeValue::Exclusive(-1.0), RangeValue::Inclusive(2.0)))] {
            put("filter", guard(|| Ok(d.filter(p, m, c)?.iter().fold(0, |a, x| mix(a, x as u64)))))?;
        }
        put("filter_materialize", guard(|| {
            let mut o = DecoderOutput::from_vec(vec![]);
            d.filter_materialize(&mut o, Predicate::Ne(0.5), m, c)?;
            Ok(h(o))
        }))?;
        put("sum", guard(|| Ok(d.sum(m, c)?.to_bits())))?;
        put("min", guard(|| Ok(d.min(m, c)?.to_bits())))?;
        put("max", guard(|| Ok(d.max(m, c)?.to_bits())))?;
    }
    Ok(out)
}

/// one damaged copy of `b` at `at`
fn judge(cx: &Cx, b: &Base, sound: &[Vec<Option<u64>>], at: &[(usize, u8)], zones: &[Zone]) -> Case {
    let mut file = b.file.clone();
    for &(p, x) in at {
        file[p] = x;
    }
    let n = b.values.len();
    let must_refuse = at.iter().zip(zones).any(|(&(_, x), z)| match z {
        Zone::Magic | Zone::FieldType => true,
        Zone::Scheme => x > CompressionScheme::FFIAlp as u8,
        Zone::ChunkKind => x > 2,
        _ => false,
    });
    cx.step(1);
    let opened = match guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(file)))) {
        Err(p) => bail!("open panicked: {p}"),
        Ok(r) => r,
    };
    let Ok(mut d) = opened else {
        cx.state(mix(1, mix(at[0].0 as u64, hash64(&b.file))));
        return Ok(());
    };
    ensure!(!must_refuse, "a file whose {:?} is foreign was opened", zones);
    let nc = d.chunk_footers().len();
    for k in (0..nc.min(4)).map(Some).chain([None]) {
        let got = readings(&mut d, k, n)?;
        cx.step(got.len() as u64);
        cx.state(mix(hash64(&[at[0].1]), got.iter().fold(at[0].0 as u64, |a, x| mix(a, x.unwrap_or(7)))));
        // what was not touched reads as before
        let untouched = zones.iter().all(|z| match (z, k) {
            (Zone::Informative | Zone::ChunkKind, _) => true,
            (Zone::Chunk(j), Some(k)) => *j != k,
            _ => false,
        });
        if untouched {
            let want = &sound[k.unwrap_or(sound.len() - 1)];
            for (i, (g, w)) in got.iter().zip(want).enumerate() {
                ensure!(g == w, "reading {i} of chunk {k:?}, which is undamaged, gives another result or an error");
            }
        }
    }
    Ok(())
}

pub fn p28(cx: &Cx) {
    let bs = match bases(cx) {
        Ok(b) => b,
        Err(f) => {
            cx.report("bases", 0, f);
            return;
        }
    };
    let sound: Vec<_> = bs
        .iter()
        .map(|b| {
            let mut d = open(b.file.clone()).ok()?;
            let mut v = vec![];
            for k in (0..b.cut.len() - 1).map(Some).chain([None]) {
                v.push(readings(&mut d, k, b.values.len()).ok()?);
            }
            Some(v)
        })
        .collect();
    let mut cases: Vec<(usize, usize)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        for p in 0..b.file.len() {
            if zone(b, p) != Zone::RecordCount {
                cases.push((i, p));
            }
        }
    }
    let vals = |old: u8| -> Vec<u8> {
        let mut v: Vec<u8> = if cx.quick() {
            (0..8).map(|k| old ^ 1 << k).chain([0, 1, 2, 0x7f, 0x80, 0xff, !old, old.wrapping_add(1), old.wrapping_sub(1), 13, 20]).collect()
        } else {
            (0..=255).collect()
        };
        v.sort();
        v.dedup();
        v.retain(|x| *x != old);
        v
    };
    // this build does not contain the ALP scheme: its number is not a file of this library
    let skip = |z: Zone, x: u8| z == Zone::Scheme && x == CompressionScheme::FFIAlp as u8;
    cx.run_desc(
        "one byte",
        &format!("every byte but those of the record count of {} files (12 schemes x {} shapes) x {} other values: opening and 16 readings of every chunk and of the file return, foreign headers are refused, untouched chunks read as before", bs.len(), bs.len() / all_schemes().len(), cx.pick("~18", "all 255")),
        cases.len() as u64,
        |c| {
            let (i, p) = cases[c as usize];
            let b = &bs[i];
            let Some(sound) = &sound[i] else { bail!("the undamaged file does not read") };
            let z = zone(b, p);
            for x in vals(b.file[p]) {
                if !skip(z, x) {
                    judge(cx, b, sound, &[(p, x)], &[z]).map_err(|f| Fail::from(format!("byte {p} ({z:?}) {:#x} -> {x:#x}: {}", b.file[p], f.detail)))?;
                }
            }
            Ok(())
        },
        |c| {
            let (i, p) = cases[c as usize];
            format!("{:?} {:?} n={} byte {p} {:?}", bs[i].s, bs[i].o, bs[i].values.len(), zone(&bs[i], p))
        },
    );
    // two bytes at once, where the file says how it is to be read
    let mut pairs: Vec<(usize, usize, usize)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        if i % cx.pick(4, 5) >= cx.pick(1, 3) {
            continue;
        }
        let steer: Vec<usize> = (0..b.file.len())
            .filter(|&p| match zone(b, p) {
                Zone::RecordCount | Zone::Informative => false,
                Zone::Chunk(k) => p < b.cut[k].0 + 24,
                _ => true,
            })
            .collect();
        for (k, &p) in steer.iter().enumerate() {
            for &q in &steer[k + 1..] {
                pairs.push((i, p, q));
            }
        }
    }
    cx.run_desc(
        "two bytes",
        "every pair of bytes of the header, the chunk table, the configuration and the first 24 bytes of every chunk x 9 pairs of values: as above",
        pairs.len() as u64,
        |c| {
            let (i, p, q) = pairs[c as usize];
            let b = &bs[i];
            let Some(sound) = &sound[i] else { bail!("the undamaged file does not read") };
            let z = [zone(b, p), zone(b, q)];
            let three = |old: u8| [old ^ 1, !old, if old == 0 { 8 } else { 0 }];
            for x in three(b.file[p]) {
                for y in three(b.file[q]) {
                    if !skip(z[0], x) && !skip(z[1], y) {
                        judge(cx, b, sound, &[(p, x), (q, y)], &z).map_err(|f| Fail::from(format!("bytes {p}, {q} {z:?} -> {x:#x}, {y:#x}: {}", f.detail)))?;
                    }
                }
            }
            Ok(())
        },
        |c| {
            let (i, p, q) = pairs[c as usize];
            format!("{:?} {:?} n={} bytes {p} {q}", bs[i].s, bs[i].o, bs[i].values.len())
        },
    );
    // files that end too early, and files that never were ours
    let cut: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(i, b)| (0..b.file.len()).map(move |l| (i, l))).collect();
    cx.run(
        "prefixes",
        "every proper prefix of every one of these files is refused",
        cut.len() as u64,
        |c| {
            let (i, l) = cut[c as usize];
            cx.state(mix(i as u64, l as u64));
            cx.step(1);
            match guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(&bs[i].file[..l]))).is_ok()) {
                Err(p) => bail!("{:?}: opening the first {l} bytes panicked: {p}", bs[i].s),
                Ok(ok) => ensure!(!ok, "{:?}: the first {l} of {} bytes were opened as a file", bs[i].s, bs[i].file.len()),
            }
            Ok(())
        },
    );
    let alphabet: [&[u8]; 6] = [b"EBI1", b"EBI2", &[0; 5], &[0xff; 5], &[7], b"1.5,2\n"];
    let len = cx.pick(7, 9);
    cx.run(
        "foreign",
        &format!("every sequence of up to {len} of 6 pieces (magic numbers, zeros, ones, text): no crash, refused unless it starts with the magic number"),
        n_seqs(6, 0, len),
        |c| {
            let w = nth_seq(6, 0, len, c);
            let f: Vec<u8> = w.iter().flat_map(|k| alphabet[*k].to_vec()).collect();
            cx.state(hash64(&f));
            cx.step(1);
            match guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(&f))).is_ok()) {
                Err(p) => bail!("opening {f:x?} panicked: {p}"),
                Ok(ok) => ensure!(!ok || f.starts_with(b"EBI1"), "{f:x?} was opened as a file"),
            }
            Ok(())
        },
    );
}
