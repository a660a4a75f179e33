//! P14 compressor reuse and size accounting, P15 append / rewind, P16 bit writer, P17 bit reader.
//! Explicit-state exploration of each component next to a small executable reference model.
use crate::common::*;
use crate::fw::*;
use crate::{bail, ensure};
use ebi::compressor::{
    run_length::RunLengthCompressor, uncompressed::UncompressedCompressor, AppendableCompressor, Compressor,
    GenericCompressor, RewindableCompressor,
};
use ebi::io::bit_read::{BitRead2, BufferedBitReader};
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};

fn out(c: &impl Compressor) -> Vec<u8> {
    c.buffers().iter().flat_map(|b| b.iter().copied()).collect()
}

// ---------------------------------------------------------------- P14
fn blocks(s: Sch) -> Vec<Vec<f64>> {
    let p = s.prec();
    let d = |i: i64| dec(i, p.unwrap_or(2));
    let mut v = vec![
        vec![d(125)],
        vec![d(0), d(0), d(0)],
        (0..10).map(|x| d(x / 2 * 50)).collect(),
        (0..17).map(|i| d((i * 7919) % 1001 - 500)).collect(),
        (0..300).map(|i| if i < 270 { d(7) } else { d(i) }).collect(),
        (0..129).map(|i| d(i * i * 31 % 977)).collect(),
    ];
    if p.is_none() {
        v.push(vec![f64::MAX, 0.1, -0.0, f64::MIN_POSITIVE, 1.0 / 3.0, f64::NEG_INFINITY]);
        v.push((0..140u64).map(|i| f64::from_bits(0x3f01_2345_6789_abcd ^ (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 50)))).collect());
    }
    v
}
fn reuse_schemes() -> Vec<Sch> {
    let mut v = LOSSLESS.to_vec();
    if cfg!(not(feature = "alp")) {
        v.extend([Sch::Buff(0), Sch::Buff(2), Sch::Buff(7), Sch::Spr(0), Sch::Spr(2), Sch::Spr(7)]);
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum CO {
    Compress(usize),
    Prepare,
    Reset,
}
fn check_compressed(c: &GenericCompressor, want: &[u8], n: usize, fresh: bool) -> Case {
    let said = c.total_bytes_buffered();
    if fresh {
        ensure!(c.total_bytes_in() == n * 8, "total_bytes_in {} after {n} records", c.total_bytes_in());
    }
    let mut k = c.clone();
    k.prepare();
    let got = out(&k);
    ensure!(got == want, "output of a reused compressor differs from a fresh one: {} vs {} bytes", got.len(), want.len());
    ensure!(said == got.len(), "announces {said} buffered bytes, delivers {}", got.len());
    Ok(())
}
pub fn p14(cx: &Cx) {
    let sch = reuse_schemes();
    let depth = cx.pick(4u32, 5);
    let da = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let nb = blocks(s).len();
        let a = 8 + 2;
        let h: Vec<CO> = nth_seq(a, 1, depth, g.0)
            .iter()
            .map(|&o| match o {
                8 => CO::Prepare,
                9 => CO::Reset,
                o => CO::Compress(o % nb),
            })
            .collect();
        (s, h)
    };
    let total = sch.len() as u64 * n_seqs(10, 1, depth);
    let want: Vec<Vec<Vec<u8>>> = sch
        .iter()
        .map(|s| {
            blocks(*s)
                .iter()
                .map(|b| {
                    guard(|| {
                        let mut c = s.config().build();
                        c.compress(b).ok();
                        c.prepare();
                        out(&c)
                    })
                    .unwrap_or_default()
                })
                .collect()
        })
        .collect();
    cx.run_desc(
        "histories",
        &format!("every history of 1..={depth} operations (compress one of 6-8 blocks, prepare, reset) of one compressor x {} scheme settings, compared after every compression with a fresh compressor", sch.len()),
        total,
        |c| {
            let (s, h) = da(c);
            // a prepare without a compression to deliver, or a second one, is outside the protocol
            let mut pend = false;
            for o in &h {
                match o {
                    CO::Compress(_) => pend = true,
                    CO::Prepare if !pend => return Ok(()),
                    CO::Prepare => pend = false,
                    CO::Reset => pend = false,
                }
            }
            let si = sch.iter().position(|x| *x == s).unwrap();
            let bl = blocks(s);
            let mut k = s.config().build();
            ensure!(k.total_bytes_in() == 0, "{s:?}: a fresh compressor has taken {} bytes", k.total_bytes_in());
            let mut clean = true;
            let mut key = si as u64;
            for (i, o) in h.iter().enumerate() {
                key = mix(key, match o { CO::Compress(b) => *b as u64, CO::Prepare => 100, CO::Reset => 101 });
                cx.state(key);
                cx.step(1);
                let ctx = |f: Fail| Fail { detail: format!("{s:?} {h:?} at step {i}: {}", f.detail), known: None };
                match *o {
                    CO::Compress(b) => {
                        call("compress", || k.compress(&bl[b])).map_err(ctx)?;
                        check_compressed(&k, &want[si][b], bl[b].len(), clean).map_err(ctx)?;
                        clean = false;
                    }
                    CO::Prepare => k.prepare(),
                    CO::Reset => {
                        k.reset();
                        clean = true;
                        ensure!(k.total_bytes_in() == 0, "{s:?} {h:?}: total_bytes_in {} after reset", k.total_bytes_in());
                        let f = s.config().build();
                        ensure!(out(&k) == out(&f), "{s:?} {h:?}: holds {} bytes after reset, a fresh compressor {}", out(&k).len(), out(&f).len());
                        let (a, b) = (guard(|| k.total_bytes_buffered()), guard(|| f.total_bytes_buffered()));
                        ensure!(a.is_err() == b.is_err() && a.unwrap_or(0) == b.unwrap_or(0), "{s:?} {h:?}: announces other sizes after reset than a fresh compressor");
                    }
                }
            }
            Ok(())
        },
        |c| format!("{:?}", da(c)),
    );
    // sizes: every short sequence, a fresh compressor announces exactly what it delivers
    let al = [0.0, -0.0, 1.0, 1.5, -3.25, 0.1, 1e300, 4.9e-324, 123456.789];
    let a = cx.pick(7u64, 9);
    let l = cx.pick(4, 5);
    let db = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let v: Vec<f64> = nth_seq(a, 1, l, g.0).iter().map(|&i| al[i]).collect();
        (s, v)
    };
    cx.run_desc(
        "sizes",
        &format!("every sequence of length 1..={l} over {a} doubles x 10 lossless schemes: announced size equals delivered size"),
        LOSSLESS.len() as u64 * n_seqs(a, 1, l),
        |c| {
            let (s, v) = db(c);
            let mut k = s.config().build();
            call("compress", || k.compress(&v))?;
            cx.step(1);
            cx.state(mix(hash_f(&v), c % LOSSLESS.len() as u64));
            ensure!(k.total_bytes_in() == v.len() * 8, "{s:?} {v:?}: total_bytes_in {}", k.total_bytes_in());
            let said = k.total_bytes_buffered();
            k.prepare();
            let got = out(&k).len();
            ensure!(said == got, "{s:?} {v:?}: announces {said} buffered bytes, delivers {got}");
            Ok(())
        },
        |c| format!("{:?}", db(c)),
    );
    // sizes along XOR windows: value pairs with every leading/trailing zero count
    let xs: Vec<Sch> = LOSSLESS.iter().copied().filter(|s| is_xor(*s)).collect();
    let dc = |c: u64| {
        let mut g = Dig(c);
        let s = xs[g.take(xs.len())];
        let n = g.take(4);
        let l = g.take(64) as u32;
        let t = g.0 as u32;
        (s, n, l, t)
    };
    cx.run_desc(
        "xor-sizes",
        "the XOR schemes after 1..=4 values whose XOR has every leading x trailing zero count: announced size equals delivered size",
        xs.len() as u64 * 4 * 64 * 64,
        |c| {
            let (s, n, l, t) = dc(c);
            if l + t > 63 {
                return Ok(());
            }
            let x = (u64::MAX >> l) & (u64::MAX << t);
            let b0 = 0x3f01_2345_6789_abcdu64;
            let all = [b0, b0 ^ x, b0, b0 ^ (x & 0x00ff_00ff_00ff_00ff)];
            let v: Vec<f64> = all[..=n].iter().map(|b| f64::from_bits(*b)).collect();
            if v.iter().any(|x| x.is_nan()) {
                return Ok(());
            }
            let mut k = s.config().build();
            call("compress", || k.compress(&v))?;
            cx.step(1);
            cx.state(mix(hash_f(&v), c % xs.len() as u64));
            let said = k.total_bytes_buffered();
            k.prepare();
            let got = out(&k).len();
            ensure!(said == got, "{s:?} {v:?}: announces {said} buffered bytes, delivers {got}");
            Ok(())
        },
        |c| format!("{:?}", dc(c)),
    );
    // sizes along the windows between the last value and the end marker
    let mark = f64::NAN.to_bits();
    let dm = |c: u64| {
        let mut g = Dig(c);
        let s = xs[g.take(xs.len())];
        let reps = 1 + g.take(9);
        let before = [None, Some(1u64), Some(1 << 40), Some(0x00ff_f000_0000_0000), Some(0x3ff0_0000_0000_0001)][g.take(5)];
        let l = g.take(64) as u32;
        let t = g.0 as u32;
        (s, reps, before, l, t)
    };
    cx.run_desc(
        "marker-sizes",
        "the XOR schemes where the last value and the end marker differ in every window of leading x trailing zero counts, after 1..=9 repeats (every bit phase) and 5 preceding windows: announced size equals delivered size",
        xs.len() as u64 * 9 * 5 * 64 * 64,
        |c| {
            let (s, reps, before, l, t) = dm(c);
            if l + t > 63 {
                return Ok(());
            }
            let last = mark ^ ((u64::MAX >> l) & (u64::MAX << t));
            let mut v: Vec<f64> = before.iter().map(|b| f64::from_bits(last ^ b)).collect();
            v.extend(vec![f64::from_bits(last); reps]);
            let mut k = s.config().build();
            call("compress", || k.compress(&v))?;
            cx.step(1);
            let said = k.total_bytes_buffered();
            k.prepare();
            let got = out(&k).len();
            ensure!(said == got, "{s:?} {:x?}: announces {said} buffered bytes, delivers {got}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
            Ok(())
        },
        |c| format!("{:?}", dm(c)),
    );
    // blocks beyond any buffer size, one after the other
    let lens = [1usize, 128, 1023, 1024, 1025, 4096, 8191, 8193, 65535, 65537];
    let block = |s: Sch, n: usize, law: usize| -> Vec<f64> {
        let p = s.prec().unwrap_or(2);
        (0..n as i64)
            .map(|i| match law {
                0 => dec((i * 7919) % 100_003 - 50_000, p),
                _ => dec(i / 300 * 7 - (i % 1001 == 0) as i64, p),
            })
            .collect()
    };
    let dl = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        (s, lens[g.take(lens.len())], lens[g.take(lens.len())], g.0)
    };
    cx.run_desc(
        "long",
        &format!("every ordered pair of blocks of {lens:?} values, plain and run-like, with nothing, a reset, a preparation or both in between, x {} scheme settings: the second block as from a fresh compressor", sch.len()),
        (sch.len() * lens.len() * lens.len() * 4) as u64,
        |c| {
            let (s, n1, n2, between) = dl(c);
            let law = c as usize / sch.len() % 2;
            let (a, b) = (block(s, n1, law), block(s, n2, 1 - law));
            let want = guard(|| {
                let mut k = s.config().build();
                k.compress(&b).ok();
                k.prepare();
                out(&k)
            })
            .map_err(|p| format!("{s:?}: compressing {n2} values panicked: {p}"))?;
            let mut k = s.config().build();
            let ctx = |f: Fail| Fail { detail: format!("{s:?} {n1} values, then {n2} ({between}): {}", f.detail), known: None };
            call("compress", || k.compress(&a)).map_err(ctx)?;
            if between & 1 == 1 {
                k.prepare();
            }
            if between & 2 == 2 {
                k.reset();
            }
            call("compress", || k.compress(&b)).map_err(ctx)?;
            cx.step(2);
            cx.state(mix(c, 77));
            let said = k.total_bytes_buffered();
            k.prepare();
            let got = out(&k);
            ensure!(said == got.len(), "{s:?} {n1} values, then {n2} ({between}): announces {said} buffered bytes, delivers {}", got.len());
            ensure!(got == want, "{s:?} {n1} values, then {n2} ({between}): the output of the second block differs from a fresh compressor's");
            Ok(())
        },
        |c| format!("{:?}", dl(c)),
    );
}

// ---------------------------------------------------------------- P15
#[derive(Clone, Copy, Debug)]
enum AO {
    Append(usize),
    Rewind(usize),
}
fn rle_expand(b: &[u8]) -> Option<Vec<f64>> {
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let body = &b[8..];
    if body.len() != n * 9 {
        return None;
    }
    let mut v = vec![];
    for f in body.chunks_exact(9) {
        for _ in 0..f[0] {
            v.push(f64::from_le_bytes(f[1..].try_into().unwrap()));
        }
    }
    Some(v)
}
fn explore_append<C: RewindableCompressor + Clone>(
    cx: &Cx,
    mk: impl Fn() -> C,
    expand: impl Fn(&[u8]) -> Option<Vec<f64>>,
    h: &[AO],
    bl: &[Vec<f64>],
    tag: u64,
) -> Case {
    let mut c = mk();
    let mut m: Vec<f64> = vec![];
    for (i, o) in h.iter().enumerate() {
        cx.step(1);
        match *o {
            AO::Append(b) => {
                guard(|| c.append_compress(&bl[b])).map_err(|p| format!("{h:?} step {i}: append panicked: {p}"))?;
                m.extend_from_slice(&bl[b]);
            }
            AO::Rewind(n) => {
                let ok = guard(|| c.rewind(n)).map_err(|p| format!("{h:?} step {i}: rewind panicked: {p}"))?;
                if n > m.len() {
                    ensure!(!ok, "{h:?} step {i}: rewound {n} of {} records", m.len());
                } else if m.is_empty() {
                    // nothing to rewind: either answer is fine, the content stays empty
                } else {
                    ensure!(ok, "{h:?} step {i}: refused to rewind {n} of {} records", m.len());
                    m.truncate(m.len() - n);
                }
            }
        }
        cx.state(mix(hash_f(&m), tag));
        ensure!(c.total_bytes_in() == m.len() * 8, "{h:?} step {i}: total_bytes_in {} but holds {} records", c.total_bytes_in(), m.len());
        let said = c.total_bytes_buffered();
        let mut k = c.clone();
        k.prepare();
        let b = out(&k);
        ensure!(said == b.len(), "{h:?} step {i}: announces {said} buffered bytes, delivers {}", b.len());
        let Some(got) = expand(&b) else { bail!("{h:?} step {i}: malformed output") };
        ensure!(same_bits(&got, &m), "{h:?} step {i}: holds {} want {}", show(&got), show(&m));
    }
    Ok(())
}
pub fn p15(cx: &Cx) {
    let small: Vec<Vec<f64>> = vec![
        vec![],
        vec![1.0],
        vec![1.0, 1.0],
        vec![2.5],
        vec![0.0, -0.0],
        vec![1.0, 2.5, 2.5, 1.0],
    ];
    let sr = [0usize, 1, 2, 3, 5];
    let depth = cx.pick(5u32, 6);
    let a = (small.len() + sr.len()) as u64;
    let ops = |i: u64, nb: usize, r: &[usize], d: u32| -> Vec<AO> {
        nth_seq((nb + r.len()) as u64, 1, d, i).iter().map(|&o| if o < nb { AO::Append(o) } else { AO::Rewind(r[o - nb]) }).collect()
    };
    cx.run_desc(
        "short",
        &format!("every history of 1..={depth} operations over appends of 6 blocks (empty, equal, alternating, signed zeros) and rewinds by 0,1,2,3,5, run-length and uncompressed"),
        2 * n_seqs(a, 1, depth),
        |c| {
            let h = ops(c / 2, small.len(), &sr, depth);
            if c % 2 == 0 {
                explore_append(cx, || UncompressedCompressor::new(4), f64s_of, &h, &small, 0)
            } else {
                explore_append(cx, || RunLengthCompressor::with_capacity(4), rle_expand, &h, &small, 1)
            }
        },
        |c| format!("{:?}", ops(c / 2, small.len(), &sr, depth)),
    );
    let long: Vec<Vec<f64>> = vec![vec![1.0; 254], vec![1.0; 255], vec![1.0; 256], vec![1.0], vec![2.0; 3], vec![1.0; 511]];
    let lr = [0usize, 1, 2, 254, 255, 256, 257, 300, 510, 511];
    let ld = cx.pick(4u32, 5);
    let la = (long.len() + lr.len()) as u64;
    cx.run_desc(
        "long-runs",
        &format!("every history of 1..={ld} operations over appends of runs of 1, 3, 254, 255, 256, 511 equal values and rewinds around those lengths"),
        2 * n_seqs(la, 1, ld),
        |c| {
            let h = ops(c / 2, long.len(), &lr, ld);
            if c % 2 == 0 {
                explore_append(cx, || UncompressedCompressor::new(4), f64s_of, &h, &long, 0)
            } else {
                explore_append(cx, || RunLengthCompressor::with_capacity(4), rle_expand, &h, &long, 1)
            }
        },
        |c| format!("{:?}", ops(c / 2, long.len(), &lr, ld)),
    );
    let many: Vec<Vec<f64>> = vec![
        (0..1024).map(|i| i as f64 * 0.5).collect(),
        (0..66_000).map(|i| (i / 2) as f64).collect(),
        vec![-0.0; 66_000],
        vec![7.0],
    ];
    let mr = [0usize, 1, 1023, 1025, 32_768, 65_535, 65_537];
    let md = cx.pick(3u32, 4);
    let ma = (many.len() + mr.len()) as u64;
    cx.run_desc(
        "many",
        &format!("every history of 1..={md} operations over appends of 1024 values, 66000 values in pairs, 66000 equal values, one value, and rewinds by {mr:?}"),
        2 * n_seqs(ma, 1, md),
        |c| {
            let h = ops(c / 2, many.len(), &mr, md);
            if c % 2 == 0 {
                explore_append(cx, || UncompressedCompressor::new(4), f64s_of, &h, &many, 0)
            } else {
                explore_append(cx, || RunLengthCompressor::with_capacity(4), rle_expand, &h, &many, 1)
            }
        },
        |c| format!("{:?}", ops(c / 2, many.len(), &mr, md)),
    );
}

// ---------------------------------------------------------------- P16
#[derive(Clone, Copy, Debug)]
enum WO {
    Bit(bool),
    Byte(u8),
    Bits(u64, u32),
    /// move the cursor back by this many bits (as far as there are)
    Back(usize),
    Reset,
}
fn pack(m: &[bool]) -> Vec<u8> {
    m.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << (7 - i))).collect()
}
fn w_step<W: BitWrite>(w: &mut W, m: &mut Vec<bool>, o: WO) {
    match o {
        WO::Bit(b) => {
            w.write_bit(b);
            m.push(b);
        }
        WO::Byte(b) => {
            w.write_byte(b);
            m.extend((0..8).rev().map(|i| b >> i & 1 == 1));
        }
        WO::Bits(v, n) => {
            w.write_bits(v, n);
            m.extend((0..n).rev().map(|i| v >> i & 1 == 1));
        }
        WO::Back(n) => {
            let to = m.len().saturating_sub(n);
            w.set_cursor_at_in_bit(to);
            m.truncate(to);
        }
        WO::Reset => {
            w.reset();
            m.clear();
        }
    }
}
fn w_check(w: &BufferedBitWriter, m: &[bool]) -> Case {
    ensure!(w.number_of_bits_written() == m.len(), "reports {} bits, {} were written", w.number_of_bits_written(), m.len());
    let want = pack(m);
    ensure!(w.as_slice() == &want[..], "content {:02x?} want {want:02x?}", w.as_slice());
    Ok(())
}
const JUNK: u64 = 0xA5C3_96F0_0F69_3C5A;
pub fn p16(cx: &Cx) {
    // explicit state graph, breadth first over op sequences
    let ops: Vec<WO> = {
        let mut v = vec![WO::Bit(false), WO::Bit(true), WO::Byte(0), WO::Byte(0xff), WO::Byte(0xb1), WO::Reset];
        for n in [0u32, 1, 3, 7, 8, 9, 13, 16, 31, 33, 63, 64] {
            v.push(WO::Bits(JUNK, n));
            v.push(WO::Bits(!JUNK, n));
        }
        for b in [0usize, 1, 2, 5, 7, 8, 9, 12, 16, 1000] {
            v.push(WO::Back(b));
        }
        v
    };
    let depth = cx.pick(4u32, 5);
    let a = ops.len() as u64;
    let go = |h: &[WO]| -> Case {
        let mut w = BufferedBitWriter::new();
        let mut m = vec![];
        for (i, &o) in h.iter().enumerate() {
            guard(|| w_step(&mut w, &mut m, o)).map_err(|p| format!("{h:?} step {i} panicked: {p}"))?;
            w_check(&w, &m).map_err(|f| format!("{h:?} after step {i}: {}", f.detail))?;
        }
        cx.step(h.len() as u64);
        cx.state(mix(hash64(&pack(&m)), m.len() as u64));
        ensure!(&w.close()[..] == &pack(&m)[..], "{h:?}: close returns other bytes than the slice");
        Ok(())
    };
    let dh = |c: u64| -> Vec<WO> { nth_seq(a, 1, depth, c).iter().map(|&i| ops[i]).collect() };
    cx.run_desc(
        "histories",
        &format!("every sequence of 1..={depth} operations out of {a} (single bits, bytes, 0..64-bit groups with set surplus bits, cursor moves back by 0..1000 bits, reset) against a list of bits, compared after every operation"),
        n_seqs(a, 1, depth),
        |c| go(&dh(c)),
        |c| format!("{:?}", dh(c)),
    );
    // every width at every bit offset followed by every width
    let pats = [JUNK, !JUNK, u64::MAX, 0, 1, 1 << 63, 0x0123_4567_89ab_cdef, 0x8000_0000_0000_0001];
    let dw = |c: u64| {
        let mut g = Dig(c);
        let off = g.take(9);
        let n1 = g.take(65) as u32;
        let n2 = g.take(65) as u32;
        let p = pats[g.0 as usize];
        let mut h = vec![];
        if off > 0 {
            h.push(WO::Bits(0x55, off as u32));
        }
        h.extend([WO::Bits(p, n1), WO::Bits(p.rotate_left(17), n2), WO::Bit(true), WO::Byte(0x81)]);
        h
    };
    cx.run_desc(
        "widths",
        "every start offset 0..8 x every width 0..=64 x every following width 0..=64 x 8 bit patterns",
        9 * 65 * 65 * pats.len() as u64,
        |c| go(&dw(c)),
        |c| format!("{:?}", dw(c)),
    );
    // every cursor position, then every kind of continuation
    let db = |c: u64| {
        let mut g = Dig(c);
        let len = g.take(41);
        let back = g.take(42);
        let k = g.0;
        let mut h: Vec<WO> = (0..len).map(|i| WO::Bit(i % 3 != 1)).collect();
        h.push(WO::Back(back));
        h.push(match k {
            0 => WO::Bit(false),
            1 => WO::Bit(true),
            2 => WO::Byte(0),
            3 => WO::Byte(0x7e),
            4 => WO::Bits(JUNK, 11),
            5 => WO::Bits(!JUNK, 64),
            _ => WO::Back(3),
        });
        h.push(WO::Bits(JUNK, 5));
        h
    };
    cx.run_desc(
        "cursor",
        "every length 0..=40 x every move back of the cursor by 0..=41 bits x 7 continuations: what lay behind the cursor is gone and does not leak into later writes",
        41 * 42 * 7,
        |c| go(&db(c)),
        |c| format!("{:?}", db(c)),
    );
    // long outputs
    let totals = [1000usize, 8191, 8192, 8193, 65_530, 65_536, 65_600, 524_200, 524_400];
    let dl = |c: u64| {
        let mut g = Dig(c);
        let n = g.take(65) as u32;
        (n, totals[g.take(totals.len())], g.0)
    };
    cx.run_desc(
        "long",
        &format!("groups of every width 1..=64, or bytes, until {totals:?} bits are written; then single bits, a move back by 0, 1, 77 or half of the bits, and 40 more groups"),
        65 * totals.len() as u64 * 4,
        |c| {
            let (n, total, k) = dl(c);
            let mut w = BufferedBitWriter::new();
            let mut m = vec![];
            let r = guard(|| {
                let mut i = 0u64;
                while m.len() < total {
                    let x = JUNK.rotate_left((i % 61) as u32) ^ i;
                    w_step(&mut w, &mut m, if n == 0 { WO::Byte(x as u8) } else { WO::Bits(x, n) });
                    i += 1;
                }
                for i in 0..5 {
                    w_step(&mut w, &mut m, WO::Bit(i % 2 == 0));
                }
                let before = w_check(&w, &m);
                let half = m.len() / 2;
                w_step(&mut w, &mut m, WO::Back([0, 1, 77, half][k as usize]));
                for i in 0..40u64 {
                    w_step(&mut w, &mut m, WO::Bits(JUNK ^ i, if n == 0 { 11 } else { n }));
                }
                before.and_then(|_| w_check(&w, &m))
            });
            cx.step(total as u64 / n.max(1) as u64 + 46);
            cx.state(mix(c, 16));
            match r {
                Err(p) => bail!("width {n} up to {total} bits: panicked: {p}"),
                Ok(Err(_)) => bail!("width {n} up to {total} bits, continuation {k}: the bits are not those written (or their count is not)"),
                Ok(Ok(())) => Ok(()),
            }
        },
        |c| format!("{:?}", dl(c)),
    );
    // the same through a mutable reference and a writer made from a used vector
    cx.run_desc(
        "handles",
        "the depth-3 histories through a mutable reference, on a writer made from a used vector and on one with preset capacity",
        n_seqs(a, 1, 3) * 2,
        |c| {
            let h: Vec<WO> = nth_seq(a, 1, 3, c / 2).iter().map(|&i| ops[i]).collect();
            let mut w = if c % 2 == 0 { BufferedBitWriter::from_vec(vec![0xff; 5]) } else { BufferedBitWriter::with_capacity(1) };
            let mut m = vec![];
            for (i, &o) in h.iter().enumerate() {
                guard(|| w_step(&mut &mut w, &mut m, o)).map_err(|p| format!("{h:?} step {i} panicked: {p}"))?;
                w_check(&w, &m).map_err(|f| format!("{h:?} after step {i}: {}", f.detail))?;
            }
            cx.step(h.len() as u64);
            Ok(())
        },
        |c| format!("{c}"),
    );
}

// ---------------------------------------------------------------- P17
#[derive(Clone, Copy, Debug)]
enum RO {
    Bit,
    Byte,
    Bits(u8),
    Peek(u8),
    Skip(usize),
    Reset,
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect()
}
fn take(m: &[bool], pos: usize, n: usize) -> Option<u64> {
    if pos + n > m.len() {
        return None;
    }
    Some(m[pos..pos + n].iter().fold(0u64, |a, b| a << 1 | *b as u64))
}
/// one operation on reader and model; returns (got, want)
fn r_step<R: BitRead2>(r: &mut R, skip: impl FnOnce(&mut R, usize), reset: impl FnOnce(&mut R), m: &[bool], pos: &mut usize, o: RO) -> (Option<u64>, Option<u64>) {
    match o {
        RO::Bit => {
            let w = take(m, *pos, 1);
            if w.is_some() {
                *pos += 1;
            }
            (r.read_bit().map(|b| b as u64), w)
        }
        RO::Byte => {
            let w = take(m, *pos, 8);
            if w.is_some() {
                *pos += 8;
            }
            (r.read_byte().map(|b| b as u64), w)
        }
        RO::Bits(n) => {
            let w = take(m, *pos, n as usize);
            if w.is_some() {
                *pos += n as usize;
            }
            (r.read_bits(n), w)
        }
        RO::Peek(n) => (r.peak_bits(n), take(m, *pos, n as usize)),
        RO::Skip(n) => {
            skip(r, n);
            *pos += n;
            (None, None)
        }
        RO::Reset => {
            reset(r);
            *pos = 0;
            (None, None)
        }
    }
}
pub fn p17(cx: &Cx) {
    let bufs: Vec<Vec<u8>> = vec![
        vec![],
        vec![0xb1],
        vec![0x5a, 0xc3],
        vec![0xff, 0x00, 0xa7],
        (0..9u32).map(|i| (i.wrapping_mul(0x9E37_79B1) >> 13) as u8).collect(),
        (0..20u32).map(|i| (i.wrapping_mul(0x85EB_CA6B) >> 11) as u8).collect(),
    ];
    let ops: Vec<RO> = {
        let mut v = vec![RO::Bit, RO::Byte, RO::Reset];
        for n in [1u8, 2, 5, 7, 8, 9, 15, 16, 17, 33, 63, 64] {
            v.push(RO::Bits(n));
        }
        for n in [1u8, 7, 8, 9, 16, 64] {
            v.push(RO::Peek(n));
        }
        for n in [0usize, 1, 3, 7, 8, 9, 15, 24, 70, 1000] {
            v.push(RO::Skip(n));
        }
        v
    };
    let go = |b: &[u8], h: &[RO], by_ref: bool| -> Case {
        let m = bits_of(b);
        let mut r = BufferedBitReader::new(b.to_vec());
        let mut pos = 0;
        for (i, &o) in h.iter().enumerate() {
            let res = guard(|| {
                if by_ref {
                    let mut q = &mut r;
                    r_step(&mut q, |r, n| r.skip_bits(n), |r| r.reset(), &m, &mut pos, o)
                } else {
                    r_step(&mut r, |r, n| r.skip_bits(n), |r| r.reset(), &m, &mut pos, o)
                }
            });
            match res {
                Err(p) => bail!("{b:02x?} {h:?} step {i} panicked: {p}"),
                Ok((got, want)) => ensure!(got == want, "{b:02x?} {h:?} step {i}: got {got:?} want {want:?}"),
            }
            // the cursor: what a further read delivers
            let mut q = r.clone();
            for n in [1u8, 8, 13] {
                let (g, w) = (guard(|| q.peak_bits(n)).map_err(|p| format!("{b:02x?} {h:?} step {i}: reading on panicked: {p}"))?, take(&m, pos, n as usize));
                ensure!(g == w, "{b:02x?} {h:?} after step {i}: the next {n} bits are {g:?}, want {w:?}");
            }
        }
        cx.step(h.len() as u64);
        cx.state(mix(hash64(b), pos as u64));
        Ok(())
    };
    let depth = cx.pick(4u32, 5);
    let a = ops.len() as u64;
    let nb = bufs.len();
    let dh = |c: u64| {
        let mut g = Dig(c);
        let b = g.take(nb);
        let h: Vec<RO> = nth_seq(a, 1, depth, g.0).iter().map(|&i| ops[i]).collect();
        (b, h)
    };
    cx.run_desc(
        "histories",
        &format!("every sequence of 1..={depth} operations out of {a} (bit, byte, 1..64-bit reads and peeks, skips, also beyond the end, reset) on {nb} buffers of 0..20 bytes against a list of bits"),
        n_seqs(a, 1, depth) * nb as u64,
        |c| {
            let (b, h) = dh(c);
            go(&bufs[b], &h, false)
        },
        |c| format!("{:?}", dh(c)),
    );
    let buf: Vec<u8> = (0..26u32).map(|i| (i.wrapping_mul(0xC2B2_AE35) >> 9) as u8).collect();
    let dw = |c: u64| {
        let mut g = Dig(c);
        let len = g.take(24) + 2;
        let off = g.take(9);
        let n1 = g.take(64) as u8 + 1;
        let n2 = g.take(64) as u8 + 1;
        let mut h = vec![];
        if off > 0 {
            h.push(RO::Bits(off as u8));
        }
        h.extend([RO::Peek(n2), RO::Bits(n1), RO::Byte, RO::Bits(n2), RO::Bit]);
        (len, h)
    };
    cx.run_desc(
        "widths",
        "every buffer length 2..=25 x every start offset 0..8 x every pair of widths 1..=64, with byte and bit reads in between",
        24 * 9 * 64 * 64,
        |c| {
            let (len, h) = dw(c);
            go(&buf[..len], &h, false)
        },
        |c| format!("{:?}", dw(c)),
    );
    cx.run_desc(
        "by-ref",
        "the depth-3 histories through a mutable reference",
        n_seqs(a, 1, 3) * nb as u64,
        |c| {
            let mut g = Dig(c);
            let b = g.take(nb);
            let h: Vec<RO> = nth_seq(a, 1, 3, g.0).iter().map(|&i| ops[i]).collect();
            go(&bufs[b], &h, true)
        },
        |c| format!("{c}"),
    );
    // long inputs
    let sizes = [1000usize, 1024, 8192, 8193, 65_600];
    let dl = |c: u64| {
        let mut g = Dig(c);
        let n = g.take(65) as u8;
        (n, sizes[g.take(sizes.len())], g.0 as usize)
    };
    let far: Vec<u8> = (0..65_600u32).map(|i| (i.wrapping_mul(0x9E37_79B1) >> 15) as u8).collect();
    cx.run_desc(
        "long",
        &format!("buffers of {sizes:?} bytes read to the end in groups of every width 1..=64, or bytes, after a skip of 0, 5, 65535 or 524285 bits, with a peek before every read"),
        65 * sizes.len() as u64 * 4,
        |c| {
            let (n, len, k) = dl(c);
            let b = &far[..len];
            let mut r = BufferedBitReader::new(b.to_vec());
            let mut pos = [0usize, 5, 65_535, 524_285][k];
            r.skip_bits(pos);
            let w = if n == 0 { 8 } else { n };
            let bits = |pos: usize| -> Option<u64> {
                if pos + w as usize > len * 8 {
                    return None;
                }
                let mut x = 0u128;
                for i in 0..9 {
                    x = x << 8 | b.get(pos / 8 + i).copied().unwrap_or(0) as u128;
                }
                Some((x >> (72 - pos % 8 - w as usize)) as u64 & (u64::MAX >> (64 - w)))
            };
            let mut steps = 0;
            loop {
                let want = bits(pos);
                let peek = guard(|| r.peak_bits(w)).map_err(|p| format!("{len} bytes, width {n} at bit {pos}: peek panicked: {p}"))?;
                let got = guard(|| if n == 0 { r.read_byte().map(u64::from) } else { r.read_bits(n) })
                    .map_err(|p| format!("{len} bytes, width {n} at bit {pos}: panicked: {p}"))?;
                ensure!(peek == want && got == want, "{len} bytes, width {n} at bit {pos}: peeked {peek:x?}, read {got:x?}, want {want:x?}");
                steps += 2;
                if want.is_none() {
                    break;
                }
                pos += w as usize;
            }
            // what is left, bit by bit
            while pos < len * 8 {
                let got = r.read_bit();
                ensure!(got == Some(b[pos / 8] >> (7 - pos % 8) & 1 == 1), "{len} bytes, width {n}: bit {pos} at the end is {got:?}");
                pos += 1;
            }
            ensure!(r.read_bit().is_none(), "{len} bytes: a bit after the last");
            r.reset();
            ensure!(r.read_byte() == Some(b[0]), "{len} bytes: the first byte after a reset");
            cx.step(steps);
            cx.state(mix(c, 17));
            Ok(())
        },
        |c| format!("{:?}", dl(c)),
    );
    // what the writer wrote, the reader reads
    let dr = |c: u64| {
        let mut g = Dig(c);
        let w: Vec<u32> = (0..3).map(|_| g.take(64) as u32 + 1).collect();
        (w, g.0)
    };
    cx.run_desc(
        "write-read",
        "every triple of widths 1..=64 written and read back, two patterns",
        64 * 64 * 64 * 2,
        |c| {
            let (w, p) = dr(c);
            let v: Vec<u64> = w.iter().enumerate().map(|(i, n)| (JUNK.rotate_left(i as u32 * 11) ^ p.wrapping_neg()) & (u64::MAX >> (64 - n))).collect();
            let mut bw = BufferedBitWriter::new();
            for (x, n) in v.iter().zip(&w) {
                bw.write_bits(*x, *n);
            }
            let mut r = BufferedBitReader::new(bw.close());
            for (x, n) in v.iter().zip(&w) {
                let g = r.read_bits(*n as u8);
                ensure!(g == Some(*x), "widths {w:?}: wrote {x:#x}, read {g:x?}");
            }
            cx.step(3);
            Ok(())
        },
        |c| format!("{:?}", dr(c)),
    );
}
