//! P01 lossless round trip, P02 fixed-precision round trip.
use crate::common::*;
use crate::fw::*;
use ebi::encoder::ChunkOption;

/// Encode, reopen, materialize everything; compare bit for bit.
fn round_trip(cx: &Cx, s: Sch, opt: ChunkOption, v: &[f64]) -> Case {
    #[cfg(not(feature = "alp"))]
    if cx.prop == "P26" {
        return crate::compat::cross(cx, s, opt, v);
    }
    let b = encode(s, opt, v)?;
    cx.state(hash64(&b[..b.len().min(4096)]));
    let mut d = open(b)?;
    let got = materialize(&mut d, None, None)?;
    cx.step(3);
    if !same_bits(&got, v) {
        let i = got.iter().zip(v).position(|(a, b)| a.to_bits() != b.to_bits()).unwrap_or(got.len().min(v.len()));
        return Err(Fail::from(format!(
            "{s:?} {opt:?}: decoded {} of {} values, first difference at record {i}: wrote {:?} ({:#x}), read {:?} ({:#x}); input {}",
            got.len(),
            v.len(),
            v.get(i),
            v.get(i).map_or(0, |x| x.to_bits()),
            got.get(i),
            got.get(i).map_or(0, |x| x.to_bits()),
            show(v)
        )));
    }
    Ok(())
}

pub const SPECIALS: [f64; 14] = [
    0.0,
    1.0,
    0.1,
    -0.0,
    f64::INFINITY,
    123.456,
    -1.5,
    f64::MAX,
    5e-324,
    f64::MIN_POSITIVE,
    f64::NEG_INFINITY,
    -9.87e-5,
    0.30000000000000004,
    -2.2250738585072011e-308,
];

const OPTS: [ChunkOption; 7] = [
    ChunkOption::Full,
    ChunkOption::RecordCount(2),
    ChunkOption::ByteSizeBestEffort(16),
    ChunkOption::RecordCount(1),
    ChunkOption::RecordCount(3),
    ChunkOption::ByteSizeBestEffort(1),
    ChunkOption::RecordCount(1000),
];

fn windows() -> Vec<(u32, u32)> {
    let mut v = vec![];
    for l in 0..64u32 {
        for t in 0..64 - l {
            v.push((l, t));
        }
    }
    v
}
fn ones(l: u32, t: u32) -> u64 {
    (u64::MAX >> l) & (u64::MAX << t)
}
fn edges(l: u32, t: u32) -> u64 {
    (1u64 << (63 - l)) | (1u64 << t)
}

pub fn p01(cx: &Cx) {
    // A. every short sequence over an alphabet of doubles, every scheme and chunk option
    let (a, len, no) = cx.pick((8, 4, 3), (11, 4, 7));
    let ns = n_seqs(a, 0, len);
    let total = ns * LOSSLESS.len() as u64 * no as u64;
    let dec_a = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let o = OPTS[g.take(no)];
        let v: Vec<f64> = nth_seq(a, 0, len, g.0).iter().map(|&i| SPECIALS[i]).collect();
        (s, o, v)
    };
    cx.run_desc(
        "seqs",
        &format!("every sequence of length 0..={len} over {a} special doubles x 10 lossless schemes x {no} chunk options"),
        total,
        |c| {
            let (s, o, v) = dec_a(c);
            round_trip(cx, s, o, &v)
        },
        |c| format!("{:?}", dec_a(c)),
    );

    // B. XOR window transitions: v0, v0^x1, v0^x1^x2 for every pair of (leading, trailing) zero windows
    let w = windows();
    let xs: Vec<Sch> = LOSSLESS.iter().copied().filter(|s| is_xor(*s)).collect();
    let bases: &[u64] = if cx.quick() { &[0x3f01_2345_6789_abcd] } else { &[0x3f01_2345_6789_abcd, 0xbfb9_9999_9999_999a] };
    let npat = cx.pick(1, 4);
    let total = (w.len() * xs.len() * npat * bases.len()) as u64;
    let step = cx.pick(2usize, 1);
    let build_b = |c: u64| {
        let mut g = Dig(c);
        let s = xs[g.take(xs.len())];
        let pat = g.take(npat);
        let base = bases[g.take(bases.len())];
        let (l1, t1) = w[g.0 as usize];
        let mut v = vec![];
        for (i, &(l2, t2)) in w.iter().enumerate() {
            if step > 1 && (i + g.0 as usize) % step != 0 {
                continue;
            }
            let x1 = if pat & 1 == 0 { ones(l1, t1) } else { edges(l1, t1) };
            let x2 = if pat & 2 == 0 { edges(l2, t2) } else { ones(l2, t2) };
            let tr = [base, base ^ x1, base ^ x1 ^ x2, base ^ x1];
            if tr.iter().any(|b| f64::from_bits(*b).is_nan()) {
                continue;
            }
            v.extend(tr.iter().map(|b| f64::from_bits(*b)));
        }
        (s, l1, t1, v)
    };
    cx.run_desc(
        "windows",
        "for each XOR scheme, every pair of (leading,trailing)-zero windows of consecutive XORs (quick: every other partner), 4 records per chunk, patterns ones/edges",
        total,
        |c| {
            let (s, _, _, v) = build_b(c);
            cx.step(v.len() as u64);
            round_trip(cx, s, ChunkOption::RecordCount(4), &v)
        },
        |c| {
            let (s, l, t, v) = build_b(c);
            format!("{s:?} first window ({l},{t}), {} chunks of 4", v.len() / 4)
        },
    );
    // one continuous chunk per first window: windows carried over a long history
    let total = (w.len() * xs.len()) as u64;
    let build_b2 = |c: u64| {
        let mut g = Dig(c);
        let s = xs[g.take(xs.len())];
        let (l1, t1) = w[g.0 as usize];
        let mut cur = 0x3f01_2345_6789_abcdu64;
        let mut v = vec![f64::from_bits(cur)];
        for &(l2, t2) in w.iter().step_by(cx.pick(7, 1)) {
            for x in [ones(l1, t1), edges(l2, t2), 0] {
                let n = cur ^ x;
                if !f64::from_bits(n).is_nan() {
                    cur = n;
                    v.push(f64::from_bits(cur));
                }
            }
        }
        (s, l1, t1, v)
    };
    cx.run_desc(
        "window-history",
        "each XOR scheme, each first window, alternating with every other window inside one chunk",
        total,
        |c| {
            let (s, _, _, v) = build_b2(c);
            cx.step(v.len() as u64);
            round_trip(cx, s, ChunkOption::Full, &v)
        },
        |c| {
            let (s, l, t, v) = build_b2(c);
            format!("{s:?} window ({l},{t}) alternated, {} records", v.len())
        },
    );
    // first values: every (leading, trailing) window as the raw first value, then each second value in a small set
    let total = (w.len() * LOSSLESS.len()) as u64;
    let build_b3 = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let (l, t) = w[g.0 as usize];
        let mut v = vec![];
        for f in [ones(l, t), edges(l, t)] {
            for n in [f, 0, 1, 1 << 63, f64::MAX.to_bits(), f ^ 1] {
                if !f64::from_bits(f).is_nan() && !f64::from_bits(n).is_nan() {
                    v.push(f64::from_bits(f));
                    v.push(f64::from_bits(n));
                }
            }
        }
        (s, v)
    };
    cx.run_desc(
        "first-values",
        "every (leading,trailing)-zero window as first value of a chunk followed by 6 second values, all lossless schemes",
        total,
        |c| {
            let (s, v) = build_b3(c);
            round_trip(cx, s, ChunkOption::RecordCount(2), &v)
        },
        |c| format!("{:?}", build_b3(c)),
    );

    // C. back references: a value repeated (exactly / in its low bits) at every lag around the ring of 128
    let nlag = 300u64;
    let vars = 7u64;
    let starts: &[usize] = if cx.quick() { &[0, 1, 127, 128] } else { &[0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 257] };
    let build_c = |c: u64| {
        let mut g = Dig(c);
        let s = xs[g.take(xs.len())];
        let st = starts[g.take(starts.len())];
        let var = g.take(vars as usize);
        let lag = g.0 as usize + 1;
        // pairwise distinct background values with distinct low 14 bits
        let bg = |i: usize| 0x3fe0_0000_0000_0000u64 | ((i as u64 * 0x9E37_79B9) & 0xffff_ffff) << 16 | (i as u64 * 37 + 5) % 16384;
        let n = st + lag + 40;
        let mut v: Vec<u64> = (0..n).map(bg).collect();
        let src = v[st];
        v[st + lag] = match var {
            0 => src,
            1 => src ^ (1 << 14),
            2 => src ^ (1 << 13),
            3 => src ^ (1 << 40),
            4 => src ^ (0x8000_0000_0000_0000 | 1 << 14),
            5 => src ^ (1 << 51),
            _ => src ^ (1 << 15 | 1 << 50),
        };
        let v: Vec<f64> = v.into_iter().map(f64::from_bits).collect();
        (s, st, lag, var, v)
    };
    cx.run_desc(
        "lags",
        "each XOR scheme: a value recurring exactly or sharing low bits at every lag 1..=300, several ring positions, 7 variants",
        nlag * vars * (starts.len() * xs.len()) as u64,
        |c| {
            let (s, _, _, _, v) = build_c(c);
            cx.step(v.len() as u64);
            round_trip(cx, s, ChunkOption::Full, &v)
        },
        |c| {
            let (s, st, lag, var, v) = build_c(c);
            format!("{s:?} value {st} recurs at lag {lag} variant {var}, {} records", v.len())
        },
    );

    // D. run lengths
    let runs: &[usize] = if cx.quick() {
        &[1, 2, 127, 128, 129, 254, 255, 256, 257]
    } else {
        &[1, 2, 3, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 765, 766]
    };
    let vals: [[f64; 4]; 3] = [[1.0, 2.0, 1.0, 2.0], [0.0, -0.0, 0.0, 5e-324], [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -1.0]];
    let nr = runs.len();
    let depth = 4u32;
    let rs: Vec<Sch> = LOSSLESS.to_vec();
    let build_d = |c: u64| {
        let mut g = Dig(c);
        let big = !cx.quick();
        let (s, vs) = if big {
            (Sch::Rle, vals[g.take(3)])
        } else {
            (rs[1], vals[g.take(3)])
        };
        let mut v = vec![];
        for k in 0..depth as usize {
            let r = runs[g.take(nr)];
            v.extend(std::iter::repeat(vs[k]).take(r));
        }
        (s, v)
    };
    cx.run_desc(
        "runs",
        "run-length scheme: every 4-tuple of run lengths around the run-counter limits x 3 value patterns",
        3 * (nr as u64).pow(depth),
        |c| {
            let (s, v) = build_d(c);
            round_trip(cx, s, ChunkOption::Full, &v)?;
            Ok(())
        },
        |c| {
            let (s, v) = build_d(c);
            format!("{s:?} {}", show(&v))
        },
    );
    // the same run boundaries for every scheme, two runs
    let build_d2 = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let o = [ChunkOption::Full, ChunkOption::RecordCount(200), ChunkOption::RecordCount(256)][g.take(3)];
        let mut v = vec![];
        for k in 0..2 {
            let r = runs[g.take(nr)];
            v.extend(std::iter::repeat([0.1, -0.0][k]).take(r));
        }
        (s, o, v)
    };
    cx.run_desc(
        "runs-all",
        "every pair of run lengths for every scheme, 3 chunkings",
        3 * 10 * (nr as u64).pow(2),
        |c| {
            let (s, o, v) = build_d2(c);
            round_trip(cx, s, o, &v)
        },
        |c| {
            let (s, o, v) = build_d2(c);
            format!("{s:?} {o:?} {}", show(&v))
        },
    );

    // E. decimals (what the Elf schemes erase and restore): all i/10^p in a range, and all triples
    let block = 2000i64;
    let nb = cx.pick(40, 400);
    let ps = 19u32;
    let es = [Sch::Elf, Sch::ElfChimp];
    let build_e = |c: u64| {
        let mut g = Dig(c);
        let s = es[g.take(2)];
        let p = g.take(ps as usize) as u32;
        let b = g.0 as i64 - nb / 2;
        let v: Vec<f64> = (b * block..(b + 1) * block).map(|i| dec(i, p)).collect();
        (s, p, b, v)
    };
    cx.run_desc(
        "decimals",
        &format!("Elf schemes: every decimal i/10^p, p in 0..{ps}, |i| <= {}, in blocks of {block} records", nb / 2 * block),
        2 * ps as u64 * nb as u64,
        |c| {
            let (s, _, _, v) = build_e(c);
            cx.step(v.len() as u64);
            round_trip(cx, s, ChunkOption::RecordCount(500), &v)
        },
        |c| {
            let (s, p, b, _) = build_e(c);
            format!("{s:?} all i/10^{p} for i in {}..{}", b * block, (b + 1) * block)
        },
    );
    let mut dl: Vec<f64> = vec![];
    for p in [0u32, 1, 2, 3, 5, 8, 12, 15, 17] {
        for i in [1i64, -1, 7, 10, 12, 99, 123, 12345, 123456789, -987654321012345, 1234567890123456] {
            let x = dec(i, p);
            if !dl.contains(&x) {
                dl.push(x);
            }
        }
    }
    for x in [0.0, -0.0, 1e300, 1e-300, 5e-324, f64::INFINITY, 0.30000000000000004, 1.0 / 3.0, 1e17, 1e22, 4503599627370496.5, 0.001953125] {
        dl.push(x);
    }
    let n = dl.len() as u64;
    let lim = cx.pick(3, 1);
    cx.run_desc(
        "decimal-triples",
        &format!("Elf schemes: every ordered triple over {n} decimals of differing precision and magnitude (quick: a third of the middle values), 3 records per chunk"),
        2 * n * n,
        |c| {
            let mut g = Dig(c);
            let s = es[g.take(2)];
            let a = dl[g.take(n as usize)];
            let b = dl[g.take(n as usize)];
            let mut v = vec![];
            for (k, &m) in dl.iter().enumerate() {
                if (k as u64 + c) % lim == 0 {
                    v.extend([a, m, b]);
                }
            }
            cx.step(v.len() as u64);
            round_trip(cx, s, ChunkOption::RecordCount(3), &v)
        },
        |c| {
            let mut g = Dig(c);
            let s = es[g.take(2)];
            format!("{s:?} ({:?}, *, {:?})", dl[g.take(n as usize)], dl[g.take(n as usize)])
        },
    );

    // F. every record count and chunk length: block and buffer boundaries
    let mut lens: Vec<usize> = (0..=cx.pick(140, 300)).collect();
    lens.extend([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193]);
    if !cx.quick() {
        lens.extend([16383, 16384, 16385, 65535, 65536, 65537, 131072, 200003]);
    }
    let per: &[usize] = &[0, 1, 7, 64, 100, 1000, 1024];
    let total = (lens.len() * per.len() * LOSSLESS.len() * 3) as u64;
    let build_f = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let k = per[g.take(per.len())];
        let kind = g.take(3);
        let n = lens[g.0 as usize];
        let o = if k == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(k) };
        let v: Vec<f64> = (0..n)
            .map(|i| match kind {
                0 => (i as f64) * 0.25 - 3.0,
                1 => f64::from_bits(0x3fb0_0000_0000_0000 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 3),
                _ => dec(((i as i64 * 7919) % 20011) - 10000, 2),
            })
            .collect();
        (s, o, kind, n, v)
    };
    cx.run_desc(
        "lengths",
        "every record count in a range plus powers of two +-1, x 7 chunk lengths x 10 schemes x 3 value laws",
        total,
        |c| {
            let (s, o, _, n, v) = build_f(c);
            // one-record chunks of long inputs say nothing new and are slow
            if let ChunkOption::RecordCount(k) = o {
                if k < 64 && n > 1100 {
                    return Ok(());
                }
            }
            cx.step(v.len() as u64);
            round_trip(cx, s, o, &v)
        },
        |c| {
            let (s, o, k, n, _) = build_f(c);
            format!("{s:?} {o:?} law {k} n={n}")
        },
    );

    // chunks beyond every counter and window width
    let big: &[usize] = cx.pick(&[65_537, 140_000], &[65_535, 65_536, 65_537, 140_000, 300_000, 1_100_000]);
    let bo = [ChunkOption::Full, ChunkOption::RecordCount(65_536), ChunkOption::RecordCount(33_000)];
    let db = |c: u64| {
        let mut g = Dig(c);
        (LOSSLESS[g.take(LOSSLESS.len())], bo[g.take(3)], g.take(6), big[g.take(big.len())])
    };
    cx.run_desc(
        "long",
        &format!("{big:?} records in one chunk or chunks of 65536 or 33000 x 10 schemes x 6 value laws (ramp, incompressible bits, decimals, one value throughout, runs of 1 to 3000, a period of 4099)"),
        (LOSSLESS.len() * 3 * 6 * big.len()) as u64,
        |c| {
            let (s, o, kind, n) = db(c);
            let rnd = |i: usize| {
                let mut x = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                x ^= x >> 29;
                x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
                x ^ x >> 32
            };
            let (mut run, mut left) = (0u64, 0usize);
            let v: Vec<f64> = (0..n)
                .map(|i| match kind {
                    0 => i as f64 * 0.25 - 3.0,
                    // any sign and mantissa, moderate exponents (no NaN)
                    1 => f64::from_bits(rnd(i) & 0x800f_ffff_ffff_ffff | (0x300 + rnd(i) % 0x200) << 52),
                    2 => dec(((i as i64 * 7919) % 2_000_011) - 1_000_000, 3),
                    3 => 1.75,
                    4 => {
                        if left == 0 {
                            run += 1;
                            left = [1, 2, 3, 254, 255, 256, 257, 511, 3000][(rnd(run as usize) % 9) as usize];
                        }
                        left -= 1;
                        run as f64 / 8.0
                    }
                    _ => f64::from_bits(0x4000_0000_0000_0000 | rnd(i % 4099) >> 12),
                })
                .collect();
            cx.step(n as u64);
            round_trip(cx, s, o, &v)
        },
        |c| format!("{:?}", db(c)),
    );

    // G. NaN payloads
    let nan = f64::NAN;
    let nan2 = f64::from_bits(0x7ff8_0000_0000_0001);
    let nan3 = f64::from_bits(0xfff8_0000_0000_0000);
    let snan = f64::from_bits(0x7ff0_0000_0000_0001);
    let al = [1.0, nan, nan2, nan3, snan, 0.1];
    let total = n_seqs(6, 1, 3) * LOSSLESS.len() as u64;
    let build_g = |c: u64| {
        let mut g = Dig(c);
        let s = LOSSLESS[g.take(LOSSLESS.len())];
        let v: Vec<f64> = nth_seq(6, 1, 3, g.0).iter().map(|&i| al[i]).collect();
        (s, v)
    };
    cx.run_desc(
        "nan",
        "every sequence of length 1..=3 over {1.0, 0.1, four NaN bit patterns} x 10 schemes",
        total,
        |c| {
            let (s, v) = build_g(c);
            let r = round_trip(cx, s, ChunkOption::Full, &v);
            if let Err(mut e) = r {
                // recorded finding: the XOR schemes use the canonical NaN as end-of-stream marker
                let marker = v.iter().any(|x| match s {
                    Sch::Elf | Sch::ElfChimp => x.is_nan(),
                    _ => x.to_bits() == 0x7ff8_0000_0000_0000,
                });
                if is_xor(s) && marker {
                    e.known = Some("xor-nan-end-marker".into());
                }
                return Err(e);
            }
            Ok(())
        },
        |c| format!("{:?}", build_g(c)),
    );
}

/// encode decimals i/10^p, materialize, and require that rounding to p decimals restores each one
fn decimal_trip(cx: &Cx, s: Sch, opt: ChunkOption, ints: &[i64]) -> Case {
    let p = s.prec().unwrap();
    let v: Vec<f64> = ints.iter().map(|&i| dec(i, p)).collect();
    #[cfg(not(feature = "alp"))]
    if cx.prop == "P26" {
        return crate::compat::cross(cx, s, opt, &v);
    }
    let b = encode(s, opt, &v)?;
    cx.state(hash64(&b[..b.len().min(4096)]));
    let mut d = open(b)?;
    let got = materialize(&mut d, None, None)?;
    cx.step(2 + ints.len() as u64);
    if got.len() != v.len() {
        return Err(Fail::from(format!("{s:?} {opt:?}: {} records decoded, {} written; ints {:?}", got.len(), v.len(), &ints[..ints.len().min(20)])));
    }
    for (k, (&g, &i)) in got.iter().zip(ints).enumerate() {
        let ok = match s {
            Sch::Spr(_) => g == v[k],
            _ => round_to(g, p) == round_to(v[k], p) && (g - v[k]).abs() < 0.5 / 10f64.powi(p as i32),
        };
        if !ok {
            return Err(Fail::from(format!(
                "{s:?} {opt:?}: record {k} wrote {i}/10^{p} = {:?}, read {g:?}; {} records {:?}",
                v[k],
                ints.len(),
                &ints[..ints.len().min(12)]
            )));
        }
    }
    Ok(())
}

pub fn p02(cx: &Cx) {
    let mut schemes = vec![];
    for p in 0..=9 {
        schemes.push(Sch::Spr(p));
    }
    for p in 0..=12 {
        schemes.push(Sch::Buff(p));
    }
    let opts = [ChunkOption::Full, ChunkOption::RecordCount(2), ChunkOption::ByteSizeBestEffort(16), ChunkOption::RecordCount(1)];
    // A. short sequences
    let al: &[i64] = if cx.quick() {
        &[0, 1, -1, 255, -256, 123456]
    } else {
        &[0, 1, -1, 127, -128, 255, 256, 65535, -1000001, 9007199254]
    };
    let (a, l) = (al.len() as u64, 4);
    let no = cx.pick(3, 4);
    let da = |c: u64| {
        let mut g = Dig(c);
        let s = schemes[g.take(schemes.len())];
        let o = opts[g.take(no)];
        let v: Vec<i64> = nth_seq(a, 0, l, g.0).iter().map(|&i| al[i]).collect();
        (s, o, v)
    };
    cx.run_desc(
        "seqs",
        &format!("every sequence of length 0..={l} over {a} decimals x every supported precision (delta-sprintz 0..=9, buff 0..=12 decimals) x {no} chunk options"),
        n_seqs(a, 0, l) * (schemes.len() * no) as u64,
        |c| {
            let (s, o, v) = da(c);
            decimal_trip(cx, s, o, &v)
        },
        |c| format!("{:?}", da(c)),
    );
    // B. width boundaries x record counts: every value spread 2^k-1, 2^k, 2^k+1, several bases
    let mut spreads = vec![0i64];
    for k in 0..=44 {
        for d in [-1i64, 0, 1] {
            let x = (1i64 << k) + d;
            if x > 0 && !spreads.contains(&x) {
                spreads.push(x);
            }
        }
    }
    let bases: [i64; 5] = [0, -5, 1000, -(1 << 20), 1 << 43];
    let ns: Vec<usize> = if cx.quick() { vec![2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70] } else { (2..=140).collect() };
    let nb = cx.pick(3, 5);
    let bases = &bases[5 - nb..];
    let db = |c: u64| {
        let mut g = Dig(c);
        let s = schemes[g.take(schemes.len())];
        let base = bases[g.take(nb)];
        let sp = spreads[g.take(spreads.len())];
        let n = ns[g.0 as usize];
        let v: Vec<i64> = (0..n)
            .map(|i| match i {
                0 => base,
                i if i == n - 1 => base + sp,
                i => base + (sp as i128 * ((i * 7919) % 101) as i128 / 101) as i64,
            })
            .collect();
        (s, v)
    };
    cx.run_desc(
        "widths",
        "value spreads around every power of two up to 2^44 x several bases x record counts x every precision, one chunk",
        (schemes.len() * nb * spreads.len() * ns.len()) as u64,
        |c| {
            let (s, v) = db(c);
            // beyond 2^52 in fixed point the doubles themselves are too coarse for the precision
            decimal_trip(cx, s, ChunkOption::Full, &v)
        },
        |c| {
            let (s, v) = db(c);
            format!("{s:?} {:?}..", &v[..v.len().min(6)])
        },
    );
    // C. every decimal in a range
    let block = 1000i64;
    let nbk = cx.pick(40i64, 400);
    let dc = |c: u64| {
        let mut g = Dig(c);
        let s = schemes[g.take(schemes.len())];
        let b = g.0 as i64 - nbk / 2;
        (s, (b * block..(b + 1) * block).collect::<Vec<i64>>())
    };
    cx.run_desc(
        "range",
        &format!("every decimal i/10^p with |i| <= {} for every supported precision", nbk / 2 * block),
        schemes.len() as u64 * nbk as u64,
        |c| {
            let (s, v) = dc(c);
            decimal_trip(cx, s, ChunkOption::RecordCount(300), &v)
        },
        |c| {
            let (s, v) = dc(c);
            format!("{s:?} {}..={}", v[0], v[v.len() - 1])
        },
    );
    let big: &[usize] = cx.pick(&[4097, 65_537, 140_000], &[4095, 4096, 4097, 65_535, 65_536, 65_537, 140_000, 300_000]);
    let bs: Vec<Sch> = schemes.iter().copied().filter(|s| !cx.quick() || matches!(s.prec(), Some(0 | 2 | 5 | 9 | 12))).collect();
    let dl = |c: u64| {
        let mut g = Dig(c);
        (bs[g.take(bs.len())], [ChunkOption::Full, ChunkOption::RecordCount(65_536)][g.take(2)], [1u32, 7, 8, 9, 15, 16, 17, 24, 31, 32][g.take(10)], big[g.take(big.len())])
    };
    cx.run_desc(
        "long",
        &format!("{big:?} records in one chunk or chunks of 65536, spreads of 1 to 32 bits, {} scheme settings", bs.len()),
        (bs.len() * 20 * big.len()) as u64,
        |c| {
            let (s, o, w, n) = dl(c);
            let top = (1i64 << w) - 1;
            let v: Vec<i64> = (0..n as i64).map(|i| -17 + if i + 1 == n as i64 { top } else { (i * 0x9E37_79B9 ^ i >> 3) & top }).collect();
            decimal_trip(cx, s, o, &v)
        },
        |c| format!("{:?}", dl(c)),
    );
    // D. every single value near a power of two or ten: both signs
    let mut pts = vec![];
    for k in 0..50 {
        for d in -3i64..=3 {
            pts.push((1i64 << k) + d);
        }
    }
    for k in 0..16u32 {
        for d in -3i64..=3 {
            pts.push(10i64.pow(k) + d);
        }
    }
    let lim = 1i64 << 50;
    let pts: Vec<i64> = pts.iter().flat_map(|&x| [x, -x]).filter(|x| x.abs() <= lim).collect();
    cx.run_desc(
        "points",
        "every i within 3 of a power of two (<= 2^50) or ten, both signs, alone in a chunk and next to 0, every precision",
        (schemes.len() * pts.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let s = schemes[g.take(schemes.len())];
            let x = pts[g.0 as usize];
            decimal_trip(cx, s, ChunkOption::Full, &[x])?;
            decimal_trip(cx, s, ChunkOption::Full, &[x, 0])?;
            decimal_trip(cx, s, ChunkOption::Full, &[0, x, x])
        },
        |c| {
            let mut g = Dig(c);
            let s = schemes[g.take(schemes.len())];
            format!("{s:?} {}", pts[g.0 as usize])
        },
    );
    // E. delta-sprintz with more than 32 bits of scale
    cx.run_desc(
        "wide-scale",
        "delta-sprintz with scales 10^10..10^12 on 6 sequences",
        18,
        |c| {
            let mut g = Dig(c);
            let s = Sch::Spr(10 + g.take(3) as u32);
            let seqs: [&[i64]; 6] = [&[0], &[1], &[1, 2], &[-5, 5], &[12345678901], &[10_000_000_000, 7]];
            match decimal_trip(cx, s, ChunkOption::Full, seqs[g.0 as usize]) {
                Err(mut e) => {
                    e.known = Some("sprintz-scale-32-bit".into());
                    Err(e)
                }
                ok => ok,
            }
        },
        |c| format!("case {c}"),
    );
}
