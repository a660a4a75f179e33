//! Shared harness vocabulary: schemes, chunk options, encode/open helpers, reference evaluation.
use crate::fw::{guard, Fail};
use ebi::{
    api::{
        decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput},
        encoder::{Encoder, EncoderInput, EncoderOutput},
    },
    compressor::CompressorConfig,
    decoder::query::{Predicate, Range, RangeValue},
    encoder::ChunkOption,
};
use roaring::RoaringBitmap;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sch {
    Unc,
    Rle,
    Gor,
    Chimp,
    Chimp128,
    ElfChimp,
    Elf,
    Zstd,
    Gzip,
    Snappy,
    Buff(u32),
    Spr(u32),
    #[cfg(feature = "alp")]
    Alp,
}
/// harnesses over the ALP stand-in explore that scheme alone
#[cfg(feature = "alp")]
pub const LOSSLESS: [Sch; 1] = [Sch::Alp];
/// nor is there anything but BUFF that depends on vector instructions
#[cfg(feature = "portable")]
pub const LOSSLESS: [Sch; 2] = [Sch::Unc, Sch::Rle];
#[cfg(not(any(feature = "alp", feature = "portable")))]
pub const LOSSLESS: [Sch; 10] = [
    Sch::Unc,
    Sch::Rle,
    Sch::Gor,
    Sch::Chimp,
    Sch::Chimp128,
    Sch::ElfChimp,
    Sch::Elf,
    Sch::Zstd,
    Sch::Gzip,
    Sch::Snappy,
];
/// the XOR family, whose stream ends with a canonical NaN marker
pub fn is_xor(s: Sch) -> bool {
    matches!(s, Sch::Gor | Sch::Chimp | Sch::Chimp128 | Sch::ElfChimp | Sch::Elf)
}

impl Sch {
    pub fn config(self) -> CompressorConfig {
        self.config_cap(1024)
    }
    pub fn config_cap(self, cap: u64) -> CompressorConfig {
        match self {
            Sch::Unc => CompressorConfig::uncompressed().capacity(cap).build().into(),
            Sch::Rle => CompressorConfig::rle().capacity(cap).build().into(),
            Sch::Gor => CompressorConfig::gorilla().capacity(cap).build().into(),
            Sch::Chimp => CompressorConfig::chimp().capacity(cap).build().into(),
            Sch::Chimp128 => CompressorConfig::chimp128().capacity(cap).build().into(),
            Sch::ElfChimp => CompressorConfig::elf_on_chimp().capacity(cap).build().into(),
            Sch::Elf => CompressorConfig::elf().capacity(cap).build().into(),
            Sch::Zstd => CompressorConfig::zstd().build().into(),
            Sch::Gzip => CompressorConfig::gzip().build().into(),
            Sch::Snappy => CompressorConfig::snappy().build().into(),
            Sch::Buff(p) => CompressorConfig::buff().scale(10u64.pow(p)).build().into(),
            Sch::Spr(p) => CompressorConfig::delta_sprintz().scale(10u64.pow(p)).build().into(),
            #[cfg(feature = "alp")]
            Sch::Alp => CompressorConfig::ffi_alp().build().into(),
        }
    }
    pub fn name(self) -> String {
        format!("{self:?}")
    }
    /// decimals of a fixed-precision scheme
    pub fn prec(self) -> Option<u32> {
        match self {
            Sch::Buff(p) | Sch::Spr(p) => Some(p),
            _ => None,
        }
    }
}

pub fn bytes_of(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn f64s_of(b: &[u8]) -> Option<Vec<f64>> {
    if b.len() % 8 != 0 {
        return None;
    }
    Some(b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect())
}

pub type Dec = Decoder<Cursor<Vec<u8>>>;

pub fn encode_cfg(cfg: CompressorConfig, opt: ChunkOption, v: &[f64]) -> Result<Vec<u8>, Fail> {
    let r = guard(|| {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(vec![]), opt, cfg);
        e.encode().map_err(|x| format!("{x:?}"))?;
        Ok::<_, String>(e.into_output().into_vec())
    });
    match r {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(Fail::from(format!("encode failed: {e}"))),
        Err(p) => Err(Fail::from(format!("encode panicked: {p}"))),
    }
}
pub fn encode(s: Sch, opt: ChunkOption, v: &[f64]) -> Result<Vec<u8>, Fail> {
    encode_cfg(s.config(), opt, v)
}
pub fn open(b: Vec<u8>) -> Result<Dec, Fail> {
    match guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(b)))) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(Fail::from(format!("open failed: {e:?}"))),
        Err(p) => Err(Fail::from(format!("open panicked: {p}"))),
    }
}
/// Call into the code under test; both an error and a panic become a failure named `what`.
pub fn call<T, E: std::fmt::Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, Fail> {
    match guard(f) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fail::from(format!("{what} failed: {e:?}"))),
        Err(p) => Err(Fail::from(format!("{what} panicked: {p}"))),
    }
}
pub fn materialize(d: &mut Dec, m: Option<&RoaringBitmap>, c: Option<usize>) -> Result<Vec<f64>, Fail> {
    let b = call("materialize", || {
        let mut o = DecoderOutput::from_vec(vec![]);
        d.materialize(&mut o, m, c.map(ChunkId::new))?;
        ebi::decoder::Result::Ok(o.into_writer().into_inner())
    })?;
    f64s_of(&b).ok_or_else(|| Fail::from("materialize wrote a partial record"))
}
pub fn filter_materialize(
    d: &mut Dec,
    p: Predicate,
    m: Option<&RoaringBitmap>,
    c: Option<usize>,
) -> Result<Vec<f64>, Fail> {
    let b = call("filter_materialize", || {
        let mut o = DecoderOutput::from_vec(vec![]);
        d.filter_materialize(&mut o, p, m, c.map(ChunkId::new))?;
        ebi::decoder::Result::Ok(o.into_writer().into_inner())
    })?;
    f64s_of(&b).ok_or_else(|| Fail::from("filter_materialize wrote a partial record"))
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub fn show(v: &[f64]) -> String {
    if v.len() > 40 {
        format!("[{} values: {:?} .. {:?}]", v.len(), &v[..8], &v[v.len() - 4..])
    } else {
        format!("{v:?}")
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}
pub fn hash_f(v: &[f64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ v.len() as u64;
    for x in v {
        h = (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let h = (a.rotate_left(17) ^ b).wrapping_mul(0xD6E8FEB86659FD93);
    h ^ (h >> 32)
}

/// chunk boundaries (records per chunk) the options promise for n records
pub fn chunk_sizes(opt: ChunkOption, n: usize) -> Vec<usize> {
    let per = match opt {
        ChunkOption::Full => n.max(1),
        ChunkOption::RecordCount(k) => k,
        // stated heuristic: 1.5 times as many records as fit uncompressed
        ChunkOption::ByteSizeBestEffort(b) => (b as f64 / 8.0 * 1.5).ceil() as usize,
    };
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = per.min(left);
        v.push(k);
        left -= k;
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub enum Bound {
    None,
    Inc(f64),
    Exc(f64),
}
#[derive(Clone, Copy, Debug)]
pub enum Pred {
    Eq(f64),
    Ne(f64),
    Range(Bound, Bound),
}
impl Bound {
    fn to(self) -> RangeValue {
        match self {
            Bound::None => RangeValue::None,
            Bound::Inc(v) => RangeValue::Inclusive(v),
            Bound::Exc(v) => RangeValue::Exclusive(v),
        }
    }
}
impl Pred {
    pub fn to(self) -> Predicate {
        match self {
            Pred::Eq(v) => Predicate::Eq(v),
            Pred::Ne(v) => Predicate::Ne(v),
            Pred::Range(a, b) => Predicate::Range(Range::new(a.to(), b.to())),
        }
    }
    /// independent reference semantics
    pub fn holds(self, x: f64) -> bool {
        match self {
            Pred::Eq(v) => x == v,
            Pred::Ne(v) => x != v,
            Pred::Range(a, b) => {
                let lo = match a {
                    Bound::None => true,
                    Bound::Inc(v) => x >= v,
                    Bound::Exc(v) => x > v,
                };
                let hi = match b {
                    Bound::None => true,
                    Bound::Inc(v) => x <= v,
                    Bound::Exc(v) => x < v,
                };
                lo && hi
            }
        }
    }
}
pub fn preds(consts: &[f64]) -> Vec<Pred> {
    let mut v = vec![];
    for &c in consts {
        v.push(Pred::Eq(c));
        v.push(Pred::Ne(c));
    }
    let mut bounds = vec![Bound::None];
    for &c in consts {
        bounds.push(Bound::Inc(c));
        bounds.push(Bound::Exc(c));
    }
    for &a in &bounds {
        for &b in &bounds {
            v.push(Pred::Range(a, b));
        }
    }
    v
}
pub fn bitmap(bits: &[bool]) -> RoaringBitmap {
    bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u32).collect()
}
pub fn mask_from_num(m: u64) -> RoaringBitmap {
    (0..64u32).filter(|i| m >> i & 1 == 1).collect()
}

pub fn round_to(x: f64, p: u32) -> f64 {
    let s = 10f64.powi(p as i32);
    (x * s).round() / s
}
/// the decimal value i / 10^p as the nearest double (what parsing the decimal text gives)
pub fn dec(i: i64, p: u32) -> f64 {
    if p <= 15 && i.unsigned_abs() <= 1 << 53 {
        // both exact, so one correctly rounded division equals parsing the decimal text
        i as f64 / 10f64.powi(p as i32)
    } else {
        let neg = i < 0;
        let a = i.unsigned_abs();
        let s = 10u64.pow(p);
        let t = format!("{}{}.{:0w$}", if neg { "-" } else { "" }, a / s, a % s, w = p as usize);
        t.parse().unwrap()
    }
}
