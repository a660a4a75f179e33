//! Stand-in for the generated C++ bindings of the ALP library (its sources are an empty submodule here): same
//! interface, a lossless codec of its own. A block is the record count, the bytes of the records XORed with a key that
//! depends on their position, and a checksum; no records, no block. A wrong record count, foreign bytes or a cut-off
//! block decode to a poison value instead of the records. As the library does, it works in vectors of 1024 values: it
//! needs room for whole vectors on both sides, and leaves the unused end of the decoded one in an arbitrary state.
pub mod prelude {
    pub use crate::{include_cpp, moveit};
}
#[macro_export]
macro_rules! include_cpp {
    ($($t:tt)*) => {
        mod ffi {
            pub mod alp {
                pub use ::autocxx::{AlpCompressorDouble, AlpDecompressorDouble};
            }
        }
    };
}
#[macro_export]
macro_rules! moveit {
    ($(let mut $n:ident = $e:expr;)*) => { $(let mut $n = Box::pin($e);)* };
    ($(let $n:ident = $e:expr;)*) => { $(let $n = Box::pin($e);)* };
}

use std::pin::Pin;
const MAGIC: u64 = 0xA1B2_0000_0000_0000;
const POISON: u64 = 0x7ff8_dead_beef_0000;
const VECTOR: usize = 1024;

fn key(i: usize) -> u64 {
    (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
extern "C" {
    fn malloc_usable_size(p: *mut std::ffi::c_void) -> usize;
}
/// what lies behind a pointer to the start of an allocation
fn room(p: *mut u8, needed: usize, what: &str) {
    if needed > 0 {
        let n = unsafe { malloc_usable_size(p.cast()) };
        assert!(n >= needed, "the codec needs {needed} bytes to {what}, it was given {n}");
    }
}

#[derive(Default)]
pub struct AlpCompressorDouble {
    size: usize,
}
impl AlpCompressorDouble {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_size(self: Pin<&mut Self>) -> usize {
        self.size
    }
    /// # Safety
    /// `values` points to `n` values, `out` to the start of an allocation
    pub unsafe fn compress(mut self: Pin<&mut Self>, values: *mut f64, n: usize, out: *mut u8) {
        if n == 0 {
            return;
        }
        let vectors = n.div_ceil(VECTOR);
        room(out, vectors * (VECTOR * 8 + 13) + 1, "compress");
        let mut at = 0;
        let mut put = |w: u64| {
            unsafe { out.add(at).cast::<[u8; 8]>().write(w.to_le_bytes()) };
            at += 8;
        };
        put(MAGIC ^ n as u64);
        let mut sum = 0u64;
        for i in 0..n {
            let w = unsafe { values.add(i).read() }.to_bits() ^ key(i);
            sum = sum.rotate_left(7) ^ w;
            put(w);
        }
        put(sum);
        self.size = at;
    }
}
#[derive(Default)]
pub struct AlpDecompressorDouble {}
impl AlpDecompressorDouble {
    pub fn new() -> Self {
        Self::default()
    }
    /// # Safety
    /// `input` points to a block, `out` to the start of an allocation
    pub unsafe fn decompress(self: Pin<&mut Self>, input: *mut u8, n: usize, out: *mut f64) {
        if n == 0 {
            return;
        }
        let padded = n.next_multiple_of(VECTOR);
        room(out.cast(), padded * 8, "decompress");
        let word = |i: usize| u64::from_le_bytes(unsafe { input.add(i * 8).cast::<[u8; 8]>().read() });
        let mut ok = word(0) == MAGIC ^ n as u64;
        if ok {
            let mut sum = 0u64;
            for i in 0..n {
                let w = word(i + 1);
                sum = sum.rotate_left(7) ^ w;
                unsafe { out.add(i).write(f64::from_bits(w ^ key(i))) };
            }
            ok = word(n + 1) == sum;
        }
        for i in if ok { n } else { 0 }..padded {
            unsafe { out.add(i).write(f64::from_bits(POISON)) };
        }
    }
}
