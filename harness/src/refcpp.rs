//! The vendored C++ reference codec.
#[cfg(feature = "cpp")]
mod ffi {
    extern "C" {
        pub fn ref_compress(img: *const u8, w: i32, h: i32, layers: i32, channels: i32, quality: i32, chroma: i32, bs: i32, filter: i32, enc: i32, intent: i32, prog: *const i32, meta: *mut u8, meta_size: usize, out: *mut u32, size: usize) -> i64;
        pub fn ref_decompress(data: *const u32, size: usize, down: i32, test: i32, out: *mut u8) -> i64;
        pub fn ref_lift(p: *mut i16, w: i32, h: i32, filter: i32);
        pub fn ref_unlift(p: *mut i16, w: i32, h: i32, filter: i32);
        pub fn ref_quantize(p: *mut i16, w: i32, h: i32, q: i32, minq: i32, maxq: i32);
        pub fn ref_dequantize(p: *mut i16, w: i32, h: i32, q: i32, minq: i32, maxq: i32);
        pub fn ref_encode(p: *mut i16, w: i32, h: i32, x0: i32, y0: i32, x1: i32, y1: i32, step: i32, scheme: i32, q: i32, dc: i32, chroma: i32, out: *mut u32, words: usize) -> i64;
        pub fn ref_decode(p: *mut i16, w: i32, h: i32, x0: i32, y0: i32, x1: i32, y1: i32, step: i32, scheme: i32, q: i32, dc: i32, chroma: i32, inp: *mut u32, words: usize) -> i64;
    }
}

#[cfg(feature = "cpp")]
pub use on::*;
#[cfg(feature = "cpp")]
mod on {
    use super::ffi::*;
    use crate::model::{self, Block, Prog, P};

    /// what the reference writes behind the header (the library leaves that to its caller)
    pub fn metadata(p: &P) -> Vec<u32> {
        let words = p.metadata as usize / 4;
        (0..if words > 4096 { 0 } else { words }).map(|i| (i as u32 + 1).wrapping_mul(0x9e37_79b9)).collect()
    }
    /// is the metadata small enough to be written?
    pub fn with_metadata(p: &P) -> bool {
        metadata(p).len() == p.metadata as usize / 4
    }

    /// with the metadata between header and program
    pub fn compress(p: &P, prog: &Prog, img: &[u8], bytes: usize) -> Option<Vec<u8>> {
        let ints = model::program_ints(prog);
        let mut meta = metadata(p);
        let mut out = vec![0u32; (bytes + meta.len() * 4) / 4 + 1];
        let n = unsafe {
            ref_compress(
                img.as_ptr(),
                p.w as i32,
                p.h as i32,
                p.layers as i32,
                p.channels as i32,
                p.quality,
                p.chroma_scale,
                p.block_size as i32,
                p.filter.into(),
                p.encoder.into(),
                p.intent.into(),
                ints.as_ptr(),
                meta.as_mut_ptr() as *mut u8,
                meta.len() * 4,
                out.as_mut_ptr(),
                out.len() * 4,
            )
        };
        if n < 0 {
            return None;
        }
        let mut v = model::words_to_bytes(&out[..n as usize / 4]);
        v.truncate(n as usize);
        Some(v)
    }

    /// the stream includes the header
    pub fn decompress(stream: &[u8], d: u32, out_len: usize) -> (i64, Vec<u8>) {
        let words = model::bytes_to_words(stream);
        let mut out = vec![0u8; out_len];
        let r = unsafe { ref_decompress(words.as_ptr(), words.len() * 4, d as i32, 0, out.as_mut_ptr()) };
        (r, out)
    }

    pub fn lift(p: &mut [i16], w: usize, h: usize, filter: u8) {
        unsafe { ref_lift(p.as_mut_ptr(), w as i32, h as i32, filter.into()) }
    }
    pub fn unlift(p: &mut [i16], w: usize, h: usize, filter: u8) {
        unsafe { ref_unlift(p.as_mut_ptr(), w as i32, h as i32, filter.into()) }
    }
    pub fn quantize(p: &mut [i16], w: usize, h: usize, q: i64, minq: i64, maxq: i64) {
        unsafe { ref_quantize(p.as_mut_ptr(), w as i32, h as i32, q as i32, minq as i32, maxq as i32) }
    }
    pub fn dequantize(p: &mut [i16], w: usize, h: usize, q: i64, minq: i64, maxq: i64) {
        unsafe { ref_dequantize(p.as_mut_ptr(), w as i32, h as i32, q as i32, minq as i32, maxq as i32) }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn encode(plane: &[i16], w: usize, h: usize, b: &Block, enc: u8, q: i32, dc: bool, chroma: bool) -> Vec<u32> {
        let mut p = plane.to_vec();
        let mut out = vec![0u32; (b.x1 - b.x0) * (b.y1 - b.y0) * 5 + 16];
        let n = unsafe {
            ref_encode(p.as_mut_ptr(), w as i32, h as i32, b.x0 as i32, b.y0 as i32, b.x1 as i32, b.y1 as i32, b.step as i32, enc.into(), q, dc.into(), chroma.into(), out.as_mut_ptr(), out.len())
        };
        assert!(n >= 0);
        out.truncate(n as usize);
        out
    }
    #[allow(clippy::too_many_arguments)]
    pub fn decode(plane: &mut [i16], w: usize, h: usize, b: &Block, enc: u8, q: i32, dc: bool, chroma: bool, words: &[u32]) -> i64 {
        // the reader looks one word ahead
        let mut inp = words.to_vec();
        let n = inp.len();
        inp.push(0);
        unsafe {
            ref_decode(plane.as_mut_ptr(), w as i32, h as i32, b.x0 as i32, b.y0 as i32, b.x1 as i32, b.y1 as i32, b.step as i32, enc.into(), q, dc.into(), chroma.into(), inp.as_mut_ptr(), n)
        }
    }
}
