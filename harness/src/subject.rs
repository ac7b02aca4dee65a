//! Calls into the crate under test, with panics turned into values.
use crate::model::{self, Prog, P};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}
static ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        LAST.with(|l| *l.borrow_mut() = m.clone());
        if let Ok(mut a) = ANY.lock() {
            *a = m;
        }
    }));
}

/// Err holds the panic message
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST.with(|l| l.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST.with(|l| l.borrow().clone());
        if m.is_empty() {
            // in another thread of the pool
            format!("panic: {}", ANY.lock().map(|a| a.clone()).unwrap_or_default())
        } else {
            format!("panic: {}", m)
        }
    })
}

pub fn intent(i: u8) -> gfwx::Intent {
    match i {
        7 => gfwx::Intent::RGB,
        8 => gfwx::Intent::RGBA,
        10 => gfwx::Intent::BGR,
        11 => gfwx::Intent::BGRA,
        12 => gfwx::Intent::YUV444,
        _ => gfwx::Intent::Generic,
    }
}
pub fn encoder(e: u8) -> gfwx::Encoder {
    match e {
        0 => gfwx::Encoder::Turbo,
        1 => gfwx::Encoder::Fast,
        _ => gfwx::Encoder::Contextual,
    }
}
pub fn filter(f: u8) -> gfwx::Filter {
    if f == 0 {
        gfwx::Filter::Linear
    } else {
        gfwx::Filter::Cubic
    }
}

pub fn try_header(p: &P) -> Result<gfwx::Header, gfwx::errors::HeaderErr> {
    gfwx::HeaderBuilder {
        width: p.w as u32,
        height: p.h as u32,
        layers: p.layers as u16,
        channels: p.channels as u16,
        quality: p.quality as u16,
        chroma_scale: p.chroma_scale as u8,
        block_size: p.block_size as u8,
        filter: filter(p.filter),
        encoder: encoder(p.encoder),
        intent: intent(p.intent),
        metadata_size: p.metadata,
    }
    .build()
}
pub fn header(p: &P) -> Result<gfwx::Header, String> {
    match guard(|| try_header(p)) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(format!("builder rejects a valid header: {}", e)),
        Err(e) => Err(e),
    }
}
pub fn program(prog: &Prog) -> gfwx::ColorTransformProgram {
    let mut r = gfwx::ColorTransformProgram::new();
    for t in prog {
        let mut b = gfwx::ChannelTransformBuilder::with_dest_channel(t.dest);
        for &(s, f) in &t.factors {
            b.add_channel_factor(s, f as isize);
        }
        b.set_denominator(t.den as isize);
        if t.chroma {
            b.set_chroma();
        }
        r.add_channel_transform(b.build());
    }
    r
}

/// Output buffer that is large enough for any content: blocks get equal shares of what is left.
pub fn payload_room(p: &P) -> usize {
    let mut step = p.first_step();
    let mut need = 0usize;
    let mut before = 0usize;
    let mut first = true;
    while step >= 1 {
        let (bs, bx, by) = p.blocks(step);
        let n = bx * by * p.planes();
        let (bw, bh) = (bs.min(p.w), bs.min(p.h));
        let coefs = ((bw + step - 1) / step) * ((bh + step - 1) / step) + first as usize;
        let block = coefs * 13 + 12;
        need = need.max(before + n * 4 + n * block);
        // what this step really takes
        let all = ((p.w + step - 1) / step) * ((p.h + step - 1) / step) * p.planes();
        before += n * 4 + (all * 13 + n * 12).min(n * block);
        step /= 2;
        first = false;
    }
    need + 64
}
pub fn stream_room(p: &P, prog: &Prog) -> usize {
    32 + model::program_bytes(prog).len() + payload_room(p)
}

pub const FILL: u8 = 0xa5;

pub fn compress_into(h: &gfwx::Header, prog: &gfwx::ColorTransformProgram, img: &[u8], buf: &mut [u8]) -> Result<Result<usize, String>, String> {
    guard(|| gfwx::compress_simple(img, h, prog, buf).map_err(|e| format!("{:?}", e)))
}

/// a stream of about n bytes from the smallest of a few buffers that suffices
pub fn compress_tight(h: &gfwx::Header, prog: &gfwx::ColorTransformProgram, img: &[u8], n: usize) -> Result<Option<Vec<u8>>, String> {
    for room in [n, n + n / 50 + 4, n + n / 8 + 8, n + n / 3 + 16, 2 * n] {
        let mut b = vec![FILL; room];
        match compress_into(h, prog, img, &mut b)? {
            Ok(m) if m <= room => {
                b.truncate(m);
                return Ok(Some(b));
            }
            Ok(m) => return Err(format!("compress_simple returned {} for a buffer of {}", m, room)),
            Err(_) => {}
        }
    }
    Ok(None)
}

/// compress_simple with a sufficient buffer; any failure is an error
pub fn compress(p: &P, prog: &Prog, img: &[u8]) -> Result<Vec<u8>, String> {
    let h = header(p)?;
    let pr = program(prog);
    let mut buf = vec![FILL; stream_room(p, prog)];
    match compress_into(&h, &pr, img, &mut buf)? {
        Ok(n) if n <= buf.len() => {
            buf.truncate(n);
            // some of the streams come from a tight buffer
            if crate::rng::hash_bytes(n as u64, &img[..img.len().min(64)]) % 8 == 0 && n < 300_000 {
                if let Some(b) = compress_tight(&h, &pr, img, n)? {
                    return Ok(b);
                }
            }
            Ok(buf)
        }
        Ok(n) => Err(format!("compress_simple returned {} for a buffer of {}", n, buf.len())),
        Err(e) => Err(format!("compress_simple failed with a sufficient buffer of {}: {}", buf.len(), e)),
    }
}

pub type Verdict = Result<usize, String>;

/// decompress_simple after the header; the outer error is a panic
pub fn decompress_body(h: &gfwx::Header, body: &[u8], d: usize, test: bool, out: &mut [u8]) -> Result<Verdict, String> {
    guard(|| gfwx::decompress_simple(body, h, d, test, out).map_err(|e| format!("{:?}", e)))
}

/// header and body, full output
pub fn decompress(stream: &[u8], d: usize) -> Result<(Verdict, Vec<u8>), String> {
    let mut s = stream;
    let h = match guard(|| gfwx::Header::decode(&mut s))? {
        Ok(h) => h,
        Err(e) => return Err(format!("Header::decode: {}", e)),
    };
    let mut out = vec![FILL; guard(|| h.get_decompress_buffer_size(d))?];
    let v = decompress_body(&h, &stream[32..], d, false, &mut out)?;
    Ok((v, out))
}

pub fn compress_aux(p: &P, chroma: &[bool], aux: &[i16]) -> Result<Vec<u8>, String> {
    let h = header(p)?;
    let mut a = aux.to_vec();
    let mut buf = vec![FILL; payload_room(p)];
    match guard(|| gfwx::compress_aux_data(&mut a, &h, chroma, &mut buf))? {
        Ok(n) if n <= buf.len() => {
            buf.truncate(n);
            Ok(buf)
        }
        Ok(n) => Err(format!("compress_aux_data returned {} for a buffer of {}", n, buf.len())),
        Err(e) => Err(format!("compress_aux_data failed with a sufficient buffer of {}: {:?}", buf.len(), e)),
    }
}
pub fn decompress_aux(p: &P, chroma: &[bool], data: &[u8], d: u32) -> Result<(Verdict, Vec<i16>), String> {
    let h = header(p)?;
    let (dw, dh) = p.down(d);
    let mut a = vec![0i16; dw * dh * p.planes()];
    let v = guard(|| gfwx::decompress_aux_data(data, &h, chroma, d as usize, false, &mut a).map_err(|e| format!("{:?}", e)))?;
    Ok((v, a))
}

/// what gfwx::lifting takes
pub fn rows(v: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    v.chunks_mut(w).collect()
}

pub fn last_panic() -> String {
    let m = LAST.with(|l| l.borrow().clone());
    if m.is_empty() {
        ANY.lock().map(|a| a.clone()).unwrap_or_default()
    } else {
        m
    }
}
