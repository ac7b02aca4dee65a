//! C28: errors name their cause.
use crate::cx::{hex, Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Div};
use crate::rng::{hash_bytes, mix, Rng};
use crate::subject as s;
use gfwx::errors::HeaderErr;
use gfwx::{CompressError, DecompressError};
use std::error::Error;
use std::io::ErrorKind;

/// what a caller decides by
#[derive(Debug, PartialEq, Clone, Copy)]
enum Cause {
    Io(ErrorKind),
    WrongMagic,
    WrongValue,
    Overflow,
    Underflow,
    Malformed,
    Other,
}

fn readable(e: &(dyn Error + Send + Sync + 'static), inner: Option<&std::io::Error>) -> R {
    let text = s::guard(|| e.to_string())?;
    if text.trim().is_empty() {
        return Err(format!("{:?} displays as nothing", e));
    }
    if let Some(i) = inner {
        if !text.contains(&i.to_string()) {
            return Err(format!("{:?} displays as {:?} without its cause {:?}", e, text, i.to_string()));
        }
    }
    Ok(())
}
fn header_cause(e: &HeaderErr) -> Result<Cause, String> {
    readable_header(e)?;
    Ok(match e {
        HeaderErr::IOErr(e) => Cause::Io(e.kind()),
        HeaderErr::WrongMagic => Cause::WrongMagic,
        HeaderErr::WrongValue(_) => Cause::WrongValue,
        #[allow(unreachable_patterns)]
        _ => Cause::Other,
    })
}
fn readable_header(e: &HeaderErr) -> R {
    readable(e, if let HeaderErr::IOErr(i) = e { Some(i) } else { None })?;
    if let HeaderErr::WrongValue(w) = e {
        if w.is_empty() || !e.to_string().contains(w.as_str()) {
            return Err(format!("{:?} displays as {:?}", e, e.to_string()));
        }
    }
    Ok(())
}
fn compress_cause(e: &CompressError) -> Result<Cause, String> {
    readable(e, if let CompressError::IOErr(i) = e { Some(i) } else { None })?;
    Ok(match e {
        CompressError::IOErr(e) => Cause::Io(e.kind()),
        CompressError::Overflow => Cause::Overflow,
        CompressError::Malformed => Cause::Malformed,
        #[allow(unreachable_patterns)]
        _ => Cause::Other,
    })
}
fn decompress_cause(e: &DecompressError) -> Result<Cause, String> {
    readable(e, if let DecompressError::IOErr(i) = e { Some(i) } else { None })?;
    Ok(match e {
        DecompressError::IOErr(e) => Cause::Io(e.kind()),
        DecompressError::Underflow => Cause::Underflow,
        DecompressError::Malformed => Cause::Malformed,
        _ => Cause::Other,
    })
}

fn headers(cx: &mut Cx, r: &mut Rng) -> R {
    let mut p = gen::params(r, 100_000);
    p.metadata = r.u32() & 0xffff_fffc;
    let b = model::header_bytes(&p);
    let decode = |b: &[u8]| -> Result<Option<Cause>, String> {
        match s::guard(|| gfwx::Header::decode(&mut &b[..]))? {
            Ok(_) => Ok(None),
            Err(e) => header_cause(&e).map(Some),
        }
    };
    let expect = |what: &str, b: &[u8], is: Option<Cause>, should: Cause| {
        if is == Some(should) {
            Ok(())
        } else {
            Err(format!("header {} ({}) gives {:?} instead of {:?}", hex(b), what, is, should))
        }
    };
    let cut = r.below(32);
    expect("cut", &b[..cut], decode(&b[..cut])?, Cause::Io(ErrorKind::UnexpectedEof))?;
    let mut m = b.clone();
    m[r.below(4)] ^= 1 << r.below(8);
    expect("other magic", &m, decode(&m)?, Cause::WrongMagic)?;
    let mut m = b.clone();
    match r.below(12) {
        0 => m[8..12].copy_from_slice(&[0; 4]),
        1 => m[12..16].copy_from_slice(&[0; 4]),
        2 => m[8 + 4 * r.below(2) + 3] |= 0x40,
        3 => m[20] |= 31, // block size 2^33
        4 => m[22] |= 0x80,
        5 => m[23] = r.range(8, 255) as u8,
        6 => m[24] = *r.pick(&[1u8, 2, 6, 9, 13, 255]),
        7 => m[25] = r.range(3, 255) as u8,
        8 => m[31] |= 0x40 << r.below(2),
        9 => m[16 + 2 * r.below(2)..][..2].copy_from_slice(&[255; 2]),
        10 => {
            // more samples than can be counted
            m[8..16].copy_from_slice(&[255, 255, 255, 63, 255, 255, 255, 63]);
            m[16..20].copy_from_slice(&[100, 1, 100, 1]);
        }
        _ => m[27] = r.range(2, 255) as u8,
    }
    expect("wrong value", &m, decode(&m)?, Cause::WrongValue)?;
    // the builder
    let mut q = p;
    match r.below(8) {
        0 => q.w = 0,
        1 => q.h = 0,
        2 => q.w = 1 << 30,
        3 => q.quality = *r.pick(&[0, 1025, 65535]),
        4 => q.block_size = *r.pick(&[0, 1, 31, 255]),
        5 => q.layers = 0,
        6 => q.channels = 0,
        _ => q.chroma_scale = 0,
    }
    match s::guard(|| s::try_header(&q))? {
        Ok(_) => return Err(format!("the builder accepts {:?}", q)),
        Err(e) => {
            let c = header_cause(&e)?;
            if c != Cause::WrongValue {
                return Err(format!("the builder gives {:?} for {:?}", c, q));
            }
        }
    }
    cx.count("header_errors", 4);
    cx.eval(Some(hash_bytes(28, &m)));
    Ok(())
}

pub fn c28(cx: &mut Cx, r: &mut Rng) -> R {
    for _ in 0..20 {
        headers(cx, r)?;
    }
    let max = *r.pick(&[30, 300, 2000]);
    let p = gen::params(r, max);
    let prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    cx.detail = format!("{:?} program {:?}", p, prog);
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let stream = model::compress(&p, &prog, &img, Div::Trunc);
    let plen = model::program_bytes(&prog).len();
    let chroma = model::chroma_flags(&prog, p.planes());

    // a buffer that is too small
    let mut aux = model::transform(&p, &prog, &img, Div::Trunc);
    for _ in 0..6 {
        let n = r.below(stream.len());
        let mut buf = vec![0u8; n];
        let v = s::guard(|| gfwx::compress_simple(&img, &h, &pr, &mut buf))?;
        let mut buf = vec![0u8; n.min(stream.len() - 32 - plen - 1)];
        let mut a = aux.clone();
        let w = s::guard(|| gfwx::compress_aux_data(&mut a, &h, &chroma, &mut buf))?;
        for (name, v) in [("compress_simple", v), ("compress_aux_data", w)] {
            match v {
                Ok(k) => return Err(format!("{} puts {} bytes into a buffer of {}", name, k, n)),
                Err(e) => {
                    let c = compress_cause(&e)?;
                    if c != Cause::Overflow && c != Cause::Io(ErrorKind::WriteZero) {
                        return Err(format!("{} gives {:?} for a buffer of {} of {} bytes", name, c, n, stream.len()));
                    }
                    cx.count(if c == Cause::Overflow { "errors.overflow" } else { "errors.write_zero" }, 1);
                }
            }
        }
        cx.eval(Some(mix(hash_bytes(n as u64, &stream))));
    }

    // a colour program that ends too early, or that is malformed
    let d = r.below(3);
    let (dw, dh) = p.down(d as u32);
    let decode = |body: &[u8], test: bool| -> Result<Option<Cause>, String> {
        let mut out = vec![0u8; dw * dh * p.planes()];
        match s::guard(|| gfwx::decompress_simple(body, &h, d, test, &mut out))? {
            Ok(_) => Ok(None),
            Err(e) => decompress_cause(&e).map(Some),
        }
    };
    let cut = r.below(plen);
    let c = decode(&stream[32..32 + cut], r.pct(30))?;
    if c != Some(Cause::Io(ErrorKind::UnexpectedEof)) {
        return Err(format!("{} of {} bytes of the colour program give {:?}", cut, plen, c));
    }
    cx.count("errors.unexpected_eof", 1);
    let mut bad = prog.clone();
    if bad.is_empty() {
        bad.push(gen::term(0, &[], 1, false));
    }
    let i = r.below(bad.len());
    match r.below(3) {
        0 => bad[i].dest = p.planes() + r.below(5),
        1 => bad[i].den = *r.pick(&[0, -1, -32768, 32768, 65536, 65537]),
        _ => bad[i].factors.push((p.planes() + r.below(5), 1)),
    }
    let mut body = model::program_bytes(&bad);
    body.extend_from_slice(&stream[32 + plen..]);
    let c = decode(&body, r.pct(30))?;
    if c != Some(Cause::Malformed) {
        return Err(format!("program {:?} gives {:?} for {} channels", bad, c, p.planes()));
    }
    cx.count("errors.malformed", 1);
    cx.eval(Some(hash_bytes(3, &body)));

    // blocks whose codes do not end inside of them
    for _ in 0..4 {
        let mut body = stream[32..].to_vec();
        let from = plen + r.below(body.len() - plen);
        match r.below(3) {
            0 => body[from..].iter_mut().for_each(|b| *b = 0),
            1 => body[from..].iter_mut().for_each(|b| *b = 0xff),
            _ => body[from..].iter_mut().for_each(|b| *b = r.u32() as u8),
        }
        match decode(&body, false)? {
            None => cx.count("damaged_but_accepted", 1),
            Some(Cause::Underflow) => cx.count("errors.underflow", 1),
            c => return Err(format!("damaged blocks give {:?}", c)),
        }
        let mut a = vec![0i16; dw * dh * p.planes()];
        match s::guard(|| gfwx::decompress_aux_data(&body[plen..], &h, &chroma, d, r.pct(20), &mut a))? {
            Ok(_) => {}
            Err(e) => {
                let c = decompress_cause(&e)?;
                if c != Cause::Underflow {
                    return Err(format!("damaged blocks give {:?} from decompress_aux_data", c));
                }
            }
        }
        cx.eval(Some(hash_bytes(4, &body)));
    }
    aux.clear();
    cx.sample(|| format!("{} by {} planes {}: errors for buffers, programs and blocks", p.w, p.h, p.planes()));
    Ok(())
}
