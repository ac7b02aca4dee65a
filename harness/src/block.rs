//! C21: entropy coding of single blocks.
use crate::cx::{first_diff, Cx, R};
use crate::gen;
use crate::model::{self, Block, Br};
use crate::rng::{hash_bytes, hash_i16, Rng};
use crate::subject as s;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::encode::{decode, encode};
use gfwx::processing::image::Image;

pub fn c21(cx: &mut Cx, r: &mut Rng) -> R {
    let max = if cx.small { 30 } else { *r.pick(&[20, 200, 1000, 4000, 20_000]) };
    // runs of zeros that do not fit in 16 bits
    let huge = !cx.small && r.below(250) == 0;
    let (w, h) = if huge { (r.usize(260, 420), r.usize(340, 420)) } else { gen::dims(r, max) };
    let channels = if huge { 1 } else { r.usize(1, 3) };
    let top = if r.pct(70) { 3 } else { 11 };
    let step = if huge { 1 } else { 1usize << r.below(top) };
    let bs = match r.below(4) {
        0 => step << 2,
        1 => step << r.usize(2, 5),
        2 => step << r.usize(2, 12),
        _ => step << 3,
    };
    let bs = if huge { 512 } else { bs };
    let size = w * h;
    let (nx, ny) = ((w + bs - 1) / bs, (h + bs - 1) / bs);
    let index = r.below(nx * ny * channels);
    let (bx, by, c) = (index % nx, index / nx % ny, index / nx / ny);
    let b = Block { x0: bx * bs, y0: by * bs, x1: (bx * bs + bs).min(w), y1: (by * bs + bs).min(h), step };
    let scheme = r.below(3) as u8;
    let q = match r.below(5) {
        0 => 1024,
        1 => 0,
        2 => (2048 / step as i32 + r.range(-2, 2) as i32).max(1),
        _ => r.range(1, 1024) as i32,
    };
    let (dc, chroma) = (r.pct(40), r.pct(40));
    let mut img: Vec<i16> = gen::coefs(r, size * channels);
    if r.pct(20) {
        for x in img.iter_mut() {
            if r.pct(30) {
                *x = *r.pick(&[-32768, 32767, -32767, 4096, 4097]);
            }
        }
    }
    if huge {
        let every = *r.pick(&[2, 20_000, 70_000, 90_000, 1_000_000]);
        for x in img.iter_mut() {
            if every == 2 || r.below(every) != 0 {
                *x = 0;
            }
        }
    }
    let what = format!("{}x{}x{} block {:?} scheme {} q {} dc {} chroma {}", w, h, channels, b, scheme, q, dc, chroma);
    cx.detail = format!("{} {:?}", what, &img[..img.len().min(5000)]);
    let run_encode = |img: &[i16], room: Option<usize>| -> Result<Result<Vec<u8>, String>, String> {
        let mut img = img.to_vec();
        let copy = img.clone();
        let r = s::guard(|| {
            let chunk = Image::from_slice(&mut img, (w, h), channels).into_chunks_mut(bs, step).nth(index).unwrap();
            match room {
                None => {
                    let mut out = vec![];
                    let mut wr = BitsIOWriter::new(&mut out);
                    encode(&chunk, &mut wr, s::encoder(scheme), q, dc, chroma).and_then(|_| wr.flush_write_word()).map_err(|e| e.to_string())?;
                    Ok(out)
                }
                Some(n) => {
                    let mut out = vec![0u8; n];
                    let mut o = &mut out[..];
                    let mut wr = BitsIOWriter::new(&mut o);
                    encode(&chunk, &mut wr, s::encoder(scheme), q, dc, chroma).and_then(|_| wr.flush_write_word()).map_err(|e| e.to_string())?;
                    Ok(out)
                }
            }
        })?;
        if img != copy {
            return Err("encode modified the image".into());
        }
        Ok(r)
    };
    let words = run_encode(&img, None)?.map_err(|e| format!("encode fails: {} ({})", e, what))?;
    // which positions matter
    let plane = c * size;
    let mut owned = vec![false; img.len()];
    let mut n_owned = 0usize;
    for (x, y) in b.owned() {
        owned[plane + (b.y0 + y) * w + b.x0 + x] = true;
        n_owned += 1;
    }
    let origin = plane + b.y0 * w + b.x0;
    if dc {
        owned[origin] = true;
    }
    // decode into an image with other content outside the block, at finer levels, and at the block's own positions
    let mut other: Vec<i16> = gen::coefs(r, img.len());
    for y in (b.y0..b.y1).step_by(step) {
        for x in (b.x0..b.x1).step_by(step) {
            let i = plane + y * w + x;
            // coarser coefficients of the block are the context
            if !owned[i] {
                other[i] = img[i];
            }
        }
    }
    if dc && r.pct(50) {
        other[origin] = 0;
    }
    // the encoder does not look there either
    let mut mixed = other.clone();
    for i in 0..img.len() {
        if owned[i] {
            mixed[i] = img[i];
        }
    }
    let again = run_encode(&mixed, None)?.map_err(|e| format!("encode fails: {} ({})", e, what))?;
    if again != words {
        return Err(format!("the code of a block depends on coefficients that are not its own: {}", what));
    }
    let mut target = other.clone();
    let tail = r.below(3) * 4;
    let mut data = words.clone();
    data.extend((0..tail).map(|_| r.u32() as u8));
    let mut rest = &data[..];
    s::guard(|| {
        let chunk = Image::from_slice(&mut target, (w, h), channels).into_chunks_mut(bs, step).nth(index).unwrap();
        let mut rd = BitsIOReader::new(&mut rest);
        decode(chunk, &mut rd, s::encoder(scheme), q, dc, chroma)
    })?
    .map_err(|e| format!("decode fails: {} ({})", e, what))?;
    for i in 0..img.len() {
        let want = if owned[i] { img[i] } else { other[i] };
        if target[i] != want {
            return Err(format!(
                "{} coefficient ({}, {}) of channel {} is {} instead of {}: {}",
                if owned[i] { "decoded" } else { "foreign" },
                i % size % w,
                i % size / w,
                i / size,
                target[i],
                want,
                what
            ));
        }
    }
    if data.len() - rest.len() != words.len() {
        return Err(format!("decode consumed {} bytes of {}: {}", data.len() - rest.len(), words.len(), what));
    }
    // a shorter input is an error and a shorter output, too
    if !words.is_empty() {
        let cut = r.below(words.len() / 4) * 4;
        let mut rest = &words[..cut];
        let mut t = other.clone();
        let ok = s::guard(|| {
            let chunk = Image::from_slice(&mut t, (w, h), channels).into_chunks_mut(bs, step).nth(index).unwrap();
            let mut rd = BitsIOReader::new(&mut rest);
            decode(chunk, &mut rd, s::encoder(scheme), q, dc, chroma).is_ok()
        })?;
        if ok {
            return Err(format!("{} of {} bytes decode without an error: {}", cut, words.len(), what));
        }
        if run_encode(&img, Some(cut))?.is_ok() {
            return Err(format!("{} bytes are encoded to {}: {}", words.len(), cut, what));
        }
    }
    // the format itself
    let m = model::encode_block(&img[plane..plane + size], w, &b, scheme, q, dc, chroma).bytes();
    if m != words {
        return Err(format!("the code of the block is not the format's: {} ({})", first_diff(&words, &m), what));
    }
    let mut mp = other[plane..plane + size].to_vec();
    let mw = model::bytes_to_words(&words);
    let mut br = Br::new(&mw);
    if model::decode_block(&mut mp, w, &b, scheme, q, step, dc, chroma, &mut br).is_none() || mp[..] != target[plane..plane + size] {
        cx.inconclusive.push(format!("model decoder disagrees: {}", what));
    }
    cx.count(["scheme.turbo", "scheme.fast", "scheme.contextual"][scheme as usize], 1);
    cx.count("coefficients_coded", n_owned as u64);
    cx.max("max.step", step as u64);
    cx.eval(if n_owned > 1 { Some(hash_i16(hash_bytes(21, what.as_bytes()), &img[..img.len().min(3000)])) } else { None });
    cx.sample(|| format!("{}: {} coefficients in {} bytes", what, n_owned, words.len()));
    Ok(())
}
