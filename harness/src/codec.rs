//! Checks of whole compress and decompress calls: C01 to C09, C17 to C19.
use crate::cx::{first_diff, hex, Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Div, Prog, P};
use crate::refcpp;
use crate::rng::{hash_bytes, hash_i16, mix, Rng};
use crate::subject as s;

pub fn budget(cx: &mut Cx, r: &mut Rng) -> usize {
    if cx.small {
        return *r.pick(&[20, 60, 150, 300]);
    }
    if cx.colossal {
        cx.colossal = false;
        cx.count("budget.colossal", 1);
        return gen::COLOSSAL;
    }
    if r.below(1000) < 6 {
        cx.count("budget.huge", 1);
        return gen::HUGE;
    }
    let big = if cx.thorough { 6 } else { 3 };
    match r.below(100) {
        x if x < big => 400_000,
        x if x < 30 => 40_000,
        x if x < 60 => 8_000,
        _ => 1_500,
    }
}

/// a budget of at most `most`, now and then that of an image beyond 16-bit sizes
fn budget_to(cx: &mut Cx, r: &mut Rng, most: usize, huge: usize) -> usize {
    let max = budget(cx, r);
    if max >= gen::COLOSSAL || max >= gen::HUGE && r.pct(huge) {
        return max;
    }
    max.min(most)
}

pub fn key(p: &P, prog: &Prog, img: &[u8]) -> u64 {
    hash_bytes(mix(hash_bytes(1, format!("{:?}{:?}", p, prog).as_bytes())), img)
}
pub fn describe(p: &P, prog: &Prog, img: &[u8]) -> String {
    format!("{:?} program {:?} image {}", p, prog, hex(img))
}
fn nontrivial(img: &[u8]) -> bool {
    img.len() > 1 && img.iter().any(|&x| x != img[0])
}
pub fn short(p: &P) -> String {
    format!(
        "{}x{} layers {} channels {} quality {} chroma_scale {} block {} filter {} encoder {}",
        p.w, p.h, p.layers, p.channels, p.quality, p.chroma_scale, p.block_size, p.filter, p.encoder
    )
}

/// lossless parameters for a program
fn make_lossless(p: &mut P, prog: &Prog) {
    p.quality = 1024;
    if prog.iter().any(|t| t.chroma) {
        p.chroma_scale = 1;
    }
}

pub fn c01(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget(cx, r);
    let mut p = gen::params(r, max);
    let ext = r.pct(30);
    let prog = gen::program(r, p.planes(), Dens::Any, ext);
    make_lossless(&mut p, &prog);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let stream = s::compress(&p, &prog, &img)?;
    let (v, out) = s::decompress(&stream, 0)?;
    cx.count("bytes_compressed", stream.len() as u64);
    cx.count("pixels_compared", out.len() as u64);
    if v != Ok(0) {
        return Err(format!("decompress_simple returned {:?} for a complete stream", v));
    }
    if out != img {
        return Err(format!("decoded image differs from the original, {}", first_diff(&out, &img)));
    }
    cx.eval(if nontrivial(&img) { Some(key(&p, &prog, &img)) } else { None });
    cx.sample(|| format!("{} program {:?}: {} pixels in {} bytes, restored", short(&p), prog, img.len(), stream.len()));
    Ok(())
}

/// the C++ writer only supports codes of up to 32 bits
fn cpp_can_encode(prog: &Prog) -> bool {
    prog.iter().all(|t| t.factors.iter().all(|f| f.1.abs() < 1 << 20))
}

#[cfg(feature = "cpp")]
pub fn c02(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget(cx, r);
    let p = gen::params(r, max);
    let ext = r.pct(15);
    let dens = if r.pct(85) { Dens::NoShift } else { Dens::Any };
    let mut prog = gen::program(r, p.planes(), dens, ext);
    if r.pct(8) {
        gen::make_wild(r, &mut prog);
    }
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let got = s::compress(&p, &prog, &img)?;
    cx.count("bytes_compared", got.len() as u64);
    let want_model = model::compress(&p, &prog, &img, Div::Reference);
    let want = if cpp_can_encode(&prog) && refcpp::with_metadata(&p) {
        cx.count("oracle.reference_encoder", 1);
        let mut c = refcpp::compress(&p, &prog, &img, s::stream_room(&p, &prog) * 2 + 1024);
        if let Some(c) = &mut c {
            c.drain(32..32 + p.metadata as usize / 4 * 4);
        }
        match c {
            Some(c) if c == want_model => c,
            Some(c) => {
                cx.inconclusive.push(format!("model and reference encoder disagree: {} ({})", first_diff(&want_model, &c), short(&p)));
                c
            }
            None => {
                cx.inconclusive.push("reference encoder overflow".into());
                want_model
            }
        }
    } else {
        cx.count("oracle.model_only", 1);
        want_model
    };
    if got != want {
        if model::has_shift_denominator(&prog) && got == model::compress(&p, &prog, &img, Div::Trunc) {
            cx.known("shift-denominators", || {
                format!("divisions by 2, 4 and 8 round toward zero, the reference rounds down ({} program {:?})", short(&p), prog)
            });
        } else {
            return Err(format!("bytes differ from the reference encoder's: {}", first_diff(&got, &want)));
        }
    }
    cx.eval(if nontrivial(&img) { Some(key(&p, &prog, &img)) } else { None });
    cx.sample(|| format!("{} program {:?}: {} bytes equal", short(&p), prog, got.len()));
    Ok(())
}

#[cfg(feature = "cpp")]
pub fn c03(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget(cx, r);
    let mut p = gen::params(r, max);
    let dens = if r.pct(85) { Dens::NoShift } else { Dens::Any };
    let ext = r.pct(10);
    let mut prog = gen::program(r, p.planes(), dens, ext);
    if r.pct(8) {
        gen::make_wild(r, &mut prog);
    }
    for t in prog.iter_mut() {
        for f in t.factors.iter_mut() {
            f.1 = f.1.clamp(-100_000, 100_000);
        }
    }
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    if !refcpp::with_metadata(&p) {
        p.metadata = 4 * r.usize(1, 300) as u32;
    }
    let stream = match refcpp::compress(&p, &prog, &img, s::stream_room(&p, &prog) * 2 + 1024) {
        Some(v) => v,
        None => {
            cx.inconclusive.push("reference encoder overflow".into());
            return Ok(());
        }
    };
    let (rv, want) = refcpp::decompress(&stream, 0, img.len());
    if rv != 0 {
        cx.inconclusive.push(format!("reference decoder returns {} for its own stream ({})", rv, short(&p)));
        return Ok(());
    }
    // the caller skips the metadata
    let mut stream = stream;
    let skip = match s::guard(|| gfwx::Header::decode(&mut &stream[..]))? {
        Ok(h) => h.metadata_size as usize,
        Err(e) => return Err(format!("Header::decode rejects a reference stream: {}", e)),
    };
    if skip != p.metadata as usize / 4 * 4 {
        return Err(format!("the header announces {} bytes of metadata instead of {}", skip, p.metadata / 4 * 4));
    }
    if skip > 0 {
        stream.drain(32..32 + skip);
        cx.count("streams_with_metadata", 1);
    }
    let (v, out) = s::decompress(&stream, 0)?;
    cx.count("pixels_compared", out.len() as u64);
    if v != Ok(0) {
        return Err(format!("decompress_simple returned {:?} for a complete reference stream", v));
    }
    if out != want {
        let trunc = model::decompress(&p, &prog, &stream[32..], 0, Div::Trunc);
        if model::has_shift_denominator(&prog) && trunc.map(|t| t.1).as_ref() == Some(&out) {
            cx.known("shift-denominators", || {
                format!("divisions by 2, 4 and 8 round toward zero, the reference rounds down ({} program {:?})", short(&p), prog)
            });
        } else {
            return Err(format!("pixels differ from the reference decoder's: {}", first_diff(&out, &want)));
        }
    }
    cx.eval(if nontrivial(&img) { Some(key(&p, &prog, &img)) } else { None });
    cx.sample(|| format!("{} program {:?}: {} bytes of reference stream, {} pixels equal", short(&p), prog, stream.len(), out.len()));
    Ok(())
}

fn chroma(r: &mut Rng, n: usize) -> Vec<bool> {
    let k = *r.pick(&[0usize, 30, 50, 100]);
    (0..n).map(|_| r.pct(k)).collect()
}

pub fn c04(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget_to(cx, r, 100_000, 50);
    let mut p = gen::params(r, max);
    if r.pct(70) && p.quality == 1024 {
        p.quality = r.range(1, 1023) as i32;
    }
    let ch = chroma(r, p.planes());
    let limit = *r.pick(&[255, 2040, 2040, 16000, 32767]);
    let aux = gen::aux(r, &p, limit);
    cx.detail = format!("{:?} chroma {:?} aux {:?}", p, ch, &aux[..aux.len().min(2000)]);
    cx.note_params(&p);
    let data = s::compress_aux(&p, &ch, &aux)?;
    let (v, out) = s::decompress_aux(&p, &ch, &data, 0)?;
    if v != Ok(0) {
        return Err(format!("decompress_aux_data returned {:?} for complete data", v));
    }
    let size = p.w * p.h;
    let max_q = 1024 * i64::from(p.boost());
    for c in 0..p.planes() {
        // the coefficients of what came back are the dequantized ones, because lifting is a bijection
        let mut a = aux[c * size..(c + 1) * size].to_vec();
        let mut b = out[c * size..(c + 1) * size].to_vec();
        model::lift(&mut a, p.w, p.h, p.filter);
        model::lift(&mut b, p.w, p.h, p.filter);
        let sched = model::schedule(p.w, p.h, i64::from(p.q(ch[c])), 0, max_q);
        for i in 0..size {
            let (x, y) = (i % p.w, i / p.w);
            let e = (i64::from(a[i]) - i64::from(b[i])).abs();
            let ok = match model::q_at(&sched, x, y) {
                None => e == 0,
                // the reconstruction point of extreme coefficients may not fit 16 bits
                Some(q) => e * q < max_q || i64::from(a[i]).abs() > 32766 - max_q / (2 * q),
            };
            if !ok {
                return Err(format!("coefficient ({}, {}) of plane {} is {} instead of {}, more than a quantizer step", x, y, c, b[i], a[i]));
            }
        }
        cx.count("coefficients_bounded", size as u64);
        let mut want = aux[c * size..(c + 1) * size].to_vec();
        model::lift(&mut want, p.w, p.h, p.filter);
        model::quantize(&mut want, p.w, p.h, i64::from(p.q(ch[c])), 0, max_q);
        model::dequantize(&mut want, p.w, p.h, i64::from(p.q(ch[c])), 0, max_q);
        model::unlift(&mut want, p.w, p.h, p.filter);
        if out[c * size..(c + 1) * size] != want[..] {
            return Err(format!("plane {} is not the inverse transform of its dequantized coefficients: {}", c, first_diff(&out[c * size..(c + 1) * size], &want)));
        }
    }
    // other content in one plane leaves the others alone
    if p.planes() > 1 && r.pct(40) {
        let c = r.below(p.planes());
        let mut aux2 = aux.clone();
        for x in &mut aux2[c * size..(c + 1) * size] {
            *x = r.range(-2000, 2000) as i16;
        }
        let data2 = s::compress_aux(&p, &ch, &aux2)?;
        let (v2, out2) = s::decompress_aux(&p, &ch, &data2, 0)?;
        if v2 != Ok(0) {
            return Err(format!("decompress_aux_data returned {:?} for complete data", v2));
        }
        for k in 0..p.planes() {
            if k != c && out[k * size..(k + 1) * size] != out2[k * size..(k + 1) * size] {
                return Err(format!("plane {} changes with the content of plane {}", k, c));
            }
        }
        cx.count("plane_independence_checks", 1);
    }
    cx.eval(if aux.iter().any(|&x| x != aux[0]) { Some(hash_i16(hash_bytes(4, format!("{:?}{:?}", p, ch).as_bytes()), &aux)) } else { None });
    cx.sample(|| format!("{} chroma {:?}: {} bytes, all coefficients within their step", short(&p), &ch[..ch.len().min(8)], data.len()));
    Ok(())
}

fn pick_d(r: &mut Rng, p: &P) -> u32 {
    let levels = p.first_step().trailing_zeros();
    if levels >= 20 && r.pct(50) {
        return levels + 1 - r.below(3) as u32;
    }
    match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, i64::from(levels) + 1) as u32,
        7 => levels + 1,
        8 => levels.saturating_sub(1),
        _ if r.pct(50) => r.range(0, 70) as u32,
        _ => *r.pick(&[29, 30, 31, 32, 33, 62, 63, 64, 65, 66, 67, 96, 127, 128, 130, 192, 255, 256, 1 << 20, u32::MAX]),
    }
}

pub fn c05(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget(cx, r);
    let mut p = gen::params(r, max);
    if r.pct(40) {
        p.encoder = 0;
        if r.pct(50) {
            // around the change of Turbo's run coder
            let step = 1i32 << r.below(p.first_step().trailing_zeros() as usize + 1);
            p.quality = (2048 / step + r.range(-2, 2) as i32).clamp(1, 1024);
        }
    }
    let prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let stream = s::compress(&p, &prog, &img)?;
    let aux0 = model::transform(&p, &prog, &img, Div::Trunc);
    let unquantized = prog.iter().all(|t| !t.chroma || p.chroma_quality() == 1024) && p.quality == 1024;
    for _ in 0..3 {
        let d = pick_d(r, &p);
        let (dw, dh) = p.down(d);
        cx.count(&format!("downsampling.{}", d.min(12)), 1);
        let (v, out) = s::decompress(&stream, d as usize)?;
        if v != Ok(0) {
            return Err(format!("downsampling {} of a complete stream returned {:?}", d, v));
        }
        if out.len() != dw * dh * p.planes() {
            return Err(format!("downsampling {} needs a buffer of {} instead of {}", d, out.len(), dw * dh * p.planes()));
        }
        if unquantized {
            // low-pass band of the original, without any decoder
            let f = 1usize << model::cap(d);
            let size = p.w * p.h;
            let mut low = vec![0i16; dw * dh * p.planes()];
            for c in 0..p.planes() {
                let mut a = aux0[c * size..(c + 1) * size].to_vec();
                model::lift_levels(&mut a, p.w, p.h, p.filter, f);
                for y in 0..dh {
                    for x in 0..dw {
                        low[c * dw * dh + y * dw + x] = a[(y * f) * p.w + x * f];
                    }
                }
            }
            let want = model::detransform(&p, &prog, &mut low, dw * dh, Div::Trunc);
            if out != want {
                return Err(format!("downsampling {}: not the low-pass band, {}", d, first_diff(&out, &want)));
            }
            cx.count("oracle.low_pass_of_original", 1);
        }
        match model::decompress(&p, &prog, &stream[32..], d, Div::Trunc) {
            Some((true, want)) => {
                if out != want {
                    return Err(format!("downsampling {}: {}", d, first_diff(&out, &want)));
                }
                cx.count("oracle.model_decoder", 1);
            }
            _ => return Err(format!("the stream does not hold what downsampling {} needs", d)),
        }
        #[cfg(feature = "cpp")]
        if p.metadata < 4 && p.encoder != 0 && d < 16 && (p.first_step() >> d) >= 1 && !model::has_shift_denominator(&prog) {
            let (rv, want) = refcpp::decompress(&stream, d, out.len());
            if rv == 0 {
                if out != want {
                    return Err(format!("downsampling {} differs from the reference decoder: {}", d, first_diff(&out, &want)));
                }
                cx.count("oracle.reference_decoder", 1);
            }
        }
        cx.eval(if dw * dh > 1 && d > 0 && nontrivial(&img) { Some(mix(key(&p, &prog, &img) ^ u64::from(d))) } else { None });
        cx.sample(|| format!("{} downsampling {} to {}x{}: equal to the low-pass band", short(&p), d, dw, dh));
    }
    Ok(())
}

/// `n` bytes are asked for when there are `cut`; `layout` are the ends of the tables and blocks of the steps
fn point_of_interest(cx: &mut Cx, layout: &[(usize, usize)], cut: usize, n: usize) -> R {
    let k = layout.iter().take_while(|l| l.1 <= cut).count();
    let (table, blocks) = layout[k];
    let what = |e: String| Err(format!("prefix of {} bytes asks for {} bytes, but {} (steps {:?})", cut, n, e, layout));
    if cut >= table {
        // the sizes of all blocks of this step are known
        if n < blocks {
            return what(format!("the blocks of its step end at {}", blocks));
        }
        let start = if k == 0 { 0 } else { layout[k - 1].1 };
        let last = k + 1 == layout.len();
        // a step has at most 4 times the blocks of the step before
        let most = blocks + if last { 0 } else { 4 * (table - start) };
        if n > most {
            return what(format!("its step and the following table end at {}", most));
        }
        cx.count(if last { "points_of_interest.last_step" } else { "points_of_interest.other_steps" }, 1);
    } else if k > 0 {
        // the table itself is incomplete, the estimate covers it
        let start = layout[k - 1].1;
        let before = layout[k - 1].0 - if k > 1 { layout[k - 2].1 } else { 0 };
        if n < table || n > start + 4 * before {
            return what(format!("the table of its step ends at {}", table));
        }
        cx.count("points_of_interest.incomplete_table", 1);
    }
    Ok(())
}

pub fn c06(cx: &mut Cx, r: &mut Rng) -> R {
    let max = *r.pick(&[100, 300, 1000, 3000, if cx.thorough { 40_000 } else { 10_000 }]);
    let mut p = gen::params(r, max);
    if p.block_size > 3 && r.pct(60) {
        p.block_size = 2;
    }
    let mut prog = if r.pct(75) {
        gen::program(r, p.planes(), Dens::Any, false)
    } else {
        gen::random_program(r, p.planes(), Dens::Any, true)
    };
    let mut img = gen::image(r, &p);
    if p.planes() > 1 && r.pct(8) {
        // the longest codes there are
        prog = (1..p.planes().min(30)).map(|c| gen::term(c, &[(c - 1, *r.pick(&[32767, 20001, 8191]))], 1, r.pct(20))).collect();
        p.quality = *r.pick(&[1024, 1024, 512]);
        p.encoder = *r.pick(&[0, 0, 1, 2]);
        let most = r.below(2) == 0;
        for x in img.iter_mut() {
            *x = if most { *r.pick(&[0, 255]) } else { r.u32() as u8 };
        }
        cx.count("long_codes", 1);
    }
    let img = img;
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let stream = s::compress(&p, &prog, &img)?;
    let body = &stream[32..];
    let skip = model::program_bytes(&prog).len();
    let chroma = model::chroma_flags(&prog, p.planes());
    let h = s::header(&p)?;
    let levels = p.first_step().trailing_zeros() as usize + 1;
    for round in 0..2 {
        let d = if round == 0 && r.pct(60) { 0 } else { pick_d(r, &p) };
        let layout = match model::layout(&p, d, &body[skip..]) {
            Some(l) => l,
            None => return Err("block tables of the compressed stream do not add up".into()),
        };
        let needed = skip + layout.last().unwrap().1;
        let mut cuts: Vec<usize> = vec![];
        let exhaustive = body.len() - skip <= 400 && body.len() * img.len() < 200_000;
        if exhaustive {
            cuts.extend(skip..=body.len());
            cx.count("streams_cut_at_every_byte", 1);
        } else {
            for &(a, b) in &layout {
                for k in [a, b] {
                    for o in -5i64..=5 {
                        cuts.push((skip as i64 + k as i64 + o).clamp(skip as i64, body.len() as i64) as usize);
                    }
                }
            }
            for _ in 0..20 {
                cuts.push(r.usize(skip, body.len()));
            }
            for i in (1..cuts.len()).rev() {
                cuts.swap(i, r.below(i + 1));
            }
            cuts.truncate(if img.len() > 5000 { 12 } else { 60 });
        }
        let (dw, dh) = p.down(d);
        let n_out = dw * dh * p.planes();
        for cut in cuts {
            let prefix = &body[..cut];
            let mut out = vec![s::FILL; n_out];
            let v = s::decompress_body(&h, prefix, d as usize, false, &mut out)?;
            let n = match v {
                Ok(n) => n,
                Err(e) => return Err(format!("prefix of {} of {} bytes (downsampling {}) is an error: {}", cut, body.len(), d, e)),
            };
            if (n == 0) != (cut >= needed) {
                return Err(format!("prefix of {} bytes, {} needed for downsampling {}, returned {}", cut, needed, d, n));
            }
            if n != 0 && n <= cut {
                return Err(format!("prefix of {} bytes asks for only {} bytes", cut, n));
            }
            if n != 0 {
                point_of_interest(cx, &layout, cut - skip, n - skip)?;
            }
            let mut dec = match model::decode_payload(&p, &chroma, &prefix[skip..], d) {
                Some(x) => x,
                None => return Err("a complete block of the stream does not decode".into()),
            };
            let want = model::detransform(&p, &prog, &mut dec.aux, dw * dh, Div::Trunc);
            if out != want {
                return Err(format!("prefix of {} bytes (downsampling {}): image is not that of its complete blocks, {}", cut, d, first_diff(&out, &want)));
            }
            cx.count("blocks_decoded_from_prefixes", dec.blocks_decoded as u64);
            cx.count("blocks_missing_in_prefixes", dec.blocks_missing as u64);
            let mut out = vec![s::FILL; n_out];
            let vt = s::decompress_body(&h, prefix, d as usize, true, &mut out)?;
            if vt != Ok(n) {
                return Err(format!("test mode returned {:?} instead of {} for a prefix of {} bytes", vt, n, cut));
            }
            if out.iter().any(|&x| x != s::FILL) {
                return Err("test mode modified the output buffer".into());
            }
            if r.pct(20) {
                let mut aux = vec![0x3c5ai16; n_out];
                let va = s::guard(|| gfwx::decompress_aux_data(&prefix[skip..], &h, &chroma, d as usize, true, &mut aux).map_err(|e| format!("{:?}", e)))?;
                if va != Ok(if n == 0 { 0 } else { n - skip }) {
                    return Err(format!("test mode of decompress_aux_data returned {:?} instead of {} less the program's {} for a prefix of {} bytes", va, n, skip, cut));
                }
                if aux.iter().any(|&x| x != 0x3c5a) {
                    return Err("test mode modified the auxiliary data".into());
                }
            }
            let partial = cut > skip && cut < needed;
            cx.count(if partial { "prefixes.partial" } else { "prefixes.complete_or_empty" }, 1);
            cx.eval(if partial { Some(mix(key(&p, &prog, &img) ^ ((cut as u64) << 8) ^ u64::from(d))) } else { None });
        }
        // fetch what is asked for until it is complete
        let mut have = skip + if r.pct(50) { 0 } else { r.usize(0, 40) };
        let mut rounds = 0;
        loop {
            rounds += 1;
            let got = have.min(body.len());
            let mut out = vec![s::FILL; n_out];
            let v = s::decompress_body(&h, &body[..got], d as usize, r.pct(50), &mut out)?;
            match v {
                Ok(0) => break,
                Ok(n) if n > have => {
                    if got == body.len() {
                        return Err(format!("the complete stream asks for {} bytes", n));
                    }
                    have = n;
                }
                v => return Err(format!("progressive reading with {} bytes returned {:?}", have, v)),
            }
            if rounds > 3 * levels + body.len() / 1024 + 8 {
                return Err(format!("progressive reading is not complete after {} rounds", rounds));
            }
        }
        cx.count("progressive_reads", 1);
        cx.max("max.progressive_rounds", rounds as u64);
        cx.sample(|| format!("{} downsampling {}: stream of {} bytes, {} needed, {} progressive rounds", short(&p), d, body.len(), needed, rounds));
    }
    Ok(())
}

fn mutate(r: &mut Rng, v: &mut Vec<u8>, lo: usize) {
    if v.len() <= lo {
        return;
    }
    let n = v.len();
    match r.below(12) {
        0 | 1 => {
            for _ in 0..r.usize(1, 4) {
                let i = r.usize(lo, n - 1);
                v[i] ^= 1 << r.below(8);
            }
        }
        2 => {
            for _ in 0..r.usize(1, 8) {
                let i = r.usize(lo, n - 1);
                v[i] = r.u32() as u8;
            }
        }
        3 => v.truncate(r.usize(lo, n)),
        4 => {
            let i = r.usize(lo, n - 1);
            let e = (i + r.usize(1, 64)).min(n);
            let b = *r.pick(&[0u8, 0, 0xff, 0x80, 1]);
            for x in &mut v[i..e] {
                *x = b;
            }
        }
        5 => {
            let i = r.usize(lo, n - 1);
            for x in &mut v[i..] {
                *x = r.u32() as u8;
            }
        }
        6 => {
            // move a part
            let i = r.usize(lo, n - 1);
            let e = (i + r.usize(1, 200)).min(n);
            let part = v[i..e].to_vec();
            let j = r.usize(lo, n - part.len());
            v[j..j + part.len()].copy_from_slice(&part);
        }
        7 => {
            let i = r.usize(lo, n);
            let k = r.usize(1, 16);
            let ins: Vec<u8> = (0..k).map(|_| r.u32() as u8).collect();
            v.splice(i..i, ins);
        }
        8 => {
            let i = r.usize(lo, n - 1);
            let e = (i + r.usize(1, 16)).min(n);
            v.drain(i..e);
        }
        _ => {
            // a word, as lengths are
            let i = lo + r.below((n - lo + 3) / 4) * 4;
            if i + 4 <= n {
                let old = u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
                let new = match r.below(8) {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 0x3fff_ffff,
                    3 => 0x4000_0000,
                    4 => old.wrapping_add(1),
                    5 => old.wrapping_sub(1),
                    6 => old ^ (1 << r.below(32)),
                    _ => r.u32() >> r.below(32),
                };
                v[i..i + 4].copy_from_slice(&new.to_le_bytes());
            }
        }
    }
}

/// a hostile stream, with the header in front
pub fn hostile(cx: &mut Cx, r: &mut Rng) -> Vec<u8> {
    let max = *r.pick(&[50, 400, 400, 3000, 20_000]);
    let mut p = gen::params(r, if cx.small { max.min(25) } else { max });
    let ext = r.pct(40);
    let prog = gen::program(r, p.planes(), Dens::Any, ext);
    if r.pct(15) && !cx.small {
        p.w = *r.pick(&[1, 2, 3, 5, 300]);
        p.h = *r.pick(&[1, 2, 3, 5, 300]);
    }
    // (the number of planes stays: the program refers to them)
    if p.samples() > 100_000 {
        p.w = p.w.min(100_000 / p.planes()).max(1);
        p.h = (100_000 / p.planes() / p.w).max(1);
    }
    let mut v;
    match r.below(10) {
        // from scratch
        0 => {
            cx.count("hostile.random_body", 1);
            v = model::header_bytes(&p);
            v.extend_from_slice(&model::program_bytes(&prog));
            let n = r.usize(0, if cx.small { 60 } else { 3000 });
            let dense = r.below(4);
            for _ in 0..n {
                v.push(match dense {
                    0 => r.u32() as u8,
                    1 => 0,
                    2 => 0xff,
                    _ => (r.u32() & r.u32() & r.u32()) as u8,
                });
            }
        }
        // right block tables, random blocks
        1 | 2 => {
            cx.count("hostile.random_blocks", 1);
            v = model::header_bytes(&p);
            v.extend_from_slice(&model::program_bytes(&prog));
            let kind = r.below(4);
            let mut step = p.first_step();
            while step >= 1 {
                let (_, bx, by) = p.blocks(step);
                let lens: Vec<u32> = (0..bx * by * p.planes()).map(|_| r.below(if kind == 0 { 3 } else { 40 }) as u32).collect();
                for l in &lens {
                    v.extend_from_slice(&l.to_le_bytes());
                }
                let n: usize = lens.iter().map(|&x| x as usize * 4).sum();
                for _ in 0..n {
                    v.push(match kind {
                        0 => r.u32() as u8,
                        1 => 0,
                        2 => (r.u32() & r.u32() & r.u32() & r.u32()) as u8,
                        _ => (r.u32() | r.u32()) as u8,
                    });
                }
                step /= 2;
            }
        }
        // coefficients of a bit stream that no image gives
        3 => {
            cx.count("hostile.extreme_coefficients", 1);
            v = model::header_bytes(&p);
            v.extend_from_slice(&model::program_bytes(&prog));
            let coef = gen::coefs(r, p.samples());
            let ch = model::chroma_flags(&prog, p.planes());
            v.extend_from_slice(&model::encode_payload(&p, &ch, &coef));
        }
        _ => {
            cx.count("hostile.mutated_stream", 1);
            let img = gen::image(r, &p);
            v = model::compress(&p, &prog, &img, Div::Trunc);
        }
    }
    // megabytes of zeros: codes without an end, in the program or in the first block
    if !cx.small && !r.fuzzing && r.below(1000) < 8 {
        cx.count("hostile.endless_codes", 1);
        let n = r.usize(1_000_000, 5_000_000);
        if r.pct(60) {
            p.w = p.w.min(8);
            p.h = p.h.min(8);
        }
        v = model::header_bytes(&p);
        if r.pct(70) {
            v.extend_from_slice(&model::program_bytes(&prog));
            let (_, bx, by) = p.blocks(p.first_step());
            for i in 0..bx * by * p.planes() {
                v.extend_from_slice(&(if i == 0 { n as u32 / 4 } else { 0 }).to_le_bytes());
            }
        }
        let at = v.len();
        v.resize(at + n, 0);
        if r.pct(50) {
            let k = r.usize(at, at + 40);
            v[k] = r.u32() as u8;
        }
        return v;
    }
    // huge dimensions only fit with downsampling
    if r.pct(4) {
        let big = |r: &mut Rng| ((1u32 << r.range(10, 30)) as i64 + r.range(-2, 1)) as u32;
        let (w, h) = (big(r), if r.pct(50) { big(r) } else { r.usize(1, 40) as u32 });
        v[8..12].copy_from_slice(&w.to_le_bytes());
        v[12..16].copy_from_slice(&h.to_le_bytes());
        cx.count("hostile.huge_dimensions", 1);
    }
    let header_too = r.pct(25);
    let n = if r.pct(15) { 0 } else { r.usize(1, 4) };
    for _ in 0..n {
        mutate(r, &mut v, if header_too { 4 } else { 32 });
    }
    if header_too {
        cx.count("hostile.header_mutated", 1);
    }
    v
}

pub fn c07(cx: &mut Cx, r: &mut Rng) -> R {
    let stream = hostile(cx, r);
    cx.detail = format!("stream {}", hex(&stream));
    let mut rest = &stream[..];
    let h = match s::guard(|| gfwx::Header::decode(&mut rest))? {
        Ok(h) => h,
        Err(_) => {
            cx.count("header_rejected", 1);
            cx.eval(Some(hash_bytes(7, &stream)));
            return Ok(());
        }
    };
    let body = &stream[32..];
    let planes = h.layers as usize * h.channels as usize;
    // the program alone
    if planes < 1 << 20 {
        let mut flags = vec![false; planes];
        let mut b = body;
        let ok = s::guard(|| gfwx::ColorTransformProgram::decode(&mut b, &mut flags).is_ok())?;
        cx.count(if ok { "program_ok" } else { "program_err" }, 1);
    }
    let mut done = 0;
    for k in 0..3 {
        let d = match k {
            0 => 0,
            1 => r.below(6),
            _ if r.pct(80) => r.below(32),
            _ => *r.pick(&[32usize, 33, 62, 63, 64, 65, 66, 127, 128, 255, usize::MAX]),
        };
        let f = d.min(40);
        let (w, h2) = ((u64::from(h.width) + (1 << f) - 1) >> f, (u64::from(h.height) + (1 << f) - 1) >> f);
        let n = u128::from(w) * u128::from(h2) * planes as u128;
        if n > if cx.small { 60 } else if r.fuzzing { 1 << 13 } else { 1 << 21 } {
            cx.count("image_too_large_for_the_check", 1);
            continue;
        }
        let n = n as usize;
        if s::guard(|| h.get_decompress_buffer_size(d))? != n {
            return Err(format!("get_decompress_buffer_size({}) is not {}", d, n));
        }
        let test = r.pct(20);
        const CANARY: usize = 64;
        let mut out = vec![s::FILL; n + CANARY];
        let before = crate::alloc::start();
        let v = s::decompress_body(&h, body, d, test, &mut out)?;
        let peak = crate::alloc::peak_since(before);
        cx.max("max.allocation", peak as u64);
        // room for what is kept for every block, row and column of the steps that are decoded
        let lines = {
            let bs = u128::from(1u64 << f.min(30)) << h.block_size.min(30);
            let blocks = (u128::from(h.width) + bs - 1) / bs * ((u128::from(h.height) + bs - 1) / bs);
            (planes as u128 * (u128::from(w) + u128::from(h2) + blocks)) as usize
        };
        let bound = 128 * n + 512 * lines + 256 * body.len() + (2 << 20);
        if crate::alloc::COUNTING && peak > bound {
            return Err(format!("decoding {} bytes to {} pixels (downsampling {}) allocated {} bytes", body.len(), n, d, peak));
        }
        if out[n..].iter().any(|&x| x != s::FILL) {
            return Err("wrote behind the image in the output buffer".into());
        }
        cx.count(match v {
            Ok(0) => "verdict.complete",
            Ok(_) => "verdict.truncated",
            Err(_) => "verdict.error",
        }, 1);
        // auxiliary data, with whatever chroma flags
        if r.pct(50) {
            let flags: Vec<bool> = (0..planes).map(|_| r.pct(30)).collect();
            let mut aux = vec![r.u32() as i16; n];
            let cut = if r.pct(50) { r.below(body.len() + 1) } else { 0 };
            let _ = s::guard(|| gfwx::decompress_aux_data(&body[cut..], &h, &flags, d, test, &mut aux).is_ok())?;
            cx.count("aux_decodes", 1);
        }
        done += 1;
    }
    cx.eval(if done > 0 { Some(hash_bytes(7, &stream)) } else { None });
    cx.sample(|| format!("hostile stream of {} bytes for {}x{}x{}: returned normally", stream.len(), h.width, h.height, planes));
    Ok(())
}

pub fn c08(cx: &mut Cx, r: &mut Rng) -> R {
    let max = *r.pick(&[20, 60, 200, 600, if cx.thorough { 20_000 } else { 6_000 }]);
    let p = gen::params(r, max);
    let ext = r.pct(20);
    let prog = gen::program(r, p.planes(), Dens::Any, ext);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let room = s::stream_room(&p, &prog);
    let full = s::compress(&p, &prog, &img)?;
    // lengths to try
    let limit = room + 40;
    let mut lens: Vec<usize>;
    if limit * (img.len() + 50) < if r.fuzzing { 40_000 } else { 3_000_000 } {
        lens = (0..=limit).collect();
        cx.count("images_with_every_buffer_length", 1);
    } else {
        lens = (0..40).collect();
        for _ in 0..30 {
            lens.push(r.usize(0, limit));
            lens.push(r.usize(full.len() / 2, (full.len() * 3).min(limit).max(full.len() / 2)));
        }
        for o in 0..9 {
            lens.push(full.len() + o - 4);
        }
        // narrow down the first length that succeeds
        let (mut lo, mut hi) = (0usize, limit);
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            let mut b = vec![s::FILL; m];
            if s::compress_into(&h, &pr, &img, &mut b)?.is_ok() {
                hi = m;
            } else {
                lo = m;
            }
        }
        for o in 0..24 {
            lens.push((hi + o).saturating_sub(12));
        }
        lens.sort_unstable();
        lens.dedup();
    }
    let mut first_ok: Option<usize> = None;
    let aux_api = r.pct(30);
    let aux = model::transform(&p, &prog, &img, Div::Trunc);
    let chroma = model::chroma_flags(&prog, p.planes());
    let service = full.len() - {
        let x = 32 + model::program_bytes(&prog).len();
        full.len() - x
    };
    for len in lens {
        const CANARY: usize = 32;
        let mut big = vec![s::FILL; len + CANARY];
        let res = if aux_api {
            let mut a = aux.clone();
            s::guard(|| gfwx::compress_aux_data(&mut a, &h, &chroma, &mut big[..len]).map_err(|e| format!("{:?}", e)))?
        } else {
            s::compress_into(&h, &pr, &img, &mut big[..len])?
        };
        if big[len..].iter().any(|&x| x != s::FILL) {
            return Err(format!("wrote behind a buffer of {} bytes", len));
        }
        let want = if aux_api { &full[service..] } else { &full[..] };
        match res {
            Ok(n) => {
                if n > len || big[..n] != want[..] {
                    return Err(format!("a buffer of {} bytes gives {} bytes that differ from the {} of a large buffer", len, n, want.len()));
                }
                first_ok.get_or_insert(len);
                cx.count("lengths.ok", 1);
            }
            Err(e) => {
                if let Some(f) = first_ok {
                    return Err(format!("a buffer of {} bytes is enough, one of {} is not: {}", f, len, e));
                }
                cx.count("lengths.err", 1);
            }
        }
        cx.eval(Some(mix(key(&p, &prog, &img) ^ ((len as u64) << 1) ^ aux_api as u64)));
    }
    if let Some(f) = first_ok {
        cx.sample(|| format!("{}: stream of {} bytes, buffers of {} bytes and more succeed", short(&p), full.len(), f));
    }
    Ok(())
}

/// all results of one set of arguments
pub fn results(p: &P, prog: &Prog, img: &[u8], d: u32, cut: usize) -> Result<u64, String> {
    let stream = s::compress(p, prog, img)?;
    let mut hsh = hash_bytes(9, &stream);
    let (v, out) = s::decompress(&stream, 0)?;
    hsh = hash_bytes(hsh, format!("{:?}", v).as_bytes());
    hsh = hash_bytes(hsh, &out);
    let (v, out) = s::decompress(&stream, d as usize)?;
    hsh = hash_bytes(hsh, format!("{:?}", v).as_bytes());
    hsh = hash_bytes(hsh, &out);
    let cut = cut.min(stream.len() - 32);
    let (v, out) = s::decompress(&stream[..stream.len() - cut], d as usize)?;
    hsh = hash_bytes(hsh, format!("{:?}", v).as_bytes());
    hsh = hash_bytes(hsh, &out);
    // buffers that are too small or hardly large enough: each block has an equal share of what is left
    let h = s::header(p)?;
    let pr = s::program(prog);
    let mut least = stream.len();
    let payload = 32 + model::program_bytes(prog).len();
    let mut from = payload;
    let mut step = p.first_step();
    for (table, end) in model::layout(p, 0, &stream[payload..]).unwrap_or_default() {
        let (_, bx, by) = p.blocks(step);
        let n = bx * by * p.planes();
        let largest = stream[from..payload + table].chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize * 4).max().unwrap_or(0);
        least = least.max(payload + table + n * largest.max(1));
        from = payload + end;
        step /= 2;
    }
    for len in [stream.len() / 2, least - 1, least, least + least / 64 * (cut % 9), (stream.len() + least) / 2] {
        let mut b = vec![0u8; len];
        let v = s::compress_into(&h, &pr, img, &mut b)?;
        hsh = hash_bytes(hsh, &[v.is_ok() as u8]);
        if v.is_ok() {
            hsh = hash_bytes(hsh, &b);
        }
    }
    Ok(hsh)
}

/// independent calls with different arguments at the same time
#[cfg(feature = "rayon")]
fn crowd(cx: &mut Cx, r: &mut Rng) -> R {
    let common = gen::params(r, 200);
    let cases: Vec<(P, Prog, Vec<u8>, u32)> = (0..6)
        .map(|_| {
            let mut p = gen::params(r, 200);
            if r.pct(70) {
                // differing in one thing only
                let q = p;
                p = common.clone();
                match r.below(6) {
                    0 => p.quality = q.quality,
                    1 => p.chroma_scale = q.chroma_scale,
                    2 => p.filter = q.filter,
                    3 => p.encoder = q.encoder,
                    4 => p.block_size = q.block_size,
                    _ => {
                        p.quality = q.quality;
                        p.chroma_scale = q.chroma_scale;
                    }
                }
            }
            let prog = gen::program(r, p.planes(), Dens::Any, false);
            let img = gen::image(r, &p);
            (p, prog, img, r.below(3) as u32)
        })
        .collect();
    let one = |c: &(P, Prog, Vec<u8>, u32)| -> Result<u64, String> {
        let stream = s::compress(&c.0, &c.1, &c.2)?;
        let (v, out) = s::decompress(&stream, c.3 as usize)?;
        Ok(hash_bytes(hash_bytes(hash_bytes(91, format!("{:?}", v).as_bytes()), &out), &stream))
    };
    let alone = cases.iter().map(one).collect::<Result<Vec<u64>, String>>()?;
    let rounds = if cx.thorough { 60 } else { 25 };
    let together: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let (cases, alone, one) = (&cases, &alone, &one);
        let hs: Vec<_> = (0..6)
            .map(|t| {
                sc.spawn(move || {
                    for k in 0..rounds {
                        let i = if k % 5 == 4 { (t + k) % 6 } else { t };
                        if one(&cases[i])? != alone[i] {
                            return Err(format!("next to calls with other arguments a call gives another result: {} ({})", short(&cases[i].0), describe(&cases[i].0, &cases[i].1, &cases[i].2)));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    cx.count("calls_next_to_other_calls", 6 * rounds as u64);
    together.into_iter().collect()
}

/// Calls one after another on one thread, failing and panicking ones among them: what a call gives does not depend
/// on the calls before it.
fn histories(cx: &mut Cx, r: &mut Rng) -> R {
    let most = if r.pct(10) { 20_000 } else { 300 };
    let common = gen::params(r, most);
    let prog = gen::program(r, common.planes(), Dens::Any, false);
    let mut images = vec![];
    for k in 0..4 {
        let mut p = common.clone();
        match (k, r.below(4)) {
            (0, _) | (1, _) => {}
            (_, 0) => std::mem::swap(&mut p.w, &mut p.h),
            (_, 1) => p.encoder = r.below(3) as u8,
            (_, 2) => p.quality = r.usize(1, 1024) as i32,
            _ => p.filter ^= 1,
        }
        let img = gen::image(r, &p);
        let mut room = vec![0u8; s::stream_room(&p, &prog)];
        let h = s::header(&p)?;
        let pr = s::program(&prog);
        let n = s::compress_into(&h, &pr, &img, &mut room)?.map_err(|e| format!("compress_simple failed with a sufficient buffer: {}", e))?;
        room.truncate(n);
        images.push((p, h, pr, img, room));
    }
    cx.detail = images.iter().map(|i| describe(&i.0, &prog, &i.3)).collect::<Vec<_>>().join("\n");
    let head = 32 + model::program_bytes(&prog).len();
    // kind, image, argument
    let ops: Vec<(usize, usize, usize)> = (0..24)
        .map(|_| {
            let i = r.below(4);
            let n = images[i].4.len();
            let kind = r.below(9);
            let arg = match kind {
                0 => n * 3,
                1 => r.usize(0, n * 2),
                2 => r.below(3),
                3 | 4 | 5 => r.usize(head, n),
                _ => r.usize(32, n - 1),
            };
            (kind, i, arg)
        })
        .collect();
    let (d, fill) = (r.below(3), r.u32() as u8);
    let run = |&(kind, i, arg): &(usize, usize, usize)| -> u64 {
        let (p, h, pr, img, stream) = &images[i];
        let decode = |body: &[u8], d: usize, test: bool, room: usize| -> String {
            let mut out = vec![fill; room];
            match s::decompress_body(h, body, d, test, &mut out) {
                Ok(v) => format!("{:?} {:x}", v, hash_bytes(1, &out)),
                Err(_) => "panic".into(),
            }
        };
        let size = h.get_decompress_buffer_size(d);
        let res = match kind {
            0 | 1 => {
                let mut b = vec![fill; arg];
                match s::compress_into(h, pr, img, &mut b) {
                    Ok(Ok(n)) => format!("{} {:x}", n, hash_bytes(2, &b[..n.min(arg)])),
                    Ok(Err(e)) => e,
                    Err(_) => "panic".into(),
                }
            }
            2 => decode(&stream[32..], arg, false, h.get_decompress_buffer_size(arg)),
            3 => decode(&stream[32..arg], 0, false, p.samples()),
            4 => decode(&stream[32..arg], d, false, size),
            5 => decode(&stream[32..arg], d, true, size),
            6 => {
                // damaged
                let mut t = stream[32..].to_vec();
                t[arg - 32] ^= 0x55;
                decode(&t, d, false, size)
            }
            7 => {
                // too small a buffer for the image, or an image that is too small: may panic
                if arg % 2 == 0 {
                    decode(&stream[32..], 0, false, p.samples() - 1)
                } else {
                    let mut b = vec![fill; stream.len() * 3];
                    match s::compress_into(h, pr, &img[..img.len() - 1], &mut b) {
                        Ok(v) => format!("{:?}", v.is_ok()),
                        Err(_) => "panic".into(),
                    }
                }
            }
            _ => {
                // programs that end too early or name a channel that does not exist
                let mut t = stream[32..].to_vec();
                if arg % 2 == 0 {
                    t.truncate((arg - 32) % (head - 32));
                } else {
                    for b in &mut t[..head - 32] {
                        *b = 0;
                    }
                }
                decode(&t, d, false, size)
            }
        };
        hash_bytes(3, res.as_bytes())
    };
    let mut first: Vec<Option<u64>> = vec![None; ops.len()];
    for step in 0..if common.samples() > 1000 { 60 } else { 150 } {
        let k = r.below(ops.len());
        let got = run(&ops[k]);
        if *first[k].get_or_insert(got) != got {
            return Err(format!("a call after {} others gives another result than before: operation {:?} on {}", step, ops[k], short(&images[ops[k].1].0)));
        }
    }
    cx.count("calls_after_other_calls", 60);
    Ok(())
}

pub fn schedule_case(cx: &mut Cx, r: &mut Rng) -> (P, Prog, Vec<u8>, u32, usize) {
    // above the adaptive thresholds in most cases
    let huge = !cx.small && r.below(1000) < 15;
    let mut p = gen::params(r, if cx.small { 200 } else if huge { gen::HUGE } else { 3000 });
    if huge {
        cx.count("budget.huge", 1);
    } else if cx.small {
        p.layers = p.layers.min(2);
        p.channels = p.channels.min(3);
    } else if r.pct(40) {
        let big = r.pct(12);
        p.w = r.usize(60, if big { 400 } else { 190 });
        p.h = r.usize(60, if big { 300 } else { 170 });
        p.channels = r.usize(1, 4);
        p.layers = if r.pct(80) { 1 } else { 2 };
        p.block_size = r.usize(2, 6) as u32;
    } else if r.pct(20) {
        p.w = r.usize(1, 3);
        p.h = r.usize(5000, 12000);
        p.channels = 2;
        p.layers = 1;
    }
    if cx.thorough && r.pct(5) {
        p.w *= 3;
        p.h *= 2;
    }
    while p.samples() > 600_000 && !huge {
        p.h = (p.h / 2).max(1);
        p.w = (p.w * 2 / 3).max(1);
    }
    let prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    let d = r.below(4) as u32;
    let cut = r.below(2000);
    (p, prog, img, d, cut)
}

/// results for the comparison between builds
pub fn digest(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    let (p, prog, img, d, cut) = schedule_case(cx, r);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let h = results(&p, &prog, &img, d, cut)?;
    cx.digests.push((index, h));
    cx.eval(if nontrivial(&img) { Some(key(&p, &prog, &img)) } else { None });
    cx.sample(|| format!("{}: digest {:016x}", short(&p), h));
    Ok(())
}

/// more calls than 16 bits count, in one process
#[cfg(feature = "rayon")]
fn marathon(cx: &mut Cx, r: &mut Rng) -> R {
    let cases = (0..5)
        .map(|k| {
            let mut p = gen::params(r, [1, 4, 12, 30, 60][k]);
            p.layers = p.layers.min(2);
            p.channels = p.channels.min(2);
            let prog = gen::program(r, p.planes(), Dens::Any, false);
            let img = gen::image(r, &p);
            let h = s::header(&p)?;
            let stream = s::compress(&p, &prog, &img)?;
            let (v, out) = s::decompress(&stream, 0)?;
            Ok((short(&p), h, s::program(&prog), img, stream, v, out, s::stream_room(&p, &prog)))
        })
        .collect::<Result<Vec<_>, String>>()?;
    let t0 = std::time::Instant::now();
    for k in 0..70_000usize {
        let (p, h, pr, img, stream, v, out, room) = &cases[k * 7 % 5];
        let mut buf = vec![0u8; *room];
        let n = s::compress_into(h, pr, img, &mut buf)?;
        if n.as_ref().ok().map(|&n| &buf[..n]) != Some(&stream[..]) {
            return Err(format!("call {} of many gives another stream: {}", k, p));
        }
        let mut got = vec![0u8; out.len()];
        let w = s::guard(|| gfwx::decompress_simple(&stream[32..], h, 0, false, &mut got))?;
        if w.map_err(|e| format!("{:?}", e)) != v.clone().map_err(|e| format!("{:?}", e)) || got != *out {
            return Err(format!("call {} of many gives another image: {}", k, p));
        }
        cx.count("calls_in_a_row", 2);
        if t0.elapsed().as_secs() > 60 {
            break;
        }
    }
    Ok(())
}

#[cfg(feature = "rayon")]
pub fn c09(cx: &mut Cx, r: &mut Rng, pools: &crate::sched::Pools, index: u64) -> R {
    if index == 5 && !cx.small {
        cx.detail = "tens of thousands of calls with small images".into();
        crate::sched::quiet();
        return marathon(cx, r);
    }
    let (p, prog, img, d, cut) = schedule_case(cx, r);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    crate::sched::quiet();
    let want = pools.run(1, || results(&p, &prog, &img, d, cut))?;
    cx.digests.push((index, want));
    let rounds = match p.samples() {
        0..=3000 => 4,
        _ if cx.thorough => 10,
        _ => 6,
    };
    for k in 0..rounds {
        let n = if index % 25 == 7 { *r.pick(&[24usize, 33, 48, 65, 70]) } else { *r.pick(&[2usize, 2, 3, 4, 5, 8, 13, 16]) };
        cx.max("max.pool_size", n as u64);
        crate::sched::perturb(r.u64(), r.below(5) as u32);
        let got = if k == 0 {
            // several callers at once, all on one pool
            let all: Vec<Result<u64, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..3)
                    .map(|_| {
                        let (p, prog, img) = (&p, &prog, &img);
                        sc.spawn(move || pools.run(n, || results(p, prog, img, d, cut)))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
            });
            cx.count("concurrent_callers", 3);
            let mut first = None;
            for a in all {
                let a = a?;
                if *first.get_or_insert(a) != a {
                    return Err(format!("concurrent calls with {} threads give different results", n));
                }
            }
            first.unwrap()
        } else if k == 1 {
            // called from inside the pool, next to another call
            let (a, b) = pools.run2(n, || results(&p, &prog, &img, d, cut), || results(&p, &prog, &img, d, cut));
            let (a, b) = (a?, b?);
            if a != b {
                return Err(format!("two calls joined in a pool of {} threads give different results", n));
            }
            a
        } else {
            pools.run(n, || results(&p, &prog, &img, d, cut))?
        };
        let (events, sig, threads) = crate::sched::observed();
        cx.count("scheduled_items", events);
        cx.max("max.threads_seen", threads);
        if got != want {
            return Err(format!("{} threads give other results than one thread", n));
        }
        // an execution counts when more than one thread took part
        cx.eval(if threads > 1 { Some(sig) } else { None });
        if threads > 1 {
            cx.count("executions_on_several_threads", 1);
        }
    }
    crate::sched::quiet();
    crowd(cx, r)?;
    histories(cx, r)?;
    cx.sample(|| format!("{}: same results {:016x} under {} schedules", short(&p), want, rounds));
    Ok(())
}

pub fn c17(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget_to(cx, r, 100_000, 30);
    let mut p = gen::params(r, max);
    let aux_case = r.pct(35);
    if aux_case {
        // arbitrary auxiliary data
        if r.pct(60) {
            p.quality = 1024;
            p.chroma_scale = 1;
        }
        let ch = chroma(r, p.planes());
        let limit = *r.pick(&[100, 5000, 32767, 32767]);
        let aux = gen::aux(r, &p, limit);
        cx.detail = format!("{:?} chroma {:?} aux {:?}", p, ch, &aux[..aux.len().min(2000)]);
        cx.note_params(&p);
        let data = s::compress_aux(&p, &ch, &aux)?;
        let (v, out) = s::decompress_aux(&p, &ch, &data, 0)?;
        if v != Ok(0) {
            return Err(format!("decompress_aux_data returned {:?} for complete data", v));
        }
        if p.quality == 1024 && p.chroma_scale == 1 && out != aux {
            return Err(format!("auxiliary data is not restored: {}", first_diff(&out, &aux)));
        }
        let (vv, oo) = s::decompress_aux(&p, &ch, &data, 0)?;
        if vv != v || oo != out {
            return Err("decoding the same auxiliary data twice gives different results".into());
        }
        cx.count("auxiliary_round_trips", 1);
        cx.eval(if aux.iter().any(|&x| x != aux[0]) { Some(hash_i16(hash_bytes(17, format!("{:?}{:?}", p, ch).as_bytes()), &aux)) } else { None });
        cx.sample(|| format!("{}: {} auxiliary samples through {} bytes", short(&p), aux.len(), data.len()));
        return Ok(());
    }
    let ext = r.pct(20);
    let prog = gen::program(r, p.planes(), Dens::Any, ext);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let want = s::compress(&p, &prog, &img)?;
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let mut buf = vec![0u8; s::stream_room(&p, &prog)];
    let size = p.w * p.h;
    // planar form of the image
    let mut planar = vec![0u8; img.len()];
    for l in 0..p.layers {
        for c in 0..p.channels {
            for i in 0..size {
                planar[(l * p.channels + c) * size + i] = img[(l * size + i) * p.channels + c];
            }
        }
    }
    let via = r.below(if prog.iter().all(|t| t.factors.is_empty() && t.den == 1) && p.layers == 1 { 3 } else { 2 });
    cx.count(["via.transform_and_to_planar", "via.transform_of_planar", "via.interleaved_to_planar"][via], 1);
    let got = s::guard(|| -> Result<usize, String> {
        let total = buf.len();
        let mut rest = &mut buf[..];
        h.encode(&mut rest).map_err(|e| format!("Header::encode: {}", e))?;
        let flags = pr.encode(p.planes(), &mut rest).map_err(|e| format!("program encode: {}", e))?;
        let used = total - rest.len();
        let mut aux = vec![0i16; h.get_image_size()];
        match via {
            0 => pr.transform_and_to_planar(&img, &h, &mut aux),
            1 => pr.transform(&planar, &h, &mut aux),
            _ => gfwx::interleaved_to_planar(&img, p.channels, h.get_boost(), &mut aux, &[]),
        }
        Ok(used + gfwx::compress_aux_data(&mut aux, &h, &flags, rest).map_err(|e| format!("compress_aux_data: {:?}", e))?)
    })??;
    if got > buf.len() || buf[..got] != want[..] {
        return Err(format!("low-level calls (path {}) give other bytes: {}", via, first_diff(&buf[..got.min(buf.len())], &want)));
    }
    // decode
    let d = if r.pct(50) { 0 } else { pick_d(r, &p) };
    let cut = if r.pct(30) { r.usize(0, 200) } else { 0 };
    let prog_len = model::program_bytes(&prog).len();
    let cut = cut.min(want.len() - 32 - prog_len);
    let stream = &want[..want.len() - cut];
    let (v, pixels) = s::decompress(stream, d as usize)?;
    let (dw, dh) = p.down(d);
    let planar_out = r.pct(50);
    let mut out = vec![0u8; dw * dh * p.planes()];
    let v2 = s::guard(|| -> Result<usize, String> {
        let mut rest = stream;
        let h = gfwx::Header::decode(&mut rest).map_err(|e| format!("{}", e))?;
        let mut flags = vec![false; p.planes()];
        let before = rest.len();
        let pr = gfwx::ColorTransformProgram::decode(&mut rest, &mut flags).map_err(|e| format!("{:?}", e))?;
        let used = before - rest.len();
        let mut aux = vec![0i16; h.get_downsampled_image_size(d as usize)];
        let v = gfwx::decompress_aux_data(rest, &h, &flags, d as usize, false, &mut aux).map_err(|e| format!("{:?}", e))?;
        let cs = h.get_downsampled_channel_size(d as usize);
        if planar_out {
            pr.detransform(&mut aux, &h, cs, &mut out);
        } else {
            pr.detransform_and_to_interleaved(&mut aux, &h, cs, &mut out);
        }
        Ok(if v == 0 { 0 } else { v + used })
    })?;
    if v2 != v {
        return Err(format!("low-level decoding returns {:?}, decompress_simple {:?}", v2, v));
    }
    if v.is_ok() {
        let mut pix = out.clone();
        if planar_out {
            let size = dw * dh;
            for l in 0..p.layers {
                for c in 0..p.channels {
                    for i in 0..size {
                        pix[(l * size + i) * p.channels + c] = out[(l * p.channels + c) * size + i];
                    }
                }
            }
        }
        if pix != pixels {
            return Err(format!("low-level decoding gives other pixels: {}", first_diff(&pix, &pixels)));
        }
    }
    cx.eval(if nontrivial(&img) { Some(mix(key(&p, &prog, &img) ^ u64::from(d) ^ ((cut as u64) << 8))) } else { None });
    cx.sample(|| format!("{} downsampling {} cut {}: low-level and simple calls agree", short(&p), d, cut));
    Ok(())
}

pub fn c18(cx: &mut Cx, r: &mut Rng) -> R {
    let max = budget_to(cx, r, 100_000, 30);
    let p = gen::params(r, max);
    let ext = r.pct(15);
    let prog = gen::program(r, p.planes(), Dens::Any, ext);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let copy = img.clone();
    let mut a = vec![0u8; s::stream_room(&p, &prog)];
    let n = s::compress_into(&h, &pr, &img, &mut a)?.map_err(|e| format!("compress_simple failed with a sufficient buffer: {}", e))?;
    if n % 4 != 0 {
        return Err(format!("stream of {} bytes is not a whole number of words", n));
    }
    // other previous content, other size
    let extra = r.usize(0, 5000);
    let mut b: Vec<u8> = (0..a.len() + extra).map(|_| r.u32() as u8).collect();
    // and at another address
    let off = r.usize(0, 3);
    let mut moved = vec![0u8; off];
    moved.extend_from_slice(&img);
    let m = s::compress_into(&h, &pr, &moved[off..], &mut b)?.map_err(|e| format!("compress_simple failed with a sufficient buffer: {}", e))?;
    if m != n || a[..n] != b[..n] {
        return Err(format!("the stream depends on the address of the image, the previous content or the size of the buffer: {} and {} bytes, {}", n, m, first_diff(&b[..m.min(n)], &a[..n])));
    }
    // little space
    if r.pct(40) {
        if let Some(b) = s::compress_tight(&h, &pr, &img, n)? {
            if b[..] != a[..n] {
                return Err(format!("the stream depends on the size of the buffer: {} and {} bytes, {}", n, b.len(), first_diff(&b[..b.len().min(n)], &a[..n])));
            }
            cx.count("tight_buffers", 1);
        }
    }
    if img != copy {
        return Err("the input image was modified".into());
    }
    let d = if r.pct(60) { 0 } else { pick_d(r, &p) };
    let (dw, dh) = p.down(d);
    let size = dw * dh * p.planes();
    let stream = a[..n].to_vec();
    let (v, want) = s::decompress(&stream, d as usize)?;
    if v != Ok(0) {
        return Err(format!("the {} bytes returned do not decode completely: {:?}", n, v));
    }
    // exactly the bytes of its blocks
    match model::layout(&p, 0, &stream[32 + model::program_bytes(&prog).len()..]) {
        Some(l) if l.last().unwrap().1 + 32 + model::program_bytes(&prog).len() == n => {}
        l => return Err(format!("returned size {} does not end with the last block: {:?}", n, l)),
    }
    for k in 0..3 {
        let mut t = stream.clone();
        let tail = match k {
            0 => r.usize(1, 7),
            1 => r.usize(1, 3000),
            _ => 4 * r.usize(1, 64),
        };
        t.extend((0..tail).map(|_| if k == 2 { 0xff } else { r.u32() as u8 }));
        let room = r.usize(0, 300);
        let fill: Vec<u8> = (0..size + room).map(|_| r.u32() as u8).collect();
        let mut out = fill.clone();
        let v = s::decompress_body(&h, &t[32..], d as usize, false, &mut out)?;
        if v != Ok(0) || out[..size] != want[..] {
            return Err(format!("{} bytes behind the stream or another output buffer change the result: {:?}, {}", tail, v, first_diff(&out[..size], &want)));
        }
        if out[size..] != fill[size..] {
            return Err("bytes behind the decoded image were modified".into());
        }
        let mut keep = fill.clone();
        let v = s::decompress_body(&h, &t[32..], d as usize, true, &mut keep)?;
        if v != Ok(0) || keep != fill {
            return Err(format!("test mode: {:?}, output {}", v, if keep == fill { "untouched" } else { "modified" }));
        }
        cx.eval(if nontrivial(&img) { Some(mix(key(&p, &prog, &img) ^ mix(tail as u64) ^ u64::from(d))) } else { None });
    }
    // auxiliary buffers with previous content
    if r.pct(30) {
        let chroma = model::chroma_flags(&prog, p.planes());
        let body = &stream[32 + model::program_bytes(&prog).len()..];
        let mut x = vec![0i16; size];
        let v1 = s::guard(|| gfwx::decompress_aux_data(body, &h, &chroma, d as usize, false, &mut x).map_err(|e| format!("{:?}", e)))?;
        let mut y: Vec<i16> = x.clone();
        let v2 = s::guard(|| gfwx::decompress_aux_data(body, &h, &chroma, d as usize, true, &mut y).map_err(|e| format!("{:?}", e)))?;
        if v1 != Ok(0) || v2 != Ok(0) || x != y {
            return Err(format!("auxiliary decoding: {:?}, test mode {:?}, data {}", v1, v2, if x == y { "untouched" } else { "modified by test mode" }));
        }
        cx.count("auxiliary_buffers", 1);
    }
    if r.pct(if p.samples() > 3000 { 5 } else { 20 }) {
        histories(cx, r)?;
    }
    cx.sample(|| format!("{}: {} bytes, self-delimiting", short(&p), n));
    Ok(())
}

pub fn c19(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    let max = budget_to(cx, r, 60_000, 25);
    let p = gen::params(r, max);
    if r.pct(40) {
        // auxiliary data of the whole 16-bit range
        let ch = chroma(r, p.planes());
        let mut aux = gen::aux(r, &p, 32767);
        if r.pct(50) {
            for x in aux.iter_mut() {
                match r.below(6) {
                    0 => *x = -32768,
                    1 => *x = 32767,
                    2 if r.pct(30) => *x = r.u32() as i16,
                    _ => {}
                }
            }
        }
        cx.detail = format!("{:?} chroma {:?} aux {:?}", p, ch, &aux[..aux.len().min(2000)]);
        cx.note_params(&p);
        let data = s::compress_aux(&p, &ch, &aux)?;
        let mut hsh = hash_bytes(19, &data);
        if data != model::compress_aux(&p, &ch, &aux) {
            return Err("saturated auxiliary data does not wrap like the reference".into());
        }
        for d in [0, r.below(5) as u32] {
            let (v, out) = s::decompress_aux(&p, &ch, &data, d)?;
            if v != Ok(0) {
                return Err(format!("decompress_aux_data (downsampling {}) of valid data returned {:?}", d, v));
            }
            match model::decode_payload(&p, &ch, &data, d) {
                Some(m) if m.aux == out => {}
                _ => return Err(format!("decoded auxiliary data (downsampling {}) does not wrap like the reference", d)),
            }
            hsh = hash_i16(hsh, &out);
        }
        cx.digests.push((index, hsh));
        cx.count("extreme_auxiliary_data", 1);
        cx.eval(if aux.iter().any(|&x| x != aux[0]) { Some(hsh) } else { None });
        return Ok(());
    }
    let mut prog = if r.pct(60) { gen::random_program(r, p.planes(), Dens::Any, true) } else { gen::program(r, p.planes(), Dens::Any, true) };
    if r.pct(8) {
        gen::make_wild(r, &mut prog);
    }
    let img = if r.pct(40) {
        let a = r.below(4);
        (0..p.samples())
            .map(|i| match a {
                0 => 255,
                1 => (r.u64() & 1) as u8 * 255,
                2 => ((i / p.channels) % 2) as u8 * 255,
                _ => if (i / p.channels / p.w) % 2 == 0 { 0 } else { 255 },
            })
            .collect()
    } else {
        gen::image(r, &p)
    };
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let stream = s::compress(&p, &prog, &img)?;
    let mut hsh = hash_bytes(19, &stream);
    if r.pct(50) && stream != model::compress(&p, &prog, &img, Div::Trunc) {
        // known finding of C02: the model here truncates, too
        return Err("an extreme image does not wrap like the reference".into());
    }
    let h = s::header(&p)?;
    for d in [0u32, pick_d(r, &p)] {
        let (v, out) = s::decompress(&stream, d as usize)?;
        if v != Ok(0) {
            return Err(format!("decompression (downsampling {}) of a valid image returned {:?}", d, v));
        }
        hsh = hash_bytes(hsh, &out);
        let mut o = vec![0u8; out.len()];
        let v = s::decompress_body(&h, &stream[32..], d as usize, true, &mut o)?;
        if v != Ok(0) {
            return Err(format!("test decompression (downsampling {}) of a valid image returned {:?}", d, v));
        }
    }
    cx.digests.push((index, hsh));
    cx.count("extreme_images", 1);
    cx.eval(if nontrivial(&img) { Some(key(&p, &prog, &img)) } else { None });
    cx.sample(|| format!("{} program {:?}: no panic, digest {:016x}", short(&p), prog, hsh));
    Ok(())
}
