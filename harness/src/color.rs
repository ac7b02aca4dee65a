//! C12, C13: colour transform programs and planar conversions.
use crate::cx::{first_diff, hex, Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Div, Prog, P};
use crate::rng::{hash_bytes, mix, Rng};
use crate::subject as s;

fn small_params(r: &mut Rng) -> P {
    let max = *r.pick(&[10, 60, 300, 2000]);
    let mut p = gen::params(r, max);
    if r.pct(40) {
        p.quality = 1024;
    }
    p
}

/// no wrap in the encoded integers: |v| < 2^31
fn code_program(r: &mut Rng, planes: usize) -> Prog {
    let mut prog = gen::random_program(r, planes, Dens::Any, true);
    for t in prog.iter_mut() {
        for f in t.factors.iter_mut() {
            if r.pct(10) {
                f.1 = *r.pick(&[i64::from(i32::MAX), -i64::from(i32::MAX), 0, 1 << 30, -(1 << 30), 47, 48, 49, -48]);
            }
        }
        if r.pct(10) {
            t.den = *r.pick(&[32767, 1, 47, 48, 49, 3, 4]);
        }
    }
    prog
}

fn round_trip(cx: &mut Cx, r: &mut Rng) -> R {
    let planes = match r.below(6) {
        0 => r.usize(1, 70000),
        1 => r.usize(1, 300),
        _ => r.usize(1, 8),
    };
    let mut prog = code_program(r, planes);
    if r.pct(25) {
        gen::make_wild(r, &mut prog);
        cx.count("programs_with_repeated_destinations", 1);
    }
    cx.detail = format!("{} planes, program {:?}", planes, prog);
    let pr = s::program(&prog);
    let mut out = vec![];
    let flags = s::guard(|| pr.encode(planes, &mut out))?.map_err(|e| format!("encode: {}", e))?;
    if out.len() % 4 != 0 {
        return Err(format!("program of {} bytes", out.len()));
    }
    let want = model::program_bytes(&prog);
    if out != want {
        return Err(format!("program is written as {} instead of {}", hex(&out), hex(&want)));
    }
    let want_flags = model::chroma_flags(&prog, planes);
    if flags != want_flags {
        return Err("encode returns wrong chroma flags".into());
    }
    let n = out.len();
    let tail = r.below(9);
    out.extend((0..tail).map(|_| r.u32() as u8));
    let mut rest = &out[..];
    let mut got_flags = vec![false; planes];
    let back = s::guard(|| gfwx::ColorTransformProgram::decode(&mut rest, &mut got_flags))?.map_err(|e| format!("the encoded program is rejected: {:?}", e))?;
    if back != pr {
        return Err(format!("program comes back as {:?}", back));
    }
    if got_flags != want_flags {
        return Err("decode gives other chroma flags than encode".into());
    }
    if rest.len() != tail {
        return Err(format!("decode consumed {} bytes of {}", out.len() - rest.len(), n));
    }
    // anything shorter is incomplete
    let cut = r.below(n);
    let mut f = vec![false; planes];
    let mut b = &out[..cut];
    if s::guard(|| gfwx::ColorTransformProgram::decode(&mut b, &mut f).is_ok())? {
        return Err(format!("{} of {} bytes decode as a program", cut, n));
    }
    let mut small = vec![0u8; cut];
    let mut w = &mut small[..];
    if s::guard(|| pr.encode(planes, &mut w).is_ok())? {
        return Err(format!("a program of {} bytes is encoded to {} bytes", n, cut));
    }
    // programs that name missing channels or cannot divide
    if !prog.is_empty() {
        let mut bad = prog.clone();
        let k = r.below(bad.len());
        match r.below(3) {
            0 => bad[k].dest = planes + r.below(5),
            1 => bad[k].factors.push((planes + r.below(5), 1)),
            _ => bad[k].den = *r.pick(&[0, -1, 32768, 65536, -32768, 100_000]),
        }
        let b = model::program_bytes(&bad);
        let mut b = &b[..];
        let mut f = vec![false; planes];
        if s::guard(|| gfwx::ColorTransformProgram::decode(&mut b, &mut f).is_ok())? {
            return Err(format!("the invalid program {:?} is accepted for {} channels", bad[k], planes));
        }
        cx.count("invalid_programs_rejected", 1);
    }
    cx.count("program_round_trips", 1);
    cx.count("program_terms", prog.len() as u64);
    cx.eval(if prog.is_empty() { None } else { Some(hash_bytes(12, &want)) });
    Ok(())
}

fn to_planar<T: Copy>(p: &P, img: &[T]) -> Vec<T> {
    let size = p.w * p.h;
    let at = |c: usize, i: usize| img[((c / p.channels) * size + i) * p.channels + c % p.channels];
    (0..p.planes()).flat_map(|c| (0..size).map(move |i| at(c, i))).collect()
}

pub fn c12(cx: &mut Cx, r: &mut Rng) -> R {
    for _ in 0..4 {
        round_trip(cx, r)?;
    }
    let mut p = small_params(r);
    if r.pct(40) {
        p.channels = p.channels.max(2);
    }
    let ext = r.pct(50);
    let prog = gen::random_program(r, p.planes(), Dens::Any, ext);
    let prog = if r.pct(15) && p.planes() >= 3 { gen::preset(r.below(4)) } else { prog };
    let img = gen::image(r, &p);
    cx.detail = format!("{:?} program {:?} image {}", p, prog, hex(&img));
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let want = model::transform(&p, &prog, &img, Div::Trunc);
    let size = p.w * p.h;
    let planar = to_planar(&p, &img);
    // previous content of the buffers does not matter
    let stale = r.pct(50);
    let fresh = |r: &mut Rng, n: usize| -> Vec<i16> { (0..n).map(|_| if stale { r.u32() as i16 } else { 0 }).collect() };
    let mut aux = fresh(r, img.len());
    s::guard(|| pr.transform_and_to_planar(&img, &h, &mut aux))?;
    if aux != want {
        return Err(format!("transform_and_to_planar: {}", first_diff(&aux, &want)));
    }
    let mut aux2 = fresh(r, img.len());
    s::guard(|| pr.transform(&planar, &h, &mut aux2))?;
    if aux2 != want {
        return Err(format!("transform: {}", first_diff(&aux2, &want)));
    }
    // samples of other types, negative ones and such of more bits (as long as they fit when boosted)
    let top = i64::from(i16::MAX) / i64::from(p.boost());
    let lim = *r.pick(&[127, 255, 1023, 4095, top]);
    let lim = lim.min(top);
    let low = if r.pct(50) { -lim } else { 0 };
    let img16: Vec<i16> = (0..img.len()).map(|_| if r.pct(15) { *r.pick(&[low, lim]) } else { r.range(low, lim) } as i16).collect();
    let img8: Vec<i8> = img16.iter().map(|&x| x as i8).collect();
    cx.detail = format!("{:?} program {:?} image {:?}", p, prog, &img16[..img.len().min(2000)]);
    for k in 0..2 {
        let mut a = fresh(r, img.len());
        let mut b = fresh(r, img.len());
        let want = if k == 0 { model::transform(&p, &prog, &img16, Div::Trunc) } else { model::transform(&p, &prog, &img8, Div::Trunc) };
        if k == 0 {
            let flat: Vec<i16> = to_planar(&p, &img16);
            s::guard(|| pr.transform_and_to_planar(&img16, &h, &mut a))?;
            s::guard(|| pr.transform(&flat, &h, &mut b))?;
        } else {
            let flat: Vec<i8> = to_planar(&p, &img8);
            s::guard(|| pr.transform_and_to_planar(&img8, &h, &mut a))?;
            s::guard(|| pr.transform(&flat, &h, &mut b))?;
        }
        if a != want {
            return Err(format!("transform_and_to_planar of {} samples: {}", ["i16", "i8"][k], first_diff(&a, &want)));
        }
        if b != want {
            return Err(format!("transform of {} samples: {}", ["i16", "i8"][k], first_diff(&b, &want)));
        }
        cx.count("samples_of_other_types", img.len() as u64);
    }
    cx.detail = format!("{:?} program {:?} image {}", p, prog, hex(&img));
    // a longer buffer is not touched behind the image
    let extra = r.below(20);
    let mut out: Vec<u8> = (0..img.len() + extra).map(|_| r.u32() as u8).collect();
    let keep = out.clone();
    s::guard(|| pr.detransform_and_to_interleaved(&mut aux, &h, size, &mut out))?;
    if out[..img.len()] != img[..] || out[img.len()..] != keep[img.len()..] {
        return Err(format!("detransform_and_to_interleaved does not restore the image: {}", first_diff(&out[..img.len()], &img)));
    }
    let mut out = keep.clone();
    s::guard(|| pr.detransform(&mut aux2, &h, size, &mut out))?;
    if out[..img.len()] != planar[..] || out[img.len()..] != keep[img.len()..] {
        return Err(format!("detransform does not restore the image: {}", first_diff(&out[..img.len()], &planar)));
    }
    // auxiliary data that no image gives, of another size (as with downsampling)
    let n = r.usize(1, 40);
    let mut q = p;
    q.w = n;
    q.h = 1;
    let limit = *r.pick(&[300, 4000, 32767]);
    let a0 = gen::aux(r, &q, limit);
    let mut model_aux = a0.clone();
    let want = model::detransform(&q, &prog, &mut model_aux, n, Div::Trunc);
    let mut a = a0.clone();
    let mut out = vec![s::FILL; a.len()];
    s::guard(|| pr.detransform_and_to_interleaved(&mut a, &h, n, &mut out))?;
    if out != want {
        return Err(format!("detransform_and_to_interleaved of aux data {:?}: {}", &a0[..a0.len().min(500)], first_diff(&out, &want)));
    }
    let (mut a, mut b, mut d) = (a0.clone(), a0.clone(), a0.clone());
    let (mut wide, mut float) = (vec![-1i64; a.len()], vec![-1f32; a.len()]);
    let mut out16 = vec![0i16; a.len()];
    s::guard(|| {
        pr.detransform(&mut a, &h, n, &mut out16);
        pr.detransform_and_to_interleaved(&mut b, &h, n, &mut wide);
        pr.detransform_and_to_interleaved(&mut d, &h, n, &mut float);
    })?;
    for i in 0..want.len() {
        if wide[i] != i64::from(want[i]) || float[i] != f32::from(want[i]) {
            return Err(format!("detransform_and_to_interleaved of aux data {:?}: {} and {} instead of {}", &a0[..a0.len().min(500)], wide[i], float[i], want[i]));
        }
    }
    for c in 0..q.planes() {
        for i in 0..n {
            let w = want[((c / q.channels) * n + i) * q.channels + c % q.channels];
            if out16[c * n + i] != i16::from(w) {
                return Err(format!("detransform of aux data {:?}: {} instead of {}", &a0[..a0.len().min(500)], out16[c * n + i], w));
            }
        }
    }
    cx.count("images_transformed", 1);
    cx.count("samples_transformed", img.len() as u64);
    cx.eval(if img.len() > 1 && !prog.is_empty() { Some(hash_bytes(mix(hash_bytes(12, format!("{:?}", prog).as_bytes())), &img)) } else { None });
    cx.sample(|| format!("{}x{}x{}x{} quality {} program {:?}: forward equals the definition, backward restores", p.w, p.h, p.layers, p.channels, p.quality, prog));
    Ok(())
}

pub fn c13(cx: &mut Cx, r: &mut Rng) -> R {
    for _ in 0..8 {
        let channels = match r.below(6) {
            0 => 1,
            1..=3 => r.usize(1, 5),
            4 => r.usize(1, 12),
            _ => r.usize(1, 100),
        };
        let size = if r.pct(80) { r.usize(0, 40) } else { r.usize(0, 600) };
        let boost = *r.pick(&[1i16, 1, 8, 8, 8, 2, 3, 100, 128]);
        let mut skip: Vec<usize> = vec![];
        let pc = *r.pick(&[0, 0, 20, 50, 90, 100]);
        for c in 0..channels {
            if r.pct(pc) {
                skip.push(c);
            }
        }
        for i in (1..skip.len()).rev() {
            skip.swap(i, r.below(i + 1));
        }
        if r.pct(10) && !skip.is_empty() {
            skip.push(skip[0]);
        }
        if r.pct(10) {
            skip.push(channels + r.below(3));
        }
        let kept: Vec<usize> = (0..channels).filter(|c| !skip.contains(c)).collect();
        let img: Vec<u8> = (0..channels * size).map(|_| r.u32() as u8).collect();
        cx.detail = format!("{} channels of {}, boost {}, skip {:?}, image {}", channels, size, boost, skip, hex(&img));
        let room = kept.len() * size + r.below(10);
        let before: Vec<i16> = (0..room).map(|_| r.u32() as i16).collect();
        let mut planar = before.clone();
        s::guard(|| gfwx::interleaved_to_planar(&img, channels, boost, &mut planar, &skip))?;
        let mut want = before.clone();
        for (k, &c) in kept.iter().enumerate() {
            for i in 0..size {
                want[k * size + i] = i16::from(img[i * channels + c]) * boost;
            }
        }
        if planar != want {
            return Err(format!("interleaved_to_planar ({} channels of {}, boost {}, skip {:?}): {}", channels, size, boost, skip, first_diff(&planar, &want)));
        }
        // other source type
        if r.pct(30) {
            let img16: Vec<i16> = img.iter().map(|&x| (i16::from(x) - 128).clamp(-255, 255)).collect();
            let mut planar = before.clone();
            s::guard(|| gfwx::interleaved_to_planar(&img16, channels, boost, &mut planar, &skip))?;
            for (k, &c) in kept.iter().enumerate() {
                for i in 0..size {
                    want[k * size + i] = img16[i * channels + c] * boost;
                }
            }
            if planar != want {
                return Err(format!("interleaved_to_planar of i16: {}", first_diff(&planar, &want)));
            }
        }
        // back
        let old: Vec<u8> = (0..img.len()).map(|_| r.u32() as u8).collect();
        let mut out = old.clone();
        s::guard(|| gfwx::planar_to_interleaved(&planar, channels, boost, &mut out, &skip))?;
        for i in 0..img.len() {
            let w = if kept.contains(&(i % channels)) { img[i] } else { old[i] };
            if out[i] != w {
                return Err(format!("planar_to_interleaved({} channels, boost {}, skip {:?}): {} instead of {} at {}", channels, boost, skip, out[i], w, i));
            }
        }
        // values outside the range of pixels
        let wild: Vec<i16> = (0..room)
            .map(|_| match r.below(4) {
                0 => *r.pick(&[i16::MIN, i16::MAX, -1, 0, 255, 256, 2040, 2041, 2047, 2048, -7, -8, -9]),
                1 => r.u32() as i16,
                _ => r.range(-3000, 3000) as i16,
            })
            .collect();
        let (mut a, mut b, mut c3) = (old.clone(), vec![7u16; img.len()], vec![7i32; img.len()]);
        s::guard(|| {
            gfwx::planar_to_interleaved(&wild, channels, boost, &mut a, &skip);
            gfwx::planar_to_interleaved(&wild, channels, boost, &mut b, &skip);
            gfwx::planar_to_interleaved(&wild, channels, boost, &mut c3, &skip);
        })?;
        for i in 0..img.len() {
            let k = kept.iter().position(|&c| c == i % channels);
            let (wa, wb, wc) = match k {
                Some(k) => {
                    let v = (i32::from(wild[k * size + i / channels]) / i32::from(boost)).clamp(0, 255);
                    (v as u8, v as u16, v)
                }
                None => (old[i], 7, 7),
            };
            if a[i] != wa || b[i] != wb || c3[i] != wc {
                return Err(format!("planar_to_interleaved of wild values ({} channels, boost {}, skip {:?}): {}/{}/{} instead of {} at {}", channels, boost, skip, a[i], b[i], c3[i], wc, i));
            }
        }
        cx.count("samples_converted", (img.len() * 4) as u64);
        cx.count(if kept.len() == channels { "skip.none" } else if kept.is_empty() { "skip.all" } else { "skip.some" }, 1);
        cx.eval(if img.len() > 1 { Some(hash_bytes(hash_bytes(13, format!("{} {} {:?}", channels, boost, skip).as_bytes()), &img)) } else { None });
        cx.sample(|| format!("{} channels of {} samples, boost {}, skip {:?}: exact both ways", channels, size, boost, skip));
    }
    // agreement with the transforms
    let p = small_params(r);
    let prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    cx.detail = format!("{:?} program {:?} image {}", p, prog, hex(&img));
    let h = s::header(&p)?;
    let pr = s::program(&prog);
    let size = p.w * p.h;
    let mut planar16 = vec![0i16; img.len()];
    for l in 0..p.layers {
        let part = l * size * p.channels..(l + 1) * size * p.channels;
        s::guard(|| gfwx::interleaved_to_planar(&img[part.clone()], p.channels, 1, &mut planar16[part.clone()], &[]))?;
    }
    let planar: Vec<u8> = planar16.iter().map(|&x| x as u8).collect();
    let mut a = vec![0i16; img.len()];
    let mut b = vec![0i16; img.len()];
    s::guard(|| pr.transform_and_to_planar(&img, &h, &mut a))?;
    s::guard(|| pr.transform(&planar, &h, &mut b))?;
    if a != b {
        return Err(format!("transform of the planar image differs from transform_and_to_planar: {}", first_diff(&b, &a)));
    }
    if prog.is_empty() {
        for l in 0..p.layers {
            let part = l * size * p.channels..(l + 1) * size * p.channels;
            let mut c = vec![0i16; part.len()];
            s::guard(|| gfwx::interleaved_to_planar(&img[part.clone()], p.channels, h.get_boost(), &mut c, &[]))?;
            if a[part.clone()] != c[..] {
                return Err(format!("transform_and_to_planar without a program differs from interleaved_to_planar: {}", first_diff(&a[part], &c)));
            }
        }
        cx.count("conversions_compared_with_empty_program", 1);
    }
    cx.eval(if img.len() > 1 { Some(hash_bytes(hash_bytes(113, format!("{:?}", prog).as_bytes()), &img)) } else { None });
    Ok(())
}

/// What the reference implementation's GFWX_TRANSFORM_* macros list, and the flags alone.
const PRESETS: [(&str, &[i32]); 4] = [
    ("yuv444_to_yuv444", &[1, -1, 1, 1, 2, -1, 1, 1, -1]),
    ("rgb_to_yuv", &[0, 1, -1, -1, 1, 1, 2, 1, -1, -1, 1, 1, 1, 0, 1, 2, 1, -1, 4, 0, -1]),
    ("bgr_to_a710", &[2, 1, -1, -1, 1, 1, 0, 1, -2, 2, -1, -1, 2, 1, 1, 0, 2, 2, 3, -1, 8, 0, -1]),
    ("rgb_to_a710", &[0, 1, -1, -1, 1, 1, 2, 1, -2, 0, -1, -1, 2, 1, 1, 2, 2, 0, 3, -1, 8, 0, -1]),
];
fn preset_program(k: usize) -> gfwx::ColorTransformProgram {
    match k {
        0 => gfwx::ColorTransformProgram::yuv444_to_yuv444(),
        1 => gfwx::ColorTransformProgram::rgb_to_yuv(),
        2 => gfwx::ColorTransformProgram::bgr_to_a710(),
        _ => gfwx::ColorTransformProgram::rgb_to_a710(),
    }
}
/// the documented formulas on three pixels of channels 0, 1, 2
fn preset_pixel(k: usize, v: [i32; 3]) -> [i32; 3] {
    let a710 = |r: i32, g: i32, b: i32| {
        let r2 = r - g;
        let b2 = b - (g * 2 + r2) / 2;
        (r2, g + (b2 * 2 + r2 * 3) / 8, b2)
    };
    match k {
        0 => v,
        1 => {
            let (r, b) = (v[0] - v[1], v[2] - v[1]);
            [r, v[1] + (r + b) / 4, b]
        }
        2 => {
            let (r, g, b) = a710(v[2], v[1], v[0]);
            [b, g, r]
        }
        _ => {
            let (r, g, b) = a710(v[0], v[1], v[2]);
            [r, g, b]
        }
    }
}
/// what a program says about itself, in both directions
fn inspect(prog: &gfwx::ColorTransformProgram, want: &Prog, planes: usize) -> R {
    let flat = |t: &gfwx::ChannelTransform| {
        let f: Vec<(usize, i64)> = t.channel_factors.iter().map(|f| (f.src_channel, f.factor as i64)).collect();
        (t.dest_channel, f, t.denominator as i64, t.is_chroma)
    };
    let wanted: Vec<_> = want.iter().map(|t| (t.dest, t.factors.clone(), t.den, t.chroma)).collect();
    let got: Vec<_> = prog.iter().map(flat).collect();
    if got != wanted {
        return Err(format!("iter gives {:?} instead of {:?}", got, wanted));
    }
    let mut back: Vec<_> = prog.iter().rev().map(flat).collect();
    back.reverse();
    if back != wanted {
        return Err(format!("iter().rev() gives {:?} reversed", back));
    }
    for c in 0..planes + 2 {
        let w = want.iter().any(|t| t.dest == c && (t.den > 1 || !t.factors.is_empty()));
        if prog.is_channel_has_transform(c) != w {
            return Err(format!("is_channel_has_transform({}) is not {} for {:?}", c, w, want));
        }
    }
    Ok(())
}

pub fn c23(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    let k = index as usize % 4;
    let (name, ints) = PRESETS[k];
    let mut p = small_params(r);
    p.channels = r.usize(3, 6);
    p.layers = r.usize(1, 3);
    if k == 0 && r.pct(10) {
        // the flags need channels 1 and 2 of any layer
        p.channels = 1;
        p.layers = r.usize(3, 5);
    }
    if cx.small {
        p.w = p.w.min(5);
        p.h = p.h.min(5);
    }
    let planes = p.planes();
    let prog = gen::preset(k);
    if model::program_ints(&prog) != ints {
        panic!("the model's preset {} is not that of the reference", name);
    }
    cx.detail = format!("{} {:?}", name, p);
    let pr = s::guard(|| preset_program(k))?;
    inspect(&pr, &prog, planes).map_err(|e| format!("{}: {}", name, e))?;
    let mut bytes = vec![];
    let flags = s::guard(|| pr.encode(planes, &mut bytes))?.map_err(|e| format!("{}: encode: {}", name, e))?;
    if bytes != model::program_bytes(&prog) {
        return Err(format!("{} is written as {}, the reference writes {}", name, hex(&bytes), hex(&model::program_bytes(&prog))));
    }
    let chroma = model::chroma_flags(&prog, planes);
    if flags != chroma {
        return Err(format!("{} flags {:?} as chroma", name, flags));
    }
    let mut img = gen::image(r, &p);
    if index / 4 % 3 == 0 {
        // colours at the corners of the cube, where divisions round differently
        for x in img.iter_mut() {
            *x = *r.pick(&[0, 1, 2, 3, 127, 128, 252, 253, 254, 255]);
        }
    }
    cx.detail = format!("{} {:?} image {}", name, p, hex(&img));
    let h = s::header(&p)?;
    let boost = p.boost();
    let size = p.w * p.h;
    let at = |c: usize, i: usize| ((c / p.channels) * size + i) * p.channels + c % p.channels;
    let mut want = vec![0i16; img.len()];
    for c in 0..planes {
        for i in 0..size {
            want[c * size + i] = i16::from(img[at(c, i)]) * boost as i16;
        }
    }
    for i in 0..size {
        let v = preset_pixel(k, [i32::from(want[i]), i32::from(want[size + i]), i32::from(want[2 * size + i])]);
        for c in 0..3 {
            want[c * size + i] = v[c] as i16;
        }
    }
    let mut aux: Vec<i16> = (0..img.len()).map(|_| r.u32() as i16).collect();
    s::guard(|| pr.transform_and_to_planar(&img, &h, &mut aux))?;
    if aux != want {
        return Err(format!("{}: not the documented transform, {}", name, first_diff(&aux, &want)));
    }
    let mut out = vec![0u8; img.len()];
    s::guard(|| pr.detransform_and_to_interleaved(&mut aux, &h, size, &mut out))?;
    if out != img {
        return Err(format!("{}: detransform gives another image, {}", name, first_diff(&out, &img)));
    }
    // through the codec: lossless, with the flagged channels coded with chroma quality
    let mut q = p;
    q.quality = 1024;
    q.chroma_scale = 1;
    let hq = s::header(&q)?;
    let mut buf = vec![0u8; s::stream_room(&q, &prog)];
    let n = s::compress_into(&hq, &pr, &img, &mut buf)??;
    let (v, out) = s::decompress(&buf[..n], 0)?;
    if v != Ok(0) || out != img {
        return Err(format!("{}: quality 1024 is not lossless ({:?}, {})", name, v, first_diff(&out, &img)));
    }
    let mut buf = vec![0u8; s::stream_room(&p, &prog)];
    let n = s::compress_into(&h, &pr, &img, &mut buf)??;
    let payload = s::compress_aux(&p, &chroma, &want)?;
    if buf[..n] != [&model::header_bytes(&p)[..], &bytes[..], &payload[..]].concat()[..] {
        return Err(format!("{}: compress_simple is not the coding of the documented transform with channels {:?} as chroma", name, chroma));
    }
    cx.count(name, 1);
    cx.count("preset_pixels", size as u64);
    cx.eval(if img.iter().any(|&x| x != img[0]) { Some(hash_bytes(hash_bytes(23, format!("{} {:?}", name, p).as_bytes()), &img)) } else { None });
    cx.sample(|| format!("{} on {}x{} with {} planes, boost {}: bytes, flags and pixels as documented", name, p.w, p.h, planes, boost));

    // builders: what is put in comes out, in order
    let planes = r.usize(1, 9);
    let mut prog = code_program(r, planes);
    if r.pct(40) {
        gen::make_wild(r, &mut prog);
    }
    cx.detail = format!("program {:?}", prog);
    let mut pr = gfwx::ColorTransformProgram::new();
    for t in &prog {
        let mut b = gfwx::ChannelTransformBuilder::with_dest_channel(t.dest);
        // settings in any order, repeated
        let (mut den, mut chroma, mut left) = (false, !t.chroma, &t.factors[..]);
        while !den || !chroma || !left.is_empty() {
            match r.below(4) {
                0 => {
                    if r.pct(20) {
                        b.set_denominator(r.usize(1, 300) as isize);
                    }
                    b.set_denominator(t.den as isize);
                    den = true;
                }
                1 if t.chroma => {
                    b.set_chroma();
                    chroma = true;
                }
                2 if !left.is_empty() => {
                    b.add_channel_factor(left[0].0, left[0].1 as isize);
                    left = &left[1..];
                }
                _ => {}
            }
        }
        let one = s::guard(|| b.build())?;
        if s::guard(|| b.build())? != one {
            return Err("the same builder builds two different transforms".into());
        }
        pr.add_channel_transform(one);
    }
    s::guard(|| inspect(&pr, &prog, planes))??;
    let copy = pr.clone();
    if copy != pr || gfwx::ColorTransformProgram::default() != gfwx::ColorTransformProgram::new() {
        return Err("a copy of a program is another program".into());
    }
    if let Some(t) = prog.last() {
        // another denominator, factor, flag or destination is another program
        let mut other = prog.clone();
        let l = other.last_mut().unwrap();
        match r.below(4) {
            0 => l.den = t.den % 32767 + 1,
            1 => l.factors.push((0, 1)),
            2 => l.chroma = !t.chroma,
            _ => l.dest += 1,
        }
        if s::program(&other) == pr {
            return Err(format!("{:?} equals {:?}", other, prog));
        }
    }
    for den in [0, -1, -(r.below(70000) as isize)] {
        let refused = s::guard(|| {
            gfwx::ChannelTransformBuilder::with_dest_channel(0).set_denominator(den);
        });
        if refused.is_ok() {
            return Err(format!("the builder accepts the denominator {}", den));
        }
    }
    cx.count("built_programs", 1);
    cx.eval(if prog.len() > 1 { Some(mix(hash_bytes(123, &model::program_bytes(&prog)))) } else { None });
    Ok(())
}
