//! C20: quantizer.
use crate::cx::{first_diff, Cx, R};
use crate::gen;
use crate::model;
use crate::rng::{hash_bytes, hash_i16, Rng};
use crate::subject as s;
use gfwx::quant;

fn subject(inverse: bool, w: usize, v: &[i16], q: i64, min: i64, max: i64) -> Result<Vec<i16>, String> {
    let mut v = v.to_vec();
    s::guard(|| {
        let mut rows = s::rows(&mut v, w);
        if inverse {
            quant::dequantize(&mut rows, q as i32, min as i32, max as i32);
        } else {
            quant::quantize(&mut rows, q as i32, min as i32, max as i32);
        }
    })?;
    Ok(v)
}

/// the definition, written without the model's code
fn spec_quant(x: i16, q: i64, max: i64) -> i16 {
    let a = i64::from(x).abs() * q / max;
    (if x < 0 { -a } else { a }) as i16
}
fn spec_dequant(x: i16, q: i64, max: i64) -> i16 {
    let a = i64::from(x).abs();
    let v = if a == 0 { 0 } else { (a * max + max / 2) / q };
    (if x < 0 { -v } else { v }) as i16
}

fn one(cx: &mut Cx, w: usize, h: usize, v: &[i16], q: i64, min: i64, max: i64) -> R {
    let what = || format!("{}x{} quality {} min {} max {}", w, h, q, min, max);
    let sched = model::schedule(w, h, q, min, max);
    let level = |i: usize| model::q_at(&sched, i % w, i / w);
    let a = subject(false, w, v, q, min, max)?;
    let want: Vec<i16> = (0..v.len()).map(|i| level(i).map_or(v[i], |k| spec_quant(v[i], k, max))).collect();
    if a != want {
        return Err(format!("quantize {}: {}", what(), first_diff(&a, &want)));
    }
    let d = subject(true, w, v, q, min, max)?;
    let want: Vec<i16> = (0..v.len()).map(|i| level(i).map_or(v[i], |k| spec_dequant(v[i], k, max))).collect();
    if d != want {
        return Err(format!("dequantize {}: {}", what(), first_diff(&d, &want)));
    }
    #[cfg(feature = "cpp")]
    {
        let mut c = v.to_vec();
        crate::refcpp::quantize(&mut c, w, h, q, min, max);
        if c != a {
            cx.inconclusive.push(format!("reference quantizer disagrees with its definition: {}", what()));
        }
        let mut c = v.to_vec();
        crate::refcpp::dequantize(&mut c, w, h, q, min, max);
        if c != d {
            cx.inconclusive.push(format!("reference dequantizer disagrees with its definition: {}", what()));
        }
        cx.count("oracle.reference_quantizer", 1);
    }
    let b = subject(true, w, &a, q, min, max)?;
    for i in 0..v.len() {
        let (x, y) = (i64::from(v[i]), i64::from(b[i]));
        match level(i) {
            None => {
                if x != y || a[i] != v[i] {
                    return Err(format!("{}: coefficient {} changes although it is not quantized", what(), i));
                }
                cx.count("coefficients.untouched", 1);
            }
            Some(k) => {
                // the reconstruction point itself fits 16 bits
                if x.abs() > 32767 - max / (2 * k) - 1 {
                    continue;
                }
                if (x - y).abs() * k >= max || (y != 0 && x.signum() != y.signum()) || (x == 0 && y != 0) {
                    return Err(format!("{}: coefficient {} becomes {} with q {}", what(), x, y, k));
                }
                cx.count("coefficients.quantized", 1);
            }
        }
    }
    cx.eval(if w * h > 1 && !sched.is_empty() { Some(hash_i16(hash_bytes(20, format!("{} {} {} {}", w, q, min, max).as_bytes()), v)) } else { None });
    Ok(())
}

pub fn c20(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    let codec_max = *r.pick(&[1024i64, 8192]);
    if index < 1200 && !cx.small {
        // every 16-bit value at one q: the second row of a two-row image is level 1
        let q = if index < 1024 { index as i64 + 1 } else { r.range(1, codec_max) };
        let v: Vec<i16> = (0..2 * 65536).map(|i| (i % 65536 - 32768) as i16).collect();
        cx.detail = format!("all values, quality {} max {}", q, codec_max);
        one(cx, 65536, 2, &v, q, 0, codec_max)?;
        cx.count("qualities_with_all_values", 1);
        return Ok(());
    }
    for _ in 0..4 {
        let max_samples = *r.pick(&[30, 300, 3000, 30_000]);
        let (mut w, mut h) = gen::dims(r, if cx.small { 60 } else { max_samples });
        // ten levels and more
        let deep = !cx.small && !r.fuzzing && r.below(400) == 0;
        if deep {
            w = r.usize(513, 1100);
            h = r.usize(513, 1100);
            cx.count("deep_schedules", 1);
        }
        let max = match r.below(4) {
            0 => 1024,
            1 => 8192,
            2 => r.range(1, 32767),
            _ => *r.pick(&[1, 2, 3, 7, 32767, 1023, 1025]),
        };
        let q = match r.below(4) {
            0 => r.range(1, 1024),
            // downsampling shifts the quality
            1 => r.range(1, 1024) << r.below(12),
            2 => r.range(1, max),
            _ => *r.pick(&[0, 1, 2, 3, max, max - 1, max / 2, max + 1]),
        };
        let q = if deep { r.range(1, 15) } else { q };
        let max = if deep { r.range(2048, 32767) } else { max };
        let min = if r.pct(70) { 0 } else { r.range(0, max + 2) };
        let p = model::P { w, h, layers: 1, channels: 1, quality: 1024, chroma_scale: 1, block_size: 2, filter: 0, encoder: 0, intent: 0, metadata: 0 };
        let v = if r.pct(50) { gen::coefs(r, w * h) } else { gen::aux(r, &p, 32767) };
        cx.detail = format!("{}x{} quality {} min {} max {} {:?}", w, h, q, min, max, &v[..v.len().min(4000)]);
        one(cx, w, h, &v, q, min, max)?;
        cx.count("random_schedules", 1);
        cx.sample(|| format!("{}x{} quality {} min {} max {}: levels {:?}", w, h, q, min, max, model::schedule(w, h, q, min, max)));
    }
    Ok(())
}
