//! C15: lifting.
use crate::cx::{first_diff, Cx, R};
use crate::gen;
use crate::model;
use crate::rng::{hash_bytes, hash_i16, Rng};
use crate::subject as s;
use gfwx::lifting;

fn subject(filter: u8, inverse: bool, w: usize, v: &[i16]) -> Result<Vec<i16>, String> {
    let mut v = v.to_vec();
    s::guard(|| {
        let mut rows = s::rows(&mut v, w);
        match (filter, inverse) {
            (0, false) => lifting::lift_linear(&mut rows),
            (0, true) => lifting::unlift_linear(&mut rows),
            (_, false) => lifting::lift_cubic(&mut rows),
            (_, true) => lifting::unlift_cubic(&mut rows),
        }
    })?;
    Ok(v)
}

fn one(cx: &mut Cx, w: usize, h: usize, filter: u8, v: &[i16]) -> R {
    let up = subject(filter, false, w, v)?;
    let mut want = v.to_vec();
    model::lift(&mut want, w, h, filter);
    let name = ["linear", "cubic"][filter as usize];
    #[cfg(feature = "cpp")]
    {
        let mut c = v.to_vec();
        crate::refcpp::lift(&mut c, w, h, filter);
        if c != want {
            cx.inconclusive.push(format!("model and reference lifting disagree for {}x{}", w, h));
        }
        cx.count("oracle.reference_lift", 1);
    }
    if up != want {
        return Err(format!("lift_{} of {}x{}: {}", name, w, h, first_diff(&up, &want)));
    }
    let back = subject(filter, true, w, &up)?;
    if back != v {
        return Err(format!("unlift_{} after lift_{} of {}x{}: {}", name, name, w, h, first_diff(&back, v)));
    }
    // the other way round: any coefficients
    let down = subject(filter, true, w, v)?;
    let mut want = v.to_vec();
    model::unlift(&mut want, w, h, filter);
    #[cfg(feature = "cpp")]
    {
        let mut c = v.to_vec();
        crate::refcpp::unlift(&mut c, w, h, filter);
        if c != want {
            cx.inconclusive.push(format!("model and reference unlifting disagree for {}x{}", w, h));
        }
    }
    if down != want {
        return Err(format!("unlift_{} of {}x{}: {}", name, w, h, first_diff(&down, &want)));
    }
    let again = subject(filter, false, w, &down)?;
    if again != v {
        return Err(format!("lift_{} after unlift_{} of {}x{}: {}", name, name, w, h, first_diff(&again, v)));
    }
    cx.count("samples", (w * h) as u64);
    cx.count(&format!("filter.{}", name), 1);
    cx.max("max.dimension", w.max(h) as u64);
    cx.eval(if w * h > 1 { Some(hash_i16(hash_bytes(15, &[filter]) ^ w as u64, v)) } else { None });
    Ok(())
}

pub fn c15(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    // every small pair of dimensions
    let n = 40;
    let (w, h) = if index < n * n {
        cx.count("dimension_pairs_enumerated", 1);
        (index as usize % n as usize + 1, index as usize / n as usize + 1)
    } else {
        let max = *r.pick(&[50, 500, 5000, 40_000, 300_000]);
        gen::dims(r, if cx.small { max.min(40) } else { max })
    };
    for filter in 0..2 {
        for k in if cx.small { 2..3 } else { 0..3 } {
            let p = model::P { w, h, layers: 1, channels: 1, quality: 1024, chroma_scale: 1, block_size: 2, filter, encoder: 0, intent: 0, metadata: 0 };
            let limit = *r.pick(&[255, 2040, 16000, 32767, 32767]);
            let mut v = gen::aux(r, &p, limit);
            if k == 2 {
                for x in v.iter_mut() {
                    match r.below(8) {
                        0 => *x = -32768,
                        1 => *x = 32767,
                        2 | 3 => *x = r.u32() as i16,
                        _ => {}
                    }
                }
                cx.count("wrapping_images", 1);
            }
            cx.detail = format!("{}x{} filter {} {:?}", w, h, filter, &v[..v.len().min(4000)]);
            one(cx, w, h, filter, &v)?;
            cx.sample(|| format!("{}x{} filter {}: equal to the reference transform, both inverses restore", w, h, filter));
        }
    }
    Ok(())
}
