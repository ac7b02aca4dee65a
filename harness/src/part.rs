//! C16: partitioning iterators.
use crate::cx::{Cx, R};
use crate::rng::{hash_bytes, Rng};
use crate::subject as s;
use gfwx::processing::image::Image;
use gfwx::processing::{DoubleOverlappingChunksIterator, OverlappingChunksIterator, VariableChunksIterator};

fn values(n: usize) -> Vec<u32> {
    (0..n as u32).map(|x| x * 7 + 3).collect()
}
/// the k-th chunk of `step` elements
fn chunk(v: &[u32], step: usize, k: isize) -> &[u32] {
    if k < 0 {
        return &[];
    }
    v.chunks(step).nth(k as usize).unwrap_or(&[])
}

fn overlapping(len: usize, step: usize) -> R {
    let orig = values(len);
    let mut v = orig.clone();
    s::guard(|| -> R {
        let mut items: Vec<_> = OverlappingChunksIterator::from_slice(&mut v, step).collect();
        let n = (len + step - 1) / step / 2;
        if items.len() != n {
            return Err(format!("OverlappingChunksIterator gives {} items for length {} and step {}, not {}", items.len(), len, step, n));
        }
        for (i, it) in items.iter().enumerate() {
            let k = 2 * i as isize + 1;
            if it.0 != chunk(&orig, step, k - 1) || *it.1 != *chunk(&orig, step, k) || it.2 != chunk(&orig, step, k + 1) {
                return Err(format!("OverlappingChunksIterator item {} for length {} and step {}: {:?}", i, len, step, it));
            }
        }
        for it in items.iter_mut() {
            for x in it.1.iter_mut() {
                *x += 1;
            }
        }
        Ok(())
    })??;
    written(&orig, &v, step, "OverlappingChunksIterator")
}
fn written(orig: &[u32], v: &[u32], step: usize, what: &str) -> R {
    for i in 0..v.len() {
        if v[i] != orig[i] + (i / step % 2) as u32 {
            return Err(format!("{}: element {} of {} with step {} is not the middle of exactly one item", what, i, v.len(), step));
        }
    }
    Ok(())
}

fn double(len: usize, step: usize) -> R {
    let orig = values(len);
    let mut v = orig.clone();
    s::guard(|| -> R {
        let mut items: Vec<_> = DoubleOverlappingChunksIterator::from_slice(&mut v, step).collect();
        let n = (len + step - 1) / step / 2;
        if items.len() != n {
            return Err(format!("DoubleOverlappingChunksIterator gives {} items for length {} and step {}, not {}", items.len(), len, step, n));
        }
        for (i, it) in items.iter().enumerate() {
            let k = 2 * i as isize + 1;
            let c = |o: isize| chunk(&orig, step, k + o);
            if it.prev_left != c(-3) || it.left != c(-1) || *it.middle != *c(0) || it.right != c(1) || it.next_right != c(3) {
                return Err(format!(
                    "DoubleOverlappingChunksIterator item {} for length {} and step {}: {:?} {:?} {:?} {:?} {:?}",
                    i, len, step, it.prev_left, it.left, it.middle, it.right, it.next_right
                ));
            }
        }
        for it in items.iter_mut() {
            for x in it.middle.iter_mut() {
                *x += 1;
            }
        }
        Ok(())
    })??;
    written(&orig, &v, step, "DoubleOverlappingChunksIterator")
}

fn variable(len: usize, sizes: &[usize]) -> R {
    let v = values(len);
    s::guard(|| -> R {
        let items: Vec<_> = VariableChunksIterator::new(&v, sizes).collect();
        let mut want: Vec<&[u32]> = vec![];
        let mut pos = 0;
        for &k in sizes {
            if pos == len {
                break;
            }
            let end = pos + k.min(len - pos);
            want.push(&v[pos..end]);
            pos = end;
        }
        if items != want {
            return Err(format!("VariableChunksIterator for length {} and sizes {:?}: {:?}", len, sizes, items));
        }
        Ok(())
    })?
}

fn tiles(w: usize, h: usize, channels: usize, size: usize, step: usize) -> R {
    let mut v = vec![0u32; w * h * channels];
    s::guard(|| -> R {
        let chunks: Vec<_> = Image::from_slice(&mut v, (w, h), channels).into_chunks_mut(size, step).collect();
        let (nx, ny) = ((w + size - 1) / size, (h + size - 1) / size);
        let what = || format!("{}x{} with {} channels in chunks of {}", w, h, channels, size);
        if chunks.len() != nx * ny * channels {
            return Err(format!("{}: {} chunks instead of {}", what(), chunks.len(), nx * ny * channels));
        }
        for (i, c) in chunks.iter().enumerate() {
            let (x, y, ch) = (i % nx * size, i / nx % ny * size, i / nx / ny);
            let want = ((x, (x + size).min(w)), (y, (y + size).min(h)), ch, step);
            if (c.x_range, c.y_range, c.channel, c.step) != want {
                return Err(format!("{}: chunk {} is {:?} instead of {:?}", what(), i, (c.x_range, c.y_range, c.channel, c.step), want));
            }
        }
        Ok(())
    })??;
    // with step 1 every element except the origins is written by its own chunk through the checked index
    if step == 1 && w * h * channels < 4000 {
        s::guard(|| {
            for mut c in Image::from_slice(&mut v, (w, h), channels).into_chunks_mut(size, 1) {
                let (xr, yr, ch) = (c.x_range, c.y_range, c.channel);
                for y in yr.0..yr.1 {
                    for x in xr.0..xr.1 {
                        if y % 2 == 1 || x % 2 == 1 || (y, x) == (yr.0, xr.0) {
                            c[(y, x)] += ((ch * h + y) * w + x) as u32 + 1;
                        }
                    }
                }
            }
        })?;
        for (i, &x) in v.iter().enumerate() {
            let (px, py) = (i % (w * h) % w, i % (w * h) / w);
            let own = px % 2 == 1 || py % 2 == 1 || (px % size == 0 && py % size == 0);
            if x != if own { i as u32 + 1 } else { 0 } {
                return Err(format!("{}x{} with {} channels in chunks of {}: element {} was written as {}", w, h, channels, size, i, x));
            }
        }
    }
    Ok(())
}

/// which positions the checked accessors of each chunk allow
fn access(cx: &mut Cx, r: &mut Rng, w: usize, h: usize, channels: usize, size: usize, step: usize) -> R {
    // sometimes there are fewer elements than the image has
    let len = w * h * channels - if r.pct(20) { r.below(w * h + 1) } else { 0 };
    let mut v: Vec<u32> = (0..len).map(|i| i as u32).collect();
    let (mut reads, mut writes, mut refused) = (0, 0, 0);
    let n = ((w + size - 1) / size) * ((h + size - 1) / size) * channels;
    let only = if n > 12 { Some(r.below(n)) } else { None };
    for (i, mut c) in s::guard(|| Image::from_slice(&mut v, (w, h), channels).into_chunks_mut(size, step))?.enumerate() {
        if only.map_or(false, |k| k != i) {
            continue;
        }
        let (xr, yr, ch) = (c.x_range, c.y_range, c.channel);
        let mut at: Vec<(usize, usize)> = (0..h + 2).flat_map(|y| (0..w + 2).map(move |x| (y, x))).collect();
        for k in [usize::MAX, usize::MAX / w, usize::MAX / w + 1, w * h, usize::MAX - w] {
            at.push((k, r.below(w + 1)));
            at.push((r.below(h + 1), k));
        }
        for (y, x) in at {
            let own = (xr.0..xr.1).contains(&x) && (yr.0..yr.1).contains(&y);
            let level = (y, x) == (yr.0, xr.0) || (y % step == 0 && x % step == 0 && (y / step % 2 == 1 || x / step % 2 == 1));
            let what = |s: &str| format!("{}x{} with {} channels in chunks of {}, step {}: chunk {:?} {:?} of channel {} {} ({}, {})", w, h, channels, size, step, xr, yr, ch, s, y, x);
            let index = if y < h && x < w { (ch * h + y) * w + x } else { usize::MAX };
            let there = index < len;
            let want = index as u32;
            match s::guard(|| c[(y, x)]) {
                Ok(_) if !there || !(own || !level) => return Err(what("gives read access to")),
                Ok(g) if g != want => return Err(what("reads a wrong element at")),
                Ok(_) => reads += 1,
                Err(e) if there && (own || !level) => return Err(format!("{}: {}", what("refuses to read"), e)),
                Err(_) => refused += 1,
            }
            match s::guard(|| {
                let e = &mut c[(y, x)];
                let g = *e;
                *e = g;
                g
            }) {
                Ok(_) if !there || !(own && level) => return Err(what("gives write access to")),
                Ok(g) if g != want => return Err(what("writes a wrong element at")),
                Ok(_) => writes += 1,
                Err(e) if there && own && level => return Err(format!("{}: {}", what("refuses to write"), e)),
                Err(_) => refused += 1,
            }
        }
    }
    cx.count("checked_reads_granted", reads);
    cx.count("checked_writes_granted", writes);
    cx.count("checked_accesses_refused", refused);
    cx.eval(Some(hash_bytes(164, format!("{} {} {} {} {}", w, h, channels, size, step).as_bytes())));
    Ok(())
}

pub fn c16(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    // small cases completely
    let lim = if cx.small { 12 } else { 66 };
    if !cx.small && (index < 8 || index % 50_000 < 8) {
        // beyond 16-bit numbers of columns, rows, planes and chunks
        let n = *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_073]);
        let (w, h, channels) = match index % 4 {
            0 => (n, r.usize(1, 3), 1),
            1 => (r.usize(1, 3), n, 1),
            2 => (r.usize(1, 2), r.usize(1, 2), n),
            _ => (r.usize(300, 400), r.usize(300, 400), r.usize(1, 2)),
        };
        for size in [1, 2, r.usize(3, 300), n - 1, n, n + 1] {
            tiles(w, h, channels, size, 1 << r.below(18))?;
            cx.count("tilings_beyond_16_bits", 1);
        }
        let m = n + r.below(3);
        for step in [1, 2, r.usize(3, 300), m / 2, m - 1, 65_536] {
            if m / step <= 40 {
                double(m, step)?;
                overlapping(m, step)?;
            }
        }
        let sizes: Vec<usize> = (0..n).map(|i| usize::from(i % 3 != 1)).collect();
        variable(n / 2, &sizes)?;
        variable(200_000, &[70_000, 65_536, 0, 65_535, 1])?;
    }
    if index < lim {
        let len = index as usize;
        for step in 1..len + 4 {
            overlapping(len, step)?;
            double(len, step)?;
            cx.count("length_and_step_pairs_enumerated", 1);
            cx.eval(if len > step { Some(hash_bytes(16, format!("{} {}", len, step).as_bytes())) } else { None });
        }
        let w = len / 3 + 1;
        let top = if cx.small { 4 } else { 22 };
        for h in 1..top {
            for size in 1..w.max(h) + 3 {
                for channels in 1..4 {
                    tiles(w, h, channels, size, 1)?;
                    cx.count("tilings_enumerated", 1);
                }
                cx.eval(if w * h > size * size { Some(hash_bytes(161, format!("{} {} {}", w, h, size).as_bytes())) } else { None });
            }
        }
        if len < 7 && !cx.small {
            // every list of up to four sizes
            for code in 0..5000usize {
                let sizes: Vec<usize> = (0..code % 5).map(|i| code / 5 / [1, 6, 36, 216][i] % 6).collect();
                variable(len, &sizes)?;
                cx.count("size_lists_enumerated", 1);
            }
        }
        return Ok(());
    }
    {
        let m = if cx.small { 4 } else { 11 };
        let step = 1 << r.below(4);
        // blocks of the codec, and any
        let size = if r.pct(50) { step << r.below(3) } else { r.usize(1, m + 2) };
        let (w, h, channels) = (r.usize(1, m), r.usize(1, m), r.usize(1, 3));
        access(cx, r, w, h, channels, size, step)?;
    }
    for _ in 0..if cx.small { 2 } else { 20 } {
        let big = if cx.small { 20 } else { 3000 };
        let len = r.usize(0, big);
        let step = match r.below(3) {
            0 => 1 << r.below(12),
            1 => r.usize(1, len + 2),
            _ => r.usize(1, 20),
        };
        overlapping(len, step)?;
        double(len, step)?;
        cx.eval(if len > step { Some(hash_bytes(16, format!("{} {}", len, step).as_bytes())) } else { None });
        let n = r.below(12);
        let sizes: Vec<usize> = (0..n).map(|_| if r.pct(20) { 0 } else { r.below(len / 3 + 2) }).collect();
        variable(len, &sizes)?;
        cx.eval(if n > 1 { Some(hash_bytes(162, format!("{} {:?}", len, sizes).as_bytes())) } else { None });
        let m = if cx.small { 9 } else { 90 };
        let (w, h, channels) = (r.usize(1, m), r.usize(1, m), r.usize(1, if cx.small { 2 } else { 5 }));
        let (size, step) = (r.usize(1, m + 5), 1 << r.below(5));
        tiles(w, h, channels, size, step)?;
        cx.eval(if w * h > size * size { Some(hash_bytes(163, format!("{} {} {} {}", w, h, channels, size).as_bytes())) } else { None });
        cx.count("random_partitions", 4);
        cx.sample(|| format!("length {} step {}; sizes {:?}; {}x{}x{} in chunks of {}", len, step, sizes, w, h, channels, size));
    }
    Ok(())
}
