//! Workload generators.
use crate::model::{Prog, Term, P};
use crate::rng::Rng;

pub const INTENTS: [u8; 6] = [0, 7, 8, 10, 11, 12];

/// a dimension pair of at most `max` samples
pub fn dims(r: &mut Rng, max: usize) -> (usize, usize) {
    let max = if r.fuzzing { max.min(400) } else { max };
    let (mut w, mut h) = if r.fuzzing && r.pct(80) {
        let a = r.usize(1, 400);
        let b = r.usize(1, 400).min((max / a).max(1));
        if r.pct(50) {
            (a, b)
        } else {
            (b, a)
        }
    } else {
        match r.below(100) {
            0..=29 => (r.usize(1, 9), r.usize(1, 9)),
            30..=54 => (r.usize(1, 40), r.usize(1, 40)),
            55..=66 => {
                let n = match r.below(6) {
                    0 => r.usize(1, 10000),
                    1 | 2 => r.usize(1, 2100),
                    _ => r.usize(1, 300),
                };
                let m = *r.pick(&[1, 1, 1, 2, 2, 3, 4, 5]);
                if r.pct(50) {
                    (n, m)
                } else {
                    (m, n)
                }
            }
            67..=82 => {
                // around powers of two
                let mut near = |r: &mut Rng| {
                    let k = r.below(9);
                    ((1i64 << k) + r.range(-1, 1)).max(1) as usize
                };
                (near(r), near(r))
            }
            83..=87 => (r.usize(20, 140), r.usize(20, 140)),
            88..=93 => {
                let mut any = |r: &mut Rng| {
                    let k = r.below(12);
                    (1 << k) + r.below(1 << k)
                };
                (any(r), any(r))
            }
            _ => (r.usize(100, 320), r.usize(100, 320)),
        }
    };
    while w * h > max {
        if w >= h {
            w = (w / 2).max(1);
        } else {
            h = (h / 2).max(1);
        }
    }
    (w, h)
}

pub fn quality(r: &mut Rng) -> i32 {
    if r.fuzzing {
        return r.range(1, 1024 + 256).min(1024) as i32;
    }
    match r.below(10) {
        0..=2 => 1024,
        3..=5 => r.range(1, 1023) as i32,
        6 => r.range(1, 40) as i32,
        7 => r.range(900, 1023) as i32,
        _ => *r.pick(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 767, 1022, 1023]),
    }
}

/// bytes of metadata the header announces; the caller writes and skips them
fn metadata(r: &mut Rng) -> u32 {
    if r.pct(88) {
        return 0;
    }
    match r.below(6) {
        0 | 1 => 4 * r.usize(1, 30) as u32,
        2 => r.usize(1, 2000) as u32,
        3 => *r.pick(&[0xffff_ffff, 0xffff_fffc, 0x8000_0000, 0x1_0000, 0x3fff_fffc]),
        _ => r.u32(),
    }
}

/// what `params` takes for an image beyond 16-bit sizes
pub const HUGE: usize = 1_400_000;

/// what `params` takes for more samples than a 32-bit float counts
pub const COLOSSAL: usize = 17_800_000;

fn colossal(r: &mut Rng) -> P {
    let mut p = huge(r);
    p.channels = 1;
    p.layers = 1;
    p.block_size = r.usize(6, 12) as u32;
    match r.below(3) {
        0 => {
            p.w = (1 << 24) + r.usize(1, 5);
            p.h = 1;
        }
        1 => {
            p.w = r.usize(4097, 4220);
            p.h = (1 << 24) / p.w + 2;
        }
        _ => {
            p.w = r.usize(2300, 2350);
            p.h = (1 << 24) / 3 / p.w + 50;
            p.channels = 3;
        }
    }
    p
}

/// more than 65536 blocks, columns, rows, planes or equal coefficients in a block
fn huge(r: &mut Rng) -> P {
    let mut p = P {
        w: 1,
        h: 1,
        layers: 1,
        channels: 1,
        quality: quality(r),
        chroma_scale: *r.pick(&[1, 2, 8, 100]),
        block_size: r.usize(2, 9) as u32,
        filter: r.below(2) as u8,
        encoder: r.below(3) as u8,
        intent: *r.pick(&INTENTS),
        metadata: metadata(r),
    };
    match r.below(9) {
        8 => {
            // more than 20 levels
            p.w = *r.pick(&[(1usize << 20) + 1, (1 << 20) + 1, 1 << 20, 1_300_000, (1 << 21) + 1]);
            if r.pct(50) {
                std::mem::swap(&mut p.w, &mut p.h);
            }
        }
        0 | 1 => {
            p.w = r.usize(1000, 1180);
            p.h = r.usize(1_070_000 / p.w, 1180);
            p.block_size = 2;
        }
        2 | 3 => {
            p.w = *r.pick(&[32767usize, 32768, 32769, 65535, 65536, 65537, 66000, 131_071, 131_073, 200_000]);
            p.h = r.usize(1, 4);
            if r.pct(50) {
                std::mem::swap(&mut p.w, &mut p.h);
            }
        }
        4 => {
            p.w = r.usize(1, 3);
            p.h = r.usize(1, 2);
            if r.pct(50) {
                p.channels = r.usize(250, 330);
                p.layers = r.usize(250, 330);
            } else {
                p.channels = *r.pick(&[65535usize, 65534, 40000]);
                p.layers = r.usize(1, 2);
                if r.pct(50) {
                    std::mem::swap(&mut p.channels, &mut p.layers);
                }
            }
        }
        _ => {
            p.w = r.usize(300, 1150);
            p.h = r.usize(300, 1150);
            p.block_size = *r.pick(&[8, 9, 10, 12, 20, 30]);
            if r.pct(60) {
                p.quality = 1024;
            } else if r.pct(50) {
                // many levels are quantized
                p.quality = r.range(1, 12) as i32;
                p.chroma_scale = r.range(1, 3) as i32;
            }
        }
    }
    p
}

pub fn params(r: &mut Rng, max: usize) -> P {
    if max >= COLOSSAL && !r.fuzzing {
        return colossal(r);
    }
    if max >= HUGE && !r.fuzzing {
        return huge(r);
    }
    let max = if r.fuzzing { max.min(400) } else { max };
    let (w, h) = dims(r, max);
    let room = (max / (w * h)).max(1);
    let channels = match r.below(20) {
        0..=5 => 1,
        6 | 7 => 2,
        8..=12 => 3,
        13..=15 => 4,
        16 | 17 => r.usize(1, 6),
        18 => r.usize(1, 20),
        _ => r.usize(1, 400),
    }
    .min(room);
    let room = (room / channels).max(1);
    let layers = match r.below(20) {
        0..=12 => 1,
        13..=15 => 2,
        16 => 3,
        17 | 18 => r.usize(1, 6),
        _ => r.usize(1, 300),
    }
    .min(room);
    let block_size = match r.below(20) {
        0..=7 => 2,
        8..=11 => 3,
        12..=13 => 4,
        14..=16 => r.usize(2, 8),
        17 => 7,
        _ => r.usize(2, 30),
    } as u32;
    P {
        w,
        h,
        layers,
        channels,
        quality: quality(r),
        chroma_scale: match r.below(6) {
            0 => 1,
            1 | 2 => 8,
            3 => *r.pick(&[2, 3, 4, 16, 32, 255]),
            _ => r.range(1, 255) as i32,
        },
        block_size,
        filter: r.below(2) as u8,
        encoder: r.below(3) as u8,
        intent: *r.pick(&INTENTS),
        metadata: metadata(r),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dens {
    Any,
    /// not 2, 4, 8
    NoShift,
}

pub fn term(dest: usize, f: &[(usize, i64)], den: i64, chroma: bool) -> Term {
    Term { dest, factors: f.to_vec(), den, chroma }
}

/// The presets of the library, written out.
pub fn preset(k: usize) -> Prog {
    match k {
        0 => vec![term(1, &[], 1, true), term(2, &[], 1, true)],
        1 => vec![term(0, &[(1, -1)], 1, true), term(2, &[(1, -1)], 1, true), term(1, &[(0, 1), (2, 1)], 4, false)],
        2 => vec![term(2, &[(1, -1)], 1, true), term(0, &[(1, -2), (2, -1)], 2, true), term(1, &[(0, 2), (2, 3)], 8, false)],
        _ => vec![term(0, &[(1, -1)], 1, true), term(2, &[(1, -2), (0, -1)], 2, true), term(1, &[(2, 2), (0, 3)], 8, false)],
    }
}

/// A well-formed program: distinct destinations, no channel that is its own source.
pub fn program(r: &mut Rng, planes: usize, dens: Dens, extreme: bool) -> Prog {
    match r.below(10) {
        0..=2 => return vec![],
        3..=5 if planes >= 3 => {
            let k = r.below(if dens == Dens::NoShift { 1 } else { 4 });
            return preset(k);
        }
        _ => {}
    }
    random_program(r, planes, dens, extreme)
}

pub fn random_program(r: &mut Rng, planes: usize, dens: Dens, extreme: bool) -> Prog {
    let mut order: Vec<usize> = (0..planes).collect();
    for i in (1..planes).rev() {
        order.swap(i, r.below(i + 1));
    }
    let n = if r.pct(70) { r.usize(0, planes.min(4)) } else { r.usize(0, planes.min(40)) };
    order[..n]
        .iter()
        .map(|&dest| {
            let mut factors = vec![];
            if planes > 1 {
                let k = if r.pct(90) { r.below(4) } else { r.below(12) };
                for _ in 0..k {
                    let mut s = r.below(planes);
                    if s == dest {
                        s = (s + 1) % planes;
                    }
                    let f = if extreme && r.pct(40) {
                        match r.below(4) {
                            0 => r.range(-32768, 32767),
                            1 => *r.pick(&[-32768, 32767, -32767, 128, -128, 4096, -4096]),
                            2 => r.range(-2_000_000_000, 2_000_000_000),
                            _ => r.range(-300, 300),
                        }
                    } else {
                        r.range(-5, 5)
                    };
                    factors.push((s, f));
                }
            }
            let mut den = match r.below(6) {
                0..=2 => 1,
                3 => *r.pick(&[2, 4, 8]),
                4 => r.range(1, 20),
                _ => {
                    if extreme {
                        *r.pick(&[32767, 256, 255, 16384, 1000])
                    } else {
                        r.range(1, 300)
                    }
                }
            };
            if dens == Dens::NoShift && (den == 2 || den == 4 || den == 8) {
                den += 1;
            }
            Term { dest, factors, den, chroma: r.pct(40) }
        })
        .collect()
}

/// Any program is coded, also ones that transform a channel twice or from itself.
pub fn make_wild(r: &mut Rng, prog: &mut Prog) {
    for _ in 0..r.usize(1, 2) {
        if prog.is_empty() || prog.len() > 60 {
            return;
        }
        let i = r.below(prog.len());
        if r.pct(70) {
            let mut t = prog[i].clone();
            t.chroma = r.pct(50);
            if r.pct(50) {
                t.factors.truncate(1);
            }
            let at = r.usize(i + 1, prog.len());
            prog.insert(at, t);
        } else {
            let d = prog[i].dest;
            let f = r.range(-3, 3);
            prog[i].factors.push((d, f));
        }
    }
}

/// pixels, interleaved
pub fn image(r: &mut Rng, p: &P) -> Vec<u8> {
    let n = p.samples();
    let mut v = vec![0u8; n];
    let layer = p.w * p.h * p.channels;
    if r.fuzzing && r.pct(50) {
        for x in v.iter_mut() {
            *x = r.below(256) as u8;
        }
        return v;
    }
    let kind = if n > 80_000 && r.pct(40) { *r.pick(&[0, 6, 7, 13, 15]) } else { r.below(16) };
    let (a, b) = (r.u32() as u8, r.u32() as u8);
    let per = r.usize(1, 9);
    let amp = *r.pick(&[1u64, 2, 3, 5, 10, 40, 255]);
    let density = *r.pick(&[0usize, 1, 2, 5, 20, 60]);
    let base_seed = r.u64();
    let mut s = Rng::new(base_seed);
    for i in 0..n {
        let l = i / layer;
        let c = i % p.channels;
        let xy = (i % layer) / p.channels;
        let (x, y) = (xy % p.w, xy / p.w);
        v[i] = match kind {
            0 => a,
            1 | 2 => s.u32() as u8,
            // smooth with noise
            3 | 4 | 5 => {
                let g = (x as i64 * (1 + c as i64 + l as i64)) / 2 + y as i64 * 3 / 2 + i64::from(a);
                (g + (s.u64() % (amp + 1)) as i64) as u8
            }
            // mostly constant
            6 | 7 => {
                if s.below(1000) < density * 10 {
                    s.u32() as u8
                } else {
                    a
                }
            }
            8 => {
                if (x + y) % 2 == 0 {
                    0
                } else {
                    255
                }
            }
            9 => {
                if (x / per + y / per) % 2 == 0 {
                    a
                } else {
                    b
                }
            }
            10 => {
                if s.u64() & 1 == 0 {
                    0
                } else {
                    255
                }
            }
            // low amplitude noise: runs and run coder changes
            11 => a.wrapping_add((s.u64() % (amp + 1)) as u8),
            12 => {
                if x % per == 0 {
                    255
                } else {
                    b
                }
            }
            // regions with different statistics
            13 => {
                if x * 2 < p.w {
                    a
                } else if y * 2 < p.h {
                    s.u32() as u8
                } else {
                    (x * 7 + y) as u8
                }
            }
            14 => {
                let dx = x as i64 - p.w as i64 / 2;
                let dy = y as i64 - p.h as i64 / 2;
                ((dx * dx + dy * dy) / (1 + per as i64 * 4)).min(255) as u8
            }
            // one impulse per block
            _ => {
                if x % (per * 8) == per && y % (per * 8) == per {
                    !a
                } else {
                    a
                }
            }
        };
    }
    v
}

/// auxiliary data, planar; `limit` bounds the magnitude
pub fn aux(r: &mut Rng, p: &P, limit: i32) -> Vec<i16> {
    let n = p.samples();
    let size = p.w * p.h;
    let kind = if n > 80_000 && r.pct(40) { *r.pick(&[0, 5, 9]) } else { r.below(10) };
    let density = *r.pick(&[0usize, 1, 5, 20, 100, 300]);
    let amp = i64::from(*r.pick(&[1, 2, 4, 20, 200, 2000, limit]).min(&limit));
    let k = r.range(-i64::from(limit), i64::from(limit)) as i16;
    (0..n)
        .map(|i| {
            let (x, y) = ((i % size) % p.w, (i % size) / p.w);
            match kind {
                0 => k,
                1 | 2 => r.range(-i64::from(limit), i64::from(limit)) as i16,
                3 | 4 => r.range(-amp, amp) as i16,
                5 => {
                    if r.below(1000) < density {
                        r.range(-i64::from(limit), i64::from(limit)) as i16
                    } else {
                        0
                    }
                }
                6 => {
                    if (x + y) % 2 == 0 {
                        limit as i16
                    } else {
                        -limit as i16
                    }
                }
                7 => {
                    if r.u64() & 1 == 0 {
                        limit as i16
                    } else {
                        -limit as i16
                    }
                }
                8 => ((x as i64 * 37 + y as i64 * 11) % i64::from(limit.max(2)) - i64::from(limit) / 2) as i16,
                _ => {
                    if r.below(1000) < density {
                        r.range(-amp, amp) as i16
                    } else {
                        k
                    }
                }
            }
        })
        .collect()
}

/// coefficients with the statistics entropy coders see
pub fn coefs(r: &mut Rng, n: usize) -> Vec<i16> {
    let mut v = vec![0i16; n];
    let mut i = 0;
    while i < n {
        let len = r.usize(1, (n / 3).max(1));
        let kind = r.below(9);
        let amp = *r.pick(&[1i64, 1, 2, 3, 8, 30, 200, 3000, 32767]);
        let density = *r.pick(&[5usize, 50, 300]);
        for x in v[i..(i + len).min(n)].iter_mut() {
            *x = match kind {
                0 | 1 => 0,
                2..=4 => r.range(-amp, amp) as i16,
                5 => *r.pick(&[32767, -32767, -32768, 4095, 4096, 4097, -4096, 0, 1, -1]),
                6 | 7 => {
                    if r.below(1000) < density {
                        r.range(-amp, amp) as i16
                    } else {
                        0
                    }
                }
                _ => {
                    let e = r.below(15) as u32;
                    r.range(-(1 << e), 1 << e) as i16
                }
            };
        }
        i += len;
    }
    v
}
