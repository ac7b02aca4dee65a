//! C29: how the work of calls grows with the size of what they get.
use crate::codec::hostile;
use crate::cx::{Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Prog, Term, P};
use crate::rng::{hash_bytes, Rng};
use crate::subject as s;
use crate::alloc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Edges of the control flow that were taken, in a build with -sanitizer-coverage-trace-pc-guard:
/// unlike time, the same in every run and on every machine.
static EDGES: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    EDGES.store(EDGES.load(Relaxed).wrapping_add(1), Relaxed);
}
/// # Safety
/// called by instrumented code
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// steps taken and bytes allocated
fn work(f: &mut Call) -> Result<[u64; 2], String> {
    let (e, a) = (EDGES.load(Relaxed), alloc::total());
    f()?;
    Ok([EDGES.load(Relaxed) - e, (alloc::total() - a) as u64])
}

type Call = Box<dyn FnMut() -> R>;

/// what is measured, and how many times the work may grow
struct Pair {
    what: String,
    one: Call,
    many: Call,
    times: f64,
    slack: f64,
    /// fewer steps than these are how well the data happen to compress
    least: u64,
    /// fewer bytes than these are those of a small image, which is not worth lists for several threads
    room: u64,
}

/// beyond proportional: borders, loops that are left early, levels, capacities rounded up
const SLACK: f64 = 6.0;

fn image(r: &mut Rng, p: &P) -> Vec<u8> {
    // the same kind of content at every size
    let seed = r.u64();
    let amp = *r.pick(&[1usize, 4, 40, 256]);
    let mut q = Rng::new(seed);
    (0..p.samples()).map(|_| q.below(amp) as u8).collect()
}

fn compressing(p: &P, prog: &Prog, img: Vec<u8>) -> Result<Call, String> {
    let (h, pr) = (s::header(p)?, s::program(prog));
    let mut buf = vec![s::FILL; s::stream_room(p, prog)];
    Ok(Box::new(move || match s::compress_into(&h, &pr, &img, &mut buf)? {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("compress_simple failed: {}", e)),
    }))
}

fn decompressing(p: &P, body: Vec<u8>, d: usize, test: bool, must: bool) -> Result<Call, String> {
    let h = s::header(p)?;
    let mut out = vec![s::FILL; h.get_decompress_buffer_size(d)];
    Ok(Box::new(move || match s::decompress_body(&h, &body, d, test, &mut out)? {
        Err(e) if must => Err(format!("decompress_simple failed: {}", e)),
        _ => Ok(()),
    }))
}

fn transforming(p: &P, prog: &Prog, img: Vec<u8>) -> Result<Call, String> {
    let (h, pr) = (s::header(p)?, s::program(prog));
    let mut aux = vec![0i16; img.len()];
    let mut out = img.clone();
    let size = p.w * p.h;
    Ok(Box::new(move || {
        s::guard(|| {
            pr.transform_and_to_planar(&img, &h, &mut aux);
            pr.detransform_and_to_interleaved(&mut aux, &h, size, &mut out);
        })
    }))
}

fn converting(p: &P, img: Vec<u8>) -> Call {
    let mut aux = vec![0i16; img.len()];
    let mut out = img.clone();
    let channels = p.channels;
    Box::new(move || {
        s::guard(|| {
            gfwx::interleaved_to_planar(&img, channels, 1, &mut aux, &[]);
            gfwx::planar_to_interleaved(&aux, channels, 1, &mut out, &[]);
        })
    })
}

/// a program of n terms over many channels
fn long_program(n: usize, channels: usize) -> Prog {
    (0..n).map(|i| Term { dest: i % channels, factors: vec![((i + 1) % channels, 1), ((i + 2) % channels, -1)], den: 3, chroma: i % 2 == 0 }).collect()
}
fn coding_program(n: usize, channels: usize) -> Call {
    let pr = s::program(&long_program(n, channels));
    Box::new(move || {
        let mut v = vec![];
        let mut flags = vec![false; channels];
        let ok = s::guard(|| {
            pr.encode(channels, &mut v).is_ok() && gfwx::ColorTransformProgram::decode(&mut &v[..], &mut flags).is_ok()
        })?;
        if ok {
            Ok(())
        } else {
            Err("a long program is not coded".into())
        }
    })
}

fn pair(r: &mut Rng) -> Result<Pair, String> {
    let mut p = gen::params(r, 50);
    p.metadata = 0;
    if p.block_size > 3 && r.pct(50) {
        p.block_size = 2;
    }
    let lossless = p.quality == 1024;
    // one of the sizes grows
    let axis = r.below(5);
    let few = |r: &mut Rng| *r.pick(&[1usize, 1, 2, 3]);
    p.layers = few(r);
    p.channels = *r.pick(&[1usize, 1, 2, 3, 4]);
    let n = r.usize(1_000, 4_000);
    let side = |n: usize| ((n as f64).sqrt() as usize).max(1);
    let mut q;
    match axis {
        0 => {
            p.h = *r.pick(&[1usize, 2, 5, 17]);
            p.w = (n / p.h / p.planes()).max(1);
            q = p.clone();
            q.w *= 64;
        }
        1 => {
            p.w = *r.pick(&[1usize, 2, 5, 17]);
            p.h = (n / p.w / p.planes()).max(1);
            q = p.clone();
            q.h *= 64;
        }
        2 => {
            p.w = side(n / p.planes());
            p.h = p.w;
            q = p.clone();
            q.w *= 8;
            q.h *= 8;
        }
        _ => {
            p.w = *r.pick(&[1usize, 2, 3, 7]);
            p.h = *r.pick(&[1usize, 2, 3, 7]);
            let k = (n / p.w / p.h).min(1000);
            if axis == 3 {
                p.layers = 1;
                p.channels = k;
                q = p.clone();
                q.channels *= 64;
            } else {
                p.channels = 1;
                p.layers = k;
                q = p.clone();
                q.layers *= 64;
            }
        }
    }
    let axis = ["width", "height", "width and height", "channels", "layers"][axis];
    let prog = if r.pct(50) { vec![] } else { gen::random_program(r, p.planes().min(6), Dens::Any, false) };
    let about = |op: &str, p: &P| {
        format!(
            "{} with 64 times the {} of {}x{} layers {} channels {} block {} encoder {} filter {} quality {} ({} terms)",
            op, axis, p.w, p.h, p.layers, p.channels, p.block_size, p.encoder, p.filter, p.quality, prog.len()
        )
    };
    let _ = lossless;
    let (a, b) = (image(r, &p), image(r, &q));
    let stream = |p: &P, img: &[u8]| s::compress(p, &prog, img).map(|v| v[32..].to_vec());
    Ok(match r.below(12) {
        0 | 1 => Pair { what: about("compress_simple", &p), one: compressing(&p, &prog, a)?, many: compressing(&q, &prog, b)?, times: 64.0, slack: SLACK, least: 8 * p.samples() as u64, room: 200 * p.samples() as u64 },
        2 | 3 => {
            let (x, y) = (stream(&p, &a)?, stream(&q, &b)?);
            Pair { what: about("decompress_simple", &p), one: decompressing(&p, x, 0, false, true)?, many: decompressing(&q, y, 0, false, true)?, times: 64.0, slack: SLACK, least: 8 * p.samples() as u64, room: 200 * p.samples() as u64 }
        }
        4 => {
            let (x, y) = (stream(&p, &a)?, stream(&q, &b)?);
            Pair { what: about("test mode", &p), one: decompressing(&p, x, 0, true, true)?, many: decompressing(&q, y, 0, true, true)?, times: 64.0, slack: SLACK, least: 8 * p.samples() as u64, room: 200 * p.samples() as u64 }
        }
        5 => {
            let (x, y) = (stream(&p, &a)?, stream(&q, &b)?);
            let k = r.usize(1, 15);
            let cut = |v: Vec<u8>| v[..v.len() * k / 16].to_vec();
            Pair { what: about("decompress_simple of truncated data", &p), one: decompressing(&p, cut(x), 0, false, false)?, many: decompressing(&q, cut(y), 0, false, false)?, times: 64.0, slack: SLACK, least: 8 * p.samples() as u64, room: 200 * p.samples() as u64 }
        }
        6 => Pair { what: about("colour transform", &p), one: transforming(&p, &prog, a)?, many: transforming(&q, &prog, b)?, times: 64.0, slack: SLACK, least: 1000, room: 0 },
        7..=9 => match r.below(5) {
            3 => {
                let (n, c) = (r.usize(20, 200), *r.pick(&[3usize, 10, 60]));
                let mut p = p.clone();
                p.layers = 1;
                p.channels = c;
                p.w = r.usize(1, 4);
                p.h = r.usize(1, 4);
                let img = image(r, &p);
                Pair { what: format!("transform by a program of {} terms for {} channels of {}x{}, and 64 times as many terms", n, c, p.w, p.h), one: transforming(&p, &long_program(n, c), img.clone())?, many: transforming(&p, &long_program(64 * n, c), img)?, times: 64.0, slack: SLACK, least: 1000, room: 0 }
            }
            4 => {
                let n = r.usize(100, 1000);
                let mut p = p.clone();
                p.layers = 1;
                p.channels = n;
                p.w = r.usize(1, 3);
                p.h = 1;
                let mut q = p.clone();
                q.channels = 64 * n;
                let (a, b) = (image(r, &p), image(r, &q));
                let (x, y) = (long_program(n, n), long_program(64 * n, 64 * n));
                let what = format!("{{}} of {} channels of {}x1 with as many terms, and 64 times as many", n, p.w);
                if r.pct(50) {
                    Pair { what: what.replace("{}", "transform"), one: transforming(&p, &x, a)?, many: transforming(&q, &y, b)?, times: 64.0, slack: SLACK, least: 1000, room: 0 }
                } else {
                    Pair { what: what.replace("{}", "compress_simple"), one: compressing(&p, &x, a)?, many: compressing(&q, &y, b)?, times: 64.0, slack: SLACK, least: 1000, room: 0 }
                }
            }
            0 => Pair { what: about("planar conversion", &p), one: converting(&p, a), many: converting(&q, b), times: 64.0, slack: SLACK, least: 1000, room: 0 },
            1 => {
                let (n, c) = (r.usize(20, 200), *r.pick(&[3usize, 100, 5000, 65535]));
                Pair { what: format!("coding a program of {} terms for {} channels, and 64 times as many terms", n, c), one: coding_program(n, c), many: coding_program(64 * n, c), times: 64.0, slack: SLACK, least: 1000, room: 0 }
            }
            _ => {
                // bytes without an end of the code, or without a use
                let mut small = p.clone();
                small.w = 3;
                small.h = 2;
                small.layers = 1;
                small.channels = 1;
                let n = r.usize(1_000, 4_000);
                let fill = *r.pick(&[0u8, 0, 0xff, 0x55]);
                let body = |n: usize| {
                    let mut v = model::program_bytes(&vec![]);
                    if r.pct(60) {
                        v.extend_from_slice(&(n as u32).to_le_bytes());
                    }
                    v.resize(v.len() + 4 * n, fill);
                    v
                };
                let mut body = body;
                let (x, y) = (body(n), body(64 * n));
                Pair {
                    what: format!("decompress_simple of a 3x2 image with {} words of {:#x} behind, and 64 times as many", n, fill),
                    one: decompressing(&small, x, 0, false, false)?,
                    many: decompressing(&small, y, 0, false, false)?,
                    times: 64.0,
                    slack: SLACK, least: 1000, room: 0,
                }
            }
        },
        // a thumbnail, with only what it needs, and with the rest of the image
        _ => {
            let d = r.below(3);
            let mut p = p.clone();
            p.layers = 1;
            p.channels = few(r);
            p.w = r.usize(6, 20) << (d + 3);
            p.h = r.usize(6, 20) << (d + 3);
            let prog = if prog.is_empty() { vec![] } else { gen::random_program(r, p.planes(), Dens::Any, false) };
            let img = image(r, &p);
            let x = s::compress(&p, &prog, &img)?[32..].to_vec();
            let test = r.pct(20);
            let h = s::header(&p)?;
            let mut out = vec![s::FILL; h.get_decompress_buffer_size(d + 3)];
            let mut k = model::program_bytes(&prog).len();
            loop {
                match s::decompress_body(&h, &x[..k], d + 3, test, &mut out)? {
                    Ok(0) => break,
                    Ok(next) if next > k && k < x.len() => k = next.min(x.len()),
                    v => return Err(format!("{}x{} downsampled by {}: the first {} bytes of {} are answered by {:?}", p.w, p.h, d + 3, k, x.len(), v.ok())),
                }
            }
            let y = x[..k].to_vec();
            Pair {
                what: format!("a thumbnail (downsampling {}{}) of {}x{}, block {} encoder {} filter {} quality {}, of {} bytes and of the first {}", d + 3, if test { ", test mode" } else { "" }, p.w, p.h, p.block_size, p.encoder, p.filter, p.quality, x.len(), k),
                one: decompressing(&p, y, d + 3, test, true)?,
                many: decompressing(&p, x, d + 3, test, true)?,
                times: 1.0,
                slack: 2.0, least: 1000, room: 0,
            }
        }
    })
}

/// steps for a byte of the input or a sample of the output
const EACH: u64 = 300;

/// whatever the data are
fn any_data(cx: &mut Cx, r: &mut Rng) -> R {
    let stream = hostile(cx, r);
    let h = match s::guard(|| gfwx::Header::decode(&mut &stream[..]))? {
        Ok(h) => h,
        Err(_) => return Ok(()),
    };
    let planes = h.layers as usize * h.channels as usize;
    let d = if r.pct(40) { 0 } else { r.below(40) };
    let side = |n: u32| ((u64::from(n) + (1 << d) - 1) >> d) as u128;
    let n = side(h.width) * side(h.height) * planes as u128;
    if n > 1 << 18 {
        return Ok(());
    }
    let n = n as usize;
    let body = &stream[32 + if r.pct(70) { r.below(stream.len() - 31) } else { 0 }..];
    let flags: Vec<bool> = (0..planes).map(|_| r.pct(30)).collect();
    let mut aux = vec![0i16; n];
    let test = r.pct(20);
    let before = EDGES.load(Relaxed);
    let ok = s::guard(|| gfwx::decompress_aux_data(body, &h, &flags, d, test, &mut aux).is_ok())?;
    let steps = EDGES.load(Relaxed) - before;
    let of = (n + body.len() + planes) as u64;
    if steps > 20_000 + EACH * of {
        return Err(format!("decompress_aux_data of {} bytes for {} samples ({} planes, downsampling {}) takes {} steps", body.len(), n, planes, d, steps));
    }
    cx.max("max.steps_for_a_byte_or_sample", steps.saturating_sub(20_000) / of);
    cx.count(if ok { "op.any data, accepted" } else { "op.any data, refused" }, 1);
    cx.eval(Some(hash_bytes(29, &stream)));
    Ok(())
}

pub fn c29(cx: &mut Cx, r: &mut Rng) -> R {
    if r.pct(60) {
        return any_data(cx, r);
    }
    let mut m = pair(r)?;
    cx.detail = m.what.clone();
    // reached, and initialised
    (m.one)()?;
    let (a, b) = (work(&mut m.one)?, work(&mut m.many)?);
    for (i, of) in ["steps", "bytes allocated"].iter().enumerate() {
        let base = a[i].max([m.least, m.room.max(1 << 14)][i]);
        let growth = b[i] as f64 / base as f64 / m.times;
        if growth > m.slack {
            return Err(format!("{}: takes {} and {} {}, {:.1} times what is in proportion", m.what, a[i], b[i], of, growth));
        }
        if m.slack < SLACK {
            cx.max("max.steps_of_thumbnails_percent", (growth * 100.0) as u64);
        }
        cx.max(["max.steps_per_proportion_percent", "max.bytes_allocated_per_proportion_percent"][i], (growth * 100.0) as u64);
        cx.count(["steps", "bytes_allocated"][i], a[i] + b[i]);
    }
    let op = m.what.split(" with 64").next().unwrap_or("").split(" of an image ").next().unwrap_or("").split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim();
    cx.count(&format!("op.{}", op), 1);
    cx.eval(Some(hash_bytes(29, format!("{:?} {:?} {}", a, b, op).as_bytes())));
    cx.sample(|| format!("{}: {:?} and {:?}", m.what, a, b));
    Ok(())
}
