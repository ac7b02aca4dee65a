//! C24: memory of calls. C25: damaged streams.
use crate::alloc;
use crate::codec::{describe, key, short};
use crate::cx::{first_diff, hex, Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Div, Prog, P};
use crate::rng::{mix, Rng};
use crate::subject as s;

// ---------------------------------------------------------------- C24

/// 0: complete, 1: more to read, 2: an error
fn verdict<E>(v: Result<usize, E>) -> usize {
    match v {
        Ok(0) => 0,
        Ok(_) => 1,
        Err(_) => 2,
    }
}

/// one image with everything its calls need, allocated before
struct Calls {
    p: P,
    h: gfwx::Header,
    pr: gfwx::ColorTransformProgram,
    img: Vec<u8>,
    stream: Vec<u8>,
    damaged: Vec<u8>,
    /// a colour program that names a missing channel, has an impossible denominator or ends too early
    malformed: Vec<u8>,
    chroma: Vec<bool>,
    buf: Vec<u8>,
    out: Vec<u8>,
    aux: Vec<i16>,
    short: usize,
    cut: usize,
    d: usize,
    test: bool,
}
const KINDS: [&str; 8] = [
    "compress",
    "compress_into_short_buffer",
    "decompress",
    "decompress_downsampled",
    "decompress_truncated",
    "decompress_damaged",
    "low_level_api",
    "malformed_header_or_program",
];

impl Calls {
    fn new(r: &mut Rng, max: usize) -> Result<Calls, String> {
        let mut p = gen::params(r, max);
        while p.h * p.planes() > 500_000 {
            // threads that fight for the rows of a narrow image take minutes of processor time
            p = gen::params(r, max);
        }
        let ext = r.pct(20);
        let prog = gen::program(r, p.planes(), Dens::Any, ext);
        let img = gen::image(r, &p);
        let before = alloc::now() as i64;
        let stream = s::compress(&p, &prog, &img)?;
        let kept = alloc::now() as i64 - before - stream.capacity() as i64;
        KEPT.with(|k| k.set(k.get() + kept));
        let skip = 32 + model::program_bytes(&prog).len();
        let mut damaged = stream.clone();
        for _ in 0..r.usize(1, 5) {
            if damaged.len() > skip {
                let k = r.usize(skip, damaged.len() - 1);
                damaged[k] = r.u32() as u8;
            }
        }
        let mut bad = gen::random_program(r, p.planes().min(50), Dens::Any, ext);
        while r.pct(70) || bad.is_empty() {
            let factors = (0..r.usize(0, 12)).map(|_| (r.below(p.planes()), r.range(-300, 300))).collect();
            bad.push(model::Term { dest: r.below(p.planes()), factors, den: r.range(1, 9), chroma: r.pct(50) });
        }
        let at = r.below(bad.len());
        let t = &mut bad[at];
        match r.below(5) {
            0 => t.dest = p.planes() + r.below(3),
            1 => t.den = *r.pick(&[0, 32768, 100_000]),
            2 | 3 => t.factors.push((p.planes() + r.below(3), 1)),
            _ => {}
        }
        let mut malformed = model::program_bytes(&bad);
        if r.pct(30) {
            malformed.truncate(r.below(malformed.len()));
        }
        let levels = p.first_step().trailing_zeros() as usize + 1;
        Ok(Calls {
            malformed,
            h: s::header(&p)?,
            pr: s::program(&prog),
            chroma: model::chroma_flags(&prog, p.planes()),
            buf: vec![0; s::stream_room(&p, &prog)],
            out: vec![0; img.len()],
            aux: vec![0; img.len()],
            short: r.below(stream.len()),
            cut: r.usize(skip, stream.len()),
            d: r.usize(1, levels + 1),
            test: r.pct(20),
            p,
            img,
            stream,
            damaged,
        })
    }
    fn call(&mut self, kind: usize) -> Result<usize, String> {
        let c = self;
        s::guard(|| match kind {
            0 => usize::from(gfwx::compress_simple(&c.img, &c.h, &c.pr, &mut c.buf).is_err()) * 2,
            1 => usize::from(gfwx::compress_simple(&c.img, &c.h, &c.pr, &mut c.buf[..c.short]).is_err()) * 2,
            2 => verdict(gfwx::decompress_simple(&c.stream[32..], &c.h, 0, c.test, &mut c.out)),
            3 => verdict(gfwx::decompress_simple(&c.stream[32..], &c.h, c.d, c.test, &mut c.out)),
            4 => verdict(gfwx::decompress_simple(&c.stream[32..c.cut], &c.h, 0, c.test, &mut c.out)),
            5 => verdict(gfwx::decompress_simple(&c.damaged[32..], &c.h, 0, c.test, &mut c.out)),
            6 => {
                c.pr.transform_and_to_planar(&c.img, &c.h, &mut c.aux);
                let mut rest = &mut c.buf[..];
                if c.h.encode(&mut rest).is_err() {
                    return 2;
                }
                let flags = match c.pr.encode(c.chroma.len(), &mut rest) {
                    Ok(f) => f,
                    Err(_) => return 2,
                };
                let n = match gfwx::compress_aux_data(&mut c.aux, &c.h, &flags, rest) {
                    Ok(n) => n,
                    Err(_) => return 2,
                };
                let mut rest = &c.buf[32..];
                let pr = match gfwx::ColorTransformProgram::decode(&mut rest, &mut c.chroma) {
                    Ok(p) => p,
                    Err(_) => return 2,
                };
                let v = gfwx::decompress_aux_data(&rest[..n], &c.h, &c.chroma, 0, false, &mut c.aux);
                pr.detransform_and_to_interleaved(&mut c.aux, &c.h, c.p.w * c.p.h, &mut c.out);
                verdict(v)
            }
            _ => {
                let mut head = [0u8; 32];
                head.copy_from_slice(&c.stream[..32]);
                head[c.cut % 32] ^= 0x5a;
                let a = gfwx::Header::decode(&mut &head[..]).is_err();
                // a program that ends in the middle
                let b = gfwx::ColorTransformProgram::decode(&mut &c.stream[32..32 + c.short % 4], &mut c.chroma).is_err();
                let e = gfwx::ColorTransformProgram::decode(&mut &c.damaged[..], &mut c.chroma).is_err();
                let f = gfwx::ColorTransformProgram::decode(&mut &c.malformed[..], &mut c.chroma).is_err();
                let g = gfwx::decompress_simple(&c.malformed, &c.h, c.d, c.test, &mut c.out).is_err();
                usize::from(a || b || e || f || g) * 2
            }
        })
    }
    /// bytes a call may hold besides its arguments
    fn bound(&self, kind: usize) -> usize {
        let p = &self.p;
        let (w, h) = if kind == 3 { p.down(self.d as u32) } else { (p.w, p.h) };
        // (blocks are those of the step with the most of them)
        let (_, x, y) = p.blocks(if kind == 3 { 1 << model::cap(self.d as u32).min(40) } else { 1 });
        let program = self.stream.len().min(1 << 16);
        (1 << 20) + 8 * w * h * p.planes() + 256 * p.planes() * (x * y + h + w) + 16 * program
    }
}

thread_local! {
    /// what all calls of this process together kept
    static KEPT: std::cell::Cell<i64> = std::cell::Cell::new(0);
}

pub fn c24(cx: &mut Cx, r: &mut Rng) -> R {
    if !alloc::COUNTING {
        return Ok(());
    }
    let tiny = r.below(4) != 0;
    let max = match r.below(100) {
        _ if tiny => *r.pick(&[10, 60, 400]),
        0..=3 => 6_000_000,
        4..=20 => 400_000,
        _ => *r.pick(&[3000, 30_000]),
    };
    let mut c = Calls::new(r, max)?;
    cx.detail = format!("{:?} program {:?} short {} cut {} d {} image {}", c.p, c.pr, c.short, c.cut, c.d, hex(&c.img));
    cx.note_params(&c.p);
    let id = key(&c.p, &vec![], &c.img);
    for (kind, name) in KINDS.iter().enumerate() {
        let bound = c.bound(kind);
        let before = alloc::start();
        let v = c.call(kind)?;
        let peak = alloc::peak_since(before);
        let kept = alloc::now() as i64 - before as i64;
        KEPT.with(|k| k.set(k.get() + kept));
        cx.max(&format!("max.permille_of_bound.{}", name), peak as u64 * 1000 / bound as u64);
        cx.max(&format!("max.peak.{}", name), peak as u64);
        cx.count(&format!("{}.{}", name, ["complete", "truncated", "error"][v]), 1);
        if peak > bound {
            return Err(format!("{} of {}{} held {} bytes besides its arguments, more than {}", name, short(&c.p), if kind == 3 { format!(" downsampling {}", c.d) } else { String::new() }, peak, bound));
        }
        cx.eval(Some(mix(id ^ kind as u64)));
    }
    let all = KEPT.with(|k| k.get());
    cx.max("max.kept_by_all_calls", all.max(0) as u64);
    if all > 1 << 20 {
        return Err(format!("the calls so far keep {} bytes", all));
    }
    cx.sample(|| format!("{}: peaks within bounds, {} bytes kept so far by all calls", short(&c.p), all));
    if tiny && r.below(6) == 0 {
        // memory that grows in every round of the same calls
        for kind in 0..KINDS.len() {
            let mut round = |n: usize| -> Result<i64, String> {
                let before = alloc::now() as i64;
                for _ in 0..n {
                    c.call(kind)?;
                }
                Ok(alloc::now() as i64 - before)
            };
            const N: usize = 40;
            let mut grew = true;
            for _ in 0..4 {
                grew &= round(N)? >= N as i64;
            }
            cx.count("repeated_calls", 4 * N as u64);
            if grew {
                let g: Vec<i64> = (0..20).map(|_| round(N)).collect::<Result<_, _>>()?;
                if g.iter().filter(|&&x| x >= N as i64).count() >= 19 {
                    return Err(format!("{} of {} keeps memory: {:?} bytes in rounds of {} calls", KINDS[kind], short(&c.p), g, N));
                }
            }
            cx.eval(Some(mix(id ^ (kind as u64 + 100))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

struct Part {
    level: usize,
    plane: usize,
    at: usize,
    len: usize,
}
/// every block of a complete payload, the coarsest level first
fn parts(p: &P, payload: &[u8]) -> Option<Vec<Part>> {
    let mut v = vec![];
    let mut pos = 0;
    let mut step = p.first_step();
    let mut level = 0;
    while step >= 1 {
        let (_, bx, by) = p.blocks(step);
        let n = bx * by * p.planes();
        let table = model::bytes_to_words(payload.get(pos..pos + 4 * n)?);
        pos += 4 * n;
        for (k, &x) in table.iter().enumerate() {
            v.push(Part { level, plane: k / (bx * by), at: pos, len: x as usize * 4 });
            pos += x as usize * 4;
        }
        step /= 2;
        level += 1;
    }
    Some(v)
}

pub fn c25(cx: &mut Cx, r: &mut Rng) -> R {
    let max = *r.pick(&[60, 300, 1000, 3000, if cx.thorough { 30_000 } else { 8_000 }]);
    let mut p = gen::params(r, if cx.small { 60 } else { max });
    if p.block_size > 4 && r.pct(60) {
        p.block_size = r.usize(2, 3) as u32;
    }
    let prog: Prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    cx.detail = describe(&p, &prog, &img);
    cx.note_params(&p);
    let stream = s::compress(&p, &prog, &img)?;
    let skip = model::program_bytes(&prog).len();
    let payload = &stream[32 + skip..];
    let chroma = model::chroma_flags(&prog, p.planes());
    let parts = match parts(&p, payload) {
        Some(x) => x,
        None => return Err("block tables of the compressed stream do not add up".into()),
    };
    let full: Vec<usize> = (0..parts.len()).filter(|&i| parts[i].len > 0).collect();
    if full.is_empty() {
        return Ok(());
    }
    let levels = parts.last().unwrap().level;
    for _ in 0..3 {
        let mut bad = payload.to_vec();
        let mut victims = vec![];
        for _ in 0..if r.pct(60) { 1 } else { r.usize(1, 6) } {
            // coarse levels have few blocks: choose among levels first
            let mut i = *r.pick(&full);
            if r.pct(50) {
                let l = r.usize(0, levels);
                let same: Vec<usize> = full.iter().cloned().filter(|&k| parts[k].level == l).collect();
                if !same.is_empty() {
                    i = *r.pick(&same);
                }
            }
            let b = &parts[i];
            let words = &mut bad[b.at..b.at + b.len];
            let (from, to) = match r.below(3) {
                0 => (0, words.len()),
                _ => {
                    let f = r.below(words.len());
                    (f, r.usize(f + 1, words.len()))
                }
            };
            match r.below(8) {
                0 => words[from..to].iter_mut().for_each(|x| *x = 0),
                1 => words[from..to].iter_mut().for_each(|x| *x = 0xff),
                2 => words[from..to].iter_mut().for_each(|x| *x = (r.u32() & r.u32() & r.u32()) as u8),
                3 | 4 => words[from] ^= 1 << r.below(8),
                5 => {
                    // of another block
                    let o = &parts[*r.pick(&full)];
                    let n = o.len.min(b.len);
                    bad.copy_within(o.at..o.at + n, b.at);
                }
                _ => words[from..to].iter_mut().for_each(|x| *x = r.u32() as u8),
            }
            victims.push(i);
        }
        let d = if r.pct(50) { 0 } else { r.usize(0, levels + 1) };
        // the levels that this downsampling needs
        let needed = |l: usize| l == 0 || (p.first_step() >> l) >> d >= 1;
        let hit: Vec<&Part> = victims.iter().map(|&i| &parts[i]).filter(|b| needed(b.level)).collect();
        cx.detail = format!("{} d {} damaged payload {}", describe(&p, &prog, &img), d, hex(&bad));
        let (v0, aux0) = s::decompress_aux(&p, &chroma, payload, d as u32)?;
        if v0 != Ok(0) {
            return Err(format!("the undamaged stream gives {:?}", v0));
        }
        let (v, aux) = s::decompress_aux(&p, &chroma, &bad, d as u32)?;
        let want = model::decode_payload(&p, &chroma, &bad, d as u32);
        let where_ = || format!("{} downsampling {}, {} blocks of levels {:?} and planes {:?} damaged", short(&p), d, hit.len(), hit.iter().map(|b| b.level).collect::<Vec<_>>(), hit.iter().map(|b| b.plane).collect::<Vec<_>>());
        match (&v, &want) {
            (Err(_), None) => cx.count("verdict.error", 1),
            (Ok(0), Some(_)) => cx.count("verdict.complete", 1),
            (v, w) => {
                return Err(format!("{}: decoded as {:?}, although the codes of the damaged blocks {}", where_(), v, if w.is_some() { "fit their words" } else { "need more words than the blocks have" }));
            }
        }
        if hit.is_empty() && v != Ok(0) {
            return Err(format!("{}: damage in blocks that are not needed gives {:?}", where_(), v));
        }
        // the whole call agrees, and the buffer of a failed one is not longer than the image
        let body = [&stream[32..32 + skip], &bad[..]].concat();
        let (dw, dh) = p.down(d as u32);
        let mut out = vec![s::FILL; dw * dh * p.planes()];
        let h = s::header(&p)?;
        let vs = s::decompress_body(&h, &body, d, false, &mut out)?;
        let mut keep = vec![s::FILL; 16];
        let vt = s::decompress_body(&h, &body, d, true, &mut keep)?;
        if vs.is_ok() != v.is_ok() || (v.is_ok() && vs != v) {
            return Err(format!("{}: decompress_simple gives {:?}, decompress_aux_data {:?}", where_(), vs, v));
        }
        if (vt != Ok(0) && v.is_ok()) || keep.iter().any(|&x| x != s::FILL) {
            return Err(format!("{}: test mode gives {:?} and leaves {:?}", where_(), vt, keep));
        }
        if let Some(mut w) = want {
            if aux != w.aux {
                return Err(format!("{}: not what the blocks' words say, {}", where_(), first_diff(&aux, &w.aux)));
            }
            let size = dw * dh;
            let mut changed = 0;
            for c in 0..p.planes() {
                let part = c * size..(c + 1) * size;
                let same = aux[part.clone()] == aux0[part];
                changed += !same as u64;
                if !same && !hit.iter().any(|b| b.plane == c) {
                    return Err(format!("{}: plane {} is not as without the damage", where_(), c));
                }
            }
            cx.count("planes_changed", changed);
            cx.count("planes_unchanged", p.planes() as u64 - changed);
            let pix = model::detransform(&p, &prog, &mut w.aux, size, Div::Trunc);
            if out != pix {
                return Err(format!("{}: pixels are not those of the decoded data, {}", where_(), first_diff(&out, &pix)));
            }
        }
        cx.count("blocks_damaged", hit.len() as u64);
        cx.eval(if hit.is_empty() { None } else { Some(mix(crate::rng::hash_bytes(key(&p, &prog, &[]), &bad) ^ d as u64)) });
        cx.sample(|| format!("{}: verdict {:?}", where_(), v));
    }
    Ok(())
}
