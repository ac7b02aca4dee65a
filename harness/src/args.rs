//! C26: readers and writers of every kind. C27: arguments that do not fit together.
use crate::codec::key;
use crate::cx::{hex, Cx, R};
use crate::gen::{self, Dens};
use crate::model::{self, Prog, P};
use crate::rng::{hash_bytes, hash_i16, mix, Rng};
use crate::subject as s;
use std::io::{self, ErrorKind, Read, Write};

// ---------------------------------------------------------------- C26

const KINDS: [ErrorKind; 5] = [ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::Other];

/// how a reader or writer behaves
#[derive(Clone, Debug)]
struct Habit {
    seed: u64,
    /// bytes per call at most
    most: usize,
    /// interruptions per 100 calls
    interrupts: usize,
    /// an error once this many bytes have passed
    fail: Option<(usize, ErrorKind)>,
    /// the same, as a writer that takes nothing any more (Ok(0))
    full: bool,
}
impl Habit {
    fn new(r: &mut Rng) -> Habit {
        Habit {
            seed: r.u64(),
            most: *r.pick(&[1, 1, 2, 3, 5, 8, 64, 1 << 20]),
            interrupts: *r.pick(&[0, 10, 40, 80]),
            fail: None,
            full: false,
        }
    }
}
struct Odd<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    pos: usize,
    habit: Habit,
    r: Rng,
    interrupted: u64,
    calls: u64,
}
impl<'a> Odd<'a> {
    fn new(data: &'a [u8], habit: &Habit) -> Odd<'a> {
        Odd { data, out: vec![], pos: 0, habit: habit.clone(), r: Rng::new(habit.seed), interrupted: 0, calls: 0 }
    }
    /// bytes that pass in this call
    fn amount(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.r.pct(self.habit.interrupts) {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = want.min(self.habit.most);
        if let Some((at, kind)) = self.habit.fail {
            if self.pos >= at && want > 0 {
                if self.habit.full {
                    return Ok(0);
                }
                return Err(io::Error::new(kind, "injected"));
            }
            n = n.min(at - self.pos);
        }
        Ok(if n > 1 { self.r.usize(1, n) } else { n })
    }
}
impl Read for Odd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.amount(buf.len().min(self.data.len() - self.pos))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Odd<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.amount(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn header_kind(e: &gfwx::errors::HeaderErr) -> Option<ErrorKind> {
    match e {
        gfwx::errors::HeaderErr::IOErr(e) => Some(e.kind()),
        _ => None,
    }
}
fn program_kind(e: &gfwx::DecompressError) -> Option<ErrorKind> {
    match e {
        gfwx::DecompressError::IOErr(e) => Some(e.kind()),
        _ => None,
    }
}

struct Made {
    p: P,
    h: gfwx::Header,
    pr: gfwx::ColorTransformProgram,
    chroma: Vec<bool>,
    header: Vec<u8>,
    program: Vec<u8>,
}

fn make(r: &mut Rng) -> Result<(Made, Prog), String> {
    let mut p = gen::params(r, 60);
    p.metadata = if r.pct(50) { 0 } else { r.u32() & 0xffff_fffc };
    let prog = if r.pct(80) { gen::random_program(r, p.planes(), Dens::Any, true) } else { gen::program(r, p.planes(), Dens::Any, true) };
    let h = s::header(&p)?;
    let m = Made {
        h,
        pr: s::program(&prog),
        chroma: model::chroma_flags(&prog, p.planes()),
        header: model::header_bytes(&p),
        program: model::program_bytes(&prog),
        p,
    };
    Ok((m, prog))
}

fn write_all(m: &Made, what: usize, w: &mut Odd<'_>) -> Result<Option<ErrorKind>, String> {
    s::guard(|| {
        if what != 1 {
            if let Err(e) = m.h.encode(w) {
                return Some(e.kind());
            }
        }
        if what != 0 {
            match m.pr.encode(m.chroma.len(), w) {
                Err(e) => return Some(e.kind()),
                Ok(f) => assert_eq!(f, m.chroma, "chroma flags"),
            }
        }
        None
    })
}

pub fn c26(cx: &mut Cx, r: &mut Rng) -> R {
    let (m, prog) = make(r)?;
    cx.detail = format!("{:?} program {:?}", m.p, prog);
    let what = r.below(3);
    let want: Vec<u8> = [if what != 1 { &m.header[..] } else { &[] }, if what != 0 { &m.program[..] } else { &[] }].concat();
    let name = ["header", "program", "header and program"][what];

    // writers
    let mut habit = Habit::new(r);
    let mut w = Odd::new(&[], &habit);
    let v = write_all(&m, what, &mut w)?;
    if let Some(k) = v {
        return Err(format!("writing the {} fails with {:?} through {:?}", name, k, habit));
    }
    if w.out != want {
        return Err(format!("the {} is written as {} instead of {} through {:?}", name, hex(&w.out), hex(&want), habit));
    }
    cx.count("writes", 1);
    cx.count("writer_calls", w.calls);
    cx.count("interruptions", w.interrupted);
    let at = r.below(want.len());
    let kind = *r.pick(&KINDS);
    habit.fail = Some((at, kind));
    habit.full = r.pct(25);
    let kind = if habit.full { ErrorKind::WriteZero } else { kind };
    let mut w = Odd::new(&[], &habit);
    match write_all(&m, what, &mut w)? {
        None => return Err(format!("writing the {} to a writer that fails after {} of {} bytes succeeds ({:?})", name, at, want.len(), habit)),
        Some(k) if k != kind => return Err(format!("writing the {} fails with {:?} instead of {:?} ({:?})", name, k, kind, habit)),
        _ => {}
    }
    if w.out != want[..at] {
        return Err(format!("before the error {} was written instead of {}", hex(&w.out), hex(&want[..at])));
    }
    cx.count("write_errors_passed_on", 1);

    // readers, with something behind
    let mut data = want.clone();
    data.extend((0..r.below(9)).map(|_| r.u32() as u8));
    let mut habit = Habit::new(r);
    for round in 0..2 {
        let mut kind = *r.pick(&KINDS);
        let mut end = data.len();
        if round == 1 {
            let at = r.below(want.len());
            if r.pct(30) {
                // the end of the data instead of an error
                end = at;
                kind = ErrorKind::UnexpectedEof;
            } else {
                habit.fail = Some((at, kind));
            }
        } else if r.pct(50) {
            // an error that must not be met
            habit.fail = Some((want.len(), kind));
        }
        let mut rd = Odd::new(&data[..end], &habit);
        let mut flags = vec![false; m.chroma.len()];
        type Both = (Option<gfwx::Header>, Option<gfwx::ColorTransformProgram>);
        let res: Result<Both, Option<ErrorKind>> = s::guard(|| {
            let mut both = (None, None);
            if what != 1 {
                both.0 = Some(gfwx::Header::decode(&mut rd).map_err(|e| header_kind(&e))?);
            }
            if what != 0 {
                both.1 = Some(gfwx::ColorTransformProgram::decode(&mut rd, &mut flags).map_err(|e| program_kind(&e))?);
            }
            Ok(both)
        })?;
        match (res, round) {
            (Err(k), 0) => return Err(format!("reading the {} fails with {:?} through {:?}", name, k, habit)),
            (Ok(both), 0) => {
                if both.0.as_ref().map_or(false, |h| format!("{:?}", h) != format!("{:?}", m.h)) {
                    return Err(format!("header is read as {:?} through {:?}", both.0, habit));
                }
                if both.1.as_ref().map_or(false, |p| *p != m.pr || flags != m.chroma) {
                    return Err(format!("program is read as {:?} through {:?}", both.1, habit));
                }
                if rd.pos != want.len() {
                    return Err(format!("{} bytes are taken from the reader for a {} of {} ({:?})", rd.pos, name, want.len(), habit));
                }
                cx.count("reads", 1);
                cx.count("reader_calls", rd.calls);
                cx.count("interruptions", rd.interrupted);
            }
            (Ok(_), _) => return Err(format!("reading the {} of {} bytes succeeds with {} bytes ({:?})", name, want.len(), end.min(habit.fail.map_or(end, |f| f.0)), habit)),
            (Err(k), _) => {
                if k != Some(kind) {
                    return Err(format!("reading the {} fails with {:?} instead of {:?} ({:?})", name, k, kind, habit));
                }
                cx.count(if kind == ErrorKind::UnexpectedEof { "ends_reported" } else { "read_errors_passed_on" }, 1);
            }
        }
    }
    cx.eval(Some(mix(hash_bytes(26, &want) ^ habit.seed)));
    #[cfg(feature = "low_bits")]
    bit_streams(cx, r)?;
    cx.sample(|| format!("{} of {} bytes through {:?}", name, want.len(), habit));
    Ok(())
}

#[cfg(feature = "low_bits")]
fn bit_streams(cx: &mut Cx, r: &mut Rng) -> R {
    use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
    let ops: Vec<(u32, u32)> = (0..r.usize(1, 40))
        .map(|_| {
            let n = r.usize(1, 32) as u32;
            (r.u32() >> (32 - n), n)
        })
        .collect();
    let mut model = model::Bw::default();
    for &(x, n) in &ops {
        model.put(u64::from(x), n);
    }
    let want = model.bytes();
    let mut habit = Habit::new(r);
    cx.detail = format!("bits {:?} through {:?}", ops, habit);
    let put = |habit: &Habit| -> Result<(Result<(), ErrorKind>, Vec<u8>), String> {
        let mut o = Odd::new(&[], habit);
        let v = s::guard(|| {
            let mut w = BitsIOWriter::new(&mut o);
            for &(x, n) in &ops {
                w.put_bits(x, n)?;
            }
            w.flush_write_word()
        })?;
        Ok((v.map_err(|e| e.kind()), o.out))
    };
    match put(&habit)? {
        (Ok(()), out) if out == want => {}
        (v, out) => return Err(format!("bits are written as {} instead of {} ({:?})", hex(&out), hex(&want), v)),
    }
    let at = r.below(want.len());
    habit.fail = Some((at, ErrorKind::BrokenPipe));
    match put(&habit)? {
        (Err(ErrorKind::BrokenPipe), out) if out == want[..at] => {}
        (v, out) => return Err(format!("a writer that fails after {} bytes gives {:?} and {}", at, v, hex(&out))),
    }
    for round in 0..2 {
        habit.fail = if round == 1 { Some((at, ErrorKind::TimedOut)) } else { None };
        let mut o = Odd::new(&want, &habit);
        let got = s::guard(|| {
            let mut rd = BitsIOReader::new(&mut o);
            let mut got = vec![];
            for &(_, n) in &ops {
                match rd.get_bits(n) {
                    Ok(x) => got.push(x),
                    Err(e) => return (got, Some(e.kind())),
                }
            }
            (got, None)
        })?;
        // values that lie within the words that were read
        let mut bits = 0;
        let room = if round == 1 { at / 4 * 32 } else { usize::MAX };
        let expect: Vec<u32> = ops
            .iter()
            .take_while(|o| {
                bits += o.1 as usize;
                bits <= room
            })
            .map(|o| o.0)
            .collect();
        let err = if expect.len() < ops.len() { Some(ErrorKind::TimedOut) } else { None };
        if got != (expect.clone(), err) {
            return Err(format!("bits are read as {:?} instead of {:?}, {:?} (failure after {:?})", got, expect, err, habit.fail));
        }
    }
    cx.count("bit_streams", 1);
    cx.eval(Some(mix(hash_bytes(126, &want) ^ habit.seed)));
    Ok(())
}

// ---------------------------------------------------------------- C27

/// A slice in the middle of memory that must neither be written nor matter
struct Inside<T> {
    v: Vec<T>,
    pad: usize,
    len: usize,
    fill: T,
}
impl<T: Copy + PartialEq> Inside<T> {
    fn new(content: &[T], pad: usize, fill: T) -> Inside<T> {
        let mut v = Vec::with_capacity(content.len() + 2 * pad);
        v.resize(pad, fill);
        v.extend_from_slice(content);
        v.resize(content.len() + 2 * pad, fill);
        Inside { v, pad, len: content.len(), fill }
    }
    fn get(&mut self) -> &mut [T] {
        &mut self.v[self.pad..self.pad + self.len]
    }
    fn check(&self, what: &str) -> R {
        let outside = |x: &[T]| x.iter().any(|&x| x != self.fill);
        if outside(&self.v[..self.pad]) || outside(&self.v[self.pad + self.len..]) {
            return Err(format!("{} wrote outside of the slice of {} elements", what, self.len));
        }
        Ok(())
    }
}

/// a length near the right one, or any
fn length(r: &mut Rng, right: usize) -> usize {
    match r.below(8) {
        0 | 6 | 7 => right,
        1 => right.saturating_sub(r.usize(1, 5)),
        2 => right + r.usize(1, 5),
        3 => right / 2,
        4 => r.below(right + 1),
        _ => r.below(2 * right + 10),
    }
}

/// a header whose public fields do not come from the builder
fn bend(r: &mut Rng, h: &mut gfwx::Header) -> bool {
    let mut huge = false;
    for _ in 0..r.usize(1, 3) {
        let small = r.usize(0, 40) as u32;
        let any = *r.pick(&[small, small, small, 0, 1, 65535, 65536, 1 << 30, 1 << 31, u32::MAX]);
        match r.below(12) {
            0 | 1 => h.width = any,
            2 | 3 => h.height = any,
            4 => h.channels = (any % 9) as u16,
            5 => h.layers = (any % 9) as u16,
            6 => h.block_size = *r.pick(&[0u8, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 127, 255]),
            7 => h.quality = *r.pick(&[0u16, 1, 1024, 1025, 8191, 8192, 65535]),
            8 => h.chroma_scale = *r.pick(&[0u8, 1, 255]),
            9 => h.channel_size = any as usize % 5000,
            10 => h.image_size = any as usize % 5000,
            _ => h.bit_depth = *r.pick(&[0u8, 1, 8, 9, 16, 255]),
        }
        huge |= any > 65536;
    }
    huge
}

pub fn c27(cx: &mut Cx, r: &mut Rng) -> R {
    let max = *r.pick(&[10, 60, 300, 3000]);
    let mut p = gen::params(r, max);
    if p.planes() > 40 {
        p.layers = 1;
        p.channels = 3.min(p.channels);
    }
    let more = usize::from(r.pct(10));
    let prog = gen::random_program(r, p.planes() + more, Dens::Any, false);
    let good = gen::random_program(r, p.planes(), Dens::Any, false);
    let mut h = s::header(&p)?;
    let bent = r.pct(40);
    let huge = bent && bend(r, &mut h);
    let img = gen::image(r, &p);
    let kind = r.below(10);
    // memory before and behind each slice, none for the sanitizer to see
    let pad = if r.pct(30) { 0 } else { *r.pick(&[16, 300, 5000]) };
    let pr = s::program(&prog);
    let d = if r.pct(60) { 0 } else { *r.pick(&[1usize, 2, 3, 8, 63, 64, usize::MAX]) };
    let test = r.pct(15);
    let flags: Vec<bool> = {
        let n = if r.pct(60) { p.planes() } else { length(r, p.planes()) };
        (0..n).map(|_| r.pct(30)).collect()
    };
    let (dw, dh) = p.down(d.min(64) as u32);
    let n_aux = length(r, if kind == 1 { dw * dh * p.planes() } else { img.len() });
    let aux = gen::coefs(r, n_aux);
    let n_buf = length(r, s::payload_room(&p).min(20_000) / 2);
    let n_img = length(r, img.len());
    let image: Vec<u8> = (0..n_img).map(|i| img[i % img.len()]).collect();
    let seed = r.u64();
    // the simple calls allocate what the header asks for
    let product = u128::from(h.width) * u128::from(h.height) * u128::from(h.channels) * u128::from(h.layers);
    let kind = if product > 1 << 20 && (kind == 2 || kind == 3 || kind == 5) { kind % 2 } else { kind };
    let names = ["compress_aux_data", "decompress_aux_data", "compress_simple", "decompress_simple", "lifting", "transforms", "quantizer", "chunks", "blocks", "conversions"];
    let name = names[kind];
    cx.detail = format!("{} {:?} header {:?} program {:?} aux {} buffer {} image {} flags {:?} d {} test {} pad {}", name, p, h, prog, n_aux, n_buf, n_img, flags, d, test, pad);
    let payload = if kind == 1 || kind == 3 {
        let mut s = model::compress(&p, &good, &img, model::Div::Trunc);
        let cut = if r.pct(30) { r.usize(32, s.len()) } else { s.len() };
        s.truncate(cut);
        s
    } else {
        vec![]
    };
    let start = if kind == 1 { (32 + model::program_bytes(&good).len()).min(payload.len()) } else { 32.min(payload.len()) };

    // what a call gives, with other memory around the slices each time
    let mut outcomes = vec![];
    for fill in [0x11u8, 0xe7] {
        let wide = i16::from_le_bytes([fill, fill ^ 0x35]);
        let mut a = Inside::new(&aux, pad, wide);
        let mut b = Inside::new(&vec![0u8; n_buf], pad, fill);
        let mut i = Inside::new(&image, pad, fill);
        let mut data = Inside::new(&payload[start..], pad, fill);
        let mut f = Inside::new(&flags, pad, fill == 0x11);
        let mut r = Rng::new(seed);
        // panics are fine here
        let v: Result<Option<u64>, String> = s::guard(|| match kind {
            0 => gfwx::compress_aux_data(a.get(), &h, f.get(), b.get()).ok().map(|n| n as u64),
            1 => gfwx::decompress_aux_data(data.get(), &h, f.get(), d, test, a.get()).ok().map(|n| n as u64),
            2 => gfwx::compress_simple(i.get(), &h, &pr, b.get()).ok().map(|n| n as u64),
            3 => gfwx::decompress_simple(data.get(), &h, d, test, i.get()).ok().map(|n| n as u64),
            #[cfg(feature = "low_lift")]
            4 => {
                let mut rows = ragged(&mut r, a.get(), p.w);
                match r.below(4) {
                    0 => gfwx::lifting::lift_linear(&mut rows),
                    1 => gfwx::lifting::unlift_linear(&mut rows),
                    2 => gfwx::lifting::lift_cubic(&mut rows),
                    _ => gfwx::lifting::unlift_cubic(&mut rows),
                }
                Some(0)
            }
            5 => {
                match r.below(4) {
                    0 => pr.transform(i.get(), &h, a.get()),
                    1 => pr.transform_and_to_planar(i.get(), &h, a.get()),
                    2 => pr.detransform(a.get(), &h, dw * dh, i.get()),
                    _ => pr.detransform_and_to_interleaved(a.get(), &h, dw * dh, i.get()),
                }
                Some(0)
            }
            #[cfg(feature = "low_quant")]
            6 => {
                let mut rows = ragged(&mut r, a.get(), p.w);
                let q = [r.range(-5, 9000) as i32, r.range(-5, 9000) as i32, r.range(-5, 9000) as i32];
                if r.pct(50) {
                    gfwx::quant::quantize(&mut rows, q[0], q[1], q[2]);
                } else {
                    gfwx::quant::dequantize(&mut rows, q[0], q[1], q[2]);
                }
                Some(0)
            }
            #[cfg(feature = "low_part")]
            7 => Some(chunks(&mut r, a.get(), &p)),
            #[cfg(feature = "low_block")]
            8 => blocks(&mut r, a.get(), b.get(), &p),
            _ => {
                let skip: Vec<usize> = (0..r.below(4)).map(|_| r.below(6)).collect();
                let boost = r.range(-9, 9) as i16;
                let channels = r.below(8);
                if r.pct(50) {
                    gfwx::interleaved_to_planar(i.get(), channels, boost, a.get(), &skip);
                } else {
                    gfwx::planar_to_interleaved(a.get(), channels, boost, i.get(), &skip);
                }
                Some(0)
            }
        });
        a.check(name)?;
        b.check(name)?;
        i.check(name)?;
        data.check(name)?;
        f.check(name)?;
        if data.get() != &payload[start..] || *f.get() != flags[..] {
            return Err(format!("{} modified its input", name));
        }
        cx.count(&format!("{}.{}", name, match &v { Ok(Some(_)) => "ok", Ok(None) => "error", Err(_) => "panic" }), 1);
        // what is written before an error or a panic, and which of both is met first, depends on the threads
        let content = match &v {
            Ok(Some(n)) => mix(*n) ^ hash_i16(1, a.get()) ^ hash_bytes(2, b.get()) ^ hash_bytes(3, i.get()),
            _ => 0,
        };
        outcomes.push(content);
    }
    if outcomes[0] != outcomes[1] {
        return Err(format!("{} gives other results with other memory outside of its arguments", name));
    }
    if bent {
        cx.count(if huge { "headers.huge" } else { "headers.bent" }, 1);
    }
    cx.eval(Some(mix(key(&p, &prog, &img) ^ seed)));
    cx.sample(|| format!("{} of {} with aux {} buffer {} image {} of {}: outcome {:?}, nothing outside touched", name, crate::codec::short(&p), n_aux, n_buf, n_img, img.len(), outcomes[0]));
    Ok(())
}

#[cfg(any(feature = "low_lift", feature = "low_quant"))]
fn ragged<'a>(r: &mut Rng, a: &'a mut [i16], w: usize) -> Vec<&'a mut [i16]> {
    let mut rows = vec![];
    let mut rest = a;
    let even = r.pct(30);
    let one = r.below(12);
    while !rest.is_empty() {
        let n = if even && rows.len() != one { w } else { r.usize(0, w + 2) };
        let n = n.min(rest.len());
        let (x, y) = rest.split_at_mut(n);
        rows.push(x);
        rest = y;
        if rows.len() > 5000 {
            break;
        }
    }
    rows
}

/// the public fields of a chunk set to something else
#[cfg(any(feature = "low_part", feature = "low_block"))]
fn displace(r: &mut Rng, c: &mut gfwx::processing::image::ImageChunkMut<'_, i16>) {
    for _ in 0..r.usize(1, 2) {
        let near = r.usize(0, 60);
        let any = *r.pick(&[near, near, near, near, near, near, 0, 1 << 16, 1 << 31, usize::MAX]);
        match r.below(7) {
            0 => c.x_range.0 = any,
            1 => c.x_range.1 = any,
            2 => c.y_range.0 = any,
            3 => c.y_range.1 = any,
            4 => c.x_range = (c.x_range.0 + near, c.x_range.1 + near),
            5 => c.y_range = (c.y_range.0 + near, c.y_range.1 + near),
            _ => c.step = *r.pick(&[0usize, 1, 2, 3, 4, 8, 16, 64, 1 << 29, 1 << 30, 1 << 31, 1 << 63]),
        }
    }
}

#[cfg(feature = "low_part")]
fn chunks(r: &mut Rng, a: &mut [i16], p: &P) -> u64 {
    use gfwx::processing::image::Image;
    let size = (r.usize(0, p.w + 3), r.usize(0, p.h + 3));
    let n = r.usize(1, 40);
    let step = r.usize(1, 12);
    let mut sum = 0u64;
    for (k, mut c) in Image::from_slice(a, size, r.below(6)).into_chunks_mut(n, step).take(30).enumerate() {
        if r.pct(15) {
            displace(r, &mut c);
        }
        for _ in 0..6 {
            let at = (r.below(size.1 + 3), r.below(size.0 + 3));
            let (y, x) = if r.pct(10) { (usize::MAX - at.0, at.1) } else { at };
            if r.pct(50) {
                // (each access may panic)
                if let Ok(v) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c[(y, x)])) {
                    sum = mix(sum ^ v as u64);
                }
            } else {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c[(y, x)] = k as i16));
            }
        }
    }
    sum
}

#[cfg(feature = "low_block")]
fn blocks(r: &mut Rng, a: &mut [i16], b: &mut [u8], p: &P) -> Option<u64> {
    use gfwx::bits::{BitsIOReader, BitsIOWriter};
    use gfwx::processing::image::Image;
    let size = (if r.pct(60) { p.w } else { r.usize(0, p.w + 3) }, if r.pct(60) { p.h } else { r.usize(0, p.h + 3) });
    let n = if r.pct(50) { 4 << r.below(5) } else { r.usize(1, 40) };
    let step = if r.pct(70) { 1 << r.below(6) } else { r.usize(1, 50) };
    let mut chunk = Image::from_slice(a, size, r.usize(1, p.planes() + 2)).into_chunks_mut(n, step).nth(r.below(20))?;
    if r.pct(40) {
        displace(r, &mut chunk);
    }
    let (scheme, q, dc, chroma) = (s::encoder(r.below(3) as u8), r.range(0, 1024) as i32, r.pct(50), r.pct(50));
    if r.pct(50) {
        let mut out = &mut b[..];
        let mut w = BitsIOWriter::new(&mut out);
        gfwx::encode::encode(&chunk, &mut w, scheme, q, dc, chroma).ok()?;
        Some(1)
    } else {
        for x in b.iter_mut() {
            *x = r.u32() as u8;
        }
        let mut input = &b[..];
        let mut rd = BitsIOReader::new(&mut input);
        gfwx::encode::decode(chunk, &mut rd, scheme, q, dc, chroma).ok()?;
        Some(2)
    }
}
