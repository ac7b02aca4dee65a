//! Independent sequential model of the GFWX v1 codec, written from the reference implementation.
//! Nothing in here uses the crate under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    pub dest: usize,
    pub factors: Vec<(usize, i64)>,
    pub den: i64,
    pub chroma: bool,
}
pub type Prog = Vec<Term>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub w: usize,
    pub h: usize,
    pub layers: usize,
    pub channels: usize,
    pub quality: i32,
    pub chroma_scale: i32,
    pub block_size: u32,
    /// 0 linear, 1 cubic
    pub filter: u8,
    /// 0 turbo, 1 fast, 2 contextual
    pub encoder: u8,
    pub intent: u8,
    pub metadata: u32,
}

impl P {
    pub fn planes(&self) -> usize {
        self.layers * self.channels
    }
    pub fn samples(&self) -> usize {
        self.w * self.h * self.planes()
    }
    pub fn boost(&self) -> i32 {
        if self.quality == 1024 {
            1
        } else {
            8
        }
    }
    pub fn chroma_quality(&self) -> i32 {
        ((self.quality + self.chroma_scale / 2) / self.chroma_scale).max(1)
    }
    pub fn q(&self, chroma: bool) -> i32 {
        if chroma {
            self.chroma_quality()
        } else {
            self.quality
        }
    }
    pub fn first_step(&self) -> usize {
        let m = self.w.max(self.h);
        let mut s = 1;
        while s * 2 < m {
            s *= 2;
        }
        s
    }
    pub fn down(&self, d: u32) -> (usize, usize) {
        let f = 1u64 << cap(d);
        (
            ((self.w as u64 + f - 1) / f) as usize,
            ((self.h as u64 + f - 1) / f) as usize,
        )
    }
    /// block count per plane at a step
    pub fn blocks(&self, step: usize) -> (usize, usize, usize) {
        let bs = step << self.block_size;
        (bs, (self.w + bs - 1) / bs, (self.h + bs - 1) / bs)
    }
}

// ---------------------------------------------------------------- bits

#[derive(Default, Clone)]
pub struct Bw {
    pub words: Vec<u32>,
    cur: u32,
    n: u32,
    pub total: u64,
}
impl Bw {
    pub fn bit(&mut self, b: u32) {
        self.cur = (self.cur << 1) | (b & 1);
        self.n += 1;
        self.total += 1;
        if self.n == 32 {
            self.words.push(self.cur);
            self.cur = 0;
            self.n = 0;
        }
    }
    pub fn put(&mut self, x: u64, bits: u32) {
        for i in (0..bits).rev() {
            self.bit(if i < 64 { (x >> i) as u32 & 1 } else { 0 });
        }
    }
    pub fn finish(mut self) -> Vec<u32> {
        while self.n != 0 {
            self.bit(0);
        }
        self.words
    }
    pub fn bytes(self) -> Vec<u8> {
        words_to_bytes(&self.finish())
    }
}
pub fn words_to_bytes(w: &[u32]) -> Vec<u8> {
    let mut v = Vec::with_capacity(w.len() * 4);
    for x in w {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v
}
/// whole words only
pub fn bytes_to_words(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4)
        .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
        .collect()
}

pub struct Br<'a> {
    pub words: &'a [u32],
    pub pos: u64,
}
impl<'a> Br<'a> {
    pub fn new(words: &'a [u32]) -> Self {
        Br { words, pos: 0 }
    }
    pub fn bit(&mut self) -> Option<u32> {
        let w = *self.words.get((self.pos / 32) as usize)?;
        let b = (w >> (31 - self.pos % 32)) & 1;
        self.pos += 1;
        Some(b)
    }
    pub fn get(&mut self, n: u32) -> Option<u32> {
        let mut x = 0u32;
        for _ in 0..n {
            x = (x << 1) | self.bit()?;
        }
        Some(x)
    }
    /// words touched so far
    pub fn words_used(&self) -> usize {
        ((self.pos + 31) / 32) as usize
    }
}

// ---------------------------------------------------------------- Golomb-Rice codes

pub fn ucode(b: &mut Bw, mut x: u32, mut pot: u32) {
    loop {
        let y = x >> pot;
        if y < 12 {
            for _ in 0..y {
                b.bit(0);
            }
            b.bit(1);
            b.put(u64::from(x) & ((1u64 << pot) - 1), pot);
            return;
        }
        for _ in 0..12 {
            b.bit(0);
        }
        x -= 12 << pot;
        pot = if pot < 20 { pot + 4 } else { 24 };
    }
}
pub fn udecode(r: &mut Br<'_>, pot: u32) -> Option<u32> {
    let mut sum = 0u32;
    let mut pot = pot;
    loop {
        let p = pot.min(24);
        let mut z = 0;
        while z < 12 {
            if r.bit()? == 1 {
                break;
            }
            z += 1;
        }
        if pot < 108 && z == 12 {
            sum = sum.wrapping_add(12 << p);
            pot = (pot + 4).min(108);
        } else {
            let low = r.get(p)?;
            return Some(sum.wrapping_add(z << p).wrapping_add(low));
        }
    }
}
pub fn icode(b: &mut Bw, x: i32, pot: u32) {
    let u = if x <= 0 { -2 * i64::from(x) } else { 2 * i64::from(x) - 1 };
    ucode(b, u as u32, pot);
}
pub fn idecode(r: &mut Br<'_>, pot: u32) -> Option<i32> {
    let u = udecode(r, pot)? as i32;
    Some(if u & 1 != 0 { u.wrapping_add(1) / 2 } else { u.wrapping_neg() / 2 })
}
pub fn scode(b: &mut Bw, x: i32, pot: u32) {
    ucode(b, x.unsigned_abs(), pot);
    if x != 0 {
        b.bit((x > 0) as u32);
    }
}
pub fn sdecode(r: &mut Br<'_>, pot: u32) -> Option<i32> {
    let u = udecode(r, pot)? as i32;
    if u == 0 {
        return Some(0);
    }
    Some(if r.bit()? == 1 { u } else { u.wrapping_neg() })
}

// ---------------------------------------------------------------- header and program

pub fn header_bytes(p: &P) -> Vec<u8> {
    let mut v = b"GFWX".to_vec();
    v.extend_from_slice(&1u32.to_le_bytes());
    v.extend_from_slice(&(p.w as u32).to_le_bytes());
    v.extend_from_slice(&(p.h as u32).to_le_bytes());
    v.extend_from_slice(&((p.channels - 1) as u16).to_le_bytes());
    v.extend_from_slice(&((p.layers - 1) as u16).to_le_bytes());
    // bit depth 8 bits, signed 1, quality 10, chroma scale 8, block size 5, most significant first
    let word = (7u32 << 24)
        | ((p.quality as u32 - 1) << 13)
        | ((p.chroma_scale as u32 - 1) << 5)
        | (p.block_size - 2);
    v.extend_from_slice(&word.to_le_bytes());
    v.extend_from_slice(&[p.intent, p.encoder, 0, p.filter]);
    v.extend_from_slice(&(p.metadata / 4).to_le_bytes());
    v
}

pub fn program_ints(prog: &Prog) -> Vec<i32> {
    let mut v = vec![];
    for t in prog {
        v.push(t.dest as i32);
        for &(s, f) in &t.factors {
            v.push(s as i32);
            v.push(f as i32);
        }
        v.push(-1);
        v.push(t.den as i32);
        v.push(t.chroma as i32);
    }
    v.push(-1);
    v
}
pub fn program_bytes(prog: &Prog) -> Vec<u8> {
    let mut b = Bw::default();
    for x in program_ints(prog) {
        scode(&mut b, x, 2);
    }
    b.bytes()
}
pub fn chroma_flags(prog: &Prog, planes: usize) -> Vec<bool> {
    let mut f = vec![false; planes];
    for t in prog {
        f[t.dest] = t.chroma;
    }
    f
}

// ---------------------------------------------------------------- colour transform

/// How divisions by 2, 4 and 8 round: gfwx-rs truncates, the reference shifts.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Div {
    Trunc,
    Reference,
}
fn divide(a: i16, den: i64, mode: Div) -> i16 {
    let a = i64::from(a);
    (match (mode, den) {
        (Div::Reference, 2) | (Div::Reference, 4) | (Div::Reference, 8) => a.div_euclid(den),
        _ => a / den,
    }) as i16
}
pub fn has_shift_denominator(prog: &Prog) -> bool {
    prog.iter().any(|t| t.den == 2 || t.den == 4 || t.den == 8)
}
fn pixel(p: &P, plane: usize, i: usize, size: usize) -> usize {
    (plane / p.channels) * size * p.channels + i * p.channels + plane % p.channels
}
pub fn transform<T: Into<i16> + Copy>(p: &P, prog: &Prog, img: &[T], mode: Div) -> Vec<i16> {
    let size = p.w * p.h;
    let boost = p.boost() as i64;
    let at = |k: usize| i64::from(img[k].into());
    let mut aux = vec![0i16; size * p.planes()];
    let mut done = vec![false; p.planes()];
    for t in prog {
        for i in 0..size {
            let mut sum = i64::from(aux[t.dest * size + i]);
            for &(s, f) in &t.factors {
                // a channel that is its own source is read as pixels the first time
                let v = if done[s] {
                    i64::from(if s == t.dest { sum as i16 } else { aux[s * size + i] })
                } else {
                    at(pixel(p, s, i, size)) * boost
                };
                sum = i64::from((sum + v * i64::from(f as i16)) as i16);
            }
            let v = divide(sum as i16, i64::from(t.den as i16), mode);
            let own = at(pixel(p, t.dest, i, size)) * boost;
            aux[t.dest * size + i] = (i64::from(v) + own) as i16;
        }
        done[t.dest] = true;
    }
    for c in 0..p.planes() {
        if !done[c] {
            for i in 0..size {
                aux[c * size + i] = (at(pixel(p, c, i, size)) * boost) as i16;
            }
        }
    }
    aux
}
/// aux to interleaved pixels
pub fn detransform(p: &P, prog: &Prog, aux: &mut [i16], size: usize, mode: Div) -> Vec<u8> {
    undo_program(prog, aux, size, mode);
    let mut out = vec![0u8; size * p.planes()];
    for c in 0..p.planes() {
        for i in 0..size {
            let v = i32::from(aux[c * size + i]) / p.boost();
            out[pixel(p, c, i, size)] = v.clamp(0, 255) as u8;
        }
    }
    out
}
pub fn undo_program(prog: &Prog, aux: &mut [i16], size: usize, mode: Div) {
    for t in prog.iter().rev() {
        for i in 0..size {
            let mut sum = 0i64;
            for &(s, f) in &t.factors {
                sum = i64::from((sum + i64::from(aux[s * size + i]) * i64::from(f as i16)) as i16);
            }
            let v = divide(sum as i16, i64::from(t.den as i16), mode);
            let d = &mut aux[t.dest * size + i];
            *d = d.wrapping_sub(v);
        }
    }
}

// ---------------------------------------------------------------- lifting

fn round16(num: i32) -> i32 {
    let r = if num < 0 { (num - 8) / 16 } else { (num + 8) / 16 };
    i32::from(r as i16)
}
fn med(a: i32, b: i32, c: i32) -> i32 {
    let mut v = [a, b, c];
    v.sort_unstable();
    v[1]
}
fn cubic(c0: i32, c1: i32, c2: i32, c3: i32) -> i32 {
    med(round16(-c0 + 9 * (c1 + c2) - c3), c1, c2)
}
/// prediction of element i of a line from elements of the other parity
fn predict(v: &[i16], i: usize, filter: u8) -> i32 {
    let at = |k: isize| -> Option<i32> {
        if k >= 0 && (k as usize) < v.len() {
            Some(i32::from(v[k as usize]))
        } else {
            None
        }
    };
    let i = i as isize;
    let c1 = at(i - 1).unwrap();
    let c2 = at(i + 1).unwrap_or(c1);
    if filter == 0 {
        c1 + c2
    } else {
        let c0 = at(i - 3).unwrap_or(c1);
        let c3 = at(i + 3).unwrap_or(c2);
        cubic(c0, c1, c2, c3)
    }
}
fn line_lift(v: &mut [i16], filter: u8, inverse: bool) {
    let n = v.len();
    let odd = |v: &mut [i16]| {
        for i in (1..n).step_by(2) {
            let t = predict(v, i, filter);
            let t = if filter == 0 { t / 2 } else { t };
            v[i] = (i32::from(v[i]) + if inverse { t } else { -t }) as i16;
        }
    };
    let even = |v: &mut [i16]| {
        for i in (2..n).step_by(2) {
            let t = predict(v, i, filter);
            let t = if filter == 0 { t / 4 } else { t / 2 };
            v[i] = (i32::from(v[i]) + if inverse { -t } else { t }) as i16;
        }
    };
    if inverse {
        even(v);
        odd(v);
    } else {
        odd(v);
        even(v);
    }
}
fn level(img: &mut [i16], w: usize, h: usize, step: usize, filter: u8, inverse: bool) {
    let horizontal = |img: &mut [i16]| {
        if step < w {
            for y in (0..h).step_by(step) {
                let mut line: Vec<i16> = (0..w).step_by(step).map(|x| img[y * w + x]).collect();
                line_lift(&mut line, filter, inverse);
                for (k, v) in line.into_iter().enumerate() {
                    img[y * w + k * step] = v;
                }
            }
        }
    };
    let vertical = |img: &mut [i16]| {
        if step < h {
            for x in (0..w).step_by(step) {
                let mut line: Vec<i16> = (0..h).step_by(step).map(|y| img[y * w + x]).collect();
                line_lift(&mut line, filter, inverse);
                for (k, v) in line.into_iter().enumerate() {
                    img[k * step * w + x] = v;
                }
            }
        }
    };
    if inverse {
        vertical(img);
        horizontal(img);
    } else {
        horizontal(img);
        vertical(img);
    }
}
/// lifts the levels whose step is below `limit`
pub fn lift_levels(img: &mut [i16], w: usize, h: usize, filter: u8, limit: usize) {
    let mut step = 1;
    while (step < w || step < h) && step < limit {
        level(img, w, h, step, filter, false);
        step *= 2;
    }
}
pub fn lift(img: &mut [i16], w: usize, h: usize, filter: u8) {
    lift_levels(img, w, h, filter, usize::MAX);
}
pub fn unlift(img: &mut [i16], w: usize, h: usize, filter: u8) {
    let mut steps = vec![];
    let mut step = 1;
    while step < w || step < h {
        steps.push(step);
        step *= 2;
    }
    for s in steps.into_iter().rev() {
        level(img, w, h, s, filter, true);
    }
}

// ---------------------------------------------------------------- quantizer

/// (skip, q) of the levels that are quantized
pub fn schedule(w: usize, h: usize, quality: i64, min_q: i64, max_q: i64) -> Vec<(usize, i64)> {
    let mut v = vec![];
    let mut skip = 1;
    let mut quality = quality;
    while skip < w && skip < h {
        let q = quality.max(min_q).max(1);
        if q >= max_q {
            break;
        }
        v.push((skip, q));
        skip *= 2;
        quality = max_q.min(quality * 2);
    }
    v
}
/// q of the level that owns (x, y), None when it is not quantized
pub fn q_at(sched: &[(usize, i64)], x: usize, y: usize) -> Option<i64> {
    if x == 0 && y == 0 {
        return None;
    }
    let s = 1usize << (x | y).trailing_zeros();
    sched.iter().find(|e| e.0 == s).map(|e| e.1)
}
pub fn quantize(img: &mut [i16], w: usize, h: usize, quality: i64, min_q: i64, max_q: i64) {
    let s = schedule(w, h, quality, min_q, max_q);
    for y in 0..h {
        for x in 0..w {
            if let Some(q) = q_at(&s, x, y) {
                let v = &mut img[y * w + x];
                *v = (i64::from(*v) * q / max_q) as i16;
            }
        }
    }
}
pub fn dequantize(img: &mut [i16], w: usize, h: usize, quality: i64, min_q: i64, max_q: i64) {
    let s = schedule(w, h, quality, min_q, max_q);
    for y in 0..h {
        for x in 0..w {
            if let Some(q) = q_at(&s, x, y) {
                let v = &mut img[y * w + x];
                let a = i64::from(*v);
                *v = ((a * max_q + a.signum() * (max_q / 2)) / q) as i16;
            }
        }
    }
}

// ---------------------------------------------------------------- block coder

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub x0: usize,
    pub y0: usize,
    pub x1: usize,
    pub y1: usize,
    pub step: usize,
}
impl Block {
    /// offsets of the coefficients the step owns, in coding order
    pub fn owned(&self) -> impl Iterator<Item = (usize, usize)> {
        let (sx, sy, step) = (self.x1 - self.x0, self.y1 - self.y0, self.step);
        (0..sy).step_by(step).flat_map(move |y| {
            let odd = y & step != 0;
            let (first, by) = if odd { (0, step) } else { (step, 2 * step) };
            (first..sx).step_by(by).map(move |x| (x, y))
        })
    }
}

fn context(plane: &[i16], w: usize, b: &Block, x: usize, y: usize) -> (u32, u32) {
    let s = b.step as i64;
    let (sx, sy) = ((b.x1 - b.x0) as i64, (b.y1 - b.y0) as i64);
    let (x, y) = (x as i64, y as i64);
    let mut sum = 0u32;
    let mut sum2 = 0u32;
    let mut count = 0u32;
    let mut add = |x: i64, y: i64, weight: u32| {
        let v = plane[(b.y0 as i64 + y) as usize * w + (b.x0 as i64 + x) as usize];
        let a = i32::from(v).unsigned_abs();
        let c = a.min(4096);
        sum = sum.wrapping_add(a * weight);
        sum2 = sum2.wrapping_add(c * c * weight);
        count += weight;
    };
    // the parent position
    let parent = |v: i64, size: i64| {
        let r = (v & !(2 * s)) + (v & s);
        if r >= size {
            r - 2 * s
        } else {
            r
        }
    };
    add(parent(x, sx), parent(y, sy), 2);
    if y & s != 0 && (x | s) < sx {
        add(x | s, y - s, 2);
        if x & s != 0 {
            add(x - s, y, 2);
        }
    }
    if y >= 2 * s && x >= 2 * s {
        add(x, y - 2 * s, 4);
        add(x - 2 * s, y, 4);
        add(x - 2 * s, y - 2 * s, 2);
        if x + 2 * s < sx {
            add(x + 2 * s, y - 2 * s, 2);
        }
        if y >= 4 * s && x >= 4 * s {
            add(x, y - 4 * s, 2);
            add(x - 4 * s, y, 2);
            add(x - 4 * s, y - 4 * s, 1);
            if x + 4 * s < sx {
                add(x + 4 * s, y - 4 * s, 1);
            }
        }
    }
    (
        (sum.wrapping_mul(16).wrapping_add(count / 2)) / count,
        (sum2.wrapping_mul(16).wrapping_add(count / 2)) / count,
    )
}

/// (signed?, pot)
fn code_choice(ctx: (u32, u32), chroma: bool) -> (bool, u32) {
    let sq = ctx.0.wrapping_mul(ctx.0);
    let c = |k: u32, add: u32| sq < k.wrapping_mul(ctx.1).wrapping_add(add);
    if c(2, if chroma { 250 } else { 100 }) {
        (false, 0)
    } else if c(2, 950) {
        (false, 1)
    } else if c(3, 3000) {
        if c(5, 400) {
            (true, 1)
        } else {
            (false, 2)
        }
    } else if c(3, 12000) {
        if c(5, 3000) {
            (true, 2)
        } else {
            (false, 3)
        }
    } else if c(4, 44000) {
        if c(6, 12000) {
            (true, 3)
        } else {
            (false, 4)
        }
    } else {
        (true, 4)
    }
}
fn fast_update(ctx: (u32, u32), s: i32) -> (u32, u32) {
    let t = s.unsigned_abs();
    let c = t.min(4096);
    (
        ((ctx.0.wrapping_mul(15).wrapping_add(7)) >> 4).wrapping_add(t),
        ((ctx.1.wrapping_mul(15).wrapping_add(7)) >> 4).wrapping_add(c * c),
    )
}
fn next_run_coder(encoder: u8, ctx: (u32, u32), s: i32, q: i32, rc: u32) -> u32 {
    if (s == 0) != (rc == 0) {
        return rc;
    }
    if encoder == 1 {
        return match ctx.0 {
            0 => 4,
            1 => 3,
            2..=3 => 2,
            4..=7 => 1,
            _ => 0,
        };
    }
    if q == 1024 {
        return (ctx.0 < 2) as u32;
    }
    let sq2 = ctx.0.wrapping_mul(ctx.0).wrapping_mul(2);
    if ctx.0 < 4 && ctx.1 < 2 {
        4
    } else if ctx.0 < 8 && ctx.1 < 4 {
        3
    } else if sq2 < ctx.1.wrapping_mul(3).wrapping_add(48) {
        2
    } else if sq2 < ctx.1.wrapping_mul(5).wrapping_add(32) {
        1
    } else {
        0
    }
}
fn turbo_run_coder(encoder: u8, step: usize, q: i32) -> u32 {
    (encoder == 0 && (q == 0 || (step < 2048 && (q as i64) * (step as i64) < 2048))) as u32
}

pub fn encode_block(plane: &[i16], w: usize, b: &Block, encoder: u8, q: i32, dc: bool, chroma: bool) -> Bw {
    let mut o = Bw::default();
    if dc && b.x1 > b.x0 && b.y1 > b.y0 {
        scode(&mut o, i32::from(plane[b.y0 * w + b.x0]), 4);
    }
    let mut ctx = (0, 0);
    let mut run = 0u32;
    let mut rc = turbo_run_coder(encoder, b.step, q);
    for (x, y) in b.owned() {
        let v = i32::from(plane[(b.y0 + y) * w + b.x0 + x]);
        if rc != 0 && v == 0 {
            run += 1;
            continue;
        }
        // after a run the value is not zero, so negative ones move up by one
        let s = if rc != 0 && v < 0 { v + 1 } else { v };
        if rc != 0 {
            ucode(&mut o, run, if encoder == 0 { 1 } else { rc });
            run = 0;
        }
        if encoder == 0 {
            icode(&mut o, s, 1);
            continue;
        }
        if encoder == 2 {
            ctx = context(plane, w, b, x, y);
        }
        let (signed, pot) = code_choice(ctx, chroma);
        if signed {
            scode(&mut o, s, pot);
        } else {
            icode(&mut o, s, pot);
        }
        if encoder == 1 {
            ctx = fast_update(ctx, s);
        }
        rc = next_run_coder(encoder, ctx, s, q, rc);
    }
    if run != 0 {
        ucode(&mut o, run, rc);
    }
    o
}

/// None when the words run out
pub fn decode_block(
    plane: &mut [i16],
    w: usize,
    b: &Block,
    encoder: u8,
    q: i32,
    turbo_step: usize,
    dc: bool,
    chroma: bool,
    r: &mut Br<'_>,
) -> Option<()> {
    if dc && b.x1 > b.x0 && b.y1 > b.y0 {
        plane[b.y0 * w + b.x0] = sdecode(r, 4)? as i16;
    }
    let mut ctx = (0, 0);
    let mut run: i64 = -1;
    let mut rc = turbo_run_coder(encoder, turbo_step, q);
    for (x, y) in b.owned() {
        let at = (b.y0 + y) * w + b.x0 + x;
        if rc != 0 && run == -1 {
            // (a run of 2^31 and more is in no stream of an encoder)
            run = i64::from(udecode(r, rc)? as i32);
        }
        if run > 0 {
            run -= 1;
            plane[at] = 0;
            continue;
        }
        let mut s;
        if encoder == 0 {
            s = i32::from(idecode(r, 1)? as i16);
        } else {
            if encoder == 2 {
                ctx = context(plane, w, b, x, y);
            }
            let (signed, pot) = code_choice(ctx, chroma);
            s = i32::from(if signed { sdecode(r, pot)? } else { idecode(r, pot)? } as i16);
            if encoder == 1 {
                ctx = fast_update(ctx, s);
            }
            rc = next_run_coder(encoder, ctx, s, q, rc);
        }
        if run == 0 && s <= 0 {
            s -= 1;
        }
        run = -1;
        plane[at] = s as i16;
    }
    Some(())
}

// ---------------------------------------------------------------- whole codec

pub fn quantized(p: &P, chroma: &[bool], aux: &[i16]) -> Vec<i16> {
    let size = p.w * p.h;
    let mut a = aux.to_vec();
    for (c, plane) in a.chunks_mut(size).enumerate() {
        lift(plane, p.w, p.h, p.filter);
        quantize(plane, p.w, p.h, i64::from(p.q(chroma[c])), 0, 1024 * i64::from(p.boost()));
    }
    a
}

pub fn compress_aux(p: &P, chroma: &[bool], aux: &[i16]) -> Vec<u8> {
    encode_payload(p, chroma, &quantized(p, chroma, aux))
}

pub fn encode_payload(p: &P, chroma: &[bool], coef: &[i16]) -> Vec<u8> {
    let size = p.w * p.h;
    let mut out = vec![];
    let mut step = p.first_step();
    let mut dc = true;
    while step >= 1 {
        let (bs, bx, by) = p.blocks(step);
        let mut table = vec![];
        let mut body = vec![];
        for c in 0..p.planes() {
            for j in 0..by {
                for i in 0..bx {
                    let b = Block {
                        x0: i * bs,
                        y0: j * bs,
                        x1: ((i + 1) * bs).min(p.w),
                        y1: ((j + 1) * bs).min(p.h),
                        step,
                    };
                    let o = encode_block(
                        &coef[c * size..(c + 1) * size],
                        p.w,
                        &b,
                        p.encoder,
                        p.q(chroma[c]),
                        dc && i == 0 && j == 0,
                        chroma[c],
                    )
                    .finish();
                    table.push(o.len() as u32);
                    body.extend_from_slice(&words_to_bytes(&o));
                }
            }
        }
        out.extend_from_slice(&words_to_bytes(&table));
        out.extend_from_slice(&body);
        dc = false;
        step /= 2;
    }
    out
}

pub fn compress(p: &P, prog: &Prog, img: &[u8], mode: Div) -> Vec<u8> {
    let mut v = header_bytes(p);
    v.extend_from_slice(&program_bytes(prog));
    let aux = transform(p, prog, img, mode);
    v.extend_from_slice(&compress_aux(p, &chroma_flags(prog, p.planes()), &aux));
    v
}

/// What a prefix of a valid payload holds.
pub struct Decoded {
    /// all blocks needed were there
    pub complete: bool,
    /// dequantized and inverse transformed samples of the downsampled image
    pub aux: Vec<i16>,
    /// quantized coefficients of the downsampled image
    pub coef: Vec<i16>,
    pub blocks_decoded: usize,
    pub blocks_missing: usize,
}

/// sizes are below 2^30: more downsampling than this changes nothing
pub fn cap(d: u32) -> u32 {
    d.min(40)
}

/// (end of the table, end of the blocks) of the steps a downsampling needs, as byte offsets into the payload
pub fn layout(p: &P, d: u32, payload: &[u8]) -> Option<Vec<(usize, usize)>> {
    let d = cap(d);
    let mut v = vec![];
    let mut pos = 0usize;
    let mut step = p.first_step();
    let mut first = true;
    while first || (step >> d) >= 1 {
        let (_, bx, by) = p.blocks(step);
        let n = bx * by * p.planes();
        let table = payload.get(pos..pos + n * 4)?;
        let len: usize = bytes_to_words(table).iter().map(|&x| x as usize * 4).sum();
        v.push((pos + n * 4, pos + n * 4 + len));
        pos += n * 4 + len;
        first = false;
        step /= 2;
    }
    Some(v)
}

pub fn decode_payload(p: &P, chroma: &[bool], payload: &[u8], d: u32) -> Option<Decoded> {
    let d = cap(d);
    let (dw, dh) = p.down(d);
    let size = dw * dh;
    let mut coef = vec![0i16; size * p.planes()];
    let mut complete = true;
    let mut pos = 0usize;
    let mut step = p.first_step();
    let mut first = true;
    let (mut ok, mut missing) = (0, 0);
    while first || (step >> d) >= 1 {
        let (_, bx, by) = p.blocks(step);
        let n = bx * by * p.planes();
        if pos + n * 4 > payload.len() {
            complete = false;
            break;
        }
        let lens: Vec<usize> = bytes_to_words(&payload[pos..pos + n * 4]).iter().map(|&x| x as usize * 4).collect();
        pos += n * 4;
        let sd = (step >> d).max(1);
        let bsd = sd << p.block_size;
        let mut k = 0;
        for c in 0..p.planes() {
            for j in 0..by {
                for i in 0..bx {
                    let len = lens[k];
                    k += 1;
                    if pos + len <= payload.len() {
                        let words = bytes_to_words(&payload[pos..pos + len]);
                        let b = Block {
                            x0: i * bsd,
                            y0: j * bsd,
                            x1: ((i + 1) * bsd).min(dw),
                            y1: ((j + 1) * bsd).min(dh),
                            step: sd,
                        };
                        let mut r = Br::new(&words);
                        decode_block(
                            &mut coef[c * size..(c + 1) * size],
                            dw,
                            &b,
                            p.encoder,
                            p.q(chroma[c]),
                            step,
                            first && i == 0 && j == 0,
                            chroma[c],
                            &mut r,
                        )?;
                        ok += 1;
                    } else {
                        missing += 1;
                        complete = false;
                    }
                    pos += len;
                }
            }
        }
        first = false;
        step /= 2;
        if pos > payload.len() {
            complete = false;
            break;
        }
    }
    let mut aux = coef.clone();
    for (c, plane) in aux.chunks_mut(size).enumerate() {
        dequantize(plane, dw, dh, i64::from(p.q(chroma[c])) << d, 0, 1024 * i64::from(p.boost()));
        unlift(plane, dw, dh, p.filter);
    }
    Some(Decoded { complete, aux, coef, blocks_decoded: ok, blocks_missing: missing })
}

/// `data` starts after the header, as for decompress_simple
pub fn decompress(p: &P, prog: &Prog, data: &[u8], d: u32, mode: Div) -> Option<(bool, Vec<u8>)> {
    let skip = program_bytes(prog).len();
    let chroma = chroma_flags(prog, p.planes());
    let mut dec = decode_payload(p, &chroma, &data[skip..], d)?;
    let (dw, dh) = p.down(d);
    let out = detransform(p, prog, &mut dec.aux, dw * dh, mode);
    Some((dec.complete, out))
}
