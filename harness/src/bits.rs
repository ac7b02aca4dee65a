//! C14: bit streams and Golomb-Rice codes.
use crate::cx::{hex, Cx, R};
use crate::model::{self, Br, Bw};
use crate::rng::{hash_bytes, Rng};
use crate::subject as s;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode as e;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// value, bits
    Raw(u32, u32),
    /// value, pot
    U(u32, u32),
    I(i32, u32),
    S(i32, u32),
    /// zeros and a one
    Zeros(u32),
}

fn magnitude(r: &mut Rng, bits: u32) -> u32 {
    match r.below(6) {
        0 => r.below(40) as u32,
        1 => (1u64 << r.below(bits as usize + 1)).saturating_sub(1) as u32,
        2 => (1u64 << r.below(bits as usize)) as u32,
        3 => {
            // around the escapes
            let p = r.below(25) as u32;
            let base = (12u64 << p) + if r.pct(50) { 12u64 << (p + 4).min(24) } else { 0 };
            (base as i64 + r.range(-2, 2)).clamp(0, u32::MAX.into()) as u32
        }
        4 => u32::MAX,
        _ => r.u32() >> r.below(32),
    }
    .min(((1u64 << bits) - 1) as u32)
}

fn ops(r: &mut Rng, n: usize) -> Vec<Op> {
    let kind = r.below(6);
    (0..n)
        .map(|_| match if kind < 4 { kind } else { r.below(5) } {
            0 => {
                let bits = r.usize(0, 32) as u32;
                let v = if r.pct(20) { u32::MAX } else { r.u32() };
                Op::Raw(if bits == 32 { v } else { v & ((1 << bits) - 1) }, bits)
            }
            1 => Op::U(magnitude(r, 32), r.below(25) as u32),
            2 => {
                let m = magnitude(r, 30) as i32;
                Op::I(if r.pct(50) { m } else { -m }, r.below(25) as u32)
            }
            3 => {
                let m = magnitude(r, 31) as i32;
                Op::S(if r.pct(50) { m } else { -m }, r.below(25) as u32)
            }
            _ => Op::Zeros(if r.pct(80) { r.below(12) as u32 } else { r.below(100) as u32 }),
        })
        .collect()
}

/// some small enough that u32::MAX with pot 0 stays cheap: escapes grow the parameter, so at most
/// a few dozen bits are written
pub fn c14(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    if index < 400 {
        exhaustive(cx, index)?;
    }
    for _ in 0..20 {
        let n = if r.pct(80) { r.usize(1, 30) } else { r.usize(1, 400) };
        let list = ops(r, n);
        cx.detail = format!("{:?}", &list[..list.len().min(400)]);
        sequence(cx, r, &list)?;
    }
    arbitrary(cx, r)
}

fn write(list: &[Op]) -> (Vec<u8>, u64) {
    let mut m = Bw::default();
    for &op in list {
        match op {
            Op::Raw(v, bits) => m.put(v.into(), bits),
            Op::U(v, p) => model::ucode(&mut m, v, p),
            Op::I(v, p) => model::icode(&mut m, v, p),
            Op::S(v, p) => model::scode(&mut m, v, p),
            Op::Zeros(n) => {
                for _ in 0..n {
                    m.bit(0);
                }
                m.bit(1);
            }
        }
    }
    let t = m.total;
    (m.bytes(), t)
}

fn sequence(cx: &mut Cx, r: &mut Rng, list: &[Op]) -> R {
    let (want, total) = write(list);
    let mut got = vec![];
    s::guard(|| -> std::io::Result<()> {
        let mut w = BitsIOWriter::new(&mut got);
        for &op in list {
            match op {
                Op::Raw(v, bits) => w.put_bits(v, bits)?,
                Op::U(v, p) => e::unsigned_code(v, &mut w, p)?,
                Op::I(v, p) => e::interleaved_code(v, &mut w, p)?,
                Op::S(v, p) => e::signed_code(v, &mut w, p)?,
                Op::Zeros(n) => {
                    // also written with more bits than a word at once
                    if n < 44 {
                        w.put_bits(1, n + 1)?
                    } else {
                        for _ in 0..n / 16 {
                            w.put_bits(0, 16)?;
                        }
                        w.put_bits(1, n % 16 + 1)?
                    }
                }
            }
        }
        w.flush_write_word()
    })?
    .map_err(|x| format!("write: {}", x))?;
    if got != want {
        return Err(format!("{:?} is written as {} instead of {}", &list[..list.len().min(60)], hex(&got), hex(&want)));
    }
    // read back what is written, with bytes behind it
    let tail = r.below(9);
    got.extend((0..tail).map(|_| r.u32() as u8));
    let mut rest = &got[..];
    s::guard(|| -> Result<(), String> {
        let len = rest.len();
        let mut rd = BitsIOReader::new(&mut rest);
        let io = |x: std::io::Error| format!("read: {}", x);
        for (i, &op) in list.iter().enumerate() {
            let bad = |x: String| format!("item {} of {:?} is read as {}", i, &list[..list.len().min(60)], x);
            match op {
                Op::Raw(_, 0) => {}
                Op::Raw(v, bits) => {
                    let x = rd.get_bits(bits).map_err(io)?;
                    if x != v {
                        return Err(bad(x.to_string()));
                    }
                }
                Op::U(v, p) => {
                    let x = e::unsigned_decode(&mut rd, p).map_err(io)?;
                    if x != v {
                        return Err(bad(x.to_string()));
                    }
                }
                Op::I(v, p) => {
                    let x = e::interleaved_decode(&mut rd, p).map_err(io)?;
                    if x != v {
                        return Err(bad(x.to_string()));
                    }
                }
                Op::S(v, p) => {
                    let x = e::signed_decode(&mut rd, p).map_err(io)?;
                    if x != v {
                        return Err(bad(x.to_string()));
                    }
                }
                Op::Zeros(n) => {
                    let x = rd.get_zeros(n + 1).map_err(io)?;
                    if x != n {
                        return Err(bad(x.to_string()));
                    }
                }
            }
        }
        drop(rd);
        let used = len - rest.len();
        if used as u64 != (total + 31) / 32 * 4 {
            return Err(format!("{} bits are read by consuming {} bytes", total, used));
        }
        Ok(())
    })??;
    // a prefix gives the first items and then an error
    let cut = r.below(want.len() + 1);
    let words = model::bytes_to_words(&want[..cut]);
    let mut m = Br::new(&words);
    let mut rest = &want[..cut];
    s::guard(|| -> Result<(), String> {
        let mut rd = BitsIOReader::new(&mut rest);
        for (i, &op) in list.iter().enumerate() {
            let (a, b): (Option<i64>, Option<i64>) = match op {
                Op::Raw(_, 0) => continue,
                Op::Raw(_, bits) => (rd.get_bits(bits).ok().map(i64::from), m.get(bits).map(i64::from)),
                Op::U(_, p) => (e::unsigned_decode(&mut rd, p).ok().map(i64::from), model::udecode(&mut m, p).map(i64::from)),
                Op::I(_, p) => (e::interleaved_decode(&mut rd, p).ok().map(i64::from), model::idecode(&mut m, p).map(i64::from)),
                Op::S(_, p) => (e::signed_decode(&mut rd, p).ok().map(i64::from), model::sdecode(&mut m, p).map(i64::from)),
                Op::Zeros(n) => (rd.get_zeros(n + 1).ok().map(i64::from), zeros(&mut m, n + 1).map(i64::from)),
            };
            if a != b {
                return Err(format!("item {} of {} bytes of {:?} is read as {:?} instead of {:?}", i, cut, &list[..list.len().min(60)], a, b));
            }
            if a.is_none() {
                break;
            }
        }
        Ok(())
    })??;
    // and a writer without enough space is an error
    if !want.is_empty() {
        let room = r.below(want.len());
        let mut small = vec![0xeeu8; room];
        let ok = s::guard(|| {
            let mut w = &mut small[..];
            let mut w = BitsIOWriter::new(&mut w);
            let mut ok = true;
            for &op in list {
                ok &= match op {
                    Op::Raw(v, bits) => w.put_bits(v, bits),
                    Op::U(v, p) => e::unsigned_code(v, &mut w, p),
                    Op::I(v, p) => e::interleaved_code(v, &mut w, p),
                    Op::S(v, p) => e::signed_code(v, &mut w, p),
                    Op::Zeros(n) => (0..n).try_for_each(|_| w.put_bits(0, 1)).and_then(|_| w.put_bits(1, 1)),
                }
                .is_ok();
                if !ok {
                    return false;
                }
            }
            w.flush_write_word().is_ok()
        })?;
        if ok {
            return Err(format!("{} bytes are written to a buffer of {}", want.len(), room));
        }
        let whole = room / 4 * 4;
        if small[..whole] != want[..whole] {
            return Err(format!("a buffer of {} bytes holds {} instead of {}", room, hex(&small), hex(&want[..whole])));
        }
    }
    for &op in list {
        cx.count(
            match op {
                Op::Raw(..) => "items.raw",
                Op::U(..) => "items.unsigned",
                Op::I(..) => "items.interleaved",
                Op::S(..) => "items.signed",
                Op::Zeros(..) => "items.zeros",
            },
            1,
        );
    }
    cx.count("bits", total);
    cx.eval(if list.len() > 1 { Some(hash_bytes(14, &want)) } else { None });
    cx.sample(|| format!("{} items in {} bits: {:?} ...", list.len(), total, &list[..list.len().min(6)]));
    Ok(())
}

fn zeros(m: &mut Br<'_>, max: u32) -> Option<u32> {
    let mut n = 0;
    while n < max {
        if m.bit()? == 1 {
            break;
        }
        n += 1;
    }
    Some(n)
}

/// all offsets and parameters for small values and the edges of 16 bits
fn exhaustive(cx: &mut Cx, index: u64) -> R {
    let offset = (index % 32) as u32;
    let pot = (index / 32 * 2 % 25) as u32;
    for pot in [pot, pot + 1] {
        if pot > 24 {
            continue;
        }
        let check = |op: Op| -> R {
            let list = [Op::Raw(0x1234_5678 & ((1u32 << offset) - 1), offset), op, Op::Raw(1, 3)];
            let (want, _) = write(&list);
            let mut got = vec![];
            let r = s::guard(|| -> std::io::Result<(u32, i64, u32)> {
                let mut w = BitsIOWriter::new(&mut got);
                for &op in &list {
                    match op {
                        Op::Raw(v, bits) => w.put_bits(v, bits)?,
                        Op::U(v, p) => e::unsigned_code(v, &mut w, p)?,
                        Op::I(v, p) => e::interleaved_code(v, &mut w, p)?,
                        Op::S(v, p) => e::signed_code(v, &mut w, p)?,
                        Op::Zeros(_) => {}
                    }
                }
                w.flush_write_word()?;
                let mut rest = &got[..];
                let mut rd = BitsIOReader::new(&mut rest);
                let a = if offset > 0 { rd.get_bits(offset)? } else { 0 };
                let b = match op {
                    Op::U(_, p) => e::unsigned_decode(&mut rd, p)?.into(),
                    Op::I(_, p) => e::interleaved_decode(&mut rd, p)?.into(),
                    Op::S(_, p) => e::signed_decode(&mut rd, p)?.into(),
                    _ => 0,
                };
                let c = rd.get_bits(3)?;
                Ok((a, b, c))
            })?
            .map_err(|x| format!("{:?}: {}", list, x))?;
            let v = match op {
                Op::U(v, _) => v.into(),
                Op::I(v, _) | Op::S(v, _) => i64::from(v),
                _ => 0,
            };
            let first = match list[0] {
                Op::Raw(v, _) => v,
                _ => 0,
            };
            if got != want || r != (first, v, 1) {
                return Err(format!("{:?} gives {} (expected {}) and is read as {:?}", list, hex(&got), hex(&want), r));
            }
            Ok(())
        };
        for v in 0..420u32 {
            check(Op::U(v, pot))?;
            check(Op::I(v as i32, pot))?;
            check(Op::I(-(v as i32), pot))?;
            check(Op::S(v as i32, pot))?;
            check(Op::S(-(v as i32), pot))?;
        }
        for k in 0..32 {
            for o in -1i64..=1 {
                for base in [1i64 << k, 12i64 << k, 24i64 << k, (12i64 << k) + (12i64 << (k + 4).min(24))] {
                    let v = base + o;
                    if v >= 0 && v <= u32::MAX.into() {
                        check(Op::U(v as u32, pot))?;
                    }
                    if v >= 0 && v <= i32::MAX.into() {
                        check(Op::S(v as i32, pot))?;
                        check(Op::S(-v as i32, pot))?;
                    }
                    if v >= 0 && v < 1 << 30 {
                        check(Op::I(v as i32, pot))?;
                        check(Op::I(-v as i32, pot))?;
                    }
                }
            }
        }
        cx.count("offset_and_parameter_pairs_enumerated", 1);
    }
    Ok(())
}

/// any words decode like the format says
fn arbitrary(cx: &mut Cx, r: &mut Rng) -> R {
    let n = r.usize(0, 60);
    let dense = r.below(4);
    let bytes: Vec<u8> = (0..n)
        .map(|_| match dense {
            0 => r.u32() as u8,
            1 => (r.u32() & r.u32() & r.u32()) as u8,
            2 => 0,
            _ => (r.u32() & r.u32() & r.u32() & r.u32() & r.u32()) as u8,
        })
        .collect();
    cx.detail = format!("arbitrary bytes {}", hex(&bytes));
    let words = model::bytes_to_words(&bytes);
    let mut m = Br::new(&words);
    let mut rest = &bytes[..];
    let mut steps = 0u64;
    s::guard(|| -> Result<(), String> {
        let mut rd = BitsIOReader::new(&mut rest);
        loop {
            let p = r.below(25) as u32;
            let (a, b, what): (Option<i64>, Option<i64>, String) = match r.below(5) {
                0 => {
                    let k = r.usize(1, 32) as u32;
                    (rd.get_bits(k).ok().map(i64::from), m.get(k).map(i64::from), format!("get_bits({})", k))
                }
                1 => {
                    let k = r.usize(1, 60) as u32;
                    (rd.get_zeros(k).ok().map(i64::from), zeros(&mut m, k).map(i64::from), format!("get_zeros({})", k))
                }
                2 => (e::unsigned_decode(&mut rd, p).ok().map(i64::from), model::udecode(&mut m, p).map(i64::from), format!("unsigned_decode({})", p)),
                3 => (e::interleaved_decode(&mut rd, p).ok().map(i64::from), model::idecode(&mut m, p).map(i64::from), format!("interleaved_decode({})", p)),
                _ => (e::signed_decode(&mut rd, p).ok().map(i64::from), model::sdecode(&mut m, p).map(i64::from), format!("signed_decode({})", p)),
            };
            if a != b {
                return Err(format!("step {}, {} of {}: {:?} instead of {:?}", steps, what, hex(&bytes), a, b));
            }
            if a.is_none() {
                return Ok(());
            }
            steps += 1;
            if r.pct(5) {
                // the rest of the word is dropped
                if m.pos % 32 != 0 {
                    m.pos = (m.pos + 31) / 32 * 32;
                }
                rd.flush_read_word();
            }
        }
    })??;
    cx.count("items.from_arbitrary_words", steps);
    Ok(())
}
