//! C11: headers.
use crate::cx::{hex, Cx, R};
use crate::gen::INTENTS;
use crate::rng::{hash_bytes, mix, Rng};
use crate::subject as s;

#[derive(Debug, PartialEq, Clone)]
struct Spec {
    version: u32,
    w: u32,
    h: u32,
    channels: u32,
    layers: u32,
    block: u32,
    chroma: u32,
    quality: u32,
    depth: u32,
    intent: u8,
    encoder: u8,
    filter: u8,
    metadata: u64,
}

/// The format's definition of a header this library supports.
fn spec_decode(b: &[u8]) -> Option<Spec> {
    if b.len() < 32 || &b[..4] != b"GFWX" {
        return None;
    }
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let u16at = |i: usize| u32::from(b[i]) | u32::from(b[i + 1]) << 8;
    let word = u32at(20);
    let x = Spec {
        version: u32at(4),
        w: u32at(8),
        h: u32at(12),
        channels: u16at(16) + 1,
        layers: u16at(18) + 1,
        block: (word & 31) + 2,
        chroma: (word >> 5 & 255) + 1,
        quality: (word >> 13 & 1023) + 1,
        depth: (word >> 24) + 1,
        intent: b[24],
        encoder: b[25],
        filter: b[27],
        metadata: u64::from(u32at(28)) * 4,
    };
    let signed = word >> 23 & 1 == 1;
    let size = u128::from(x.w) * u128::from(x.h) * u128::from(x.channels) * u128::from(x.layers);
    let ok = x.w > 0
        && x.w < 1 << 30
        && x.h > 0
        && x.h < 1 << 30
        && x.channels <= 65535
        && x.layers <= 65535
        && x.block <= 30
        && x.chroma <= 255
        && !signed
        && x.depth <= 8
        && INTENTS.contains(&x.intent)
        && x.encoder <= 2
        && b[26] == 0
        && x.filter <= 1
        && x.metadata <= u64::from(u32::MAX)
        && size <= u128::from(u64::MAX);
    if ok {
        Some(x)
    } else {
        None
    }
}

fn intent_u8(i: gfwx::Intent) -> u8 {
    for k in INTENTS {
        if s::intent(k) == i {
            return k;
        }
    }
    255
}
fn spec_of(h: &gfwx::Header) -> Spec {
    Spec {
        version: h.version,
        w: h.width,
        h: h.height,
        channels: h.channels.into(),
        layers: h.layers.into(),
        block: h.block_size.into(),
        chroma: h.chroma_scale.into(),
        quality: h.quality.into(),
        depth: h.bit_depth.into(),
        intent: intent_u8(h.intent),
        encoder: [gfwx::Encoder::Turbo, gfwx::Encoder::Fast, gfwx::Encoder::Contextual].iter().position(|e| *e == h.encoder).unwrap() as u8,
        filter: (h.filter == gfwx::Filter::Cubic) as u8,
        metadata: h.metadata_size.into(),
    }
}

fn sizes(h: &gfwx::Header, x: &Spec) -> R {
    let (w, hh) = (u128::from(x.w), u128::from(x.h));
    let planes = u128::from(x.channels) * u128::from(x.layers);
    let size = |a: usize, b: u128, what: &str| {
        if a as u128 != b {
            Err(format!("{} is {} instead of {} for {:?}", what, a, b, x))
        } else {
            Ok(())
        }
    };
    size(h.get_channel_size(), w * hh, "get_channel_size")?;
    size(h.get_image_size(), w * hh * planes, "get_image_size")?;
    size(h.channel_size, w * hh, "channel_size")?;
    size(h.image_size, w * hh * planes, "image_size")?;
    for d in (0..68usize).chain([96, 127, 128, 129, 255, 256, 1 << 20, usize::MAX]) {
        // sizes are below 2^30
        let f = 1u128 << d.min(40);
        let (dw, dh) = ((w + f - 1) / f, (hh + f - 1) / f);
        size(h.get_downsampled_width(d), dw, "get_downsampled_width")?;
        size(h.get_downsampled_height(d), dh, "get_downsampled_height")?;
        size(h.get_downsampled_channel_size(d), dw * dh, "get_downsampled_channel_size")?;
        size(h.get_downsampled_image_size(d), dw * dh * planes, "get_downsampled_image_size")?;
        size(h.get_decompress_buffer_size(d), dw * dh * planes, "get_decompress_buffer_size")?;
    }
    let boost = if x.quality == 1024 { 1 } else { 8 };
    if i32::from(h.get_boost()) != boost {
        return Err(format!("get_boost is {} for quality {}", h.get_boost(), x.quality));
    }
    let cq = ((x.quality as i32 + x.chroma as i32 / 2) / x.chroma as i32).max(1);
    if h.get_chroma_quality() != cq {
        return Err(format!("get_chroma_quality is {} instead of {} for quality {} and scale {}", h.get_chroma_quality(), cq, x.quality, x.chroma));
    }
    Ok(())
}

/// Ok(true) when it is a valid header
fn bytes(b: &[u8], all: bool) -> Result<bool, String> {
    let want = spec_decode(b);
    let mut rest = b;
    let got = s::guard(|| gfwx::Header::decode(&mut rest))?;
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Ok(h), None) => Err(format!("decode accepts the invalid header {}: {:?}", hex(b), h)),
        (Err(e), Some(x)) => Err(format!("decode rejects the valid header {} ({:?}): {}", hex(b), x, e)),
        (Ok(h), Some(x)) => {
            if spec_of(&h) != x {
                return Err(format!("header {} decodes to {:?} instead of {:?}", hex(b), h, x));
            }
            if rest.len() + 32 != b.len() {
                return Err(format!("decode consumed {} bytes instead of 32", b.len() - rest.len()));
            }
            if all {
                let mut out = vec![];
                s::guard(|| h.encode(&mut out))?.map_err(|e| format!("encode: {}", e))?;
                if out != b[..32] {
                    return Err(format!("header {} re-encodes to {}", hex(&b[..32]), hex(&out)));
                }
                s::guard(|| sizes(&h, &x))??;
            }
            Ok(true)
        }
    }
}

fn edge32(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, 2, 3, u32::MAX, 1 << 30, (1 << 30) - 1, (1 << 30) + 1, 1 << 31, 1 << 29, 0x3fff_ffff, 0x4000_0000]),
        1 => r.range(0, 10) as u32,
        2 => (1u32 << r.below(32)).wrapping_add(r.range(-2, 2) as u32),
        3 | 4 => r.range(1, 5000) as u32,
        _ => r.u32() >> r.below(32),
    }
}
fn edge16(r: &mut Rng) -> u16 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 2, 3, 65534, 65535, 32767, 32768, 255, 256]),
        1 | 2 => r.range(0, 6) as u16,
        _ => (r.u32() as u16) >> r.below(16),
    }
}

/// A header whose public fields were set to anything that has a representation is written as the format says.
fn written(r: &mut Rng) -> R {
    let p = crate::model::P { w: 1, h: 1, layers: 1, channels: 1, quality: 1, chroma_scale: 1, block_size: 2, filter: 0, encoder: 0, intent: 0, metadata: 0 };
    let mut h = s::header(&p)?;
    h.version = edge32(r);
    h.width = edge32(r);
    h.height = edge32(r);
    h.layers = edge16(r).max(1);
    h.channels = edge16(r).max(1);
    h.bit_depth = r.range(1, 255) as u8;
    h.is_signed = r.pct(50);
    h.quality = r.range(1, 1024) as u16;
    h.chroma_scale = r.range(1, 255) as u8;
    h.block_size = r.range(2, 33) as u8;
    let (filter, encoder, intent) = (r.below(2) as u8, r.below(3) as u8, *r.pick(&INTENTS));
    h.filter = s::filter(filter);
    h.encoder = s::encoder(encoder);
    h.intent = s::intent(intent);
    h.metadata_size = edge32(r);
    let mut want = b"GFWX".to_vec();
    for x in [h.version, h.width, h.height] {
        want.extend(x.to_le_bytes());
    }
    for x in [h.channels - 1, h.layers - 1] {
        want.extend(x.to_le_bytes());
    }
    let word = u32::from(h.block_size - 2)
        | u32::from(h.chroma_scale - 1) << 5
        | u32::from(h.quality - 1) << 13
        | u32::from(h.is_signed) << 23
        | u32::from(h.bit_depth - 1) << 24;
    want.extend(word.to_le_bytes());
    want.extend([intent, encoder, 0, filter]);
    want.extend((h.metadata_size / 4).to_le_bytes());
    let mut out = vec![];
    s::guard(|| h.encode(&mut out))?.map_err(|e| format!("encode of {:?}: {}", h, e))?;
    if out != want {
        return Err(format!("{:?} encodes to {} instead of {}", h, hex(&out), hex(&want)));
    }
    Ok(())
}

/// the limits of the format, which users give to the builder
fn constants() -> R {
    for (name, is, should) in [
        ("QUALITY_MAX", u32::from(gfwx::QUALITY_MAX), 1024),
        ("BLOCK_MAX", u32::from(gfwx::BLOCK_MAX), 30),
        ("BLOCK_DEFAULT", u32::from(gfwx::BLOCK_DEFAULT), 7),
    ] {
        if is != should {
            return Err(format!("{} is {} instead of {}", name, is, should));
        }
    }
    Ok(())
}

pub fn c11(cx: &mut Cx, r: &mut Rng, index: u64) -> R {
    constants()?;
    for _ in 0..20 {
        written(r)?;
        cx.count("headers_with_public_fields_set", 1);
    }
    if index % 2 == 0 && index < 512 {
        // every value of the word with block size, chroma scale, quality and sign
        let mut b = vec![0u8; 32];
        b[..4].copy_from_slice(b"GFWX");
        b[4] = 1;
        b[8] = r.range(1, 255) as u8;
        b[12] = r.range(1, 255) as u8;
        b[16] = r.below(4) as u8;
        b[18] = r.below(4) as u8;
        b[22] = (index / 2) as u8;
        b[23] = *r.pick(&[7, 7, 7, 0, 6, 8]);
        b[24] = *r.pick(&INTENTS);
        b[25] = r.below(3) as u8;
        b[27] = r.below(2) as u8;
        let mut valid = 0;
        for k in 0..65536u32 {
            b[20] = k as u8;
            b[21] = (k >> 8) as u8;
            valid += bytes(&b, k % 64 == 0)? as u64;
        }
        // every value of the byte fields
        for i in 16..28 {
            for k in 0..=255 {
                let mut c = b.clone();
                c[20] = 0;
                c[21] = 0;
                c[22] &= 0x7f;
                c[23] = 7;
                c[i] = k;
                valid += bytes(&c, true)? as u64;
            }
        }
        cx.count("field_words_enumerated", 65536);
        cx.count("byte_fields_enumerated", 12 * 256);
        cx.count("valid_headers", valid);
        cx.eval(Some(mix(index)));
        return Ok(());
    }
    for _ in 0..40 {
        // arbitrary bytes, most of them near a valid header
        let mut b: Vec<u8> = (0..32 + r.below(5)).map(|_| r.u32() as u8).collect();
        b[..4].copy_from_slice(b"GFWX");
        for i in [8, 12] {
            b[i..i + 4].copy_from_slice(&edge32(r).to_le_bytes());
        }
        for i in [16, 18] {
            b[i..i + 2].copy_from_slice(&edge16(r).to_le_bytes());
        }
        b[28..32].copy_from_slice(&edge32(r).to_le_bytes());
        if r.pct(90) {
            b[23] = r.below(9) as u8;
            b[22] &= 0x7f;
            b[24] = *r.pick(&INTENTS);
            b[25] = r.below(3) as u8;
            b[26] = 0;
            b[27] = r.below(2) as u8;
        }
        match r.below(20) {
            0 => b[r.below(4)] ^= 1 << r.below(8),
            1 => {
                let n = r.below(32);
                b.truncate(n);
            }
            2 | 3 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            _ => {}
        }
        cx.detail = format!("header bytes {}", hex(&b));
        let ok = bytes(&b, true)?;
        cx.count(if ok { "valid_headers" } else { "invalid_headers" }, 1);
        cx.eval(Some(hash_bytes(11, &b)));
        if ok {
            cx.sample(|| format!("{} decodes and re-encodes", hex(&b)));
        }
    }
    for _ in 0..40 {
        let x = Spec {
            version: 1,
            w: edge32(r),
            h: edge32(r),
            channels: edge16(r).into(),
            layers: edge16(r).into(),
            block: if r.pct(70) { r.range(2, 30) as u32 } else { r.below(256) as u32 },
            chroma: r.below(256) as u32,
            quality: if r.pct(70) { r.range(1, 1024) as u32 } else { edge16(r).into() },
            depth: 8,
            intent: *r.pick(&INTENTS),
            encoder: r.below(3) as u8,
            filter: r.below(2) as u8,
            metadata: edge32(r).into(),
        };
        cx.detail = format!("builder {:?}", x);
        let size = u128::from(x.w) * u128::from(x.h) * u128::from(x.channels) * u128::from(x.layers);
        let want = x.w > 0
            && x.w < 1 << 30
            && x.h > 0
            && x.h < 1 << 30
            && x.channels > 0
            && x.layers > 0
            && x.chroma > 0
            && (2..=30).contains(&x.block)
            && (1..=1024).contains(&x.quality)
            && size <= u128::from(u64::MAX);
        let got = s::guard(|| {
            gfwx::HeaderBuilder {
                width: x.w,
                height: x.h,
                layers: x.layers as u16,
                channels: x.channels as u16,
                quality: x.quality as u16,
                chroma_scale: x.chroma as u8,
                block_size: x.block as u8,
                filter: s::filter(x.filter),
                encoder: s::encoder(x.encoder),
                intent: s::intent(x.intent),
                metadata_size: x.metadata as u32,
            }
            .build()
        })?;
        cx.eval(Some(hash_bytes(111, format!("{:?}", x).as_bytes())));
        let h = match (got, want) {
            (Err(_), false) => {
                cx.count("builder.rejected", 1);
                continue;
            }
            (Ok(_), false) => return Err(format!("builder accepts {:?}", x)),
            (Err(e), true) => return Err(format!("builder rejects {:?}: {}", x, e)),
            (Ok(h), true) => h,
        };
        cx.count("builder.accepted", 1);
        if spec_of(&h) != x {
            return Err(format!("builder made {:?} of {:?}", h, x));
        }
        s::guard(|| sizes(&h, &x))??;
        let mut out = vec![];
        s::guard(|| h.encode(&mut out))?.map_err(|e| format!("encode: {}", e))?;
        let back = {
            let mut rest = &out[..];
            s::guard(|| gfwx::Header::decode(&mut rest))?.map_err(|e| format!("header {:?} encodes to {}, which is rejected: {}", h, hex(&out), e))?
        };
        let mut h2 = h;
        h2.metadata_size &= !3;
        if back != h2 {
            return Err(format!("header {:?} comes back as {:?}", h2, back));
        }
        if out.len() != 32 || spec_decode(&out) != Some(spec_of(&h2)) {
            return Err(format!("header {:?} encodes to {}", h2, hex(&out)));
        }
        // a writer that is too small
        let n = r.below(32);
        let mut small = vec![0u8; n];
        let mut w = &mut small[..];
        if s::guard(|| h2.encode(&mut w).is_ok())? {
            return Err(format!("encode succeeds with {} bytes of space", n));
        }
    }
    Ok(())
}
