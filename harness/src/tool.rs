//! Helpers for the command line check (C22): raw pixels in files.
use crate::model::{self, Div, P};
use crate::subject as s;

/// compress W H CH QUALITY BLOCK FILTER ENCODER INTENT ROOM IN OUT: what compress_simple gives
/// lowpass W H CH QUALITY BLOCK FILTER ENCODER INTENT D IN OUT: what decoding must give, by the model
pub fn run(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let p = P {
        w: n(1),
        h: n(2),
        layers: 1,
        channels: n(3),
        quality: n(4) as i32,
        chroma_scale: 8,
        block_size: n(5) as u32,
        filter: n(6) as u8,
        encoder: n(7) as u8,
        intent: n(8) as u8,
        metadata: 0,
    };
    let img = std::fs::read(&a[10]).unwrap();
    match a[0].as_str() {
        "compress" => {
            let h = s::header(&p).unwrap();
            let mut buf = vec![0u8; n(9)];
            match s::compress_into(&h, &s::program(&vec![]), &img, &mut buf) {
                Ok(Ok(k)) => {
                    std::fs::write(&a[11], &buf[..k]).unwrap();
                    0
                }
                Ok(Err(_)) => 3,
                Err(_) => 4,
            }
        }
        "lowpass" => {
            let d = n(9) as u32;
            let stream = model::compress(&p, &vec![], &img, Div::Trunc);
            let (ok, out) = model::decompress(&p, &vec![], &stream[32..], d, Div::Trunc).unwrap();
            assert!(ok);
            std::fs::write(&a[11], out).unwrap();
            0
        }
        _ => 2,
    }
}
