//! C10: workload for the sanitizers and Miri; only panics of the chunk assertions count here,
//! what the sanitizers see they report themselves.
use crate::codec;
use crate::cx::{Cx, R};
use crate::rng::Rng;

fn only_assertions(cx: &mut Cx, r: R) -> R {
    match r {
        Err(e) if e.contains("image.rs") || e.contains("permitted!") || e.contains("unsafe precondition") => Err(e),
        Err(_) => {
            cx.count("failures_left_to_other_properties", 1);
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}

/// a case for the interpreter: everything tiny, few calls
fn tiny(cx: &mut Cx, r: &mut Rng, index: u64, pools: &crate::Pools) -> R {
    use crate::gen;
    use crate::gen::Dens;
    use crate::model;
    use crate::subject as s;
    let mut p = gen::params(r, 30);
    p.layers = 1;
    p.channels = if r.pct(70) { 1 } else { 2 };
    match r.below(4) {
        0 => {
            p.w = r.usize(1, 3);
            p.h = r.usize(5, 14);
        }
        1 => {
            p.w = r.usize(5, 14);
            p.h = r.usize(1, 3);
        }
        _ => {
            p.w = r.usize(4, 9);
            p.h = r.usize(4, 9);
        }
    }
    if r.pct(85) {
        p.block_size = 2;
    }
    p.encoder = (index / 2 % 3) as u8;
    p.filter = (index % 2) as u8;
    let prog = gen::program(r, p.planes(), Dens::Any, false);
    let img = gen::image(r, &p);
    cx.detail = codec::describe(&p, &prog, &img);
    cx.note_params(&p);
    let way = index / 6 % 4;
    let d = r.usize(1, 2);
    let stream = model::compress(&p, &prog, &img, model::Div::Trunc);
    let cut = r.usize(1, stream.len() - 32);
    let seed = r.u64();
    let go = || -> Result<(), String> {
        match way {
            0 => s::compress(&p, &prog, &img).map(|_| ()),
            1 => s::decompress(&stream, 0).map(|_| ()),
            2 => s::decompress(&stream, d).map(|_| ()),
            _ => s::decompress(&stream[..stream.len() - cut], 0).map(|_| ()),
        }
    };
    cx.count(["tiny.compress", "tiny.decompress", "tiny.downsample", "tiny.truncated"][way as usize], 1);
    #[cfg(feature = "rayon")]
    {
        crate::sched::perturb(seed, 1);
        let res = pools.run(2, go);
        let (events, sig, threads) = crate::sched::observed();
        crate::sched::quiet();
        res?;
        cx.count("scheduled_items", events);
        cx.max("max.threads_seen", threads);
        if threads > 1 {
            cx.count("executions_on_several_threads", 1);
        }
        cx.eval(Some(sig ^ codec::key(&p, &prog, &img)));
    }
    #[cfg(not(feature = "rayon"))]
    {
        let _ = (pools, seed);
        go()?;
        cx.eval(Some(codec::key(&p, &prog, &img)));
    }
    cx.sample(|| format!("{}: {}", codec::short(&p), ["compress", "decompress", "downsample", "truncated"][way as usize]));
    Ok(())
}

pub fn c10(cx: &mut Cx, r: &mut Rng, index: u64, pools: &crate::Pools) -> R {
    if cx.small && index % 8 != 7 {
        let res = tiny(cx, r, index - index / 8, pools);
        return only_assertions(cx, res);
    }
    let index = if cx.small { index / 8 % 4 + 6 + index / 32 * 10 } else { index };
    let kind = index % 10;
    let res = match kind {
        0..=5 => {
            cx.count("calls.codec", 1);
            codec_case(cx, r, pools)
        }
        6 => {
            cx.count("calls.hostile", 1);
            codec::c07(cx, r)
        }
        #[cfg(feature = "low_block")]
        7 => {
            cx.count("calls.blocks", 1);
            crate::block::c21(cx, r)
        }
        #[cfg(feature = "low_part")]
        8 => {
            cx.count("calls.partitions", 1);
            marks()?;
            let i = if cx.small { index / 10 } else { u64::MAX };
            crate::part::c16(cx, r, i)
        }
        #[cfg(feature = "low_lift")]
        9 => {
            cx.count("calls.lifting", 1);
            crate::lift::c15(cx, r, u64::MAX)
        }
        _ => codec_case(cx, r, pools),
    };
    only_assertions(cx, res)
}

/// chunks go to other threads only as far as their elements may
#[cfg(feature = "low_part")]
fn marks() -> R {
    use gfwx::processing::image::{Image, ImageChunkIteratorMut, ImageChunkMut};
    use std::marker::PhantomData;
    struct Probe<T>(PhantomData<T>);
    trait No {
        fn goes(&self) -> bool {
            false
        }
        fn shared(&self) -> bool {
            false
        }
    }
    impl<T> No for &Probe<T> {}
    impl<T: Send> Probe<T> {
        fn goes(&self) -> bool {
            true
        }
    }
    impl<T: Sync> Probe<T> {
        fn shared(&self) -> bool {
            true
        }
    }
    type Local = std::rc::Rc<i16>;
    type Unshared = std::cell::Cell<i16>;
    macro_rules! refuse {
        ($t:ty, $what:ident) => {
            if (&Probe::<$t>(PhantomData)).$what() {
                return Err(format!("{} {} other threads, its elements must not: a data race in safe code", stringify!($t), if stringify!($what) == "goes" { "can be sent to" } else { "can be shared with" }));
            }
        };
    }
    refuse!(Image<'static, Local>, goes);
    refuse!(ImageChunkIteratorMut<'static, Local>, goes);
    refuse!(ImageChunkMut<'static, Local>, goes);
    refuse!(Image<'static, Unshared>, shared);
    refuse!(ImageChunkIteratorMut<'static, Unshared>, shared);
    refuse!(ImageChunkMut<'static, Unshared>, shared);
    Ok(())
}

fn codec_case(cx: &mut Cx, r: &mut Rng, pools: &crate::Pools) -> R {
    let (p, prog, img, d, cut) = codec::schedule_case(cx, r);
    cx.detail = codec::describe(&p, &prog, &img);
    cx.note_params(&p);
    #[cfg(feature = "rayon")]
    {
        let rounds = if cx.small { 1 } else { 3 };
        for k in 0..rounds {
            let n = if cx.small { 3 } else { *r.pick(&[2usize, 3, 4, 8]) };
            crate::sched::perturb(r.u64(), r.below(5) as u32);
            if k == 1 {
                let (a, b) = pools.run2(n, || codec::results(&p, &prog, &img, d, cut), || codec::results(&p, &prog, &img, d, cut));
                a?;
                b?;
            } else {
                pools.run(n, || codec::results(&p, &prog, &img, d, cut))?;
            }
            let (events, sig, threads) = crate::sched::observed();
            crate::sched::quiet();
            cx.count("scheduled_items", events);
            cx.max("max.threads_seen", threads);
            if threads > 1 {
                cx.count("executions_on_several_threads", 1);
            }
            cx.eval(Some(sig ^ codec::key(&p, &prog, &img)));
        }
    }
    #[cfg(not(feature = "rayon"))]
    {
        let _ = pools;
        codec::results(&p, &prog, &img, d, cut)?;
        cx.eval(Some(codec::key(&p, &prog, &img)));
    }
    cx.sample(|| format!("{}: compress, decompress, downsample {}, truncate, overflow", codec::short(&p), d));
    Ok(())
}
