//! Perturbs and records the schedule of gfwx's parallel loops through its hook.
//! All atomics are relaxed: the monitor must not order the threads it watches.
use crate::rng::mix;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Duration;

static ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
static MODE: AtomicU32 = AtomicU32::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static SIG: AtomicU64 = AtomicU64::new(0);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    // (epoch, number within the epoch)
    static ME: Cell<(u64, usize)> = const { Cell::new((0, 0)) };
}

fn me() -> usize {
    let e = EPOCH.load(Relaxed);
    ME.with(|m| {
        if m.get().0 != e {
            m.set((e, NEXT.fetch_add(1, Relaxed)));
        }
        m.get().1
    })
}

#[allow(dead_code)]
fn hook(start: bool) {
    if !ON.load(Relaxed) {
        return;
    }
    let t = me() as u64;
    if start {
        let n = EVENTS.fetch_add(1, Relaxed);
        // order in which threads take items
        let _ = SIG.fetch_update(Relaxed, Relaxed, |s| Some(mix(s ^ (t + 1))));
        let r = mix(SEED.load(Relaxed) ^ mix(n) ^ (t << 40));
        if n > 10_000 && r >> 58 != 0 {
            return;
        }
        match MODE.load(Relaxed) {
            0 => {}
            1 => {
                if r % 3 == 0 {
                    std::thread::yield_now();
                }
            }
            2 => {
                for _ in 0..(r % 3000) {
                    std::hint::spin_loop();
                }
            }
            3 => {
                if r % 29 == 0 {
                    std::thread::sleep(Duration::from_micros(r >> 32 & 127));
                }
            }
            _ => {
                // one slow thread
                if t == SEED.load(Relaxed) % 3 && n % 8 == 0 {
                    std::thread::sleep(Duration::from_micros(60));
                }
            }
        }
    } else if MODE.load(Relaxed) == 1 {
        let n = EVENTS.load(Relaxed);
        if mix(SEED.load(Relaxed) ^ n ^ t) % 7 == 0 {
            std::thread::yield_now();
        }
    }
}

pub fn install() {
    #[cfg(gfwx_verif)]
    gfwx::processing::verif_hook::set(hook);
}
pub fn quiet() {
    ON.store(false, Relaxed);
}
pub fn perturb(seed: u64, mode: u32) {
    SEED.store(seed, Relaxed);
    MODE.store(mode, Relaxed);
    EVENTS.store(0, Relaxed);
    SIG.store(0, Relaxed);
    NEXT.store(0, Relaxed);
    EPOCH.fetch_add(1, Relaxed);
    ON.store(true, Relaxed);
}
/// (items, signature of the order of threads, threads that took items)
pub fn observed() -> (u64, u64, u64) {
    (EVENTS.load(Relaxed), SIG.load(Relaxed), NEXT.load(Relaxed) as u64)
}

#[derive(Default)]
pub struct Pools {
    by_size: Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>,
}
impl Pools {
    fn get(&self, n: usize) -> Arc<rayon::ThreadPool> {
        let mut m = self.by_size.lock().unwrap();
        m.entry(n)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
            .clone()
    }
    pub fn run<R: Send>(&self, n: usize, f: impl FnOnce() -> R + Send) -> R {
        self.get(n).install(f)
    }
    pub fn run2<R: Send>(&self, n: usize, f: impl FnOnce() -> R + Send, g: impl FnOnce() -> R + Send) -> (R, R) {
        self.get(n).install(|| rayon::join(f, g))
    }
}
