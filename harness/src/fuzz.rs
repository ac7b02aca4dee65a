//! The same cases, but their decisions come from libFuzzer, which watches what they reach in the
//! crate under test (which is built with coverage and comparison tracing).
//!   gv fuzz PROPERTY REPORT libfuzzer-arguments...
use crate::cx::Cx;
use crate::rng::{hash_bytes, Rng};
use crate::{subject, Pools};
use std::os::raw::{c_char, c_int};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, f: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    fn atexit(f: extern "C" fn()) -> c_int;
}

struct State {
    cx: Cx,
    prop: String,
    report: String,
    pools: Pools,
    done: u64,
    t0: Instant,
    violation: Option<(u64, String, String)>,
    harness: Option<(u64, String)>,
    harness_errors: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

extern "C" fn one(data: *const u8, len: usize) -> c_int {
    let data: &[u8] = if len == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    let mut lock = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let s = lock.as_mut().unwrap();
    let mut r = Rng::from_input(data);
    s.cx.detail.clear();
    s.done += 1;
    let index = hash_bytes(1, data) >> 1;
    let res = catch_unwind(AssertUnwindSafe(|| crate::case(&mut s.cx, &s.prop, &mut r, index, &s.pools)));
    s.cx.digests.clear();
    match res {
        Ok(Ok(())) => 0,
        Ok(Err(m)) => {
            s.violation = Some((index, m, s.cx.detail.clone()));
            finish(s);
            // libFuzzer keeps the input
            std::process::abort();
        }
        Err(_) => {
            s.harness.get_or_insert((index, subject::last_panic()));
            s.harness_errors += 1;
            -1
        }
    }
}

fn finish(s: &mut State) {
    s.cx.counts.insert("fuzz.harness_panics".into(), s.harness_errors);
    let o = crate::report(&mut s.cx, s.done, s.t0.elapsed().as_secs_f64(), &s.violation, &s.harness, false);
    let _ = std::fs::write(&s.report, o);
    let mut b = Vec::new();
    for h in &s.cx.distinct {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.hashes", s.report), b);
}
extern "C" fn at_exit() {
    if let Ok(mut l) = STATE.try_lock() {
        if let Some(s) = l.as_mut() {
            finish(s);
        }
    }
}

pub fn run(args: &[String]) -> i32 {
    subject::install_panic_hook();
    #[cfg(feature = "rayon")]
    {
        crate::sched::install();
        // this thread is one of the pool: with one thread, nothing waits for another
        let _ = rayon::ThreadPoolBuilder::new().use_current_thread().build_global();
    }
    let mut cx = Cx::new(false, 1);
    cx.small = args.iter().any(|a| a == "--small");
    *STATE.lock().unwrap() = Some(State {
        cx,
        prop: args[0].clone(),
        report: args[1].clone(),
        pools: Pools::default(),
        done: 0,
        t0: Instant::now(),
        violation: None,
        harness: None,
        harness_errors: 0,
    });
    let mut v: Vec<*mut c_char> = std::iter::once("gv")
        .chain(args[2..].iter().map(|s| s.as_str()).filter(|a| *a != "--small"))
        .map(|a| std::ffi::CString::new(a).unwrap().into_raw())
        .collect();
    let mut n = v.len() as c_int;
    v.push(std::ptr::null_mut());
    let mut p = v.as_mut_ptr();
    unsafe {
        atexit(at_exit);
        LLVMFuzzerRunDriver(&mut n, &mut p, one)
    }
}
