//! Runs the cases of one property and reports what was observed.
mod alloc;
mod args;
#[cfg(feature = "low_bits")]
mod bits;
#[cfg(feature = "low_block")]
mod block;
mod codec;
mod color;
mod cx;
mod errs;
mod extra;
#[cfg(feature = "fuzz")]
mod fuzz;
mod gen;
mod hdr;
#[cfg(feature = "low_lift")]
mod lift;
mod model;
#[cfg(feature = "low_part")]
mod part;
#[cfg(feature = "low_quant")]
mod quantc;
mod refcpp;
mod rng;
#[cfg(feature = "rayon")]
mod sched;
mod subject;
#[cfg(feature = "work")]
mod work;
mod tool;
mod ub;

use cx::{json_str, Cx, R};
use rng::{hash_bytes, mix, Rng};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[cfg(feature = "rayon")]
pub use sched::Pools;
#[cfg(not(feature = "rayon"))]
#[derive(Default)]
pub struct Pools;

fn case(cx: &mut Cx, prop: &str, r: &mut Rng, index: u64, pools: &Pools) -> R {
    match prop {
        "C01" => codec::c01(cx, r),
        #[cfg(feature = "cpp")]
        "C02" => codec::c02(cx, r),
        #[cfg(feature = "cpp")]
        "C03" => codec::c03(cx, r),
        "C04" => codec::c04(cx, r),
        "C05" => codec::c05(cx, r),
        "C06" => codec::c06(cx, r),
        "C07" => codec::c07(cx, r),
        "C08" => codec::c08(cx, r),
        #[cfg(feature = "rayon")]
        "C09" => codec::c09(cx, r, pools, index),
        #[cfg(not(feature = "rayon"))]
        "C09" => codec::digest(cx, r, index),
        "C10" => ub::c10(cx, r, index, pools),
        "C11" => hdr::c11(cx, r, index),
        "C12" => color::c12(cx, r),
        "C13" => color::c13(cx, r),
        #[cfg(feature = "low_bits")]
        "C14" => bits::c14(cx, r, index),
        #[cfg(feature = "low_lift")]
        "C15" => lift::c15(cx, r, index),
        #[cfg(feature = "low_part")]
        "C16" => part::c16(cx, r, index),
        "C17" => codec::c17(cx, r),
        "C18" => codec::c18(cx, r),
        "C19" => codec::c19(cx, r, index),
        #[cfg(feature = "low_quant")]
        "C20" => quantc::c20(cx, r, index),
        #[cfg(feature = "low_block")]
        "C21" => block::c21(cx, r),
        "C23" => color::c23(cx, r, index),
        "C24" => extra::c24(cx, r),
        "C25" => extra::c25(cx, r),
        "C26" => args::c26(cx, r),
        "C27" => args::c27(cx, r),
        "C28" => errs::c28(cx, r),
        #[cfg(feature = "work")]
        "C29" => work::c29(cx, r),
        _ => panic!("{} is not built in", prop),
    }
}

static CASE: AtomicU64 = AtomicU64::new(0);

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
/// The context switches of all other threads, if every one of them sleeps.
fn sleepers() -> Option<Vec<(String, u64)>> {
    // SAFETY: no arguments
    let own = unsafe { gettid() }.to_string();
    let mut all = vec![];
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let tid = t.ok()?.file_name().into_string().ok()?;
        if tid == own {
            continue;
        }
        let status = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
        let field = |k: &str| status.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string());
        if !field("State:")?.starts_with('S') {
            return None;
        }
        let switches = field("voluntary_ctxt_switches:")?.parse::<u64>().ok()? + field("nonvoluntary_ctxt_switches:")?.parse::<u64>().ok()?;
        all.push((tid, switches));
    }
    Some(all)
}
extern "C" {
    fn gettid() -> i32;
}

/// Ends the process when one case takes too much CPU time (not wall time: machines are busy), or when
/// all threads wait for each other: none of them has run, or could have, during fifty looks in a row.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = CASE.load(Relaxed);
        let mut since = cpu_seconds();
        let mut asleep: Option<Vec<(String, u64)>> = None;
        let mut looks = 0;
        loop {
            std::thread::sleep(Duration::from_millis(300));
            let now = CASE.load(Relaxed);
            let cpu = cpu_seconds();
            if now != last {
                last = now;
                since = cpu;
                looks = 0;
                continue;
            }
            let threads = sleepers();
            looks = if threads.is_some() && threads == asleep { looks + 1 } else { 0 };
            asleep = threads;
            if looks >= 50 {
                eprintln!("DEADLOCK: all threads wait, none has run for {} looks within 15 s", looks);
                std::process::exit(98);
            }
            if cpu - since > limit {
                eprintln!("HANG: {:.0} s of CPU time in one case", cpu - since);
                std::process::exit(97);
            }
        }
    });
}

#[allow(clippy::type_complexity)]
fn report(cx: &mut Cx, done: u64, elapsed: f64, violation: &Option<(u64, String, String)>, harness: &Option<(u64, String)>, miri: bool) -> String {
    let mut o = String::from("{");
    o += &format!("\"evals\":{},\"done\":{},\"elapsed\":{:.3}", cx.evals, done, elapsed);
    o += ",\"counts\":{";
    o += &cx.counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &cx.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"known\":{";
    o += &cx.known.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect::<Vec<_>>().join(",");
    o += "},\"inconclusive\":[";
    cx.inconclusive.truncate(20);
    o += &cx.inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"digests\":[";
    o += &cx.digests.iter().map(|(i, h)| format!("[{},\"{:016x}\"]", i, h)).collect::<Vec<_>>().join(",");
    o += "],\"violation\":";
    match violation {
        Some((i, m, d)) => o += &format!("{{\"index\":{},\"message\":{},\"detail\":{}}}", i, json_str(m), json_str(d)),
        None => o += "null",
    }
    o += ",\"harness_error\":";
    match harness {
        Some((i, m)) => o += &json_str(&format!("case {}: {}", i, m)),
        None => o += "null",
    }
    o += ",\"hashes\":";
    if miri {
        o += &format!("{}", cx.distinct.len());
    } else {
        o += "null";
    }
    o += "}\n";
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("tool") {
        std::process::exit(tool::run(&args[1..]));
    }
    #[cfg(feature = "fuzz")]
    if args.first().map(|s| s.as_str()) == Some("fuzz") {
        std::process::exit(fuzz::run(&args[1..]));
    }
    let prop = args.first().expect("property").clone();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().expect("number"));
    let flag = |k: &str| args.iter().any(|a| a == k);
    let seed = num("--seed", 1);
    let (start, stride) = (num("--start", 0), num("--stride", 1));
    let cases = num("--cases", u64::MAX);
    let secs = num("--secs", 20) as f64;
    let only = opt("--only").map(|v| v.parse::<u64>().unwrap());
    let miri = flag("--no-files");
    let note = opt("--note").and_then(|p| std::fs::File::create(p).ok());

    subject::install_panic_hook();
    #[cfg(feature = "rayon")]
    sched::install();
    // all steps in one order, by one thread
    #[cfg(feature = "work")]
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
    if !miri {
        watchdog(num("--cpu-limit", 100) as f64);
    }
    let pools = Pools::default();
    let mut cx = Cx::new(flag("--thorough"), seed);
    cx.small = flag("--small");
    let base = mix(hash_bytes(seed, prop.as_bytes()));
    let t0 = Instant::now();
    let mut done = 0u64;
    let mut index = only.unwrap_or(start);
    let mut violation: Option<(u64, String, String)> = None;
    let mut harness: Option<(u64, String)> = None;
    let mut harness_errors = 0;
    while index < cases {
        CASE.fetch_add(1, Relaxed);
        if let Some(n) = &note {
            let _ = n.write_all_at(format!("{:020}\n", index).as_bytes(), 0);
        }
        if miri {
            eprintln!("case {}", index);
        }
        let mut r = Rng::new(base ^ mix(index));
        cx.detail.clear();
        cx.colossal = !cx.small
            && match &prop[..] {
                "C01" | "C02" | "C03" | "C05" => matches!(index, 3 | 14 | 25 | 36),
                "C04" | "C17" | "C18" | "C19" => index == 3,
                _ => false,
            };
        alloc::set_places(base ^ mix(index));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut cx, &prop, &mut r, index, &pools)));
        done += 1;
        match res {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                violation = Some((index, m, cx.detail.clone()));
                break;
            }
            Err(_) => {
                // a broken change may confuse the harness, too: see whether another case shows it
                harness.get_or_insert((index, subject::last_panic()));
                harness_errors += 1;
                if harness_errors >= 200 {
                    break;
                }
            }
        }
        if only.is_some() || t0.elapsed().as_secs_f64() > secs {
            break;
        }
        index += stride;
    }
    let o = report(&mut cx, done, t0.elapsed().as_secs_f64(), &violation, &harness, miri);
    match opt("--out") {
        Some(p) if !miri => {
            std::fs::write(&p, o).unwrap();
            let mut b = Vec::with_capacity(cx.distinct.len() * 8);
            for h in &cx.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{}.hashes", p), b).unwrap();
        }
        _ => std::io::stdout().write_all(o.as_bytes()).unwrap(),
    }
    // no destructors: the pools' threads end with the process
    std::process::exit(if violation.is_some() {
        10
    } else if harness.is_some() {
        11
    } else {
        0
    });
}
