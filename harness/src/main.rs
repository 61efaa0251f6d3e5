//! Runs the monitored workloads. See ../DESIGN.md.
//!
//! pmon run PROP SEED CASES THREADS MAX_S SCRATCH PROGRESS OUT TIER
//! pmon one PROP SEED INDEX SCRATCH TIER

#![allow(deprecated)]

mod census;
mod ds;
mod gen;
mod obs;
mod oracle;
mod props;
mod report;
mod rng;
mod watch;

use obs::{Env, Obs, Verdict};
use rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// The allocator of the system, counting what the process holds once that is asked for.
struct Counting;

static OF_PROCESS: AtomicBool = AtomicBool::new(false);
static HELD: AtomicI64 = AtomicI64::new(0);

fn count(bytes: i64) {
    if OF_PROCESS.load(Ordering::Relaxed) {
        HELD.fetch_add(bytes, Ordering::Relaxed);
    }
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: std::alloc::Layout) -> *mut u8 {
        count(layout.size() as i64);
        std::alloc::System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: std::alloc::Layout) -> *mut u8 {
        count(layout.size() as i64);
        std::alloc::System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, at: *mut u8, layout: std::alloc::Layout) {
        count(-(layout.size() as i64));
        std::alloc::System.dealloc(at, layout)
    }
    unsafe fn realloc(&self, at: *mut u8, layout: std::alloc::Layout, size: usize) -> *mut u8 {
        count(size as i64 - layout.size() as i64);
        std::alloc::System.realloc(at, layout, size)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes that the process has allocated and not freed; only differences mean something.
pub fn live_bytes() -> i64 {
    OF_PROCESS.store(true, Ordering::Relaxed);
    HELD.load(Ordering::Relaxed)
}

/// Location and message of the panic that this thread has caught last.
pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "?".into()))
}

/// Is the location of a panic in the harness, and not in the code under test?
pub fn in_harness(location: &str) -> bool {
    location.starts_with("src/") || location.contains("/harness/src/")
}

/// Takes every message of the code under test and writes it nowhere.
struct Listener;

static HEARD: AtomicU64 = AtomicU64::new(0);

impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(format!("{} - {}", record.level(), record.args()));
        HEARD.fetch_add(1, Ordering::Relaxed);
    }
    fn flush(&self) {}
}

/// Makes the code under test compose its messages, as it does once logging is set up.
fn listen() {
    let _ = log::set_logger(&Listener);
    log::set_max_level(log::LevelFilter::Trace);
}

/// Do the cases of the property leave logging alone? (The others set it up themselves.)
fn may_listen(id: &str) -> bool {
    !["P22", "P23", "P25", "P26", "P30", "P31", "P32", "P33"].contains(&id)
}

enum Outcome {
    Held,
    /// Violated as described by a known finding.
    Known(String),
    Violated(String),
    HarnessError(String),
}

/// The keys of known findings, such as "[torn-long-message]", separated by blanks.
fn is_known(msg: &str) -> bool {
    let known = std::env::var("PMON_KNOWN").unwrap_or_default();
    known.split_whitespace().any(|k| msg.starts_with(k))
}

fn run_case(prop: &props::Prop, seed: u64, index: u64, env: &Env, o: &mut Obs) -> Outcome {
    let mut rng = Rng::new(seed, prop.id, index);
    let result: Result<Verdict, _> =
        catch_unwind(AssertUnwindSafe(|| (prop.case)(&mut rng, env, o)));
    match result {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(msg)) if is_known(&msg) => Outcome::Known(msg),
        Ok(Err(msg)) => Outcome::Violated(msg),
        Err(_) => {
            let (location, message) = take_panic();
            if in_harness(&location) {
                Outcome::HarnessError(format!("panic at {}: {}", location, message))
            } else {
                Outcome::Violated(format!("panic at {}: {}", location, message))
            }
        }
    }
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    nontrivial: u64,
    events: BTreeMap<&'static str, u64>,
    shapes: HashSet<u64>,
    /// Fingerprints of the nontrivial cases, each made of all that was observed in the case.
    signatures: HashSet<u64>,
    samples: Vec<Value>,
    census: census::Census,
    violation: Option<(u64, String)>,
    known: BTreeMap<String, (u64, String)>,
    error: Option<String>,
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((location, message)));
    }));

    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "run" => run(
            &arg(2),
            arg(3).parse().expect("seed"),
            arg(4).parse().expect("cases"),
            arg(5).parse().expect("threads"),
            arg(6).parse().expect("max_s"),
            &arg(7),
            &arg(8),
            &arg(9),
            arg(10) == "thorough",
        ),
        "one" => one(
            &arg(2),
            arg(3).parse().expect("seed"),
            arg(4).parse().expect("index"),
            &arg(5),
            arg(6) == "thorough",
        ),
        "list" => {
            props::ALL.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}

fn find(id: &str) -> &'static props::Prop {
    props::ALL.iter().find(|p| p.id == id).expect("property")
}

/// Runs one case. 0: held, 1: violated, 2: error.
fn one(id: &str, seed: u64, index: u64, scratch: &str, thorough: bool) -> i32 {
    // on a stack as large as that of a worker
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(scope, || one_here(id, seed, index, scratch, thorough))
            .expect("thread")
            .join()
            .unwrap_or(2)
    })
}

fn one_here(id: &str, seed: u64, index: u64, scratch: &str, thorough: bool) -> i32 {
    if id == "P32" {
        watch::on(&[scratch]);
    }
    let env = Env { scratch: Path::new(scratch).to_path_buf(), thorough };
    let mut o = Obs::default();
    let mut outcome = run_case(find(id), seed, index, &env, &mut o);
    if may_listen(id) && matches!(outcome, Outcome::Held) {
        listen();
        o = Obs::default();
        outcome = run_case(find(id), seed, index, &env, &mut o);
    }
    match outcome {
        Outcome::Held | Outcome::Known(_) => {
            println!("{}", json!({"held": true, "events": o.events}));
            0
        }
        Outcome::Violated(msg) => {
            println!("{}", json!({"violation": {"index": index, "message": msg}}));
            1
        }
        Outcome::HarnessError(msg) => {
            println!("{}", json!({"error": msg}));
            2
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn run(
    id: &str,
    seed: u64,
    cases: u64,
    threads: usize,
    max_s: u64,
    scratch: &str,
    progress: &str,
    out: &str,
    thorough: bool,
) -> i32 {
    let prop = find(id);
    if id == "P32" {
        watch::on(&[scratch, progress]);
    }
    let started = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    // start of the current case of each thread in ms, 0 while idle
    let clock: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();

    // the second half of the cases is run with messages being composed
    let phases = if may_listen(id) { vec![(false, cases / 2, max_s / 2), (true, cases, max_s)] } else { vec![(false, cases, max_s)] };
    for (listening, cases, max_s) in phases {
        if listening {
            listen();
            next.store(cases / 2, Ordering::Relaxed);
        }
        done.store(false, Ordering::Relaxed);
        std::thread::scope(|scope| {
        let workers: Vec<_> = (0..threads)
            .map(|t| {
                let (next, stop, total, clock) = (&next, &stop, &total, &clock);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let dir = Path::new(scratch).join(format!("t{}", t));
                        std::fs::create_dir_all(&dir).expect("scratch");
                        let note = std::fs::File::create(Path::new(progress).join(format!("t{}", t)))
                            .expect("progress");
                        loop {
                            if stop.load(Ordering::Relaxed)
                                || started.elapsed() > Duration::from_secs(max_s)
                            {
                                break;
                            }
                            let index = next.fetch_add(1, Ordering::Relaxed);
                            if index >= cases {
                                break;
                            }
                            let _ = note.write_all_at(format!("{:<20}", index).as_bytes(), 0);
                            clock[t].store(started.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let env = Env { scratch: dir.clone(), thorough };
                            let mut o = Obs::default();
                            o.census.on = index % 4 == 0;
                            let outcome = run_case(prop, seed, index, &env, &mut o);
                            clock[t].store(0, Ordering::Relaxed);
                            let mut total = total.lock().unwrap();
                            total.evaluations += 1;
                            for (k, v) in &o.events {
                                *total.events.entry(k).or_insert(0) += v;
                            }
                            if o.nontrivial {
                                total.nontrivial += 1;
                                total.signatures.insert(o.signature());
                            }
                            total.shapes.extend(o.shapes.iter());
                            total.census.merge(&o.census);
                            if let Some(sample) = o.sample {
                                if total.samples.len() < 4 && (o.nontrivial || total.samples.is_empty()) {
                                    total.samples.push(json!({"index": index, "case": sample}));
                                }
                            }
                            match outcome {
                                Outcome::Held => {}
                                Outcome::Known(msg) => {
                                    total.known.entry(msg.split(' ').next().unwrap_or("").to_string()).or_insert((index, msg));
                                }
                                Outcome::Violated(msg) => {
                                    stop.store(true, Ordering::Relaxed);
                                    if total.violation.as_ref().map_or(true, |(i, _)| index < *i) {
                                        total.violation = Some((index, msg));
                                    }
                                }
                                Outcome::HarnessError(msg) => {
                                    stop.store(true, Ordering::Relaxed);
                                    total.error = Some(format!("case {}: {}", index, msg));
                                }
                            }
                        }
                        let _ = note.write_all_at(format!("{:<20}", "-").as_bytes(), 0);
                    })
                    .expect("thread")
            })
            .collect();

        // a case takes milliseconds: one that takes minutes is handed to the driver as suspect
        let (done, clock) = (&done, &clock);
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = started.elapsed().as_millis() as u64;
                if clock.iter().any(|c| {
                    let c = c.load(Ordering::Relaxed);
                    c != 0 && now > c + 60_000
                }) {
                    std::process::exit(97);
                }
            }
        });
        for w in workers {
            let _ = w.join();
        }
        done.store(true, Ordering::Relaxed);
        });
    }

    let mut total = total.into_inner().unwrap();
    if may_listen(id) {
        total.events.insert("log_messages_composed", HEARD.load(Ordering::Relaxed));
    }
    if id == "P32" {
        total.events.insert("file_operations_watched", watch::seen());
    }
    let report = json!({
        "evaluations": total.evaluations,
        "requested": cases,
        "nontrivial": total.nontrivial,
        "distinct": total.signatures.len(),
        "situations": total.shapes.len(),
        "events": total.events,
        "samples": total.samples,
        "census": total.census.show(),
        "violation": total.violation.as_ref().map(|(i, m)| json!({"index": i, "message": m})),
        "known": total.known.iter().map(|(k, (i, m))| json!({"key": k, "index": i, "message": m})).collect::<Vec<_>>(),
        "error": total.error,
        "wall_s": started.elapsed().as_secs_f64(),
    });
    watch::off();
    std::fs::write(out, report.to_string()).expect("report");
    if total.violation.is_some() {
        1
    } else if total.error.is_some() {
        2
    } else {
        0
    }
}
