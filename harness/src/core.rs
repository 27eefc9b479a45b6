//! Trace output, virtual time, panic and hang detection.

use std::cell::Cell;
use std::future::Future;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use rand::{Rng, SeedableRng};
pub use serde_json::{json, Value};

pub type Rand = rand::rngs::SmallRng;

pub const BASE: u32 = 1_700_000_000;

struct Out {
    file: Option<std::io::BufWriter<std::fs::File>>,
    scenario: u64,
}

static OUT: Mutex<Out> = Mutex::new(Out { file: None, scenario: 0 });
static TICK: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicUsize = AtomicUsize::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static STARTED: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static SKEW: Cell<i64> = const { Cell::new(0) };
    static SEEN_PANICS: Cell<usize> = const { Cell::new(0) };
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// unix time seen by the code under test
pub fn unix_now() -> u32 {
    (BASE as i64 + SKEW.with(Cell::get) + (elapsed_ms() / 1000) as i64) as u32
}

/// virtual milliseconds since the scenario started
pub fn elapsed_ms() -> u64 {
    STARTED
        .with(Cell::get)
        .map(|s| s.elapsed().as_millis() as u64)
        .unwrap_or_default()
}

/// seconds of the (virtual) unix clock since BASE
pub fn rel_now() -> i64 {
    unix_now() as i64 - BASE as i64
}

pub fn rel(date: u32) -> i64 {
    date as i64 - BASE as i64
}

pub fn skew_clock(sec: i64) {
    SKEW.with(|s| s.set(s.get() + sec));
}

pub fn init(out: &str, hang_after: u64) {
    everscale_network::util::verif::set_clock(unix_now);
    lock(&OUT).file = Some(std::io::BufWriter::new(
        std::fs::File::create(out).expect("trace file"),
    ));

    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let text = format!("{info}").replace('\n', " ");
        if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("PANIC: {text}");
        }
        *lock(&LAST_PANIC) = text;
    }));

    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let tick = TICK.load(Ordering::SeqCst);
            if tick != last.0 {
                last = (tick, 0);
            } else {
                last.1 += 1;
                if last.1 > hang_after * 2 {
                    emit(json!({"e": "Hang", "after": "no progress"}));
                    finish();
                    std::process::exit(0);
                }
            }
        }
    });
}

pub fn finish() {
    if let Some(mut f) = lock(&OUT).file.take() {
        f.flush().ok();
    }
}

pub fn tick() {
    TICK.fetch_add(1, Ordering::SeqCst);
}

/// Writes one trace event
pub fn emit(event: Value) {
    tick();
    if std::env::var_os("VERIF_SHOW_EVENTS").is_some() {
        eprintln!("{event}");
    }
    let mut out = lock(&OUT);
    if let Some(f) = out.file.as_mut() {
        serde_json::to_writer(&mut *f, &event).expect("trace write");
        f.write_all(b"\n").expect("trace write");
    }
}

/// Emits a `Panic` event when the code under test has panicked since the last call
pub fn check_panics() -> bool {
    let n = PANICS.load(Ordering::SeqCst);
    let seen = SEEN_PANICS.with(|s| s.replace(n));
    if n != seen {
        let text = lock(&LAST_PANIC).clone();
        emit(json!({"e": "Panic", "text": text}));
        return true;
    }
    false
}

pub fn last_panic() -> String {
    lock(&LAST_PANIC).clone()
}

/// Starts a new scenario in the trace: everything starts from scratch
pub fn reset_event(info: Value) {
    let n = {
        let mut out = lock(&OUT);
        out.scenario += 1;
        out.scenario
    };
    let mut ev = json!({"e": "Reset", "scenario": n});
    if let (Some(ev), Some(info)) = (ev.as_object_mut(), info.as_object()) {
        for (k, v) in info {
            ev.insert(k.clone(), v.clone());
        }
    }
    emit(ev);
}

/// Runs a scenario with its own runtime, virtual time and clock
pub fn scenario<F: Future<Output = ()>>(info: Value, f: impl FnOnce() -> F) {
    reset_event(info);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    rt.block_on(async {
        STARTED.with(|s| s.set(Some(tokio::time::Instant::now())));
        SKEW.with(|s| s.set(0));
        f().await;
    });
    check_panics();
    drop(rt);
    STARTED.with(|s| s.set(None));
    check_panics();
}

/// Lets all tasks run until they are idle (takes 1 ms of virtual time)
pub async fn settle() {
    tick();
    tokio::time::sleep(Duration::from_millis(1)).await;
    tick();
    check_panics();
}

pub async fn sleep_ms(ms: u64) {
    tick();
    tokio::time::sleep(Duration::from_millis(ms)).await;
    tick();
    check_panics();
}

pub fn rng(seed: u64, salt: &str) -> Rand {
    let mut s = seed ^ 0x9e37_79b9_7f4a_7c15;
    for b in salt.bytes() {
        s = s.wrapping_mul(0x100_0000_01b3) ^ b as u64;
    }
    Rand::seed_from_u64(s)
}

pub fn pick<'a, T>(rng: &mut Rand, items: &'a [T]) -> &'a T {
    &items[rng.gen_range(0..items.len())]
}

pub fn bytes(rng: &mut Rand, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    rng.fill(v.as_mut_slice());
    v
}
