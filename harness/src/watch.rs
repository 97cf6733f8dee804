//! Watchdog: an operation of the code under test that does not return is reported, not waited for.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

thread_local! { static ID: Cell<u64> = Cell::new(0); }
static TAB: OnceLock<Mutex<HashMap<u64, (Option<Instant>, String)>>> = OnceLock::new();
fn tab() -> &'static Mutex<HashMap<u64, (Option<Instant>, String)>> {
    TAB.get_or_init(|| Mutex::new(HashMap::new()))
}
fn id() -> u64 {
    ID.with(|c| {
        if c.get() == 0 {
            static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
            c.set(N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        }
        c.get()
    })
}
pub fn context(f: impl FnOnce() -> String) {
    let mut t = tab().lock().unwrap();
    let e = t.entry(id()).or_insert((None, String::new()));
    e.1 = f();
}
pub fn begin() {
    let mut t = tab().lock().unwrap();
    t.entry(id()).or_insert((None, String::new())).0 = Some(Instant::now());
}
pub fn end() {
    let mut t = tab().lock().unwrap();
    t.entry(id()).or_insert((None, String::new())).0 = None;
}
/// Exit code 97 and a line `HANG <context>` on stderr when an operation exceeds the limit.
pub fn start(limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for (_, (b, c)) in tab().lock().unwrap().iter() {
            if let Some(b) = b {
                if b.elapsed().as_secs() > limit {
                    eprintln!("HANG {}", c);
                    std::process::exit(97);
                }
            }
        }
    });
}
