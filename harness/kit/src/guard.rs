//! Budgets on the code under test: what it allocates and the processor time it uses in one guarded call. Exceeding one
//! ends the worker process with an exit status its supervisor knows.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_CPU: i32 = 78;
const CPU_LIMIT_S: u64 = 20;

thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(i64::MAX) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub struct Budgeted;

impl Budgeted {
    #[inline]
    fn charge(n: i64) {
        let _ = LEFT.try_with(|left| {
            let l = left.get();
            if l != i64::MAX {
                if l < n {
                    unsafe { libc::_exit(EXIT_ALLOC) }
                }
                left.set(l - n);
            }
        });
    }
}

unsafe impl GlobalAlloc for Budgeted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Self::charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Self::charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        Self::charge(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        Self::charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

static RUNNING: Mutex<Vec<(i32, u64)>> = Mutex::new(Vec::new());

fn thread_cpu_ns(clock: libc::clockid_t) -> Option<u64> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(clock, &mut t) };
    (r == 0).then_some(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

pub fn start_watchdog() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(format!("{msg} ({at})"))));
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        for (clock, start) in RUNNING.lock().unwrap().iter() {
            if thread_cpu_ns(*clock).is_some_and(|t| t > start + CPU_LIMIT_S * 1_000_000_000) {
                unsafe { libc::_exit(EXIT_CPU) }
            }
        }
    });
}

/// Runs code under test with the given allocation budget. Err: it panicked, with the message and place.
pub fn guarded<T>(alloc_budget: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let mut clock: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    let entry = (clock, thread_cpu_ns(clock).unwrap_or(0));
    RUNNING.lock().unwrap().push(entry);
    LEFT.with(|l| l.set(alloc_budget as i64));
    let r = catch_unwind(AssertUnwindSafe(f));
    LEFT.with(|l| l.set(i64::MAX));
    let mut running = RUNNING.lock().unwrap();
    if let Some(i) = running.iter().position(|e| *e == entry) {
        running.swap_remove(i);
    }
    drop(running);
    r.map_err(|_| LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}

/// The message and place of the last panic of this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.take()).unwrap_or_default()
}
