//! The clocks of the process, which a check can put forward for its own thread: what the code under
//! test reads from `std::time` passes as quickly as its stalls and waits do.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static AHEAD: Cell<u64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = 228;

/// Takes the place of the C library's function for this program.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    let r = syscall(SYS_CLOCK_GETTIME, clock as i64, ts);
    // the real-time and monotonic clocks, with their coarse and boot-time variants
    if r == 0 && matches!(clock, 0 | 1 | 4 | 5 | 6 | 7) {
        let n = AHEAD.with(|a| a.get());
        let t = &mut *ts;
        t.sec += (n / 1_000_000_000) as i64;
        t.nsec += (n % 1_000_000_000) as i64;
        if t.nsec >= 1_000_000_000 {
            t.nsec -= 1_000_000_000;
            t.sec += 1;
        }
    }
    r as i32
}

const MOST: u64 = 50 * 365 * 86_400 * 1_000_000_000;
pub fn advance(d: Duration) {
    AHEAD.with(|a| a.set(a.get().saturating_add(d.as_nanos().min(MOST as u128) as u64).min(MOST)))
}
pub fn ahead() -> Duration {
    Duration::from_nanos(AHEAD.with(|a| a.get()))
}
pub fn reset() {
    AHEAD.with(|a| a.set(0))
}
/// The n-th stall of a run: some are short, some take more than a day.
pub fn stall(n: usize) {
    const SECS: [u64; 7] = [0, 2, 70, 0, 400, 4_000, 100_000];
    advance(Duration::from_secs(SECS[n % SECS.len()]))
}

