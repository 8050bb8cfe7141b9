//! The simulated environment: everything outside the physics system that its behaviour could depend on.
//!
//! * `getrandom` decides the keys of the standard library's hash tables. It's replaced by a function of the run's seed.
//!   (The keys are cached per thread, hence every simulated run gets a fresh thread.)
//! * `write`/`writev` on file descriptor 1 decide what becomes of the diagnostics. They're replaced by a simulated sink that discards the data and fails on demand.
//! * `clock_gettime` decides what the time is. Inside of a simulated run it's a function of the run's seed: it goes at an arbitrary pace, stalls, leaps ahead, and
//!   (except for the monotonic one) jumps back. The physics system isn't supposed to look at it at all, its time is what's passed to step().
//!
//! There's no other clock, and no file, socket or thread, in the code under test.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicI64, Ordering::Relaxed};

thread_local! {
    static HASH_SEED : Cell<u64> = Cell::new(0);
}

/// Sets what the next (i.e. first) hash table of this thread will be keyed with.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|cell| cell.set(seed));
}

thread_local! {
    static CLOCK : Cell<Option<(u64, i64)>> = const { Cell::new(None) };
}

/// From here on the clocks of this thread are simulated.
pub fn simulate_clock(seed: u64) {
    let mut state = seed ^ 0xc10c_c10c_c10c_c10c;
    let start = (crate::rng::splitmix(&mut state) % (1 << 60)) as i64;
    CLOCK.with(|cell| cell.set(Some((state, start))));
}

pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
pub struct TimeSpec {
    seconds: i64,
    nanoseconds: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, result: *mut TimeSpec) -> i32 {
    if let Ok(Some((mut state, mut now))) = CLOCK.try_with(|cell| cell.get()) {
        CLOCK_READS.fetch_add(1, Relaxed);
        let random = crate::rng::splitmix(&mut state);
        let amount = ((random >> 8) as i64).abs();
        now += match random & 7 {
            0 => 0,
            1 | 2 => amount % 1_000,
            3 | 4 => amount % 1_000_000,
            5 => amount % 100_000_000,
            6 => amount % 10_000_000_000,
            _ => amount % 1_000_000_000_000_000,
        };
        CLOCK.with(|cell| cell.set(Some((state, now))));
        if clock == 0 && random & 0x70 == 0 { now -= amount % 10_000_000_000_000; }
        (*result).seconds = now.div_euclid(1_000_000_000);
        (*result).nanoseconds = now.rem_euclid(1_000_000_000);
        return 0;
    }
    syscall(228, clock as i64, result) as i32
}

pub static HASH_KEY_READS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub extern "C" fn getrandom(buffer: *mut u8, length: usize, _flags: u32) -> isize {
    let mut state = HASH_SEED.with(|cell| cell.get());
    HASH_KEY_READS.fetch_add(1, Relaxed);
    for index in 0..length {
        let value = crate::rng::splitmix(&mut state);
        unsafe { *buffer.add(index) = value as u8 };
    }
    length as isize
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
    fn dup(fd: i32) -> i32;
    fn __errno_location() -> *mut i32;
}

/// How the simulated standard output (mis)behaves.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Sink {
    Healthy = 0,
    DiskFull = 1,
    IoError = 2,
    ClosedPipe = 3,
    WouldBlock = 4,
    Interrupted = 5,
    Short = 6,
    Zero = 7,
    BadDescriptor = 8,
}
pub const SINKS: [Sink; 9] = [Sink::Healthy, Sink::DiskFull, Sink::IoError, Sink::ClosedPipe, Sink::WouldBlock, Sink::Interrupted, Sink::Short, Sink::Zero, Sink::BadDescriptor];

static SIMULATED: AtomicBool = AtomicBool::new(false);
static MODE: AtomicU8 = AtomicU8::new(0);
/// How many more writes the mode applies to (negative means forever).
static BUDGET: AtomicI64 = AtomicI64::new(0);
/// How often each mode really answered a write.
pub static ANSWERED: [AtomicU64; 9] = [const { AtomicU64::new(0) }; 9];
static ALTERNATE: AtomicU64 = AtomicU64::new(0);

/// Where a child process's messages to its parent go (negative: nowhere).
static CHANNEL: AtomicI64 = AtomicI64::new(-1);

/// From here on file descriptors 1 and 2 are simulated (in this whole process). What was standard error stays reachable
/// through `report()`.
pub fn simulate_console() {
    CHANNEL.store(unsafe { dup(2) } as i64, Relaxed);
    SIMULATED.store(true, Relaxed);
}

/// Writes to the parent process, whatever the simulated console does.
pub fn report(mut bytes: &[u8]) {
    let channel = CHANNEL.load(Relaxed);
    while channel >= 0 && !bytes.is_empty() {
        let written = unsafe { syscall(1, channel, bytes.as_ptr(), bytes.len()) };
        if written > 0 {
            bytes = &bytes[written as usize..];
        } else if unsafe { *__errno_location() } != 4 {
            return;
        }
    }
}

pub fn set_sink(mode: Sink, budget: i64) {
    MODE.store(mode as u8, Relaxed);
    BUDGET.store(budget, Relaxed);
    ALTERNATE.store(0, Relaxed);
}

/// Gets rid of whatever the (process global) line buffer of standard output still holds.
pub fn drain_stdout() {
    use std::io::Write;
    set_sink(Sink::Healthy, -1);
    let mut out = std::io::stdout();
    let _ = out.write_all(b"\n");
    let _ = out.flush();
}

fn fail(code: i32) -> isize {
    unsafe { *__errno_location() = code };
    -1
}

fn simulated_write(length: usize) -> isize {
    let mut mode = MODE.load(Relaxed);
    if mode != 0 {
        let budget = BUDGET.load(Relaxed);
        if budget == 0 {
            mode = 0;
        } else if budget > 0 {
            BUDGET.store(budget - 1, Relaxed);
        }
    }
    let mut answer = mode;
    let result = match mode {
        1 => fail(28),
        2 => fail(5),
        3 => fail(32),
        4 => fail(11),
        5 => {
            // Interrupted every other time, or the standard library would (rightly) retry forever.
            if ALTERNATE.fetch_add(1, Relaxed) % 2 == 0 { fail(4) } else { answer = 0; length as isize }
        }
        6 => if length > 1 { (length / 2) as isize } else { length as isize },
        7 => 0,
        8 => fail(9),
        _ => length as isize,
    };
    ANSWERED[answer as usize].fetch_add(1, Relaxed);
    result
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buffer: *const u8, length: usize) -> isize {
    if (fd == 1 || fd == 2) && SIMULATED.load(Relaxed) {
        return simulated_write(length);
    }
    syscall(1, fd as i64, buffer, length) as isize
}

#[repr(C)]
pub struct IoVec {
    base: *const u8,
    length: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, vectors: *const IoVec, count: i32) -> isize {
    if (fd == 1 || fd == 2) && SIMULATED.load(Relaxed) {
        let mut total = 0;
        for index in 0..count as usize {
            total += (*vectors.add(index)).length;
        }
        return simulated_write(total);
    }
    syscall(20, fd as i64, vectors, count) as isize
}
