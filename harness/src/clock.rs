//! Interposed clock and sleep functions.
//!
//! Every thread is in one of three modes: real time, its own virtual time (single threaded model
//! runs) or the global virtual time (driver runs). Sleeps of "metrix" threads can be compressed.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub const NS: i64 = 1_000_000_000;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Real,
    Local,
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static STEP: Cell<i64> = const { Cell::new(0) };
    static IS_METRIX: Cell<u8> = const { Cell::new(0) };
    static SLEEPS: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
    /// what the next readings of the clock give to a thread of metrix that waits for the same time again
    static PRETEND: Cell<i64> = const { Cell::new(0) };
    static PRETENDED: Cell<u64> = const { Cell::new(0) };
    static READS_SINCE_WAIT: Cell<u64> = const { Cell::new(1000) };
}

static GLOBAL_ON: AtomicBool = AtomicBool::new(false);
static GLOBAL_NOW: AtomicI64 = AtomicI64::new(0);
/// 0: real sleeps; otherwise sleeps of metrix threads last at most that many microseconds
pub static COMPRESS_US: AtomicU64 = AtomicU64::new(0);
/// 0: none; otherwise some readings of the clock by metrix threads take up to that many microseconds:
/// a driver reads the clock at many places, so it is held up at each of them at times.
pub static DELAY_US: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(1);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
/// In global virtual time sleeps of metrix threads move the clock.
pub static SLEEP_ADVANCES: AtomicBool = AtomicBool::new(false);
/// Waits with a limit in thread local virtual time that reached it.
pub static TIMED_WAITS: AtomicU64 = AtomicU64::new(0);
pub static METRIX_SLEEPS: AtomicU64 = AtomicU64::new(0);

/// How often this thread, one of metrix, went to sleep so far.
pub fn sleeps() -> u64 {
    SLEEPS.with(|s| s.get())
}
/// Enters thread local virtual time, frozen.
pub fn local(start_ns: i64) {
    NOW.with(|n| n.set(start_ns));
    STEP.with(|s| s.set(0));
    MODE.with(|m| m.set(1));
}
pub fn real() {
    MODE.with(|m| m.set(0));
}
/// With `step` > 0 the local clock advances by `step` ns at every reading.
pub fn set_step(step: i64) {
    STEP.with(|s| s.set(step));
}
pub fn advance(ns: i64) {
    NOW.with(|n| n.set(n.get() + ns));
}
pub fn now_ns() -> i64 {
    NOW.with(|n| n.get())
}
pub fn global_on(start_ns: i64) {
    GLOBAL_NOW.store(start_ns, SeqCst);
    GLOBAL_ON.store(true, SeqCst);
}
pub fn global_off() {
    GLOBAL_ON.store(false, SeqCst);
}
pub fn global_advance(ns: i64) {
    GLOBAL_NOW.fetch_add(ns, SeqCst);
}
pub fn global_now() -> i64 {
    GLOBAL_NOW.load(SeqCst)
}

#[cfg(not(any(miri, feature = "noclock")))]
mod hook {
    use super::*;
    use std::os::raw::{c_char, c_int, c_long};

    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Timespec {
        pub sec: i64,
        pub nsec: i64,
    }

    extern "C" {
        #[cfg(not(target_arch = "x86_64"))]
        fn syscall(num: c_long, ...) -> c_long;
        fn prctl(option: c_int, ...) -> c_int;
    }
    #[cfg(target_arch = "x86_64")]
    macro_rules! syscall {
        ($n:expr, $($a:expr),*) => {{
            let a = [$(($a) as usize),*];
            let at = |i: usize| a.get(i).copied().unwrap_or(0);
            checked(raw($n as usize, [at(0), at(1), at(2), at(3), at(4), at(5)]))
        }};
    }
    #[cfg(not(target_arch = "x86_64"))]
    macro_rules! syscall {
        ($n:expr, $($a:expr),*) => { syscall($n, $($a),*) };
    }
    #[cfg(target_arch = "x86_64")]
    unsafe fn raw(n: usize, a: [usize; 6]) -> isize {
        let ret: isize;
        std::arch::asm!(
            "syscall",
            inlateout("rax") n as isize => ret,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
        ret
    }
    #[cfg(target_arch = "x86_64")]
    extern "C" {
        fn __errno_location() -> *mut c_int;
    }
    #[cfg(target_arch = "x86_64")]
    unsafe fn checked(ret: isize) -> c_long {
        if (-4095..0).contains(&ret) {
            *__errno_location() = -ret as c_int;
            return -1;
        }
        ret as c_long
    }
    /// The wrapper of the C library, which the standard library waits with. In thread local virtual time
    /// waiting with a limit takes at most some milliseconds and moves the clock to the limit.
    #[cfg(target_arch = "x86_64")]
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
        const SYS_FUTEX: c_long = 202;
        const ETIMEDOUT: c_int = 110;
        let op = b & 0x7f;
        if n == SYS_FUTEX && (op == 0 || op == 9) && d != 0 && b & 256 == 0 && MODE.try_with(|m| m.get()).unwrap_or(0) == 1 {
            let t = *(d as *const Timespec);
            let t = t.sec.saturating_mul(NS).saturating_add(t.nsec);
            let rem = if op == 9 { t.saturating_sub(now_ns()) } else { t };
            if rem <= 0 {
                *__errno_location() = ETIMEDOUT;
                return -1;
            }
            let wait = Timespec { sec: 0, nsec: rem.min(5_000_000) };
            let ret = raw(n as usize, [a, b & 128, c, &wait as *const Timespec as usize, 0, 0]);
            if ret == -(ETIMEDOUT as isize) {
                NOW.with(|x| x.set(x.get().saturating_add(rem)));
                TIMED_WAITS.fetch_add(1, Relaxed);
            }
            return checked(ret);
        }
        let compress = COMPRESS_US.load(Relaxed);
        let global = GLOBAL_ON.load(SeqCst);
        if n == SYS_FUTEX && (op == 0 || op == 9) && d != 0 && b & 256 == 0 && (global || compress > 0) && is_metrix() {
            // A driver that waits with a limit where it could sleep: the same as a sleep, it just can be woken.
            let t = *(d as *const Timespec);
            let t = t.sec.saturating_mul(NS).saturating_add(t.nsec);
            let now = if global {
                GLOBAL_NOW.load(SeqCst)
            } else {
                let mut now = Timespec { sec: 0, nsec: 0 };
                syscall!(SYS_CLOCK_GETTIME, 1 as c_long, &mut now as *mut Timespec);
                now.sec * NS + now.nsec
            };
            let rem = if op == 9 { t.saturating_sub(now) } else { t };
            if rem <= 0 {
                *__errno_location() = ETIMEDOUT;
                return -1;
            }
            METRIX_SLEEPS.fetch_add(1, Relaxed);
            let n_sleeps = SLEEPS.with(|s| {
                s.set(s.get() + 1);
                s.get()
            });
            let real = if compress > 0 {
                ((n_sleeps.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % (compress + 1)) as i64 * 1000
            } else {
                rem.min(50_000_000)
            };
            let wait = Timespec { sec: 0, nsec: real };
            let ret = raw(n as usize, [a, b & 128, c, &wait as *const Timespec as usize, 0, 0]);
            if ret == -(ETIMEDOUT as isize) {
                if global && SLEEP_ADVANCES.load(SeqCst) {
                    global_advance(rem);
                } else if READS_SINCE_WAIT.with(|r| r.get()) <= 2 {
                    // it looked at a clock that did not move and waits for the rest: the limit is reached
                    // (which a channel looks at twice before it gives up)
                    PRETEND.with(|p| p.set(now.saturating_add(rem)));
                    PRETENDED.with(|p| p.set(0));
                }
                READS_SINCE_WAIT.with(|r| r.set(0));
            }
            return checked(ret);
        }
        checked(raw(n as usize, [a, b, c, d, e, f]))
    }
    const SYS_CLOCK_GETTIME: c_long = 228;
    const SYS_CLOCK_NANOSLEEP: c_long = 230;
    const PR_GET_NAME: c_int = 16;

    fn is_metrix() -> bool {
        IS_METRIX.with(|c| {
            if c.get() == 0 {
                let mut buf = [0 as c_char; 16];
                unsafe { prctl(PR_GET_NAME, buf.as_mut_ptr()) };
                let name: Vec<u8> = buf.iter().map(|c| *c as u8).collect();
                c.set(if name.starts_with(b"metrix\0") { 2 } else { 1 });
            }
            c.get() == 2
        })
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
        if clk == 1 || clk == 7 {
            READS_SINCE_WAIT.with(|r| r.set(r.get() + 1));
            let max = DELAY_US.load(Relaxed);
            if max > 0 && is_metrix() {
                let n = READS.with(|s| {
                    if s.get() == 0 {
                        s.set(THREADS.fetch_add(1_000_003, Relaxed));
                    }
                    s.set(s.get() + 1);
                    s.get()
                });
                let x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
                if x % 16 == 0 {
                    DELAYS.fetch_add(1, Relaxed);
                    let t = Timespec { sec: 0, nsec: ((x >> 8) % (max * 1000)) as i64 };
                    syscall!(SYS_CLOCK_NANOSLEEP, 1 as c_long, 0 as c_long, &t as *const Timespec, 0usize);
                }
            }
            let v = if MODE.with(|m| m.get()) == 1 {
                let v = NOW.with(|n| {
                    let v = n.get();
                    n.set(v + STEP.with(|s| s.get()));
                    v
                });
                Some(v)
            } else if PRETEND.with(|p| p.get()) > 0 {
                let v = PRETEND.with(|p| p.get());
                if PRETENDED.with(|n| n.replace(n.get() + 1)) > 0 {
                    PRETEND.with(|p| p.set(0));
                }
                Some(v)
            } else if GLOBAL_ON.load(SeqCst) {
                Some(GLOBAL_NOW.load(SeqCst))
            } else {
                None
            };
            if let Some(v) = v {
                *ts = Timespec { sec: v.div_euclid(NS), nsec: v.rem_euclid(NS) };
                return 0;
            }
        }
        syscall!(SYS_CLOCK_GETTIME, clk as c_long, ts) as c_int
    }

    unsafe fn do_sleep(clk: c_int, flags: c_int, req: *const Timespec, rem: *mut Timespec) -> c_int {
        if MODE.with(|m| m.get()) == 1 {
            let r = *req;
            if flags == 0 {
                advance(r.sec * NS + r.nsec);
            } else {
                let t = r.sec * NS + r.nsec;
                if t > now_ns() {
                    NOW.with(|n| n.set(t));
                }
            }
            return 0;
        }
        if is_metrix() {
            METRIX_SLEEPS.fetch_add(1, Relaxed);
            let n = SLEEPS.with(|s| {
                s.set(s.get() + 1);
                s.get()
            });
            if GLOBAL_ON.load(SeqCst) && SLEEP_ADVANCES.load(SeqCst) {
                let t = (*req).sec * NS + (*req).nsec;
                if flags == 0 {
                    global_advance(t);
                } else {
                    GLOBAL_NOW.fetch_max(t, SeqCst);
                }
            }
            let c = COMPRESS_US.load(Relaxed);
            if c > 0 {
                // vary between nothing, a yield and a short sleep
                let us = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % (c + 1);
                let t = Timespec { sec: 0, nsec: (us * 1000) as i64 };
                syscall!(SYS_CLOCK_NANOSLEEP, 1 as c_long, 0 as c_long, &t as *const Timespec, 0usize);
                return 0;
            }
        }
        let r = syscall!(SYS_CLOCK_NANOSLEEP, clk as c_long, flags as c_long, req, rem);
        if r < 0 {
            // the syscall() wrapper sets errno; clock_nanosleep returns it
            4
        } else {
            0
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> c_int {
        if do_sleep(1, 0, req, rem) == 0 {
            0
        } else {
            -1
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(
        clk: c_int,
        flags: c_int,
        req: *const Timespec,
        rem: *mut Timespec,
    ) -> c_int {
        do_sleep(clk, flags, req, rem)
    }
}

/// Enters thread local virtual time in which the clock moves on by itself and waiting with a limit moves it to
/// the limit: who gives up after some time, however long, does so within milliseconds.
pub fn impatient() {
    local(1_000_000 * NS);
    set_step(1_000_000);
}

/// True if the clock is really interposed in this build.
pub fn interposed() -> bool {
    cfg!(not(any(miri, feature = "noclock")))
}
