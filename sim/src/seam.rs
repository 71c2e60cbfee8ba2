//! Interposed libc entry points: OS randomness, clock, process id, blocking waits.
//! Inactive in the parent process; active in the process of a simulated run.

use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

use crate::core::combine;

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static SIM_NOW: AtomicU64 = AtomicU64::new(0);
/// Clock offset in ns, for clock jumps.
pub static CLOCK_SKEW: AtomicU64 = AtomicU64::new(0);
/// One in N requests is interrupted / answered short. 0 = never.
pub static EINTR_RATE: AtomicU64 = AtomicU64::new(0);
pub static SHORT_RATE: AtomicU64 = AtomicU64::new(0);
pub static N_EINTR: AtomicU64 = AtomicU64::new(0);
pub static N_SHORT: AtomicU64 = AtomicU64::new(0);
pub static N_FAIL: AtomicU64 = AtomicU64::new(0);
pub static N_REQ: AtomicU64 = AtomicU64::new(0);

/// The entropy stream of the running party.
#[derive(Clone, Copy)]
pub struct Ent {
    pub key: u64,
    pub ctr: u64,
    /// Every request fails for ever, but for the keys of hash maps (16 bytes).
    pub fail: bool,
    /// 0: pseudo-random bytes; 1: all zero; 2: all ones;
    /// 3: as 0, but shared between all streams except for one byte of each request.
    pub mode: u8,
    pub shared: u64,
    /// bytes handed out
    pub bytes: u64,
    pub requests: u64,
}
thread_local! {
    static ENT: Cell<Ent> = const { Cell::new(Ent { key: 1, ctr: 0, fail: false, mode: 0, shared: 0, bytes: 0, requests: 0 }) };
    static IN_HARNESS: Cell<bool> = const { Cell::new(false) };
}
pub fn set_ent(e: Ent) {
    ENT.with(|c| c.set(e))
}
pub fn get_ent() -> Ent {
    ENT.with(|c| c.get())
}
pub fn ent(key: u64) -> Ent {
    Ent { key, ctr: 0, fail: false, mode: 0, shared: 0, bytes: 0, requests: 0 }
}
pub fn enter_harness() -> bool {
    IN_HARNESS.with(|c| c.replace(true))
}
pub fn leave_harness(was: bool) {
    IN_HARNESS.with(|c| c.set(was))
}
pub fn in_harness() -> bool {
    IN_HARNESS.with(|c| c.get())
}

unsafe fn raw(nr: c_long, a: [c_long; 6]) -> c_long {
    let ret: c_long;
    asm!("syscall", inlateout("rax") nr => ret, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
         in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _,
         options(nostack));
    ret
}
unsafe fn finish(ret: c_long) -> c_long {
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = -ret as c_int;
        -1
    } else {
        ret
    }
}
unsafe fn fail(e: c_int) -> c_long {
    *libc::__errno_location() = e;
    -1
}

/// The bytes the first request of `len` bytes gets (no interruption, no short read).
pub fn preview(e: Ent, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    fill(&e, e.ctr + 1, &mut v, len);
    v
}
fn fill(e: &Ent, n: u64, out: &mut [u8], len: usize) {
    for (i, b) in out.iter_mut().enumerate() {
        let prng = |k: u64| (combine(combine(k, n), (i / 8) as u64) >> (8 * (i % 8))) as u8;
        // degenerate for a while only: rejection sampling must come to an end
        *b = match if n > 24 && e.mode < 3 { 0 } else { e.mode } {
            1 => 0,
            2 => 0xff,
            3 => {
                let base = prng(e.shared);
                // one position of the request differs between streams
                if i as u64 == combine(e.shared, n ^ 0x77) % len as u64 {
                    base.wrapping_add(e.key as u8)
                } else {
                    base
                }
            }
            _ => prng(e.key),
        };
    }
}

unsafe fn entropy(buf: *mut u8, len: usize) -> c_long {
    if len == 0 {
        return 0;
    }
    let mut e = get_ent();
    e.ctr += 1;
    let n = e.ctr;
    set_ent(e);
    N_REQ.fetch_add(1, SeqCst);
    let dice = combine(combine(e.key, n), 0xfa);
    let eintr = EINTR_RATE.load(SeqCst);
    if eintr > 0 && dice % eintr == 0 {
        N_EINTR.fetch_add(1, SeqCst);
        return fail(libc::EINTR);
    }
    if e.fail && len != 16 {
        N_FAIL.fetch_add(1, SeqCst);
        return fail(libc::EIO);
    }
    let mut want = len;
    let short = SHORT_RATE.load(SeqCst);
    if short > 0 && len > 1 && (dice >> 20) % short == 0 {
        N_SHORT.fetch_add(1, SeqCst);
        want = 1 + ((dice >> 40) as usize) % (len - 1);
    }
    fill(&e, n, std::slice::from_raw_parts_mut(buf, want), len);
    // 16 bytes: the keys of a hash map
    if len != 16 {
        e.bytes += want as u64;
        e.requests += 1;
        set_ent(e);
    }
    if !in_harness() {
        crate::sched::yield_only("entropy");
    }
    want as c_long
}

#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if ACTIVE.load(SeqCst) {
        if nr == libc::SYS_getrandom {
            return entropy(a as *mut u8, b as usize);
        }
        if nr == libc::SYS_futex && !in_harness() {
            let cmd = (b as c_int) & 127;
            // A party about to block on a lock held by a suspended party: let the scheduler run
            // the others, then wake up spuriously (allowed) and look again.
            if (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET)
                && *(a as *const u32) == c as u32
                && crate::sched::must_yield("futex")
            {
                return 0;
            }
        }
    }
    finish(raw(nr, [a, b, c, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if ACTIVE.load(SeqCst) {
        return entropy(buf as *mut u8, len) as ssize_t;
    }
    finish(raw(libc::SYS_getrandom, [buf as c_long, len as c_long, flags as c_long, 0, 0, 0])) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if ACTIVE.load(SeqCst) && (0..=7).contains(&id) && id != 2 && id != 3 {
        let t = 1_700_000_000_000_000_000u64
            .wrapping_add(SIM_NOW.load(SeqCst) * 1000)
            .wrapping_add(CLOCK_SKEW.load(SeqCst));
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    finish(raw(libc::SYS_clock_gettime, [id as c_long, ts as c_long, 0, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if ACTIVE.load(SeqCst) {
        return 4242;
    }
    raw(libc::SYS_getpid, [0; 6]) as c_int
}
