//! Controlled scheduling of real threads: one runs at a time, and at every scheduling point (accesses to memory that
//! several threads touch, or basic blocks) the next one is picked as the explorer says. Blocking on futexes is
//! simulated. Nothing here may use the standard library's synchronization, which gets here itself.

use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};

pub const MAX_THREADS: usize = 3;
pub const MAX_DECISIONS: usize = 1 << 16;
pub const MAX_SHARED: usize = 1 << 12;
const MAX_STEPS: u64 = 3_000_000;

const RUNNABLE: i32 = 0;
const FINISHED: i32 = -1;
const WAITING: i32 = 1;

/// Results of one execution, in memory shared with the explorer.
#[repr(C)]
pub struct Report {
    /// 0: running, 1: ended, 2: deadlock, 3: livelock, 4: too many decisions, 5: diverged, 6: control slipped
    pub end: u32,
    pub decisions: u32,
    pub steps: u64,
    pub granules: u32,
    pub lost_granules: u32,
    /// Granules found to be shared.
    pub shared: [usize; MAX_SHARED],
    /// Alternatives at each decision; the top bit tells that picking another one preempts.
    pub width: [u8; MAX_DECISIONS],
    pub picked: [u8; MAX_DECISIONS],
    /// The threads' results.
    pub text_len: [u32; MAX_THREADS],
    pub text: [[u8; 8192]; MAX_THREADS],
}

/// Inputs of one execution; set before the threads start.
pub struct Plan {
    pub prefix: Vec<u8>,
    /// Whether all basic blocks are scheduling points.
    pub blocks: bool,
}

struct State {
    on: bool,
    blocks: bool,
    prefix: *const u8,
    prefix_len: usize,
    threads: usize,
    report: *mut Report,
    status: [i32; MAX_THREADS],
    addr: [usize; MAX_THREADS],
    stack: [(usize, usize); MAX_THREADS],
}

static mut ST: State = State {
    on: false,
    blocks: false,
    prefix: std::ptr::null(),
    prefix_len: 0,
    threads: 0,
    report: std::ptr::null_mut(),
    status: [RUNNABLE; MAX_THREADS],
    addr: [0; MAX_THREADS],
    stack: [(0, 0); MAX_THREADS],
};

/// The thread that has control.
static TURN: AtomicI32 = AtomicI32::new(-1);
static ARRIVED: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
}

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { &mut ST }
}

unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

fn futex_wait(a: &AtomicI32, v: i32) {
    unsafe { raw(libc::SYS_futex as usize, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as u32 as usize, 0, 0, 0) };
}

fn futex_wake_all(a: &AtomicI32) {
    unsafe { raw(libc::SYS_futex as usize, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, i32::MAX as usize, 0, 0, 0) };
}

fn wait_turn(me: i32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        futex_wait(&TURN, t);
    }
}

fn give(t: i32) {
    TURN.store(t, SeqCst);
    futex_wake_all(&TURN);
}

fn quit(end: u32) -> ! {
    unsafe {
        (*st().report).end = end;
        libc::_exit(0)
    }
}

/// Picks among `others` and, as number 0, going on (if possible).
fn decide(me: i32, can_go_on: bool) -> i32 {
    let s = st();
    let r = unsafe { &mut *s.report };
    let mut alts = [0i32; MAX_THREADS];
    let mut n = 0;
    if can_go_on {
        alts[0] = me;
        n = 1;
    }
    // round robin from the current thread
    for k in 1..=s.threads {
        let t = (me + k as i32) % s.threads as i32;
        if (t != me || !can_go_on) && s.status[t as usize] == RUNNABLE {
            alts[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        quit(if s.status[..s.threads].iter().all(|x| *x == FINISHED) { 1 } else { 2 });
    }
    let mut k = 0;
    if n > 1 {
        let d = r.decisions as usize;
        if d >= MAX_DECISIONS {
            quit(4);
        }
        if d < s.prefix_len {
            k = unsafe { *s.prefix.add(d) } as usize;
            if k >= n {
                quit(5);
            }
        }
        r.width[d] = n as u8 | if can_go_on { 0x80 } else { 0 };
        r.picked[d] = k as u8;
        r.decisions += 1;
    }
    alts[k]
}

fn switch(me: i32, to: i32) {
    if to != me {
        give(to);
        wait_turn(me);
    }
}

/// Runs `f` as one of the hooks' operations: hooks don't nest, and only apply to controlled threads.
#[inline]
fn hook<R>(f: impl FnOnce(i32) -> R) -> Option<R> {
    if !st().on {
        return None;
    }
    let me = ME.try_with(|m| m.replace(-1)).unwrap_or(-1);
    if me < 0 {
        return None;
    }
    let r = f(me);
    let _ = ME.try_with(|m| m.set(me));
    Some(r)
}

fn point(me: i32) {
    let r = unsafe { &mut *st().report };
    r.steps += 1;
    if r.steps > MAX_STEPS {
        quit(3);
    }
    let to = decide(me, true);
    switch(me, to);
}

// ---------------------------------------------------------------- which memory is shared

const TABLE: usize = 1 << 15;
/// Granules known to be shared from earlier executions.
static mut KNOWN: [usize; 1 << 14] = [0; 1 << 14];
/// Granules touched in this execution, with the threads that did (4 bits), and whether they wrote (4 bits).
static mut TOUCHED: [(usize, u8); TABLE] = [(0, 0); TABLE];
/// The slots in use.
static mut USED: [u16; TABLE] = [0; TABLE];
static mut USED_LEN: usize = 0;

fn slot(g: usize, size: usize) -> usize {
    g.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20 & (size - 1)
}

#[allow(static_mut_refs)]
pub fn add_known(g: usize) {
    unsafe {
        let n = KNOWN.len();
        let mut i = slot(g, n);
        while KNOWN[i] != 0 && KNOWN[i] != g {
            i = (i + 1) & (n - 1);
        }
        KNOWN[i] = g;
    }
}

#[allow(static_mut_refs)]
fn known(g: usize) -> bool {
    unsafe {
        let n = KNOWN.len();
        let mut i = slot(g, n);
        loop {
            if KNOWN[i] == g {
                return true;
            }
            if KNOWN[i] == 0 {
                return false;
            }
            i = (i + 1) & (n - 1);
        }
    }
}

#[allow(static_mut_refs)]
fn touch(me: i32, a: usize, write: bool) {
    let g = a >> 3;
    let (lo, hi) = st().stack[me as usize];
    if a >= lo && a < hi {
        return;
    }
    unsafe {
        let mut i = slot(g, TABLE);
        for _ in 0..64 {
            if TOUCHED[i].0 == 0 {
                TOUCHED[i].0 = g;
                USED[USED_LEN] = i as u16;
                USED_LEN += 1;
            }
            if TOUCHED[i].0 == g {
                TOUCHED[i].1 |= 1 << me | if write { 16 << me } else { 0 };
                return;
            }
            i = (i + 1) & (TABLE - 1);
        }
        (*st().report).lost_granules += 1;
    }
}

/// Lists what's newly found to be shared.
#[allow(static_mut_refs)]
fn report_shared() {
    let r = unsafe { &mut *st().report };
    for &i in unsafe { &USED[..USED_LEN] } {
        let (g, m) = unsafe { TOUCHED[i as usize] };
        let (by, wrote) = (m & 15, m >> 4);
        if by & (by - 1) != 0 && wrote != 0 && !known(g) {
            if (r.granules as usize) < MAX_SHARED {
                r.shared[r.granules as usize] = g;
                r.granules += 1;
            } else {
                r.lost_granules += 1;
            }
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Other accesses than atomic ones only matter if they race; safe code can't, but code could share statics unsafely.
#[inline]
fn plain(a: usize, write: bool) {
    if a >= unsafe { &__data_start as *const u8 as usize } && a < unsafe { &_end as *const u8 as usize } {
        access(a, write)
    }
}

#[inline]
fn access(a: usize, write: bool) {
    hook(|me| {
        touch(me, a, write);
        if !st().blocks && known(a >> 3) {
            point(me);
        }
    });
}

// ---------------------------------------------------------------- controlled threads

/// Prepares for `threads` threads.
pub fn start(plan: Plan, threads: usize, report: *mut Report) {
    let s = st();
    let p: &'static [u8] = Box::leak(plan.prefix.into_boxed_slice());
    s.prefix = p.as_ptr();
    s.prefix_len = p.len();
    s.blocks = plan.blocks;
    s.threads = threads;
    s.report = report;
    s.status = [RUNNABLE; MAX_THREADS];
    TURN.store(-1, SeqCst);
    ARRIVED.store(0, SeqCst);
}

/// Waits until `n` threads have arrived. (They start one after the other, so that they get the same memory each time.)
pub fn arrived(n: usize) {
    while (ARRIVED.load(SeqCst) as usize) < n {
        unsafe { raw(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0) };
    }
}

/// Lets the first thread go.
pub fn go() {
    st().on = true;
    // the first thread is a decision, too (free)
    let first = decide(st().threads as i32 - 1, false);
    give(first);
}

/// Body of thread `me`.
pub fn thread(me: usize, f: impl FnOnce() -> String) {
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    st().stack[me] = (sp.saturating_sub(1 << 20), sp + 4096);
    drop(std::hint::black_box(Box::new([1u64; 100])));
    ARRIVED.fetch_add(1, SeqCst);
    let me = me as i32;
    wait_turn(me);
    ME.with(|m| m.set(me));
    let text = f();
    ME.with(|m| m.set(-1));
    let s = st();
    let r = unsafe { &mut *s.report };
    let b = text.as_bytes();
    let n = b.len().min(r.text[0].len());
    r.text[me as usize][..n].copy_from_slice(&b[..n]);
    r.text_len[me as usize] = n as u32;
    s.status[me as usize] = FINISHED;
    if s.status[..s.threads].iter().all(|x| *x == FINISHED) {
        report_shared();
        quit(1);
    }
    let to = decide(me, false);
    give(to);
    // never returns: the process ends with the last thread, and what the thread's end does isn't explored
    loop {
        futex_wait(&TURN, to);
    }
}

// ---------------------------------------------------------------- blocking

/// The standard library's futex calls come here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_getrandom as usize {
        return getrandom(a as *mut u8, b, 0);
    }
    if n == libc::SYS_futex as usize {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        let r = hook(|me| match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => Some(simulate_wait(me, a, c as u32, d != 0)),
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => Some(simulate_wake(a, c)),
            _ => None,
        });
        if let Some(Some(r)) = r {
            if r < 0 {
                *libc::__errno_location() = -r as i32;
                return -1;
            }
            return r;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

unsafe fn simulate_wait(me: i32, a: usize, v: u32, timeout: bool) -> isize {
    if (*(a as *const AtomicU32)).load(SeqCst) != v {
        return -(libc::EAGAIN as isize);
    }
    let s = st();
    let m = me as usize;
    if timeout {
        // others go first; then the time is over
        s.status[m] = WAITING;
        let any = s.status[..s.threads].iter().any(|x| *x == RUNNABLE);
        s.status[m] = RUNNABLE;
        if any {
            s.status[m] = WAITING;
            let to = decide(me, false);
            s.status[m] = RUNNABLE;
            switch(me, to);
        }
        return -(libc::ETIMEDOUT as isize);
    }
    s.status[m] = WAITING;
    s.addr[m] = a;
    let to = decide(me, false);
    switch(me, to);
    0
}

fn simulate_wake(a: usize, n: usize) -> isize {
    let s = st();
    let mut k = 0;
    for t in 0..s.threads {
        if k < n && s.status[t] == WAITING && s.addr[t] == a {
            s.status[t] = RUNNABLE;
            s.addr[t] = 0;
            k += 1;
        }
    }
    k as isize
}

/// Hash maps must not differ between executions.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    std::ptr::write_bytes(p, 0x5a, n);
    n as isize
}

/// Spinning threads give way.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let done = hook(|me| {
        let s = st();
        let r = &mut *s.report;
        r.steps += 1;
        if r.steps > MAX_STEPS {
            quit(3);
        }
        s.status[me as usize] = WAITING;
        let any = s.status[..s.threads].iter().any(|x| *x == RUNNABLE);
        if any {
            let to = decide(me, false);
            s.status[me as usize] = RUNNABLE;
            switch(me, to);
        }
        s.status[me as usize] = RUNNABLE;
    });
    if done.is_none() {
        raw(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0);
    }
    0
}

// ---------------------------------------------------------------- hooks of the instrumented code

macro_rules! cov {
    ($($l:ident $s:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: usize) { plain(a, false) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: usize) { plain(a, true) }
    )* };
}
cov!(__sanitizer_cov_load1 __sanitizer_cov_store1 __sanitizer_cov_load2 __sanitizer_cov_store2 __sanitizer_cov_load4 __sanitizer_cov_store4
     __sanitizer_cov_load8 __sanitizer_cov_store8 __sanitizer_cov_load16 __sanitizer_cov_store16);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    if st().blocks {
        hook(point);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
// (accesses in functions with the attribute; none here, but runtime routines may be called)
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    std::ptr::write_bytes(d, v as u8, n);
    d
}

macro_rules! atomics {
    ($($t:ty, $at:ident: $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const std::sync::atomic::$at, _: i32) -> $t { access(a as usize, false); (*a).load(SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *const std::sync::atomic::$at, v: $t, _: i32) { access(a as usize, true); (*a).store(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $swap(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).swap(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_add(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_sub(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_and(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_or(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_xor(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { access(a as usize, true); (*a).fetch_nand(v, SeqCst) }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *const std::sync::atomic::$at, old: $t, new: $t, _: i32, _: i32) -> $t {
            access(a as usize, true);
            match (*a).compare_exchange(old, new, SeqCst, SeqCst) { Ok(v) | Err(v) => v }
        }
    )* };
}
atomics! {
    u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
