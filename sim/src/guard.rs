//! Seams around the code under test: the marker saying "real code is running",
//! the panic hook, the counting allocator and the hang watchdog.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

thread_local! {
    static IN_REAL: Cell<u32> = const { Cell::new(0) };
    /// allocations until this thread is held up, 0 for never
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// calls of user-written attribute code until it calls back, 0 for never
    static CALLBACKS: Cell<u64> = const { Cell::new(0) };
    static GATE: Cell<Option<fn()>> = const { Cell::new(None) };
    static NESTED: Cell<Option<fn()>> = const { Cell::new(None) };
}
/// Calls `f` at the n-th allocation from here on this thread: a place inside a
/// call of the library where the scheduler may switch to another thread.
pub fn gate_at(n: u64, f: fn()) {
    GATE.with(|g| g.set(Some(f)));
    ALLOCS.with(|a| a.set(n));
}
pub fn gate_off() {
    ALLOCS.with(|a| a.set(0));
}
#[inline]
fn gate() {
    ALLOCS.with(|a| {
        let n = a.get();
        if n > 0 {
            a.set(n - 1);
            if n == 1 {
                if let Some(f) = GATE.with(|g| g.get()) {
                    f();
                }
            }
        }
    })
}
/// Calls `f` when user-written attribute code runs for the n-th time from here.
pub fn reenter_at(n: u64, f: fn()) {
    NESTED.with(|g| g.set(Some(f)));
    CALLBACKS.with(|a| a.set(n));
}
pub fn reenter_off() {
    CALLBACKS.with(|a| a.set(0));
}
/// User-written attribute code is running, inside a call of the library.
#[inline]
pub fn user_code() {
    CALLBACKS.with(|a| {
        let n = a.get();
        if n > 0 {
            a.set(n - 1);
            if n == 1 {
                if let Some(f) = NESTED.with(|g| g.get()) {
                    f();
                }
            }
        }
    })
}

/// Where inside a call of the library a thread is to be held up.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// before the n-th instruction
    Instruction(u32),
    /// a few instructions after the n-th one that is atomic or reaches for
    /// memory all threads share
    Shared(u32, u32),
}
#[derive(Clone, Copy)]
struct Stepping {
    place: Place,
    /// instructions to go once the place has been reached
    after: Option<u32>,
    /// instructions after which the place is given up
    left: u32,
    f: fn(),
}
thread_local! {
    static STEPPING: Cell<Option<Stepping>> = const { Cell::new(None) };
    static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
}
const TF: i64 = 0x100;
/// Calls run on a stack of 1 MiB, half of what a thread gets.
pub fn small_stack() {
    extern "C" {
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    }
    const RLIMIT_STACK: i32 = 3;
    unsafe {
        setrlimit(RLIMIT_STACK, &[1 << 20, u64::MAX]);
        setrlimit(RLIMIT_STACK, &[1 << 20, 8 << 20]);
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
/// Executes the library's code on this thread one instruction at a time, and
/// calls `f` at the given place.
pub fn step_to(place: Place, f: fn()) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        // SA_SIGINFO
        let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &a, std::ptr::null_mut());
    });
    STEPPING.with(|x| x.set(Some(Stepping { place, after: None, left: 12_000, f })));
}
pub fn step_off() {
    STEPPING.with(|x| x.set(None));
}
/// Would the instruction at `p` touch memory that threads share (as far as its
/// bytes tell: locked ones, and those that name a place among the statics)?
unsafe fn touches_shared(p: *const u8) -> bool {
    let at = |i: usize| unsafe { *p.add(i) };
    let mut i = 0;
    loop {
        match at(i) {
            0xf0 => return true,
            0x64 | 0x65 => return false,
            0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => i += 1,
            _ => break,
        }
        if i > 8 {
            return false;
        }
    }
    if at(i) & 0xf0 == 0x40 {
        i += 1;
    }
    let op = at(i);
    i += 1;
    let modrm = match op {
        0xc5 => {
            i += 2;
            true
        }
        0xc4 => {
            i += 3;
            true
        }
        0x0f => {
            let o = at(i);
            i += 1;
            match o {
                0x38 | 0x3a => {
                    i += 1;
                    true
                }
                0x05 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => false,
                _ => true,
            }
        }
        0x00..=0x3f => op & 7 < 4,
        0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
        _ => false,
    };
    if !modrm {
        return false;
    }
    let m = at(i);
    if (op == 0x86 || op == 0x87) && m < 0xc0 {
        return true;
    }
    if m & 0xc7 != 5 {
        return false;
    }
    let d = i32::from_le_bytes([at(i + 1), at(i + 2), at(i + 3), at(i + 4)]);
    let t = (p as i64) + i as i64 + 5 + d as i64;
    t + 8 >= std::ptr::addr_of!(__data_start) as i64 && t < std::ptr::addr_of!(_end) as i64
}
unsafe extern "C" fn on_trap(_: i32, _: *const u8, uc: *mut i64) {
    // ucontext: flags, link, stack (3 words), then the registers
    let (rip, efl) = (*uc.add(5 + 16) as *const u8, uc.add(5 + 17));
    let mut s = match STEPPING.with(|x| x.get()) {
        Some(s) => s,
        None => {
            *efl &= !TF;
            return;
        }
    };
    if IN_ALLOC.with(|a| a.get()) {
        return;
    }
    s.left -= 1;
    let hit = match (s.after, s.place) {
        (Some(n), _) => {
            s.after = Some(n.wrapping_sub(1));
            n == 0
        }
        (None, Place::Instruction(n)) => {
            s.place = Place::Instruction(n.wrapping_sub(1));
            n == 0
        }
        (None, Place::Shared(n, d)) => {
            if touches_shared(rip) {
                s.place = Place::Shared(n.wrapping_sub(1), d);
                if n == 0 {
                    s.after = Some(d.wrapping_sub(1));
                }
                n == 0 && d == 0
            } else {
                false
            }
        }
    };
    if hit || s.left == 0 {
        *efl &= !TF;
        STEPPING.with(|x| x.set(None));
        if hit {
            (s.f)();
        }
    } else {
        STEPPING.with(|x| x.set(Some(s)));
    }
}
fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

struct Depth;
impl Drop for Depth {
    fn drop(&mut self) {
        IN_REAL.with(|d| {
            d.set(d.get() - 1);
            if d.get() == 0 && STEPPING.with(|x| x.get().is_some()) {
                trap_flag(false);
            }
        });
    }
}

/// Marks `f` as a call into the code under test: a panic inside it is a
/// violation of the property being checked, not a harness error.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    IN_REAL.with(|d| d.set(d.get() + 1));
    let _d = Depth;
    if STEPPING.with(|x| x.get().is_some()) {
        trap_flag(true);
    }
    f()
}

/// The allocator is running: no thread is held up here, it may hold a lock.
struct InAlloc;
impl InAlloc {
    fn new() -> Self {
        IN_ALLOC.with(|a| a.set(true));
        InAlloc
    }
}
impl Drop for InAlloc {
    fn drop(&mut self) {
        IN_ALLOC.with(|a| a.set(false));
    }
}
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// More live memory than this in one simulated run is a runaway.
pub const MEM_LIMIT: usize = 3 << 30;

fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    CALLS.fetch_add(1, Relaxed);
    if l > MEM_LIMIT {
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        gate();
        let _u = InAlloc::new();
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gate();
        let _u = InAlloc::new();
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _u = InAlloc::new();
        if n >= l.size() {
            grow(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub place: String,
    pub in_real: bool,
}
pub static LAST_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);
pub static QUIET: AtomicBool = AtomicBool::new(true);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let place = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_real = IN_REAL.with(|d| d.get()) > 0;
        if !QUIET.load(Relaxed) {
            eprintln!("panic at {}: {}", place, msg);
        }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        // the first panic of the run is the interesting one
        if g.is_none() {
            *g = Some(PanicInfo { msg, place, in_real });
        }
    }));
}

/// Watchdog: real time is used only to notice a call that never returns.
pub static RUN_NO: AtomicU64 = AtomicU64::new(0);
pub static HANG_SECS: AtomicU64 = AtomicU64::new(20);
pub const HANG_EXIT: i32 = 97;

/// A long run is still moving.
pub fn heartbeat(i: usize) {
    if i % 512 == 511 {
        RUN_NO.fetch_add(1, Relaxed);
    }
}
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = (0u64, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let n = RUN_NO.load(Relaxed);
            if n != last.0 {
                last = (n, std::time::Instant::now());
            } else if n != 0 && last.1.elapsed().as_secs() >= HANG_SECS.load(Relaxed) {
                std::process::exit(HANG_EXIT);
            }
        }
    });
}

pub fn start_watchdog_for(class: &str) {
    if class == "hang" {
        HANG_SECS.store(6, Relaxed);
    }
    start_watchdog();
}
