//! Runtime monitors: coverage/step/comparison callbacks of the instrumented library, counting allocator,
//! panic observation, crash slots.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

pub const MAP: usize = 1 << 16;
const NCMP: usize = 512;
const DSET: usize = 8192;

pub struct Tls {
    pub active: bool,
    pub steps: u64,
    pub budget: u64,
    pub map: Vec<u8>,
    pub touched: Vec<u32>,
    pub cmps: Vec<(u64, u64)>,
    pub ncmp: usize,
    pub dict: Vec<u64>,
    dset: Vec<u64>,
    pub mem_base: i64,
    pub mem_cap: i64,
    pub virgin: Vec<u8>,
}

thread_local! {
    static TP: Cell<*mut Tls> = const { Cell::new(null_mut()) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<*mut u8> = const { Cell::new(null_mut()) };
    static MEMCAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub fn init_thread() {
    let t = Box::new(Tls {
        active: false,
        steps: 0,
        budget: u64::MAX,
        map: vec![0; MAP],
        touched: Vec::with_capacity(MAP),
        cmps: vec![(0, 0); NCMP],
        ncmp: 0,
        dict: Vec::with_capacity(DSET),
        dset: vec![u64::MAX; DSET],
        mem_base: 0,
        mem_cap: i64::MAX,
        virgin: vec![0; MAP],
    });
    TP.with(|p| p.set(Box::into_raw(t)));
}
pub fn drop_thread() {
    let p = TP.with(|p| p.replace(null_mut()));
    if !p.is_null() {
        drop(unsafe { Box::from_raw(p) });
    }
}
#[allow(clippy::mut_from_ref)]
pub fn tls() -> &'static mut Tls {
    let p = TP.with(|p| p.get());
    assert!(!p.is_null());
    unsafe { &mut *p }
}
pub fn has_tls() -> bool {
    TP.with(|p| !p.get().is_null())
}

/// Start observing a case.
pub fn begin_case() {
    let t = tls();
    for &i in &t.touched {
        t.map[i as usize] = 0;
    }
    t.touched.clear();
    t.ncmp = 0;
    t.steps = 0;
    t.budget = HANG;
    t.active = true;
    let cur = CUR.with(|c| c.get());
    MEMCAP.with(|c| c.set(cur + (2 << 30)));
}
pub fn end_case() {
    let t = tls();
    t.active = false;
    MEMCAP.with(|c| c.set(i64::MAX));
}
pub const HANG: u64 = 1_500_000_000;

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// Merges this case's coverage; true if something new was seen.
pub fn novel() -> bool {
    let t = tls();
    let mut new = false;
    for &i in &t.touched {
        let b = bucket(t.map[i as usize]);
        if t.virgin[i as usize] & b == 0 {
            t.virgin[i as usize] |= b;
            new = true;
        }
    }
    new
}
pub fn steps() -> u64 {
    if has_tls() { tls().steps } else { 0 }
}

pub static NGUARDS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    unsafe {
        if s == e || *s != 0 {
            return;
        }
        let mut n = NGUARDS.load(std::sync::atomic::Ordering::Relaxed);
        let mut p = s;
        while p < e {
            n += 1;
            *p = n;
            p = p.add(1);
        }
        NGUARDS.store(n, std::sync::atomic::Ordering::Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let p = TP.with(|p| p.get());
    if p.is_null() {
        return;
    }
    let t = unsafe { &mut *p };
    if !t.active {
        return;
    }
    t.steps += 1;
    if t.steps > t.budget {
        fatal(b'S');
    }
    let i = (unsafe { *g } as usize) & (MAP - 1);
    let m = t.map[i];
    if m == 0 && t.touched.len() < t.touched.capacity() {
        t.touched.push(i as u32);
    }
    t.map[i] = m.saturating_add(1);
}
#[inline]
fn on_cmp(c: u64, v: u64, is_const: bool) {
    let p = TP.with(|p| p.get());
    if p.is_null() {
        return;
    }
    let t = unsafe { &mut *p };
    if !t.active || c == v {
        return;
    }
    let n = t.ncmp;
    if n < NCMP {
        t.cmps[n] = (c, v);
    } else if n % 7 == 0 {
        t.cmps[(n / 7) % NCMP] = (c, v);
    }
    t.ncmp = n + 1;
    if is_const && c > 2 {
        let mut h = (c.wrapping_mul(0x9E3779B97F4A7C15) >> 50) as usize % DSET;
        for _ in 0..16 {
            if t.dset[h] == c {
                return;
            }
            if t.dset[h] == u64::MAX {
                t.dset[h] = c;
                if t.dict.len() < DSET {
                    t.dict.push(c);
                }
                return;
            }
            h = (h + 1) % DSET;
        }
    }
}
macro_rules! cmpcb {
    ($($n:ident $t:ty, $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n(a: $t, b: $t) { on_cmp(a as u64, b as u64, $c); })* };
}
cmpcb! {
    __sanitizer_cov_trace_cmp1 u8, false;
    __sanitizer_cov_trace_cmp2 u16, false;
    __sanitizer_cov_trace_cmp4 u32, false;
    __sanitizer_cov_trace_cmp8 u64, false;
    __sanitizer_cov_trace_const_cmp1 u8, true;
    __sanitizer_cov_trace_const_cmp2 u16, true;
    __sanitizer_cov_trace_const_cmp4 u32, true;
    __sanitizer_cov_trace_const_cmp8 u64, true;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let p = TP.with(|p| p.get());
    if p.is_null() || unsafe { !(*p).active } {
        return;
    }
    unsafe {
        let n = *cases as usize;
        // keep it cheap: one of the cases per hit, rotating
        let k = ((*p).steps as usize) % n.max(1);
        if n > 0 {
            on_cmp(*cases.add(2 + k), v, true);
        }
    }
}

extern "C" {
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
pub fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}

/// A budget was exceeded inside the library: no unwinding is possible here, so note the reason in the crash
/// slot of this thread (the case itself is already there) and leave.
fn fatal(kind: u8) -> ! {
    let s = SLOT.with(|s| s.get());
    if !s.is_null() {
        unsafe { *s = kind };
    }
    unsafe { _exit(77) }
}

pub const SLOT_SIZE: usize = 1 << 20;
/// Crash slot: [state u8][pad 7][workload u64][seed u64][len u64][tape...]
pub fn open_slot(path: &str) {
    if cfg!(miri) {
        return;
    }
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path) else { return };
    if f.set_len(SLOT_SIZE as u64).is_err() {
        return;
    }
    let fd = f.as_raw_fd();
    unsafe {
        let m = mmap(null_mut(), SLOT_SIZE, 3, 1, fd, 0);
        if m as isize != -1 {
            SLOT.with(|s| s.set(m));
        }
    }
}
pub fn slot_case(workload: u64, seed: u64) {
    let s = SLOT.with(|s| s.get());
    if s.is_null() {
        return;
    }
    unsafe {
        *s = b'R';
        (s.add(8) as *mut u64).write(workload);
        (s.add(16) as *mut u64).write(seed);
        (s.add(24) as *mut u64).write(0);
    }
}
#[inline]
pub fn slot_push(v: u64) {
    let s = SLOT.with(|s| s.get());
    if s.is_null() {
        return;
    }
    unsafe {
        let lp = s.add(24) as *mut u64;
        let n = *lp as usize;
        if n < (SLOT_SIZE - 32) / 8 {
            (s.add(32) as *mut u64).add(n).write(v);
            *lp = n as u64 + 1;
        }
    }
}
pub fn slot_idle() {
    let s = SLOT.with(|s| s.get());
    if !s.is_null() {
        unsafe { *s = b'I' };
    }
}

pub struct Counting;
#[inline]
#[cfg_attr(miri, allow(dead_code))]
fn add(n: i64) {
    let c = CUR.with(|c| {
        let v = c.get() + n;
        c.set(v);
        v
    });
    if n > 0 {
        TOTAL.with(|t| t.set(t.get() + n as u64));
        PEAK.with(|p| {
            if c > p.get() {
                p.set(c)
            }
        });
        if c > MEMCAP.with(|m| m.get()) {
            fatal(b'M');
        }
    }
}
#[cfg(miri)]
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[cfg(not(miri))]
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // count both blocks as alive while the content moves
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    /// peak of additionally allocated bytes
    pub peak: u64,
    /// edges executed in the library
    pub steps: u64,
    /// bytes requested from the allocator in total
    pub total: u64,
    /// bytes copied, moved, filled or compared by the C library's functions
    pub moved: u64,
}
thread_local! {
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
/// The linker redirects the memory functions here (rustc-wrap.sh), so that work hidden in them is seen.
#[cfg(count_moves)]
mod moves {
    use std::ffi::{c_int, c_void};
    extern "C" {
        fn __real_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
        fn __real_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
        fn __real_memset(d: *mut c_void, c: c_int, n: usize) -> *mut c_void;
        fn __real_memcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int;
        fn __real_bcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int;
    }
    #[inline(always)]
    fn add(n: usize) {
        super::MOVED.with(|m| m.set(m.get().wrapping_add(n as u64)));
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        add(n);
        __real_memcpy(d, s, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        add(n);
        __real_memmove(d, s, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memset(d: *mut c_void, c: c_int, n: usize) -> *mut c_void {
        add(n);
        __real_memset(d, c, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int {
        add(n);
        __real_memcmp(a, b, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_bcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int {
        add(n);
        __real_bcmp(a, b, n)
    }
}
/// Runs f and observes what it costs.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let t0 = TOTAL.with(|t| t.get());
    let s0 = steps();
    let m0 = MOVED.with(|m| m.get());
    let r = f();
    let moved = MOVED.with(|m| m.get()) - m0;
    let s1 = steps();
    let peak = PEAK.with(|p| p.get()) - base;
    let total = TOTAL.with(|t| t.get()) - t0;
    (r, Cost { peak: peak.max(0) as u64, steps: s1 - s0, total, moved })
}

// ---- panics -------------------------------------------------------------------------------------------
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // checks of the compiler for undefined behaviour end the process: say why
        if ["unsafe precondition", "trying to construct an enum", "pointer dereference", "invalid enum"].iter().any(|t| msg.contains(t)) {
            eprintln!("{msg} at {loc}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
