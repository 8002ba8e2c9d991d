//! The simulator's core: every log call of the code under test is a step. At a step the simulator
//! may switch threads, panic, change the log level, format the record or stop a runaway run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the log sink panics
    Panic(u64),
    Level(u32),
    /// format this many records from here on
    Format(u32),
    /// the clock jumps
    Clock(i64),
}
pub struct State {
    pub step: u64,
    pub tok: u64,
    pub budget: u64,
    pub over: bool,
    faults: Vec<(u64, Fault)>,
    nf: usize,
    sched: Vec<(u64, usize)>,
    ns: usize,
    format: u32,
    pub formatted: u64,
    pub fired: [u64; 4],
    pub switches: u64,
    pub trace: u64,
    threads: bool,
}
struct Cell2(UnsafeCell<State>);
unsafe impl Sync for Cell2 {}
static ST: Cell2 = Cell2(UnsafeCell::new(State {
    step: 0,
    tok: 0,
    budget: u64::MAX,
    over: false,
    faults: vec![],
    nf: 0,
    sched: vec![],
    ns: 0,
    format: 0,
    formatted: 0,
    fired: [0; 4],
    switches: 0,
    trace: 0,
    threads: false,
}));
/// Only ever one simulated thread runs; the baton is what makes this sound.
#[allow(clippy::mut_from_ref)]
pub fn st() -> &'static mut State {
    unsafe { &mut *ST.0.get() }
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static LAST: RefCell<Option<(String, u32, String)>> = const { RefCell::new(None) };
}
pub struct Injected(pub u64);
pub struct OverBudget;
const STATIC: [&str; 8] = ["injected 0", "injected 1", "injected 1000", "injected 1001", "injected 1002", "injected 1003", "injected 1004", "injected 1005"];
#[derive(Debug)]
struct AnError(u64);
impl std::fmt::Display for AnError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for AnError {}
/// Panic with a payload that `classify` can tell from all others. `how`: of which type.
pub fn raise(id: u64, how: u64) -> ! {
    match how % 7 {
        1 => std::panic::panic_any(format!("injected {}", id)),
        2 => panic!("injected {}", id),
        3 => match STATIC.iter().find(|s| **s == format!("injected {}", id)) {
            Some(s) => std::panic::panic_any(*s),
            None => std::panic::panic_any(Injected(id)),
        },
        4 => {
            let e: Box<dyn std::error::Error + Send + Sync> = Box::new(AnError(id));
            std::panic::panic_any(e)
        }
        5 => std::panic::resume_unwind(Box::new(Injected(id))),
        6 => std::panic::resume_unwind(Box::new(format!("injected {}", id))),
        _ => std::panic::panic_any(Injected(id)),
    }
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !ON.with(|o| o.get()) || std::thread::panicking() {
            return;
        }
        let t = r.target();
        let tok = t == "ress" || t.starts_with("ress::");
        let s = st();
        if s.format > 0 {
            s.format -= 1;
            s.formatted += 1;
            ON.with(|o| o.set(false));
            let text = format!("{}", r.args());
            std::hint::black_box(&text);
            ON.with(|o| o.set(true));
        }
        step(tok);
    }
    fn flush(&self) {}
}
pub fn step(tok: bool) {
    let s = st();
    s.step += 1;
    if tok {
        s.tok += 1;
    }
    if s.step > s.budget {
        s.over = true;
        std::panic::panic_any(OverBudget);
    }
    while s.nf < s.faults.len() && s.faults[s.nf].0 <= s.step {
        let f = s.faults[s.nf].1;
        s.nf += 1;
        match f {
            Fault::Panic(id) => {
                s.fired[0] += 1;
                raise(id & 0xffff_ffff, id >> 32);
            }
            Fault::Level(l) => {
                s.fired[1] += 1;
                set_level(l);
            }
            Fault::Format(n) => {
                s.fired[2] += 1;
                s.format = n;
            }
            Fault::Clock(d) => {
                s.fired[3] += 1;
                CLOCK.fetch_add(d, Relaxed);
            }
        }
    }
    if s.threads {
        maybe_switch();
    }
}
pub fn set_level(l: u32) {
    log::set_max_level(match l {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}
/// Begin a run: `faults` at absolute steps.
pub fn begin(budget: u64, mut faults: Vec<(u64, Fault)>) {
    faults.sort_by_key(|f| f.0);
    let s = st();
    *s = State {
        step: 0,
        tok: 0,
        budget,
        over: false,
        faults,
        nf: 0,
        sched: vec![],
        ns: 0,
        format: 0,
        formatted: 0,
        fired: [0; 4],
        switches: 0,
        trace: 0x1234_5678,
        threads: false,
    };
    set_level(5);
    ON.with(|o| o.set(true));
}
pub fn pause() {
    ON.with(|o| o.set(false));
}
pub fn resume() {
    ON.with(|o| o.set(true));
}
pub fn note(x: u64) {
    let s = st();
    s.trace = model::rng::mix(s.trace ^ x);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Panic {
    Injected(u64),
    Budget,
    /// in the tokenizer: file:line and message
    Tokenizer(String, String),
    Other(String, String),
}
impl Panic {
    pub fn show(&self) -> String {
        match self {
            Panic::Injected(i) => format!("injected panic {}", i),
            Panic::Budget => "step budget exceeded".into(),
            Panic::Tokenizer(a, b) => format!("panic in the tokenizer at {}: {}", a, b),
            Panic::Other(a, b) => format!("panic at {}: {}", a, b),
        }
    }
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    LAST.with(|l| *l.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(classify(p)),
    }
}
pub fn classify(p: Box<dyn std::any::Any + Send>) -> Panic {
    if let Some(i) = p.downcast_ref::<Injected>() {
        return Panic::Injected(i.0);
    }
    let text = |t: &str| t.strip_prefix("injected ").and_then(|n| n.parse::<u64>().ok());
    if let Some(i) = p.downcast_ref::<String>().and_then(|t| text(t)) {
        return Panic::Injected(i);
    }
    if let Some(i) = p.downcast_ref::<&'static str>().and_then(|t| text(t)) {
        return Panic::Injected(i);
    }
    if let Some(e) = p.downcast_ref::<Box<dyn std::error::Error + Send + Sync>>() {
        if let Some(i) = e.downcast_ref::<AnError>() {
            return Panic::Injected(i.0);
        }
    }
    if p.downcast_ref::<OverBudget>().is_some() {
        return Panic::Budget;
    }
    let (file, line, msg) = LAST.with(|l| l.borrow().clone()).unwrap_or_default();
    if let Some(i) = file.find("/ress-0.") {
        let msg: String = msg.lines().next().unwrap_or("").chars().take(160).collect();
        Panic::Tokenizer(format!("{}:{}", &file[i + 1..], line), msg)
    } else {
        Panic::Other(format!("{}:{}", file, line), msg.chars().take(300).collect())
    }
}
pub fn install() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let (f, l) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = Some((f, l, msg)));
    }));
    // the first error of a process makes the backtrace crate load the symbols of the executable,
    // once and for all: get that over with before anything is measured
    for t in ["a b", "f(a b", "({get a(b){}})"] {
        let mut b = ressa::Builder::new();
        b.js(t);
        let _ = b.build().map(|p| p.take(3).count());
    }
}

// ---------------------------------------------------------------- threads
struct Baton {
    cur: Mutex<(usize, Vec<bool>)>, // who runs; who is done
    cv: Vec<Condvar>,
}
static mut BATON: Option<&'static Baton> = None;
fn baton() -> &'static Baton {
    unsafe { BATON.unwrap() }
}
fn maybe_switch() {
    let s = st();
    if s.ns < s.sched.len() && s.sched[s.ns].0 <= s.step {
        let target = s.sched[s.ns].1;
        s.ns += 1;
        switch_to(target);
    }
}
fn switch_to(target: usize) {
    let me = ME.with(|m| m.get());
    let b = baton();
    let mut g = b.cur.lock().unwrap();
    let n = b.cv.len();
    let mut t = target % n;
    for _ in 0..n {
        if !g.1[t] {
            break;
        }
        t = (t + 1) % n;
    }
    if t == me || g.1[t] {
        return;
    }
    st().switches += 1;
    note(((me as u64) << 32) ^ (t as u64) ^ (st().step << 8));
    g.0 = t;
    b.cv[t].notify_one();
    while g.0 != me {
        g = b.cv[me].wait(g).unwrap();
    }
}
/// Run the bodies as threads of which exactly one runs at any moment. `gaps`: after so many more
/// steps switch to that thread.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, gaps: &[(u64, usize)]) {
    let n = bodies.len();
    let b: &'static Baton = Box::leak(Box::new(Baton { cur: Mutex::new((0, vec![false; n])), cv: (0..n).map(|_| Condvar::new()).collect() }));
    unsafe { BATON = Some(b) };
    let s = st();
    let mut at = s.step;
    s.sched = gaps
        .iter()
        .map(|g| {
            at += g.0.max(1);
            (at, g.1)
        })
        .collect();
    s.ns = 0;
    s.threads = true;
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::Builder::new()
                .stack_size(if n > 6 { STACK / 4 } else { STACK })
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    {
                        let mut g = b.cur.lock().unwrap();
                        while g.0 != i {
                            g = b.cv[i].wait(g).unwrap();
                        }
                    }
                    ON.with(|o| o.set(true));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    ON.with(|o| o.set(false));
                    let mut g = b.cur.lock().unwrap();
                    g.1[i] = true;
                    // hand the baton on
                    for k in 1..=n {
                        let t = (i + k) % n;
                        if !g.1[t] {
                            g.0 = t;
                            b.cv[t].notify_one();
                            break;
                        }
                    }
                    drop(g);
                    r.is_ok()
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    st().threads = false;
    unsafe {
        BATON = None;
        drop(Box::from_raw(b as *const Baton as *mut Baton));
    }
}
pub const STACK: usize = 64 << 20;

// ---------------------------------------------------------------- memory
pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// bytes ever asked for while counting
pub static TRAFFIC: AtomicI64 = AtomicI64::new(0);
pub static NOISE: AtomicU64 = AtomicU64::new(0);
pub static NOISED: AtomicU64 = AtomicU64::new(0);
pub static TRACK: AtomicBool = AtomicBool::new(false);
#[inline]
fn add(n: i64) {
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if TRACK.load(Relaxed) {
        if v > PEAK.load(Relaxed) {
            PEAK.store(v, Relaxed);
        }
        if n > 0 {
            TRAFFIC.fetch_add(n, Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        add(l.size() as i64);
        let n = NOISE.load(Relaxed);
        if n != 0 && !p.is_null() {
            NOISED.fetch_add(1, Relaxed);
            std::ptr::write_bytes(p, (n & 0xff) as u8, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        let n = NOISE.load(Relaxed);
        if n != 0 {
            std::ptr::write_bytes(p, (n >> 8 & 0xff) as u8, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if NOISE.load(Relaxed) != 0 {
            // always move
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(new as i64 - l.size() as i64);
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn track_peak() {
    PEAK.store(live(), Relaxed);
    TRACK.store(true, Relaxed);
}
/// bytes asked for since this was last called, counted only while peaks are tracked
pub fn traffic() -> i64 {
    TRAFFIC.swap(0, Relaxed)
}
pub fn peak() -> i64 {
    TRACK.store(false, Relaxed);
    PEAK.load(Relaxed)
}

// ---------------------------------------------------------------- operating system seams
/// what the process reads as randomness and time, decided by the simulator
pub static RANDOM: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK: AtomicI64 = AtomicI64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    RANDOM_READS.fetch_add(1, Relaxed);
    let mut z = RANDOM.load(Relaxed);
    let b = buf as *mut u8;
    for i in 0..len {
        if i % 8 == 0 {
            z = model::rng::mix(z.wrapping_add(0x9E37_79B9));
        }
        *b.add(i) = (z >> ((i % 8) * 8)) as u8;
    }
    len as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    CLOCK_READS.fetch_add(1, Relaxed);
    let r = libc::syscall(libc::SYS_clock_gettime, id, tp) as libc::c_int;
    if r == 0 {
        (*tp).tv_sec = ((*tp).tv_sec + CLOCK.load(Relaxed)).max(0);
    }
    r
}
/// what environment variables, the process number and opened files look like to the code under test
pub static ENVV: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static PID: AtomicI64 = AtomicI64::new(0);
pub static PID_READS: AtomicU64 = AtomicU64::new(0);
pub static OPENS: AtomicU64 = AtomicU64::new(0);
pub static OPEN_FAILS: AtomicU64 = AtomicU64::new(0);
extern "C" {
    static environ: *const *const libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    const VALUES: [&[u8]; 6] = [b"1\0", b"\0", b"0\0", b"true\0", b"trace\0", b"/\0"];
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let v = ENVV.load(Relaxed);
    if v != 0 && name != b"RUST_MIN_STACK" {
        ENV_READS.fetch_add(1, Relaxed);
        return VALUES[(v % 6) as usize].as_ptr() as *mut libc::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let kv = std::ffi::CStr::from_ptr(*e).to_bytes();
        if kv.len() > name.len() && kv[name.len()] == b'=' && kv.starts_with(name) {
            return (*e).add(name.len() + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let p = PID.load(Relaxed);
    if p != 0 {
        PID_READS.fetch_add(1, Relaxed);
        return p as libc::pid_t;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    let how = OPENS.load(Relaxed);
    if how != 0 {
        OPEN_FAILS.fetch_add(1, Relaxed);
        *libc::__errno_location() = [libc::EMFILE, libc::ENOENT, libc::EIO, libc::EACCES][(how % 4) as usize];
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}
pub fn forget_last() {
    LAST.with(|l| *l.borrow_mut() = None);
}
