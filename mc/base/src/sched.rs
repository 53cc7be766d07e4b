//! A controlled scheduler for two threads: exactly one runs at a time, and
//! control changes hands only at the positions a plan names.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

struct St {
    turn: usize,
    done: [bool; 2],
    pos: usize,
    plan: Vec<usize>,
}
pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

type Hook = Box<dyn FnMut()>;
thread_local! {
    static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PASSED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// Run `f`, and `hook` in the middle of it, at the `k`-th point it passes
/// (`k` = 0: never). Returns also the number of points passed.
pub fn with_hook<R>(k: u64, hook: impl FnMut(), f: impl FnOnce() -> R) -> (R, u64) {
    let h: Box<dyn FnMut() + '_> = Box::new(hook);
    // only called until the end of this function
    let h: Hook = unsafe { std::mem::transmute(h) };
    HOOK.with(|x| *x.borrow_mut() = Some(h));
    LEFT.with(|l| l.set(k));
    PASSED.with(|l| l.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LEFT.with(|l| l.set(0));
    HOOK.with(|x| *x.borrow_mut() = None);
    let n = PASSED.with(|l| l.get());
    match r {
        Ok(r) => (r, n),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// A place where control may change hands.
pub fn point() {
    PASSED.with(|p| p.set(p.get() + 1));
    let left = LEFT.with(|l| l.get());
    if left > 0 {
        LEFT.with(|l| l.set(left - 1));
        if left == 1 {
            let h = HOOK.with(|h| h.borrow_mut().take());
            if let Some(mut h) = h {
                h();
            }
        }
    }
    ME.with(|me| {
        if let Some((s, i)) = &*me.borrow() {
            s.point(*i);
        }
    });
}

impl Sched {
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.pos += 1;
        if g.plan.contains(&g.pos) && !g.done[1 - me] {
            g.turn = 1 - me;
            self.cv.notify_all();
            while g.turn != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    fn enter(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn leave(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[me] = true;
        g.turn = 1 - me;
        self.cv.notify_all();
    }
}

/// Run `a` and `b` in two threads under the plan; `first` starts. Returns both
/// results and the number of points passed.
pub fn both<R: Send>(first: usize, plan: &[usize], a: impl FnOnce() -> R + Send, b: impl FnOnce() -> R + Send) -> (R, R, usize) {
    let s = Arc::new(Sched {
        m: Mutex::new(St { turn: first, done: [false; 2], pos: 0, plan: plan.to_vec() }),
        cv: Condvar::new(),
    });
    fn body<R>(s: Arc<Sched>, i: usize, f: impl FnOnce() -> R) -> R {
        ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
        s.enter(i);
        let r = f();
        s.leave(i);
        ME.with(|m| *m.borrow_mut() = None);
        r
    }
    let (mut x, mut y) = (None, None);
    let (s0, s1) = (s.clone(), s.clone());
    beside(|| y = Some(body(s1, 1, b)), || x = Some(body(s0, 0, a)));
    let (x, y) = (x.unwrap(), y.unwrap());
    let n = s.m.lock().unwrap().pos;
    (x, y, n)
}

// ---- preemption inside library code: at allocations

pub struct PointAlloc;
#[global_allocator]
static ALLOC: PointAlloc = PointAlloc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::SeqCst};
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static THEN: Cell<Option<fn()>> = const { Cell::new(None) };
    static HELD: Cell<i64> = const { Cell::new(0) };
}
/// Bytes this thread has taken from the allocator and not given back.
pub fn held() -> i64 {
    HELD.get()
}
#[inline(always)]
fn alloc_point() {
    if ARMED.get() {
        alloc_point_armed();
    }
}
#[cold]
#[inline(never)]
fn alloc_point_armed() {
    SEEN.set(SEEN.get() + 1);
    if SEEN.get() == AT.get() {
        ARMED.set(false);
        if let Some(f) = THEN.get() {
            f();
        }
        ARMED.set(!NO_ALLOC.get());
    }
}
unsafe impl GlobalAlloc for PointAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        HELD.set(HELD.get() + l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        HELD.set(HELD.get() + l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        HELD.set(HELD.get() + n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        alloc_point();
        HELD.set(HELD.get() - l.size() as i64);
        unsafe { System.dealloc(p, l) }
    }
}

/// The two sides of a race: 0 the calling thread, 1 its companion.
#[derive(Default)]
struct Side {
    /// a descriptor of the thread's status file
    fd: AtomicI32,
    waiting: AtomicBool,
    done: AtomicBool,
}
#[derive(Default)]
struct Race {
    sides: [Side; 2],
    turn: AtomicUsize,
}
thread_local! {
    static RACE: Cell<(*const Race, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static STATUS: Cell<i32> = const { Cell::new(-1) };
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
unsafe extern "C" {
    fn gettid() -> i32;
    fn usleep(us: u32) -> i32;
    fn pread(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn __errno_location() -> *mut i32;
}
/// Is the thread waiting for something? (No allocation, no locks: this is also
/// called from a signal handler.)
fn asleep(fd: i32) -> bool {
    let mut b = [0u8; 128];
    let n = unsafe { pread(fd, b.as_mut_ptr(), 128, 0) };
    if n <= 0 {
        return false;
    }
    let b = &b[..n as usize];
    match b.iter().rposition(|c| *c == b')') {
        Some(i) => b.get(i + 2) == Some(&b'S'),
        None => false,
    }
}
fn status() -> i32 {
    if STATUS.get() < 0 {
        use std::os::fd::IntoRawFd;
        let tid = unsafe { gettid() };
        STATUS.set(std::fs::File::open(format!("/proc/self/task/{tid}/stat")).map_or(-1, |f| f.into_raw_fd()));
    }
    STATUS.get()
}
impl Race {
    /// Wait for `me`'s turn; also ends when the other side has ended, or waits
    /// for something that is not its turn (a lock held here).
    fn wait(&self, me: usize) {
        let (i, o) = (&self.sides[me], &self.sides[1 - me]);
        i.waiting.store(true, SeqCst);
        let (mut naps, mut n) = (0, 0u32);
        while self.turn.load(SeqCst) != me && !o.done.load(SeqCst) && naps < 3 {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
            } else if n < 2400 {
                std::thread::yield_now();
            } else {
                unsafe { usleep(50) };
                if !o.waiting.load(SeqCst) && asleep(o.fd.load(SeqCst)) {
                    naps += 1;
                } else {
                    naps = 0;
                }
            }
        }
        i.waiting.store(false, SeqCst);
    }
}
/// The other side's turn, until it ends, stops in its turn, or has to wait.
fn hand_over() {
    let (r, me) = RACE.get();
    let r = unsafe { &*r };
    r.turn.store(1 - me, SeqCst);
    r.wait(me);
}

/// Where a thread is stopped, once.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    Never,
    /// before its n-th allocation, re-allocation or release of memory
    Alloc(u64),
    /// before its n-th machine instruction
    Instr(u64),
    /// before the second-th machine instruction after the first-th allocation
    After(u64, u64),
}
fn arm(s: Stop) {
    SEEN.set(0);
    THEN.set(Some(hand_over));
    match s {
        Stop::Never => AT.set(0),
        Stop::Alloc(n) | Stop::Instr(n) => AT.set(n),
        Stop::After(n, i) => {
            AT.set(n);
            LATER.set(i);
            THEN.set(Some(step_on));
        }
    }
    if let Stop::Instr(_) = s {
        step();
    } else {
        ARMED.set(true);
    }
}
fn step() {
    STEPPING.set(true);
    catch_traps();
    // the trap flag: a SIGTRAP after every instruction
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
/// From here on count instructions.
fn step_on() {
    AT.set(LATER.get());
    SEEN.set(0);
    NO_ALLOC.set(true);
    step();
}
fn disarm() -> u64 {
    NO_ALLOC.set(false);
    ARMED.set(false);
    STEPPING.set(false);
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") };
    SEEN.get()
}
thread_local! {
    static LATER: Cell<u64> = const { Cell::new(0) };
    static NO_ALLOC: Cell<bool> = const { Cell::new(false) };
    static STEPPING: Cell<bool> = const { Cell::new(false) };
}
/// Offset of the saved flags in `ucontext_t` (x86-64, glibc): 40 + 8 * REG_EFL.
const EFL: usize = 40 + 8 * 17;
extern "C" fn on_trap(_: i32, _: *const u8, uc: *mut u8) {
    let efl = unsafe { uc.add(EFL) } as *mut u64;
    SEEN.set(SEEN.get() + 1);
    if !STEPPING.get() {
        unsafe { *efl &= !0x100 };
    } else if SEEN.get() == AT.get() {
        STEPPING.set(false);
        unsafe { *efl &= !0x100 };
        let e = unsafe { *__errno_location() };
        hand_over();
        unsafe { *__errno_location() = e };
    }
}
fn catch_traps() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        const SIGTRAP: i32 = 5;
        const SA_SIGINFO: i32 = 4;
        let a = SigAction { handler: on_trap as extern "C" fn(i32, *const u8, *mut u8) as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        assert_eq!(unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) }, 0);
    });
}
/// `a` here and `b` in another thread. `a` starts; where `stop.0` says it stops,
/// until `b` has ended, or stopped where `stop.1` says, or has to wait for `a`.
/// Returns both results and the number of possible stops passed by each.
pub fn race<R: Send>(stop: (Stop, Stop), a: impl FnOnce() -> R, b: impl FnOnce() -> R + Send) -> (R, R, (u64, u64)) {
    let race = Race::default();
    let race = &race;
    let (mut x, mut y, mut n, mut m) = (None, None, 0, 0);
    fn side<R>(race: &Race, me: usize, stop: Stop, f: impl FnOnce() -> R) -> (std::thread::Result<R>, u64) {
        race.sides[me].fd.store(status(), SeqCst);
        RACE.set((race, me));
        race.wait(me);
        arm(stop);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let n = disarm();
        race.sides[me].done.store(true, SeqCst);
        race.turn.store(1 - me, SeqCst);
        (r, n)
    }
    race.sides[0].fd.store(status(), SeqCst);
    race.sides[1].fd.store(-1, SeqCst);
    beside(
        || {
            let (r, c) = side(race, 1, stop.1, b);
            m = c;
            match r {
                Ok(r) => y = Some(r),
                Err(e) => std::panic::resume_unwind(e),
            }
        },
        || {
            let (r, c) = side(race, 0, stop.0, a);
            n = c;
            match r {
                Ok(r) => x = Some(r),
                Err(e) => std::panic::resume_unwind(e),
            }
        },
    );
    (x.unwrap(), y.unwrap(), (n, m))
}

struct Job(Box<dyn FnOnce() + Send + 'static>);
/// Run `b` in another thread (this thread's companion) and `a` here; wait for both.
pub fn beside(b: impl FnOnce() + Send, a: impl FnOnce()) {
    use std::sync::mpsc::{channel, Receiver, Sender};
    thread_local! {
        static OTHER: (Sender<Job>, Receiver<bool>) = {
            let (job, jobs) = channel::<Job>();
            let (done, dones) = channel();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    while let Ok(j) = jobs.recv() {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j.0));
                        let _ = done.send(r.is_ok());
                    }
                })
                .unwrap();
            (job, dones)
        };
    }
    let b: Box<dyn FnOnce() + Send + '_> = Box::new(b);
    // `b` has ended when this function returns or unwinds
    let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
    OTHER.with(|(job, done)| {
        job.send(Job(b)).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
        let ok = done.recv().unwrap();
        match r {
            Err(e) => std::panic::resume_unwind(e),
            Ok(()) => assert!(ok, "the other thread panicked"),
        }
    });
}

/// Every plan with at most `k` changes of control among positions 1..=n.
pub fn plans(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for p in &last {
            let from = p.last().copied().unwrap_or(0) + 1;
            for x in from..=n {
                let mut q = p.clone();
                q.push(x);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
