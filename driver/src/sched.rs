//! A scheduler that decides, at every call of user code (comparison, clone
//! or drop of an element), which thread goes on.
use crate::rec::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Mode {
    /// real concurrency
    Free,
    /// real concurrency, the first operations starting together
    Race,
    /// go to a random thread with probability 1/k
    Random(usize),
    /// thread ids to run at successive points, then as they come
    Plan(Vec<usize>),
}

struct S {
    turn: usize,
    alive: Vec<bool>,
    pos: usize,
    mode: Mode,
    rng: Rng,
    free: bool,
}
static ON: AtomicBool = AtomicBool::new(false);
/// points passed, over all threads
pub static POINTS: AtomicUsize = AtomicUsize::new(0);
pub static SWITCHES: AtomicUsize = AtomicUsize::new(0);
static ST: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// threads still to come to the gate
static GATE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INOP: Cell<bool> = const { Cell::new(false) };
}

pub fn in_op(b: bool) {
    INOP.with(|c| c.set(b))
}
pub fn start(n: usize, mode: Mode, seed: u64) {
    let free = matches!(mode, Mode::Free | Mode::Race);
    GATE.store(if matches!(mode, Mode::Race) { n } else { 0 }, SeqCst);
    let mut rng = Rng::new(seed);
    let turn = if let Mode::Plan(_) = mode { 0 } else { rng.below(n) };
    *ST.lock().unwrap() = Some(S { turn, alive: vec![true; n], pos: 0, mode, rng, free });
    POINTS.store(0, Relaxed);
    ON.store(!free, SeqCst);
}
/// wait until all threads are here, then a little longer
pub fn gate(spin: u64) {
    if GATE.load(SeqCst) == 0 {
        return;
    }
    GATE.fetch_sub(1, SeqCst);
    let mut n = 0u32;
    while GATE.load(Relaxed) > 0 {
        n += 1;
        if n % 4096 == 0 {
            std::thread::yield_now()
        }
        std::hint::spin_loop()
    }
    for _ in 0..spin {
        std::hint::spin_loop()
    }
}
pub fn stop() {
    ON.store(false, SeqCst);
    *ST.lock().unwrap() = None;
}
fn wait(me: usize) {
    let mut g = ST.lock().unwrap();
    loop {
        let s = g.as_mut().unwrap();
        if s.free || s.turn == me {
            return;
        }
        let (g2, t) = CV.wait_timeout(g, Duration::from_millis(500)).unwrap();
        g = g2;
        if t.timed_out() {
            // the running thread is blocked on something else: let go
            g.as_mut().unwrap().free = true;
            ON.store(false, SeqCst);
            CV.notify_all();
        }
    }
}
pub fn enter(me: usize) {
    ME.with(|c| c.set(me));
    if ON.load(SeqCst) {
        wait(me)
    }
}
pub fn leave() {
    let me = ME.with(|c| c.replace(usize::MAX));
    if !ON.load(SeqCst) {
        return;
    }
    let mut g = ST.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.alive[me] = false;
    let n = s.alive.len();
    if let Some(t) = (1..n).map(|i| (me + i) % n).find(|&t| s.alive[t]) {
        s.turn = t
    }
    CV.notify_all();
}
/// called from user code
pub fn point() {
    if !ON.load(Relaxed) || !INOP.with(|c| c.get()) {
        return;
    }
    let me = ME.with(|c| c.get());
    if me == usize::MAX {
        return;
    }
    POINTS.fetch_add(1, Relaxed);
    let mut g = ST.lock().unwrap();
    let s = g.as_mut().unwrap();
    if s.free {
        return;
    }
    let n = s.alive.len();
    let next = match &s.mode {
        Mode::Free | Mode::Race => me,
        Mode::Random(k) => {
            if s.rng.chance(1, *k) {
                s.rng.below(n)
            } else {
                me
            }
        }
        Mode::Plan(p) => {
            let t = p.get(s.pos).copied().unwrap_or(me);
            s.pos += 1;
            t % n
        }
    };
    if next != me && s.alive[next] {
        s.turn = next;
        SWITCHES.fetch_add(1, Relaxed);
        CV.notify_all();
        drop(g);
        wait(me)
    }
}
