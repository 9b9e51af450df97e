//! Instrumented element types and the instance ledger.
//!
//! Every key and value instance carries a unique id.  The ledger records
//! which ids are live; a drop of a non-live id, or any access (comparison,
//! clone, read, hash, print) of a non-live id is a *fault*.  Comparisons and
//! clones are counted, and a panic can be injected at the n-th call of one
//! kind of user code.
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering as O;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

pub const MAX_IDS: usize = 1 << 24;
static STATE: [AtomicU8; MAX_IDS] = [const { AtomicU8::new(0) }; MAX_IDS];
static NEXT: AtomicU32 = AtomicU32::new(1);
thread_local! {
    static CMP: Cell<u64> = const { Cell::new(0) };
    static CLK: Cell<u64> = const { Cell::new(0) };
    static CLV: Cell<u64> = const { Cell::new(0) };
}
fn count(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1))
}
pub static LIVEK: AtomicI64 = AtomicI64::new(0);
pub static LIVEV: AtomicI64 = AtomicI64::new(0);
pub static FAULTS: AtomicU64 = AtomicU64::new(0);
pub static FAULT_KIND: AtomicU64 = AtomicU64::new(0);
static ARM_KIND: AtomicU8 = AtomicU8::new(0);
static ARM_LEFT: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicU8 = AtomicU8::new(0);

pub const K_CMP: u8 = 1;
pub const K_CLONE_K: u8 = 2;
pub const K_CLONE_V: u8 = 3;
pub const K_CLOSURE: u8 = 4;

pub struct Injected;

/// Panic with a marker at the `n`-th (1-based) call of user code of `kind`.
pub fn arm(kind: u8, n: i64) {
    FIRED.store(0, Relaxed);
    ARM_LEFT.store(n, Relaxed);
    ARM_KIND.store(kind, Relaxed);
}
/// Disarm; returns whether the injected panic fired.
pub fn disarm() -> bool {
    ARM_KIND.store(0, Relaxed);
    FIRED.load(Relaxed) != 0
}
pub fn tick(kind: u8) {
    if ARM_KIND.load(Relaxed) == kind && !std::thread::panicking() {
        if ARM_LEFT.fetch_sub(1, Relaxed) == 1 {
            ARM_KIND.store(0, Relaxed);
            FIRED.store(1, Relaxed);
            std::panic::panic_any(Injected);
        }
    }
}

fn fault(kind: u64) {
    FAULTS.fetch_add(1, Relaxed);
    FAULT_KIND.fetch_or(1 << kind, Relaxed);
}
fn fresh() -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    assert!((id as usize) < MAX_IDS, "driver: out of instance ids");
    STATE[id as usize].store(1, Relaxed);
    id
}
fn retire(id: u32) -> bool {
    if id as usize >= MAX_IDS || id == 0 {
        fault(1);
        return false;
    }
    // swap so that two racing drops of one instance are both seen
    if STATE[id as usize].swap(2, Relaxed) == 1 {
        true
    } else {
        fault(2);
        false
    }
}
fn touch(id: u32) {
    if id as usize >= MAX_IDS || STATE[id as usize].load(Relaxed) != 1 {
        fault(3);
    }
}

/// Start of an episode: forget old ids (instances leaked earlier were
/// reported when they leaked).
pub fn reset() {
    let n = NEXT.swap(1, Relaxed) as usize;
    for s in &STATE[..n.min(MAX_IDS)] {
        s.store(0, Relaxed);
    }
    set_counters((0, 0, 0));
    for c in [&FAULTS, &FAULT_KIND] {
        c.store(0, Relaxed);
    }
    LIVEK.store(0, Relaxed);
    LIVEV.store(0, Relaxed);
    disarm();
}
pub fn counters() -> (u64, u64, u64) {
    (CMP.get(), CLK.get(), CLV.get())
}
pub fn set_counters(c: (u64, u64, u64)) {
    CMP.set(c.0);
    CLK.set(c.1);
    CLV.set(c.2);
}
pub fn live() -> (i64, i64) {
    (LIVEK.load(Relaxed), LIVEV.load(Relaxed))
}
pub fn faults() -> u64 {
    FAULTS.load(Relaxed)
}

/// The part of a key that orders it.  Probes are `Core`s with id 0.
#[derive(Clone, Copy)]
pub struct Core {
    pub ord: u16,
    pub tag: u16,
    pub id: u32,
}
impl Core {
    pub fn probe(ord: u32) -> Core {
        Core { ord: ord as u16, tag: 99, id: 0 }
    }
    fn seen(&self) {
        if self.id != 0 {
            touch(self.id)
        }
    }
    pub fn kk(&self) -> i64 {
        self.ord as i64 * 100 + self.tag as i64
    }
}
impl PartialEq for Core {
    fn eq(&self, o: &Core) -> bool {
        self.cmp(o) == O::Equal
    }
}
impl Eq for Core {}
impl PartialOrd for Core {
    fn partial_cmp(&self, o: &Core) -> Option<O> {
        Some(self.cmp(o))
    }
}
impl Ord for Core {
    fn cmp(&self, o: &Core) -> O {
        count(&CMP);
        tick(K_CMP);
        crate::sched::point();
        self.seen();
        o.seen();
        self.ord.cmp(&o.ord)
    }
}
impl std::hash::Hash for Core {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.seen();
        self.ord.hash(h)
    }
}

/// A key: ordered by `ord` only, told apart by `tag`.  `P` words of padding
/// make it larger (the fixed B-tree searches differently above 8 bytes).
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Key<const P: usize>(Core, [u8; P]);

pub fn key<const P: usize>(kk: i64) -> Key<P> {
    LIVEK.fetch_add(1, Relaxed);
    Key(
        Core { ord: (kk / 100) as u16, tag: (kk % 100) as u16, id: fresh() },
        [0; P],
    )
}
impl<const P: usize> Key<P> {
    pub fn kk(&self) -> i64 {
        self.0.seen();
        self.0.kk()
    }
}
impl<const P: usize> Clone for Key<P> {
    fn clone(&self) -> Self {
        tick(K_CLONE_K);
        count(&CLK);
        crate::sched::point();
        self.0.seen();
        LIVEK.fetch_add(1, Relaxed);
        Key(Core { id: fresh(), ..self.0 }, self.1)
    }
}
impl<const P: usize> Drop for Key<P> {
    fn drop(&mut self) {
        crate::sched::point();
        if retire(self.0.id) {
            LIVEK.fetch_sub(1, Relaxed);
        }
    }
}
impl<const P: usize> Borrow<Core> for Key<P> {
    fn borrow(&self) -> &Core {
        &self.0
    }
}
impl<const P: usize> std::fmt::Debug for Key<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.seen();
        write!(f, "{}", self.0.kk())
    }
}
impl<const P: usize> std::hash::Hash for Key<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

/// A value.
pub struct Val {
    v: i32,
    id: u32,
}
pub fn val(v: i64) -> Val {
    LIVEV.fetch_add(1, Relaxed);
    Val { v: v as i32, id: fresh() }
}
impl Val {
    pub fn v(&self) -> i64 {
        touch(self.id);
        self.v as i64
    }
    pub fn add(&mut self, d: i64) {
        touch(self.id);
        self.v += d as i32;
    }
}
impl Default for Val {
    fn default() -> Self {
        val(0)
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        tick(K_CLONE_V);
        count(&CLV);
        crate::sched::point();
        val(self.v())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        crate::sched::point();
        if retire(self.id) {
            LIVEV.fetch_sub(1, Relaxed);
        }
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.v() == o.v()
    }
}
impl Eq for Val {}
impl PartialOrd for Val {
    fn partial_cmp(&self, o: &Val) -> Option<O> {
        Some(self.cmp(o))
    }
}
impl Ord for Val {
    fn cmp(&self, o: &Val) -> O {
        self.v().cmp(&o.v())
    }
}
impl std::hash::Hash for Val {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v().hash(h)
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.v())
    }
}
