//! Event recording: one line per public call, with the observed change of
//! every live handle.
use crate::api::*;
use crate::elem;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const H: usize = 6;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
}

/// What the recorder needs to observe of a collection.
pub trait Coll {
    fn contents(&self) -> Vec<Ent>;
    fn length(&self) -> usize;
    fn ok(&self) -> bool;
}
impl Coll for dyn DMap {
    fn contents(&self) -> Vec<Ent> {
        DMap::contents(self)
    }
    fn length(&self) -> usize {
        DMap::len(self)
    }
    fn ok(&self) -> bool {
        DMap::check(self)
    }
}
impl Coll for dyn DSet {
    fn contents(&self) -> Vec<Ent> {
        DSet::contents(self)
    }
    fn length(&self) -> usize {
        DSet::len(self)
    }
    fn ok(&self) -> bool {
        DSet::check(self)
    }
}

pub struct Out {
    w: Box<dyn std::io::Write + Send>,
    pub events: usize,
    pub bytes: usize,
    pub flush: bool,
}
impl Out {
    pub fn new(path: &str) -> Out {
        Out {
            w: Box::new(std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).expect("driver: create trace"))),
            events: 0,
            bytes: 0,
            flush: std::env::var("VERIF_FLUSH").is_ok(),
        }
    }
    /// keeps the lines in `b`
    pub fn memory(b: std::sync::Arc<std::sync::Mutex<Vec<u8>>>) -> Out {
        struct W(std::sync::Arc<std::sync::Mutex<Vec<u8>>>);
        impl std::io::Write for W {
            fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
                self.0.lock().unwrap().extend_from_slice(d);
                Ok(d.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        Out { w: Box::new(W(b)), events: 0, bytes: 0, flush: false }
    }
    pub fn line(&mut self, s: &str) {
        self.w.write_all(s.as_bytes()).expect("driver: write");
        self.w.write_all(b"\n").expect("driver: write");
        self.events += 1;
        self.bytes += s.len() + 1;
        if self.flush {
            self.w.flush().unwrap()
        }
    }
    pub fn flush(&mut self) {
        self.w.flush().expect("driver: flush")
    }
}

pub fn jents(l: &[Ent]) -> String {
    let mut s = String::from("[");
    for (i, e) in l.iter().enumerate() {
        let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, e.0, e.1);
    }
    s.push(']');
    s
}
pub fn jl(l: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, e) in l.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, e);
    }
    s.push(']');
    s
}
pub fn jo(o: Option<i64>) -> String {
    match o {
        Some(v) => format!("[{v}]"),
        None => "[]".into(),
    }
}
pub fn joe(o: Option<Ent>) -> String {
    match o {
        Some((k, v)) => format!("[{k},{v}]"),
        None => "[]".into(),
    }
}
pub fn jov(o: &Option<Vec<i64>>) -> String {
    match o {
        Some(v) => jl(v),
        None => "[]".into(),
    }
}
pub fn clamp(n: usize) -> i64 {
    n.min(i32::MAX as usize) as i64
}

pub struct Run<'o, C: Coll + ?Sized> {
    pub out: &'o mut Out,
    pub h: Vec<Option<Box<C>>>,
    pub last: Vec<Vec<Ent>>,
    pub curs: Vec<Option<Box<dyn Session>>>,
    /// set after an unexpected panic: the rest of the episode is skipped
    pub dead: bool,
    pub maxlen: usize,
    pub ev0: usize,
    /// a panic to inject into the next operation
    pub inj: Option<Inj>,
    /// did the last operation end in the injected panic?
    pub fired: bool,
    pub injected: usize,
    /// counters of the last operation
    pub lastc: (u64, u64, u64),
}

/// Panic at the n-th call of user code of a kind; `hs` are the handles the
/// operation works on, `add` the entries it may add and `dl` the amounts by
/// which it may change values.
#[derive(Clone)]
pub struct Inj {
    pub hs: Vec<i64>,
    pub add: Vec<Ent>,
    pub dl: Vec<i64>,
    pub kind: u8,
    pub n: i64,
}

impl<'o, C: Coll + ?Sized> Run<'o, C> {
    pub fn new(out: &'o mut Out, ty: &str, kind: &str, fam: Fam, n: usize) -> Self {
        elem::reset();
        Self::start(out, ty, kind, fam, n)
    }
    /// an episode that shares the ledger with others
    pub fn start(out: &'o mut Out, ty: &str, kind: &str, fam: Fam, n: usize) -> Self {
        let f = match fam {
            Fam::Avl => "avl",
            Fam::BTree => "bt",
            Fam::Fixed => "fx",
        };
        out.line(&format!(r#"{{"o":"reset","ty":"{ty}","kd":"{kind}","fm":"{f}","N":{n}}}"#));
        let ev0 = out.events;
        Run {
            out,
            h: (0..=H).map(|_| None).collect(),
            last: vec![vec![]; H + 1],
            curs: (0..=3).map(|_| None).collect(),
            dead: false,
            maxlen: 0,
            ev0,
            inj: None,
            fired: false,
            injected: 0,
            lastc: (0, 0, 0),
        }
    }
    pub fn events(&self) -> usize {
        self.out.events - self.ev0
    }
    pub fn free(&self) -> Option<usize> {
        (1..=H).find(|&i| self.h[i].is_none())
    }
    pub fn lives(&self) -> Vec<usize> {
        (1..=H).filter(|&i| self.h[i].is_some()).collect()
    }

    /// Run one operation and log it.  `may` says whether a panic is an
    /// outcome the model knows about.  Returns true if the op panicked.
    pub fn op(&mut self, o: &str, head: &str, may: bool, f: impl FnOnce(&mut Self) -> String) -> bool {
        if self.dead {
            return false;
        }
        let inj = self.inj.take();
        elem::set_counters((0, 0, 0));
        if let Some(j) = &inj {
            elem::arm(j.kind, j.n)
        }
        crate::sched::in_op(true);
        let res = catch_unwind(AssertUnwindSafe(|| f(self)));
        crate::sched::in_op(false);
        let c = elem::counters();
        self.lastc = c;
        self.fired = elem::disarm() && res.is_err();
        if self.fired {
            self.injected += 1;
            let j = inj.unwrap();
            let head = format!(
                r#""op":"{o}","hs":{},"add":{},"dl":{},"kc":{},"#,
                jl(&j.hs),
                jents(&j.add),
                jl(&j.dl),
                j.kind
            );
            let open = if j.kind == elem::K_CLONE_K || j.kind == elem::K_CLONE_V { &j.hs[..] } else { &[] };
            self.record("panic", &head, "[]", 1, c, open);
            return true;
        }
        let (r, p) = match res {
            Ok(r) => (r, 0),
            Err(_) => (String::from("[]"), 1),
        };
        self.record(o, head, &r, p, c, &[]);
        if p == 1 && !may {
            self.abandon();
        }
        p == 1
    }

    pub fn abandon(&mut self) {
        self.dead = true;
        // destructors of broken collections are not run
        for x in self.h.iter_mut() {
            std::mem::forget(x.take());
        }
        for x in self.curs.iter_mut() {
            std::mem::forget(x.take());
        }
    }

    pub fn record(&mut self, o: &str, head: &str, r: &str, p: i64, c: (u64, u64, u64), open: &[i64]) {
        let live = elem::live();
        let mut d = String::from("[");
        let mut n = vec![-1i64; H];
        let mut bad = 0;
        let mut obs_panic = false;
        for i in 1..=H {
            let Some(b) = &self.h[i] else {
                self.last[i].clear();
                continue;
            };
            let res = catch_unwind(AssertUnwindSafe(|| (b.contents(), b.length(), b.ok())));
            let Ok((now, len, ok)) = res else {
                // after a panicking element clone, reading the operated
                // handle may panic; it is dropped then
                if open.contains(&(i as i64)) {
                    let x = self.h[i].take();
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(x)));
                    self.last[i].clear();
                } else {
                    obs_panic = true;
                }
                continue;
            };
            n[i - 1] = clamp(len);
            self.maxlen = self.maxlen.max(now.len());
            bad += !ok as i64;
            if now != self.last[i] {
                let old = &self.last[i];
                let pre = now.iter().zip(old).take_while(|(a, b)| a == b).count();
                let suf = now[pre..].iter().rev().zip(old[pre..].iter().rev()).take_while(|(a, b)| a == b).count();
                let _ = write!(
                    d,
                    "{}[{},{},{},{}]",
                    if d.len() > 1 { "," } else { "" },
                    i,
                    pre,
                    old.len() - suf - pre,
                    jents(&now[pre..now.len() - suf])
                );
                self.last[i] = now;
            }
        }
        d.push(']');
        let p = if obs_panic { 2 } else { p };
        let line = format!(
            r#"{{"o":"{o}",{head}"r":{r},"d":{d},"n":{},"c":[{},{},{}],"v":[{},{}],"bad":{bad},"f":{},"p":{p}}}"#,
            jl(&n),
            c.0,
            c.1,
            c.2,
            live.0,
            live.1,
            elem::faults().min(1000)
        );
        self.out.line(&line);
        if obs_panic {
            self.abandon();
        }
    }

    /// Drop everything that is left, in index order, and log the end.
    pub fn finish(mut self) -> usize {
        self.drop_all();
        self.op("end", "", false, |_| "[]".into());
        self.maxlen
    }
    pub fn drop_all(&mut self) {
        for i in 1..self.curs.len() {
            if self.curs[i].is_some() {
                self.op("cdrop", &format!(r#""c1":{i},"#), false, |s| {
                    s.curs[i] = None;
                    "[]".into()
                });
            }
        }
        for i in 1..=H {
            if self.h[i].is_some() {
                self.op("drop", &format!(r#""h":{i},"#), false, |s| {
                    s.h[i] = None;
                    "[]".into()
                });
            }
        }
    }

    /// Run a schedule on a session; returns JSON `[[len,lo,hi],[[code,item,len,lo,hi],...]]`.
    pub fn session(s: &mut dyn Session, sched: &[i64]) -> String {
        let st = |s: &dyn Session| {
            let (lo, hi) = s.hint();
            format!("{},{},{}", s.len().map_or(-1, clamp), clamp(lo), hi.map_or(-1, clamp))
        };
        let mut r = format!("[[{}],[", st(s));
        for (i, &c) in sched.iter().enumerate() {
            let it = step(s, c);
            let _ = write!(r, "{}[{},{},{}]", if i > 0 { "," } else { "" }, c, jov(&it), st(s));
        }
        r.push_str("]]");
        r
    }
}

/// codes: 0 next, 1 next_back, 10+j nth(j), 20+j nth_back(j), 40+j find the
/// j-th, 50+j rfind the j-th; the whole rest: 30 count, 31 last, 32 for_each,
/// 33 rfold, 34 collect
pub fn step(s: &mut dyn Session, c: i64) -> Option<Vec<i64>> {
    match c {
        0 => s.next(),
        1 => s.back(),
        10..=19 => s.nth(c as usize - 10),
        20..=29 => s.nth_back(c as usize - 20),
        30 => Some(vec![s.count()]),
        31 => s.last(),
        32 => Some(s.fold()),
        33 => Some(s.rfold()),
        34 => Some(s.collect()),
        40..=49 => s.find(c as usize - 40),
        _ => s.rfind(c as usize - 50),
    }
}

/// A schedule of about `n` steps; only front codes if not double ended.
pub fn sched(rng: &mut Rng, n: usize, de: bool, over: usize) -> Vec<i64> {
    let mode = rng.below(6);
    let total = match rng.below(5) {
        0 => rng.below(n + 1),
        _ => n + over,
    };
    let mut l: Vec<i64> = (0..total)
        .map(|i| {
            let c = match mode {
                0 => 0,
                1 => 1,
                2 => (i % 2) as i64,
                3 => (i >= n / 2) as i64,
                4 if rng.chance(1, 6) => *rng.pick(&[10, 11, 12, 20, 21, 22, 13, 23, 40, 41, 43, 50, 51, 52]),
                _ => rng.below(2) as i64,
            };
            if de {
                c
            } else if c >= 50 || (20..30).contains(&c) {
                c - 10
            } else if c == 1 {
                0
            } else {
                c
            }
        })
        .collect();
    // often hand the rest over in one go
    if rng.chance(1, 3) {
        let k = if rng.chance(1, 3) { 0 } else { rng.below(l.len().min(n) + 1) };
        l.truncate(k);
        l.push(*rng.pick(if de { &[30, 31, 32, 33, 34] } else { &[30, 31, 32, 34, 32] }));
        if rng.chance(1, 3) {
            l.push(*rng.pick(if de { &[0, 1] } else { &[0, 0] }))
        }
    }
    l
}
