//! C15: handles that share storage, used from several threads.
//!
//! Every thread logs its own history (an episode of the trace
//! specification); the threads are scheduled at the calls of user code, or
//! run freely.  This program compiles only if the collections may be sent and
//! shared between threads.
#![allow(dead_code)]
mod api;
mod elem;
mod maprun;
mod rec;
mod sched;
mod serde_io;
mod setrun;

use api::*;
use maprun::{self as mm, Gen, Prof, MR};
use rec::*;
use sched::Mode;
use setrun::{self as ss, SR};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

fn thread_safe<T: Send + Sync>() {}
/// every map and set, for the element types of the harness and for plain ones
fn all_thread_safe() {
    use lazy_clone_collections::{btree, AvlMap, AvlSet};
    thread_safe::<AvlMap<String, Vec<u8>>>();
    thread_safe::<AvlSet<String>>();
    thread_safe::<btree::BTreeMap<String, Vec<u8>>>();
    thread_safe::<btree::BTreeMap<String, Vec<u8>, 1>>();
    thread_safe::<btree::btree_set::BTreeSet<String, 2>>();
    thread_safe::<btree::fixed::BTreeMap<String, Vec<u8>>>();
}

/// Map programs that run in the threads; the first word of a plan picks one.
type MapOp = fn(&mut MR, usize, i64, i64, i64);
const MAP_OPS: [(&str, MapOp); 13] = [
    ("drop", |s, h, _, _, _| mm::op_drop(s, h)),
    ("insert", |s, h, a, _, v| mm::op_insert(s, h, a * 100, v)),
    ("remove", |s, h, a, _, _| mm::op_remove(s, h, a)),
    ("popf", |s, h, _, _, _| mm::op_pop(s, h, false)),
    ("getmut", |s, h, a, _, _| mm::op_get_mut(s, h, a, 1000)),
    ("splitoff", |s, h, a, _, _| mm::op_split_off(s, h, a, 5)),
    ("retain", |s, h, a, _, _| mm::op_retain(s, h, 1, 3, 1 + a % 2, 3)),
    ("itm", |s, h, a, _, _| {
        let sc: Vec<i64> = (0..s.last[h].len() as i64 + 1).map(|i| (i * a) % 2).collect();
        mm::op_iter_mut(s, h, "itermut", 1000, &sc)
    }),
    ("into", |s, h, a, b, _| {
        let n = s.last[h].len() as i64 + 1;
        let sc: Vec<i64> = (0..if b % 3 == 0 { n / 2 } else { n }).map(|i| (i * a) % 2).collect();
        mm::op_into(s, h, "intoiter", &sc)
    }),
    ("append", |s, h, a, b, v| {
        mm::op_clone(s, h, 4);
        mm::op_insert(s, 4, b * 100, v);
        mm::op_remove(s, 4, a);
        mm::op_append(s, h, 4)
    }),
    ("merge", |s, h, a, b, v| {
        mm::op_clone(s, h, 4);
        mm::op_insert(s, 4, b * 100, v);
        mm::op_remove(s, 4, a);
        mm::op_merge(s, h, 4, (v % 4) as u8)
    }),
    ("clear", |s, h, _, _, _| mm::op_clear(s, h)),
    ("clone", |s, h, a, _, v| {
        mm::op_clone(s, h, 4);
        mm::op_drop(s, h);
        mm::op_insert(s, 4, a * 100, v)
    }),
];
type SetOp = fn(&mut SR, usize, i64, i64, i64);
const SET_OPS: [(&str, SetOp); 10] = [
    ("drop", |s, h, _, _, _| ss::op_drop(s, h)),
    ("insert", |s, h, a, _, _| ss::op_insert(s, h, a * 100)),
    ("remove", |s, h, a, _, _| ss::op_remove(s, h, a)),
    ("take", |s, h, a, _, _| ss::op_take(s, h, a)),
    ("replace", |s, h, a, _, _| ss::op_replace(s, h, a * 100 + 1)),
    ("popl", |s, h, _, _, _| ss::op_pop(s, h, true)),
    ("splitoff", |s, h, a, _, _| ss::op_split_off(s, h, a, 5)),
    ("retain", |s, h, a, _, _| ss::op_retain(s, h, 1, 3, 1 + a % 2)),
    ("into", |s, h, _, b, _| {
        let n = s.last[h].len() as i64 + 1;
        let sc = vec![0; if b % 3 == 0 { n / 2 } else { n } as usize];
        ss::op_into(s, h, &sc)
    }),
    ("merge", |s, h, a, b, v| {
        ss::op_clone(s, h, 4);
        ss::op_insert(s, 4, b * 100);
        ss::op_remove(s, 4, a);
        ss::op_merge(s, h, 4, (v % 4) as u8)
    }),
];
const MAP_MIX: &[(&str, usize)] = &[
    ("clone", 8), ("drop", 4), ("insert", 8), ("remove", 8), ("pop", 4), ("clear", 1), ("getmut", 4), ("probe", 4), ("seq", 3), ("append", 3),
    ("extend", 2), ("splitoff", 4), ("retain", 3), ("merge", 6), ("it", 2), ("itm", 4), ("into", 4), ("cur", 8), ("rangem", 3), ("entry", 4), ("rel", 2), ("ser", 1),
];
const SET_MIX: &[(&str, usize)] = &[
    ("clone", 8), ("drop", 4), ("insert", 8), ("remove", 8), ("replace", 4), ("take", 4), ("pop", 4), ("clear", 1), ("probe", 4), ("seq", 3), ("append", 3),
    ("extend", 2), ("splitoff", 4), ("retain", 3), ("merge", 6), ("oper", 4), ("lazy", 2), ("relns", 2), ("it", 1), ("into", 4), ("cur", 8), ("rel", 2), ("ser", 1),
];

/// Programs of the specification (CowThreads.tla): name, and key or count.
fn spec_map(s: &mut MR, op: &str, k: i64) {
    match op {
        "getmut" => mm::op_get_mut(s, 1, 2 * k, 1000),
        "insert" => mm::op_insert(s, 1, 200 * k, 77),
        "get" if s.h[1].as_ref().unwrap().fam() == Fam::Avl => mm::op_index(s, 1, 2 * k),
        "get" => mm::op_probe(s, 1, &[2 * k]),
        "drop" => mm::op_drop(s, 1),
        "into" => mm::op_into(s, 1, "intoiter", &vec![0; k as usize]),
        _ => panic!("driver: {op}"),
    }
}
fn spec_set(_: &mut SR, op: &str, _: i64) {
    panic!("driver: {op}")
}

/// what a thread does with its handle
#[derive(Clone, Debug)]
enum Prog {
    /// a program of the specification: name, key or count, elements it clones
    Spec(String, i64, u64),
    /// one operation: index, two keys, a value
    One(usize, i64, i64, i64),
    /// random operations: seed, steps, keys
    Many(u64, usize, i64),
}

struct Tally {
    out: Out,
    episodes: usize,
    schedules: usize,
    maxlen: usize,
    points: usize,
    predicted: usize,
    agreed: usize,
    /// episodes seen in races (by hash): a schedule that shows nothing new is not written
    seen: HashSet<u64>,
}
/// an episode without the numbers of live elements, which the other threads affect
fn digest(b: &[u8]) -> u64 {
    let text = std::str::from_utf8(b).unwrap();
    let mut h = DefaultHasher::new();
    for l in text.lines() {
        let (a, z) = l.split_once(r#""v":["#).unwrap_or((l, ""));
        a.hash(&mut h);
        z.split_once(']').map_or("", |x| x.1).hash(&mut h);
    }
    h.finish()
}

macro_rules! threads_of {
    ($fname:ident, $ty:ty, $dynt:ty, $R:ident, $tyname:literal, $kind:literal, $mix:expr, $ops:expr, $mk:expr, $m:ident, $spec:expr) => {
        /// One run: every thread gets a clone of `base` (moved into it), or
        /// clones it there through a shared reference.
        fn $fname(t: &mut Tally, base: &[Ent], progs: &[Prog], mode: Mode, seed: u64) -> usize {
            elem::reset();
            let race = matches!(mode, Mode::Race);
            let n = progs.len();
            let (fam, nn) = mm::kind_n($kind);
            let mk: fn(&[Ent]) -> $ty = $mk;
            let root: $ty = mk(base);
            let bufs: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(Vec::new()))).collect();
            let res: Vec<(usize, u64)> = {
                let own: Vec<Option<$ty>> = (0..n).map(|i| (seed >> i & 1 == 0).then(|| root.clone())).collect();
                // which thread keeps using the base by reference
                let by_ref = own.iter().any(|o| o.is_none());
                let keep = by_ref.then_some(root);
                sched::start(n, mode, seed);
                let r = std::thread::scope(|sc| {
                    let hs: Vec<_> = own
                        .into_iter()
                        .enumerate()
                        .map(|(i, o)| {
                            let (buf, base, prog, keep) = (bufs[i].clone(), &base, progs[i].clone(), &keep);
                            sc.spawn(move || {
                                let mut out = Out::memory(buf);
                                let mut s = $R::start(&mut out, $tyname, $kind, fam, nn);
                                sched::enter(i);
                                s.op("from", &format!(r#""n1":1,"l":{},"#, jents(base)), false, |s| {
                                    let x: $ty = match o {
                                        Some(x) => x,
                                        None => keep.as_ref().unwrap().clone(),
                                    };
                                    s.h[1] = Some(Box::new(x) as Box<$dynt>);
                                    "[]".into()
                                });
                                sched::gate(seed >> (8 * i + 4) & 63);
                                let mut copies = 0;
                                match prog {
                                    Prog::Spec(op, k, _) => {
                                        $spec(&mut s, &op, k);
                                        copies = s.lastc.1 + s.lastc.2
                                    }
                                    Prog::One(k, a, b, v) => ($ops[k % $ops.len()].1)(&mut s, 1, a, b, v),
                                    Prog::Many(seed, steps, u) => {
                                        let mut g = Gen { rng: Rng::new(seed), v: 0 };
                                        let p = Prof { ops: $mix.to_vec(), steps, u, init: 0, maxlen: 60 };
                                        $m::steps(&mut s, &mut g, $kind, &p);
                                    }
                                }
                                s.drop_all();
                                sched::leave();
                                (s.maxlen, copies)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("driver: thread")).collect()
                });
                sched::stop();
                r
            };
            for (p, r) in progs.iter().zip(&res) {
                if let Prog::Spec(op, k, n) = p {
                    t.predicted += 1;
                    t.agreed += (*n == r.1) as usize;
                    if *n != r.1 && std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("{} {op}{k}: {n} predicted, {} found, {progs:?}", $kind, r.1)
                    }
                }
            }
            for b in &bufs {
                if race && !t.seen.insert(digest(&b.lock().unwrap())) {
                    continue;
                }
                for l in b.lock().unwrap().split(|&c| c == b'\n') {
                    if !l.is_empty() {
                        t.out.line(std::str::from_utf8(l).unwrap())
                    }
                }
                t.episodes += 1;
            }
            // all is released in the end
            if !race || elem::live() != (0, 0) || elem::faults() > 0 {
                $R::start(&mut t.out, $tyname, $kind, fam, nn).finish();
            }
            t.schedules += 1;
            t.maxlen = t.maxlen.max(res.into_iter().map(|r| r.0).max().unwrap_or(0));
            let p = sched::POINTS.load(std::sync::atomic::Ordering::Relaxed);
            t.points += p;
            p
        }
    };
}
fn fill_map<T: DMap + Default>(l: &[Ent]) -> T {
    let mut m = T::default();
    for e in l {
        m.insert(e.0, e.1);
    }
    m
}
fn fill_set<T: DSet + Default>(l: &[Ent]) -> T {
    let mut m = T::default();
    for e in l {
        m.insert(e.0);
    }
    m
}
threads_of!(run_avl, Avl, dyn DMap, MR, "map", "avl", MAP_MIX, MAP_OPS, fill_map::<Avl>, mm, spec_map);
threads_of!(run_bt1, Bt1, dyn DMap, MR, "map", "bt1", MAP_MIX, MAP_OPS, fill_map::<Bt1>, mm, spec_map);
threads_of!(run_bt2, Bt2, dyn DMap, MR, "map", "bt2", MAP_MIX, MAP_OPS, fill_map::<Bt2>, mm, spec_map);
threads_of!(run_bt5, Bt5, dyn DMap, MR, "map", "bt5", MAP_MIX, MAP_OPS, fill_map::<Bt5>, mm, spec_map);
threads_of!(run_avls, AvlS, dyn DSet, SR, "set", "avls", SET_MIX, SET_OPS, fill_set::<AvlS>, ss, spec_set);
threads_of!(run_bts1, BtS1, dyn DSet, SR, "set", "bts1", SET_MIX, SET_OPS, fill_set::<BtS1>, ss, spec_set);
threads_of!(run_bts2, BtS2, dyn DSet, SR, "set", "bts2", SET_MIX, SET_OPS, fill_set::<BtS2>, ss, spec_set);

type Runner = fn(&mut Tally, &[Ent], &[Prog], Mode, u64) -> usize;
const KINDS: [(&str, Runner); 7] = [
    ("avl", run_avl),
    ("bt1", run_bt1),
    ("avls", run_avls),
    ("bt2", run_bt2),
    ("bts1", run_bts1),
    ("bt5", run_bt5),
    ("bts2", run_bts2),
];
fn is_set(k: &str) -> bool {
    k.contains('s')
}
fn fits(kind: &str, op: usize) -> usize {
    // merges exist for AVL maps only
    if is_set(kind) {
        return op % SET_OPS.len();
    }
    let k = op % MAP_OPS.len();
    if MAP_OPS[k].0 == "merge" && kind != "avl" {
        1
    } else {
        k
    }
}

/// Two threads, one operation each: the first is interrupted at its i-th
/// point, for every i; the second then runs to its end or to its j-th point.
fn preempt(t: &mut Tally, g: &mut Rng, kind: (&str, Runner), base: &[Ent], budget: usize) {
    let u = base.len() as i64 * 2 + 2;
    let set = is_set(kind.0);
    let mut prog = |g: &mut Rng| {
        let v = 1 + g.below(900) as i64;
        Prog::One(fits(kind.0, g.below(MAP_OPS.len() * SET_OPS.len())), 1 + g.below(u as usize) as i64, 1 + g.below(u as usize) as i64, if set { v } else { v })
    };
    let (a, b) = (prog(g), prog(g));
    let own = g.below(4) as u64;
    let mut i = 0;
    let mut last = usize::MAX;
    while t.out.events < budget {
        // 0 for i points, then 1 for j points, then back to 0
        let mut plan = vec![0; i];
        plan.push(1);
        if g.chance(1, 2) {
            plan.extend(vec![1; g.below(last.min(30) + 1)]);
            plan.push(0)
        }
        let n = (kind.1)(t, base, &[a.clone(), b.clone()], Mode::Plan(plan), own);
        last = n;
        i += 1 + i / 24;
        if i > n {
            break;
        }
    }
}

fn main() {
    all_thread_safe();
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    for w in args[1..].chunks(2) {
        opt.insert(w[0].trim_start_matches('-').to_string(), w[1].clone());
    }
    let num = |k: &str, d: usize| opt.get(k).map_or(d, |v| v.parse().expect("driver: number"));
    if std::env::var("VERIF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|info| {
            if let Some(s) = info.payload().downcast_ref::<String>() {
                if s.starts_with("driver:") {
                    eprintln!("{info}");
                }
            }
        }));
    }
    let (seed, shard, shards, budget) = (num("seed", 1), num("shard", 0), num("shards", 1), num("budget", 2000));
    let mut t = Tally { out: Out::new(&opt["out"]), episodes: 0, schedules: 0, maxlen: 0, points: 0, predicted: 0, agreed: 0, seen: HashSet::new() };
    if let Some(f) = opt.get("plans") {
        plans(&mut t, f);
        finish(t);
        return;
    }
    for j in 0..num("races", 0) {
        let i = j * shards + shard;
        races(&mut t, &mut Rng::new((seed as u64) << 32 | i as u64 | 1 << 30), KINDS[i % KINDS.len()], num("rounds", 100));
    }
    t.seen.clear();
    let mut i = shard;
    while t.out.events < budget {
        let mut g = Rng::new((seed as u64) << 32 | i as u64 | 1 << 29);
        let kind = KINDS[i % KINDS.len()];
        let set = is_set(kind.0);
        let size = *g.pick(&[1, 2, 3, 4, 6, 7, 9, 12, 15, 20]);
        let mut base: Vec<Ent> = (1..=size as i64).map(|k| (k * 200, if set { 0 } else { k })).collect();
        if g.chance(1, 3) {
            base.reverse()
        }
        match g.below(4) {
            0 | 1 => preempt(&mut t, &mut g, kind, &base, budget),
            2 => {
                let n = 2 + g.below(3);
                let progs: Vec<_> = (0..n).map(|_| Prog::Many(g.next(), 10, size as i64 * 2 + 2)).collect();
                let k = 1 + g.below(6);
                (kind.1)(&mut t, &base, &progs, Mode::Random(k), g.next());
            }
            _ => {
                let progs: Vec<_> = (0..4).map(|_| Prog::Many(g.next(), 25, size as i64 * 2 + 2)).collect();
                (kind.1)(&mut t, &base, &progs, Mode::Free, g.next());
            }
        }
        i += shards;
    }
    finish(t)
}

fn finish(mut t: Tally) {
    t.out.flush();
    println!(
        r#"{{"events":{},"episodes":{},"schedules":{},"maxlen":{},"points":{},"predicted":{},"agreed":{},"bytes":{}}}"#,
        t.out.events, t.episodes, t.schedules, t.maxlen, t.points, t.predicted, t.agreed, t.out.bytes
    );
}

/// Schedules from the specification, `tree keep plan op:key:copies ...`: the
/// plan lists the threads to run after each point.
fn plans(t: &mut Tally, file: &str) {
    let text = std::fs::read_to_string(file).expect("driver: plans");
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let kinds: &[&str] = if w[0].starts_with('a') { &["avl"] } else { &["bt1"] };
        let n: i64 = w[0][1..].parse().expect("driver: size");
        let base: Vec<Ent> = (1..=n).map(|k| (k * 200, k)).collect();
        let progs: Vec<Prog> = w[3..]
            .iter()
            .map(|p| {
                let f: Vec<&str> = p.split(':').collect();
                Prog::Spec(f[0].into(), f[1].parse().expect("driver: key"), f[2].parse().expect("driver: copies"))
            })
            .collect();
        let plan: Vec<usize> = w[2].bytes().map(|c| (c - b'1') as usize).collect();
        for k in kinds {
            let kind = *KINDS.iter().find(|x| x.0 == *k).unwrap();
            (kind.1)(t, &base, &progs, Mode::Plan(plan.clone()), if w[1] == "1" { 255 } else { 0 });
        }
    }
}

/// The same few operations at the same time, again and again.
fn races(t: &mut Tally, g: &mut Rng, kind: (&str, Runner), rounds: usize) {
    let set = is_set(kind.0);
    let size = *g.pick(&[1, 2, 3, 4, 7, 12]);
    let base: Vec<Ent> = (1..=size as i64).map(|k| (k * 200, if set { 0 } else { k })).collect();
    let u = size * 2 + 2;
    let n = 2 + g.below(2);
    let progs: Vec<Prog> = (0..n)
        .map(|_| Prog::One(fits(kind.0, g.below(MAP_OPS.len() * SET_OPS.len())), 1 + g.below(u) as i64, 1 + g.below(u) as i64, 1 + g.below(900) as i64))
        .collect();
    let own = g.below(4) as u64;
    for _ in 0..rounds {
        (kind.1)(t, &base, &progs, Mode::Race, g.next() << 4 | own);
    }
}
