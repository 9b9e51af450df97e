//! C14: a panic at every call of user code made by an operation.
//!
//! For one operation in one state and one kind of user code (comparison,
//! closure, key clone, value clone) the operation is repeated with a panic at
//! the 1st, 2nd, ... call until it gets through.
use crate::api::*;
use crate::elem::*;
use crate::maprun::{self as mm, Gen, MR};
use crate::rec::*;
use crate::setrun::{self as ss, SR};

struct Trial<C: Coll + ?Sized> {
    add: Vec<Ent>,
    dl: Vec<i64>,
    second: bool,
    run: Box<dyn Fn(&mut Run<C>)>,
}
fn tr<C: Coll + ?Sized>(add: Vec<Ent>, dl: &[i64], second: bool, run: impl Fn(&mut Run<C>) + 'static) -> Trial<C> {
    Trial { add, dl: dl.to_vec(), second, run: Box::new(run) }
}

/// handles: 1, 2 the states; 3, 4 the operands of the trial; 5 its result
struct Fns<C: Coll + ?Sized> {
    clone: fn(&mut Run<C>, usize, usize),
    drop: fn(&mut Run<C>, usize),
    build: fn(&mut Run<C>, usize, &str, &[Ent]),
    after: fn(&mut Run<C>, &mut Gen, usize, i64),
}

fn run_trial<C: Coll + ?Sized>(s: &mut Run<C>, g: &mut Gen, kind: &str, f: &Fns<C>, t: &Trial<C>, u: i64) {
    let mode = g.rng.below(3);
    for k in [K_CMP, K_CLOSURE, K_CLONE_K, K_CLONE_V] {
        let mut n = 1;
        loop {
            if s.dead {
                return;
            }
            let set = |s: &mut Run<C>, from: usize, to: usize| {
                if mode == 1 {
                    let l = s.last[from].clone();
                    (f.build)(s, to, kind, &l)
                } else {
                    (f.clone)(s, from, to)
                }
            };
            set(s, 1, 3);
            if t.second {
                // mode 2: the second operand shares with the first
                set(s, if mode == 2 || s.h[2].is_none() { 1 } else { 2 }, 4);
                if mode == 2 {
                    (f.after)(s, g, 4, u)
                }
            }
            if s.dead {
                return;
            }
            s.inj = Some(Inj { hs: if t.second { vec![3, 4] } else { vec![3] }, add: t.add.clone(), dl: t.dl.clone(), kind: k, n });
            (t.run)(s);
            s.inj = None;
            let fired = s.fired;
            if fired && (k == K_CMP || k == K_CLOSURE) {
                for h in [3, 4] {
                    if s.h[h].is_some() {
                        (f.after)(s, g, h, u)
                    }
                }
            }
            for h in [3, 4, 5] {
                if !s.dead && s.h[h].is_some() {
                    (f.drop)(s, h)
                }
            }
            if !fired {
                break;
            }
            n += if n < 16 { 1 } else { 1 + g.rng.below(n as usize / 4) as i64 };
        }
    }
}

fn map_trial(s: &MR, g: &mut Gen, kind: &str, u: i64) -> Option<Trial<dyn DMap>> {
    let (fam, _) = mm::kind_n(kind);
    let (fixed, avl) = (fam == Fam::Fixed, fam == Fam::Avl);
    let last = s.last[1].clone();
    let o = g.near(&last, u);
    let kk = g.near(&last, u).max(1) * 100 + g.rng.below(4) as i64;
    let v = g.val();
    let z = &[0];
    Some(match g.rng.below(24) {
        0 | 1 => tr(vec![(kk, v)], z, false, move |s| mm::op_insert(s, 3, kk, v)),
        2 | 3 => tr(vec![], z, false, move |s| mm::op_remove(s, 3, o)),
        4 if avl => tr(vec![], z, false, move |s| mm::op_remove_entry(s, 3, o)),
        5 if !fixed => {
            let b = g.rng.chance(1, 2);
            tr(vec![], z, false, move |s| mm::op_pop(s, 3, b))
        }
        6 => tr(vec![], &[0, 50], false, move |s| mm::op_get_mut(s, 3, o, 50)),
        7 => tr(vec![], z, false, move |s| mm::op_probe(s, 3, &[o, o + 1])),
        8 | 9 if !fixed => tr(vec![], z, true, move |s| mm::op_append(s, 3, 4)),
        10 => {
            let k = 1 + g.rng.below(6);
            let l = g.ents(k, u);
            let refs = avl && g.rng.chance(1, 3);
            tr(l.clone(), z, false, move |s| mm::op_extend(s, 3, &l, refs))
        }
        11 => {
            let k = 1 + g.rng.below(8);
            let l = g.ents(k, u);
            let kind = kind.to_string();
            tr(l.clone(), z, false, move |s| mm::op_from(s, 5, &kind, &l, false))
        }
        12 | 13 if !fixed => tr(vec![], z, false, move |s| mm::op_split_off(s, 3, o, 5)),
        14 | 15 if !fixed => {
            let md = 1 + g.rng.below(4) as i64;
            let (a, t, d) = (g.rng.below(3) as i64, g.rng.below(md as usize + 1) as i64, *g.rng.pick(&[0, 3]));
            tr(vec![], &[0, d], false, move |s| mm::op_retain(s, 3, a, md, t, d))
        }
        16 | 17 if avl => {
            let w = g.rng.below(4) as u8;
            tr(vec![], z, true, move |s| mm::op_merge(s, 3, 4, w))
        }
        18 if !fixed => {
            let (lo, hi) = g.bounds(&last, u);
            let mt = g.rng.chance(2, 3).then_some(50);
            let sc = sched(&mut g.rng, 5, true, 1);
            tr(vec![], &[0, 50], false, move |s| mm::op_range(s, 3, lo, hi, mt, &sc))
        }
        19 => {
            let w = if fixed { "itermut" } else { *g.rng.pick(&mm::MUT_ITERS) };
            let sc = sched(&mut g.rng, last.len(), true, 1);
            tr(vec![], &[0, 50], false, move |s| mm::op_iter_mut(s, 3, w, 50, &sc))
        }
        20 => {
            let w = if fixed { "intoiter" } else { *g.rng.pick(&mm::INTO_ITERS) };
            let sc = sched(&mut g.rng, last.len(), true, 1);
            tr(vec![], z, false, move |s| mm::op_into(s, 3, w, &sc))
        }
        21 if avl => {
            let mt = g.rng.chance(2, 3).then_some(50);
            tr(vec![], &[0, 50], false, move |s| mm::op_foreach(s, 3, mt))
        }
        22 if !fixed => {
            let (a, b) = g.estep();
            let mut add = vec![];
            for x in [v, 0, kk] {
                add.push((kk, x));
                add.push((kk, x + 1000));
            }
            for e in [a, b] {
                if let EStep::OrInsert(x) | EStep::OrWith(x) = e {
                    add.push((kk, x));
                    add.push((kk, x + 1000));
                }
            }
            tr(add, &[0, 7, 11, 18, 1000, 1007], false, move |s| mm::op_entry(s, 3, kk, a, b))
        }
        23 if avl => {
            // everything in 4 moved behind everything in 3
            tr(vec![(kk, v)], z, true, move |s| {
                let (inj, x) = (s.inj.take(), s.last[3].last().map_or(0, |e| e.0 / 100));
                let n = s.last[4].len() as i64;
                mm::op_retain(s, 4, 1, 1 << 20, 0, 0);
                let l: Vec<Ent> = (2..2 + n).map(|i| ((x + i) * 100, i)).collect();
                mm::op_extend(s, 4, &l, false);
                s.inj = inj.map(|i| Inj { add: vec![((x + 1) * 100, v)], ..i });
                mm::op_join(s, 3, (x + 1) * 100, v, 4)
            })
        }
        _ => return None,
    })
}
fn map_after(s: &mut MR, g: &mut Gen, h: usize, u: i64) {
    let last = s.last[h].clone();
    let fixed = mm::m(s, h).fam() == Fam::Fixed;
    let ops: Vec<_> = (0..6)
        .map(|_| match g.rng.below(if fixed { 6 } else { 8 }) {
            0..=2 => (0, g.near(&last, u).max(1) * 100, g.val()),
            3 | 4 => (1, g.near(&last, u), 0),
            5 => (2, g.near(&last, u), 0),
            6 => (3, 0, 0),
            _ => (4, 0, 0),
        })
        .collect();
    mm::op_seq(s, h, &ops);
    if !s.dead && g.rng.chance(1, 4) {
        let sc = sched(&mut g.rng, s.last[h].len(), true, 1);
        mm::op_iter(s, h, "iter", &sc)
    }
}

fn set_trial(s: &SR, g: &mut Gen, kind: &str, u: i64) -> Option<Trial<dyn DSet>> {
    let last = s.last[1].clone();
    let o = g.near(&last, u);
    let kk = g.near(&last, u).max(1) * 100 + g.rng.below(4) as i64;
    let z = &[0];
    Some(match g.rng.below(18) {
        0 => tr(vec![(kk, 0)], z, false, move |s| ss::op_insert(s, 3, kk)),
        1 => tr(vec![(kk, 0)], z, false, move |s| ss::op_replace(s, 3, kk)),
        2 => tr(vec![], z, false, move |s| ss::op_remove(s, 3, o)),
        3 => tr(vec![], z, false, move |s| ss::op_take(s, 3, o)),
        4 => {
            let b = g.rng.chance(1, 2);
            tr(vec![], z, false, move |s| ss::op_pop(s, 3, b))
        }
        5 => tr(vec![], z, false, move |s| ss::op_probe(s, 3, &[o, o + 1])),
        6 | 7 => tr(vec![], z, true, move |s| ss::op_append(s, 3, 4)),
        8 => {
            let k = 1 + g.rng.below(6);
            let l: Vec<i64> = g.ents(k, u).iter().map(|e| e.0).collect();
            let refs = g.rng.chance(1, 3);
            tr(l.iter().map(|&k| (k, 0)).collect(), z, false, move |s| ss::op_extend(s, 3, &l, refs))
        }
        9 => {
            let k = 1 + g.rng.below(8);
            let l: Vec<i64> = g.ents(k, u).iter().map(|e| e.0).collect();
            let kind = kind.to_string();
            tr(l.iter().map(|&k| (k, 0)).collect(), z, false, move |s| ss::op_from(s, 5, &kind, &l, false))
        }
        10 => tr(vec![], z, false, move |s| ss::op_split_off(s, 3, o, 5)),
        11 => {
            let md = 1 + g.rng.below(4) as i64;
            let (a, t) = (g.rng.below(3) as i64, g.rng.below(md as usize + 1) as i64);
            tr(vec![], z, false, move |s| ss::op_retain(s, 3, a, md, t))
        }
        12 | 13 => {
            let w = g.rng.below(4) as u8;
            tr(vec![], z, true, move |s| ss::op_merge(s, 3, 4, w))
        }
        14 => {
            let w = g.rng.below(4) as u8;
            tr(vec![], z, true, move |s| ss::op_oper(s, 3, 4, w, 5))
        }
        15 => {
            let w = g.rng.below(4) as u8;
            let sc = sched(&mut g.rng, 6, false, 1);
            tr(vec![], z, true, move |s| ss::op_lazy(s, 3, 4, w, &sc))
        }
        16 => tr(vec![], z, true, move |s| ss::op_relations(s, 3, 4)),
        _ => {
            let sc = sched(&mut g.rng, last.len(), true, 1);
            let sc: Vec<i64> = sc.iter().map(|&c| if kind == "avls" { 0 } else { c }).collect();
            tr(vec![], z, false, move |s| ss::op_into(s, 3, &sc))
        }
    })
}
fn set_after(s: &mut SR, g: &mut Gen, h: usize, u: i64) {
    let last = s.last[h].clone();
    let ops: Vec<_> = (0..6)
        .map(|_| match g.rng.below(8) {
            0..=2 => (0, g.near(&last, u).max(1) * 100),
            3 | 4 => (1, g.near(&last, u)),
            5 => (2, g.near(&last, u)),
            6 => (3, 0),
            _ => (4, 0),
        })
        .collect();
    ss::op_seq(s, h, &ops);
    if !s.dead && g.rng.chance(1, 4) {
        let sc = vec![0; s.last[h].len() + 1];
        ss::op_iter(s, h, false, &sc)
    }
}

fn set_fns() -> Fns<dyn DSet> {
    Fns {
        clone: ss::op_clone,
        drop: ss::op_drop,
        build: |s, n, k, l| ss::op_from(s, n, k, &l.iter().map(|e| e.0).collect::<Vec<_>>(), false),
        after: set_after,
    }
}
fn map_fns() -> Fns<dyn DMap> {
    Fns { clone: mm::op_clone, drop: mm::op_drop, build: |s, n, k, l| mm::op_from(s, n, k, l, false), after: map_after }
}
/// One trial in the present state of handle 1 (and 2), for scripts.
pub fn map_at(s: &mut MR, kind: &str, seed: u64, u: i64) {
    let mut g = Gen { rng: Rng::new(seed), v: 0 };
    if let Some(t) = map_trial(s, &mut g, kind, u) {
        run_trial(s, &mut g, kind, &map_fns(), &t, u)
    }
}
pub fn set_at(s: &mut SR, kind: &str, seed: u64, u: i64) {
    let mut g = Gen { rng: Rng::new(seed), v: 0 };
    if let Some(t) = set_trial(s, &mut g, kind, u) {
        run_trial(s, &mut g, kind, &set_fns(), &t, u)
    }
}

const KINDS: [&str; 11] = ["avl", "avls", "bt1", "bts1", "bt2", "bts2", "avl", "bt3", "fx", "bt5", "bts5"];

pub fn random(opt: &crate::profiles::Opt, out: &mut Out) -> (usize, usize, usize) {
    use crate::profiles::num;
    let seed = num(opt, "seed", 1);
    let shard = num(opt, "shard", 0);
    let shards = num(opt, "shards", 1);
    let budget = num(opt, "budget", 2000);
    let only = opt.get("kind").cloned().unwrap_or_default();
    let kinds: Vec<_> = KINDS.iter().copied().filter(|k| only.is_empty() || *k == only).collect();
    let (mut episodes, mut maxlen, mut injected) = (0, 0, 0);
    let mut i = shard;
    while out.events < budget {
        let mut g = Gen { rng: Rng::new((seed as u64) << 32 | i as u64 | 1 << 31), v: 0 };
        let kind = kinds[i % kinds.len()];
        let (u, init) = *g.rng.pick(&[(8, 5), (12, 8), (30, 16), (60, 30), (120, 60), (30, 2)]);
        let (fam, n) = mm::kind_n(kind);
        let trials = 6;
        if kind.contains('s') {
            let mut s = SR::new(out, "set", kind, fam, n);
            let s2 = &mut s;
            for h in [1, 2] {
                ss::op_new(s2, h, kind);
                let k = init / 2 + g.rng.below(init);
                let mut ops: Vec<_> = (0..k).map(|_| (0, g.kk(u))).collect();
                ops.extend((0..k / 3).map(|_| (1, g.ord(u))));
                for c in ops.chunks(60) {
                    ss::op_seq(s2, h, c)
                }
            }
            let f = set_fns();
            for _ in 0..trials {
                if s2.dead {
                    break;
                }
                if let Some(t) = set_trial(s2, &mut g, kind, u) {
                    run_trial(s2, &mut g, kind, &f, &t, u)
                }
            }
            injected += s.injected;
            maxlen = maxlen.max(s.finish());
        } else {
            let mut s = MR::new(out, "map", kind, fam, n);
            let s2 = &mut s;
            for h in [1, 2] {
                mm::op_new(s2, h, kind);
                let k = init / 2 + g.rng.below(init);
                mm::fill(s2, &mut g, h, k, u)
            }
            let f = map_fns();
            for _ in 0..trials {
                if s2.dead {
                    break;
                }
                if let Some(t) = map_trial(s2, &mut g, kind, u) {
                    run_trial(s2, &mut g, kind, &f, &t, u)
                }
            }
            injected += s.injected;
            maxlen = maxlen.max(s.finish());
        }
        episodes += 1;
        i += shards;
    }
    (episodes, maxlen, injected)
}
