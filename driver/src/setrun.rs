//! Set operations with logging, and the seeded random set histories.
use crate::api::*;
use crate::elem::*;
use crate::maprun::{bd, choose, kind_n, numbers, op_cdrop, op_cstep, ser_json, BdSpec, Gen, Prof};
use crate::rec::*;
use std::fmt::Write as _;

pub type SR<'o> = Run<'o, dyn DSet>;

fn m<'a>(s: &'a mut SR, h: usize) -> &'a mut dyn DSet {
    s.h[h].as_mut().unwrap().as_mut()
}
pub fn op_new(s: &mut SR, n: usize, kind: &str) {
    s.op("new", &format!(r#""n1":{n},"#), false, |s| {
        s.h[n] = Some(new_set(kind));
        "[]".into()
    });
}
pub fn op_clone(s: &mut SR, h: usize, n: usize) {
    s.op("clone", &format!(r#""h":{h},"n1":{n},"#), false, |s| {
        s.h[n] = Some(s.h[h].as_ref().unwrap().dup());
        "[]".into()
    });
}
/// clone_from: g takes over the contents of h
pub fn op_assign(s: &mut SR, h: usize, g: usize) {
    s.op("assign", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let mut x = s.h[g].take().unwrap();
        x.assign(s.h[h].as_deref().unwrap());
        s.h[g] = Some(x);
        "[]".into()
    });
}
pub fn op_drop(s: &mut SR, h: usize) {
    s.op("drop", &format!(r#""h":{h},"#), false, |s| {
        s.h[h] = None;
        "[]".into()
    });
}
pub fn op_insert(s: &mut SR, h: usize, kk: i64) {
    s.op("sinsert", &format!(r#""h":{h},"k":{kk},"#), false, |s| jo(Some(m(s, h).insert(kk) as i64)));
}
pub fn op_replace(s: &mut SR, h: usize, kk: i64) {
    s.op("sreplace", &format!(r#""h":{h},"k":{kk},"#), false, |s| jo(m(s, h).replace(kk)));
}
pub fn op_remove(s: &mut SR, h: usize, ord: i64) {
    let c = Core::probe(ord as u32);
    s.op("sremove", &format!(r#""h":{h},"k":{ord},"#), false, |s| jo(Some(m(s, h).remove(&c) as i64)));
}
pub fn op_take(s: &mut SR, h: usize, ord: i64) {
    let c = Core::probe(ord as u32);
    s.op("stake", &format!(r#""h":{h},"k":{ord},"#), false, |s| jo(m(s, h).take(&c)));
}
pub fn op_pop(s: &mut SR, h: usize, last: bool) {
    let o = if last { "spopl" } else { "spopf" };
    s.op(o, &format!(r#""h":{h},"#), false, |s| jo(if last { m(s, h).pop_last() } else { m(s, h).pop_first() }));
}
pub fn op_clear(s: &mut SR, h: usize) {
    s.op("clear", &format!(r#""h":{h},"#), false, |s| {
        m(s, h).clear();
        "[]".into()
    });
}
/// [[ord, contains, get, comparisons of contains]...], first, last, is_empty
pub fn op_probe(s: &mut SR, h: usize, ords: &[i64]) {
    s.op("sprobe", &format!(r#""h":{h},"#), false, |s| {
        let mut r = String::from("[[");
        for (i, &o) in ords.iter().enumerate() {
            let c = Core::probe(o as u32);
            let c0 = counters().0;
            let g = m(s, h).contains(&c);
            let used = counters().0 - c0;
            let _ = write!(r, "{}[{o},{},{},{used}]", if i > 0 { "," } else { "" }, g as i64, jo(m(s, h).get(&c)));
        }
        let _ = write!(r, "],{},{},{}]", jo(m(s, h).first()), jo(m(s, h).last()), m(s, h).is_empty() as i64);
        r
    });
}
/// Several point operations: codes 0 insert, 1 remove, 2 contains, 3 pop_first, 4 pop_last, 5 replace, 6 take
pub fn op_seq(s: &mut SR, h: usize, ops: &[(i64, i64)]) {
    s.op("sseq", &format!(r#""h":{h},"#), false, |s| {
        let mut r = String::from("[");
        for (i, &(c, k)) in ops.iter().enumerate() {
            let mm = m(s, h);
            let c0 = counters().0;
            let p = Core::probe(k as u32);
            let x = match c {
                0 => jo(Some(mm.insert(k) as i64)),
                1 => jo(Some(mm.remove(&p) as i64)),
                2 => jo(Some(mm.contains(&p) as i64)),
                3 => jo(mm.pop_first()),
                4 => jo(mm.pop_last()),
                5 => jo(mm.replace(k)),
                _ => jo(mm.take(&p)),
            };
            let _ = write!(r, "{}[{c},{k},{x},{}]", if i > 0 { "," } else { "" }, counters().0 - c0);
        }
        r.push(']');
        r
    });
}
pub fn op_append(s: &mut SR, h: usize, g: usize) {
    s.op("append", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let mut o = s.h[g].take().unwrap();
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m(s, h).append(o.as_mut())));
        s.h[g] = Some(o);
        if let Err(e) = x {
            std::panic::resume_unwind(e)
        }
        "[]".into()
    });
}
fn ents(l: &[i64]) -> Vec<Ent> {
    l.iter().map(|&k| (k, 0)).collect()
}
pub fn op_extend(s: &mut SR, h: usize, l: &[i64], refs: bool) {
    s.op("extend", &format!(r#""h":{h},"l":{},"rf":{},"#, jents(&ents(l)), refs as i64), false, |s| {
        if refs {
            m(s, h).extend_refs(l)
        } else {
            m(s, h).extend(l)
        }
        "[]".into()
    });
}
pub fn op_from(s: &mut SR, n: usize, kind: &str, l: &[i64], array: bool) {
    s.op("from", &format!(r#""n1":{n},"l":{},"#, jents(&ents(l))), false, |s| {
        let proto = new_set(kind);
        s.h[n] = Some(if array { proto.from_array(l) } else { proto.collect_new(l) });
        "[]".into()
    });
}
pub fn op_split_off(s: &mut SR, h: usize, ord: i64, n: usize) {
    let c = Core::probe(ord as u32);
    s.op("splitoff", &format!(r#""h":{h},"k":{ord},"n1":{n},"#), false, |s| {
        let x = m(s, h).split_off(&c);
        s.h[n] = Some(x);
        "[]".into()
    });
}
/// keep iff ord*a mod md < t
pub fn op_retain(s: &mut SR, h: usize, a: i64, md: i64, t: i64) {
    s.op("retain", &format!(r#""h":{h},"a":{a},"m":{md},"t":{t},"x":0,"#), false, |s| {
        let mut calls = vec![];
        m(s, h).retain(&mut |kk| {
            calls.push(kk);
            (kk / 100 * a) % md < t
        });
        jl(&calls)
    });
}
pub fn op_retain_keys(s: &mut SR, h: usize, l: &[i64]) {
    s.op("retaink", &format!(r#""h":{h},"l":{},"x":0,"#, jl(l)), false, |s| {
        let mut calls = vec![];
        m(s, h).retain(&mut |kk| {
            calls.push(kk);
            l.contains(&(kk / 100))
        });
        jl(&calls)
    });
}
pub fn op_merge(s: &mut SR, h: usize, g: usize, which: u8) {
    s.op("merge", &format!(r#""h":{h},"g":{g},"w":{which},"#), false, |s| {
        let (a, b) = (s.h[h].take().unwrap(), s.h[g].take().unwrap());
        s.h[h] = Some(a.merge(b, which));
        "[]".into()
    });
}
pub fn op_oper(s: &mut SR, h: usize, g: usize, which: u8, n: usize) {
    s.op("soper", &format!(r#""h":{h},"g":{g},"w":{which},"n1":{n},"#), false, |s| {
        let r = s.h[h].as_ref().unwrap().oper(s.h[g].as_ref().unwrap().as_ref(), which);
        s.h[n] = Some(r);
        "[]".into()
    });
}
pub fn op_lazy(s: &mut SR, h: usize, g: usize, which: u8, sc: &[i64]) {
    s.op("slazy", &format!(r#""h":{h},"g":{g},"w":{which},"#), false, |s| {
        let mut it = s.h[h].as_ref().unwrap().lazy(s.h[g].as_ref().unwrap().as_ref(), which);
        SR::session(it.as_mut(), sc)
    });
}
pub fn op_relations(s: &mut SR, h: usize, g: usize) {
    s.op("srelns", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        jl(&s.h[h].as_ref().unwrap().relations(s.h[g].as_ref().unwrap().as_ref()))
    });
}
pub fn op_iter(s: &mut SR, h: usize, refs: bool, sc: &[i64]) {
    s.op("it", &format!(r#""h":{h},"w":"{}","pj":"k","x":0,"#, if refs { "refiter" } else { "iter" }), false, |s| {
        let mm = m(s, h);
        let mut it = if refs { mm.ref_iter() } else { mm.iter() };
        SR::session(it.as_mut(), sc)
    });
}
pub fn op_into(s: &mut SR, h: usize, sc: &[i64]) {
    s.op("into", &format!(r#""h":{h},"w":"intoiter","pj":"k","#), false, |s| {
        let mut it = s.h[h].take().unwrap().into_iter();
        SR::session(it.as_mut(), sc)
    });
}
pub fn op_cnew(s: &mut SR, h: usize, c: usize) {
    s.op("cnew", &format!(r#""h":{h},"c1":{c},"w":"intoiter","pj":"k","#), false, |s| {
        let x = s.h[h].take().unwrap();
        s.curs[c] = Some(x.into_iter());
        "[]".into()
    });
}
pub fn op_range(s: &mut SR, h: usize, lo: BdSpec, hi: BdSpec, sc: &[i64]) {
    let head = format!(r#""h":{h},"b":[{},{},{},{}],"pj":"k","x":0,"mt":0,"#, lo.0, lo.1, hi.0, hi.1);
    s.op("range", &head, true, |s| {
        let b = (bd(lo), bd(hi));
        let mut it = m(s, h).range(b);
        SR::session(it.as_mut(), sc)
    });
}
pub fn op_rel(s: &mut SR, h: usize, g: usize) {
    s.op("rel", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let (a, b) = (s.h[h].as_ref().unwrap(), s.h[g].as_ref().unwrap());
        let (ta, tb) = (a.debug(false), b.debug(false));
        let (xa, xb) = (a.debug(true), b.debug(true));
        format!(
            "[{},{},{},{},{},{},{}]",
            jl(&a.rel(b.as_ref())),
            jl(&numbers(&ta)),
            jl(&numbers(&tb)),
            jl(&numbers(&xa)),
            jl(&numbers(&xb)),
            (ta == tb) as i64,
            (xa == xb) as i64
        )
    });
}
pub fn op_ser(s: &mut SR, h: usize) {
    s.op("ser", &format!(r#""h":{h},"#), false, |s| ser_json(m(s, h).serialize()));
}
pub fn op_de(s: &mut SR, kind: &str, n: usize, sc: &crate::serde_io::Script) {
    let zero = crate::serde_io::Script { items: sc.items.iter().map(|e| (e.0, 0)).collect(), ..sc.clone() };
    s.op("de", &crate::maprun::de_head(n, &zero), false, |s| match new_set(kind).deserialize(sc) {
        Ok(x) => {
            s.h[n] = Some(x);
            "[1]".into()
        }
        Err(_) => "[0]".into(),
    });
}

fn keys(g: &mut Gen, n: usize, u: i64) -> Vec<i64> {
    g.ents(n, u).into_iter().map(|e| e.0).collect()
}

/// A partner set with a chosen relation to `base`.
pub fn partner(g: &mut Gen, base: &[Ent], u: i64) -> Vec<i64> {
    let mut l: Vec<i64> = base.iter().map(|e| e.0 / 100 * 100 + g.rng.below(4) as i64).collect();
    match g.rng.below(7) {
        0 => (),
        1 => {
            let k = g.rng.below(l.len() + 1);
            l.truncate(k)
        }
        2 => {
            let i = g.rng.below(l.len() + 1);
            if i < l.len() {
                l.remove(i);
            }
        }
        3 => l.push(g.kk(u)),
        4 => {
            // all beyond the maximum
            let mx = base.last().map_or(0, |e| e.0 / 100);
            l = (1..=g.rng.below(6) as i64).map(|i| (mx + i) * 100).collect()
        }
        5 => {
            let md = 2 + g.rng.below(3) as i64;
            l.retain(|k| (k / 100) % md != 0);
        }
        _ => {
            let k = g.rng.below(l.len() + 3);
            l = keys(g, k, u)
        }
    }
    l
}

pub fn random_history(out: &mut Out, g: &mut Gen, kind: &str, p: &Prof) -> usize {
    let (fam, n) = kind_n(kind);
    let mut run = SR::new(out, "set", kind, fam, n);
    let s = &mut run;
    op_new(s, 1, kind);
    let l = keys(g, p.init, p.u);
    for c in l.chunks(60) {
        let ops: Vec<_> = c.iter().map(|&k| (0, k)).collect();
        op_seq(s, 1, &ops)
    }
    steps(s, g, kind, p);
    run.finish()
}

/// A set of the elements `l`, by a random history of its own.
pub fn rebuild(s: &mut SR, g: &mut Gen, kind: &str, n: usize, l: &[Ent]) {
    let ords: Vec<i64> = l.iter().map(|e| e.0 / 100).collect();
    let mut l: Vec<i64> = l.iter().map(|e| e.0).collect();
    let extra: Vec<i64> =
        (0..g.rng.below(l.len() / 2 + 4)).map(|_| 1 + g.rng.below(5000) as i64).filter(|o| ords.binary_search(o).is_err()).collect();
    let way = g.rng.below(5);
    if way >= 3 {
        l.extend(extra.iter().map(|o| o * 100));
    }
    match way % 3 {
        0 => (),
        1 => l.reverse(),
        _ => {
            for i in (1..l.len()).rev() {
                let j = g.rng.below(i + 1);
                l.swap(i, j)
            }
        }
    }
    op_from(s, n, kind, &l, false);
    if way >= 3 {
        let ops: Vec<_> = extra.iter().map(|&o| (1, o)).collect();
        for c in ops.chunks(60) {
            op_seq(s, n, c)
        }
    }
}

/// `p.steps` random operations
pub fn steps(s: &mut SR, g: &mut Gen, kind: &str, p: &Prof) {
    let (fam, _) = kind_n(kind);
    let avl = fam == Fam::Avl;
    for _ in 0..p.steps {
        if s.dead {
            break;
        }
        let live = s.lives();
        if live.is_empty() {
            op_new(s, 1, kind);
            continue;
        }
        let h = *g.rng.pick(&live);
        let total: usize = s.last.iter().map(|l| l.len()).sum();
        let u = p.u;
        let last = s.last[h].clone();
        let len = last.len();
        let other = || -> Option<usize> { live.iter().copied().find(|&x| x != h) };
        let free = s.free();
        match choose(&mut g.rng, &p.ops) {
            "clone" => match free {
                Some(n) if live.len() < 5 && total + len < 4 * p.maxlen + 40 => op_clone(s, h, n),
                _ => op_drop(s, h),
            },
            "assign" => {
                if let Some(o) = other() {
                    op_assign(s, h, o)
                }
            }
            "drop" => op_drop(s, h),
            "new" => {
                if let Some(n) = free {
                    op_new(s, n, kind)
                }
            }
            "insert" if len < p.maxlen => {
                let kk = if g.rng.chance(1, 3) { g.near(&last, u) * 100 + g.rng.below(4) as i64 } else { g.kk(u) };
                op_insert(s, h, kk)
            }
            "replace" => {
                let kk = g.near(&last, u) * 100 + g.rng.below(4) as i64;
                op_replace(s, h, kk)
            }
            "insert" | "remove" => {
                let o = g.near(&last, u);
                op_remove(s, h, o)
            }
            "take" => {
                let o = g.near(&last, u);
                op_take(s, h, o)
            }
            "pop" => op_pop(s, h, g.rng.chance(1, 2)),
            "clear" => op_clear(s, h),
            "probe" => {
                let k = 1 + g.rng.below(8);
                let ords: Vec<i64> = (0..k).map(|_| g.near(&last, u)).collect();
                op_probe(s, h, &ords)
            }
            "seq" | "grow" | "shrink" => {
                let k = 5 + g.rng.below(30);
                let ops: Vec<_> = (0..k)
                    .map(|_| match g.rng.below(12) {
                        0..=3 if len < p.maxlen => (0, g.kk(u)),
                        0..=5 => (1, g.near(&last, u)),
                        6 => (6, g.near(&last, u)),
                        7 => (3, 0),
                        8 => (4, 0),
                        9 => (5, g.near(&last, u) * 100 + g.rng.below(4) as i64),
                        _ => (2, g.near(&last, u)),
                    })
                    .collect();
                op_seq(s, h, &ops)
            }
            "append" => {
                if let Some(o) = other() {
                    op_append(s, h, o)
                }
            }
            "extend" if len < p.maxlen => {
                let k = g.rng.below(12);
                let l = keys(g, k, u);
                op_extend(s, h, &l, g.rng.chance(1, 3))
            }
            "from" => {
                if let Some(n) = free {
                    let arr = g.rng.chance(1, 3);
                    let mut l = if arr {
                        let k = *g.rng.pick(&[0, 1, 2, 3, 5]);
                        keys(g, k, u)
                    } else {
                        partner(g, &last, u)
                    };
                    l.truncate(p.maxlen);
                    op_from(s, n, kind, &l, arr)
                }
            }
            "splitoff" => {
                if let Some(n) = free {
                    let o = g.near(&last, u);
                    op_split_off(s, h, o, n)
                }
            }
            "retain" => {
                let md = 1 + g.rng.below(5) as i64;
                let (a, t) = (g.rng.below(3) as i64, g.rng.below(md as usize + 1) as i64);
                op_retain(s, h, a, md, t)
            }
            "merge" => {
                if let Some(o) = other() {
                    let w = g.rng.below(4) as u8;
                    op_merge(s, h, o, w)
                }
            }
            "oper" => {
                let o = *g.rng.pick(&live);
                let w = g.rng.below(4) as u8;
                match free {
                    Some(n) if live.len() < 5 => op_oper(s, h, o, w, n),
                    _ => op_drop(s, h),
                }
            }
            "rel" | "relns" | "lazy" if free.is_some() && g.rng.chance(1, 3) => {
                // against the same elements, put together in another way
                let n = free.unwrap();
                rebuild(s, g, kind, n, &last);
                op_rel(s, h, n);
                op_rel(s, n, h);
                op_relations(s, h, n);
                let sc = sched(&mut g.rng, len, false, 2);
                op_lazy(s, h, n, g.rng.below(4) as u8, &sc);
                op_drop(s, n)
            }
            "lazy" => {
                let o = *g.rng.pick(&live);
                let w = g.rng.below(4) as u8;
                let n = len + s.last[o].len();
                let sc = sched(&mut g.rng, n, false, 2);
                op_lazy(s, h, o, w, &sc)
            }
            "relns" => {
                let o = *g.rng.pick(&live);
                op_relations(s, h, o)
            }
            "it" => {
                let sc = sched(&mut g.rng, len, !avl, 2);
                op_iter(s, h, g.rng.chance(1, 3), &sc)
            }
            "into" => {
                let sc = sched(&mut g.rng, len, !avl, 2);
                op_into(s, h, &sc)
            }
            "cur" => {
                let c = 1 + g.rng.below(3);
                if s.curs[c].is_none() {
                    op_cnew(s, h, c)
                } else if g.rng.chance(1, 12) {
                    op_cdrop(s, c)
                } else {
                    let code = *g.rng.pick(if avl { &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 11, 11, 12, 41, 30, 31, 32, 34] } else { &[0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 11, 21, 41, 51, 30, 31, 32, 33, 34] });
                    op_cstep(s, c, code)
                }
            }
            "range" => {
                let (lo, hi) = g.bounds(&last, u);
                let n = 1 + g.rng.below(len.min(12) + 2);
                let sc = sched(&mut g.rng, if n % 2 == 0 { n } else { len }, true, 1);
                op_range(s, h, lo, hi, &sc)
            }
            "rel" => {
                let o = *g.rng.pick(&live);
                op_rel(s, h, o)
            }
            "ser" => op_ser(s, h),
            "de" => {
                if let Some(n) = free {
                    let sc = g.script(p.u, &last, p.maxlen);
                    op_de(s, kind, n, &sc)
                }
            }
            _ => (),
        }
    }
}
