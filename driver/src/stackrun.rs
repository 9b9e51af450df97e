//! Stack operations with logging, and the seeded random stack histories.
use crate::api::*;
use crate::elem::*;
use crate::maprun::{choose, numbers, op_cdrop, op_cstep, Gen, Prof};
use crate::rec::*;
use lazy_clone_collections::Stack;

pub type St = Stack<Val>;
impl Coll for St {
    /// bottom to top
    fn contents(&self) -> Vec<Ent> {
        let mut v: Vec<Ent> = self.iter().map(|x| (x.v(), 0)).collect();
        v.reverse();
        v
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn ok(&self) -> bool {
        true
    }
}
pub type KR<'o> = Run<'o, St>;

/// consuming iteration of a stack
fn into_session(x: St) -> Box<dyn Session> {
    Box::new(SN(x.into_iter(), |v: Val| vec![v.v()]))
}

fn m<'a>(s: &'a mut KR, h: usize) -> &'a mut St {
    s.h[h].as_mut().unwrap().as_mut()
}
pub fn op_new(s: &mut KR, n: usize) {
    s.op("new", &format!(r#""n1":{n},"#), false, |s| {
        s.h[n] = Some(Box::new(St::new()));
        "[]".into()
    });
}
pub fn op_clone(s: &mut KR, h: usize, n: usize) {
    s.op("clone", &format!(r#""h":{h},"n1":{n},"#), false, |s| {
        s.h[n] = s.h[h].clone();
        "[]".into()
    });
}
/// clone_from: g takes over the contents of h
pub fn op_assign(s: &mut KR, h: usize, g: usize) {
    s.op("assign", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let mut x = s.h[g].take().unwrap();
        St::clone_from(&mut x, s.h[h].as_deref().unwrap());
        s.h[g] = Some(x);
        "[]".into()
    });
}
pub fn op_drop(s: &mut KR, h: usize) {
    s.op("drop", &format!(r#""h":{h},"#), false, |s| {
        s.h[h] = None;
        "[]".into()
    });
}
pub fn op_push(s: &mut KR, h: usize, v: i64) {
    s.op("kpush", &format!(r#""h":{h},"k":{v},"#), false, |s| {
        m(s, h).push(val(v));
        "[]".into()
    });
}
pub fn op_pop(s: &mut KR, h: usize) {
    s.op("kpop", &format!(r#""h":{h},"#), false, |s| jo(m(s, h).pop().map(|v| v.v())));
}
pub fn op_top_mut(s: &mut KR, h: usize, d: i64) {
    s.op("ktopm", &format!(r#""h":{h},"x":{d},"#), false, |s| {
        jo(m(s, h).top_mut().map(|v| {
            v.add(d);
            v.v()
        }))
    });
}
/// top, len, is_empty, [[value, contained]...]
pub fn op_probe(s: &mut KR, h: usize, l: &[i64]) {
    s.op("kprobe", &format!(r#""h":{h},"#), false, |s| {
        let x = m(s, h);
        let c: Vec<Ent> = l.iter().map(|&v| (v, x.contains(&val(v)) as i64)).collect();
        format!("[{},{},{},{}]", jo(x.top().map(|v| v.v())), clamp(x.len()), x.is_empty() as i64, jents(&c))
    });
}
pub fn op_clear(s: &mut KR, h: usize) {
    s.op("clear", &format!(r#""h":{h},"#), false, |s| {
        m(s, h).clear();
        "[]".into()
    });
}
pub fn op_remove(s: &mut KR, h: usize, i: usize) {
    s.op("kremove", &format!(r#""h":{h},"i":{},"#, clamp(i)), true, |s| jo(Some(m(s, h).remove(i).v())));
}
pub fn op_split(s: &mut KR, h: usize, i: usize, n: usize) {
    s.op("ksplit", &format!(r#""h":{h},"i":{},"n1":{n},"#, clamp(i)), true, |s| {
        let x = m(s, h).split_off(i);
        s.h[n] = Some(Box::new(x));
        "[]".into()
    });
}
pub fn op_extend(s: &mut KR, h: usize, l: &[i64]) {
    s.op("kextend", &format!(r#""h":{h},"l":{},"#, jl(l)), false, |s| {
        m(s, h).extend(l.iter().map(|&v| val(v)));
        "[]".into()
    });
}
pub fn op_from(s: &mut KR, n: usize, l: &[i64], collect: bool) {
    s.op("kfrom", &format!(r#""n1":{n},"l":{},"#, jl(l)), false, |s| {
        let x: St = if collect {
            l.iter().map(|&v| val(v)).collect()
        } else {
            St::from(l.iter().map(|&v| val(v)).collect::<Vec<_>>())
        };
        s.h[n] = Some(Box::new(x));
        "[]".into()
    });
}
pub fn op_iter(s: &mut KR, h: usize, d: i64, sc: &[i64]) {
    s.op("kit", &format!(r#""h":{h},"x":{d},"#), false, |s| {
        let x = m(s, h);
        if d == 0 {
            let mut it = SN(x.iter(), |v: &Val| vec![v.v()]);
            KR::session(&mut it, sc)
        } else {
            let mut it = SN(x.iter_mut(), |v: &mut Val| {
                v.add(d);
                vec![v.v()]
            });
            KR::session(&mut it, sc)
        }
    });
}
pub fn op_into(s: &mut KR, h: usize, sc: &[i64]) {
    s.op("kinto", &format!(r#""h":{h},"#), false, |s| {
        let x = s.h[h].take().unwrap();
        KR::session(into_session(*x).as_mut(), sc)
    });
}
pub fn op_cnew(s: &mut KR, h: usize, c: usize) {
    s.op("kcnew", &format!(r#""h":{h},"c1":{c},"#), false, |s| {
        let x = s.h[h].take().unwrap();
        s.curs[c] = Some(into_session(*x));
        "[]".into()
    });
}
/// relations, and the numbers each prints (the length comes first)
pub fn op_rel(s: &mut KR, h: usize, g: usize) {
    s.op("krel", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let (a, b) = (s.h[h].as_ref().unwrap().as_ref(), s.h[g].as_ref().unwrap().as_ref());
        let (ta, tb) = (format!("{a:?}"), format!("{b:?}"));
        format!(
            "[{},{},{},{}]",
            jl(&rels(a, b, None)),
            jl(&numbers(&ta)),
            jl(&numbers(&tb)),
            (ta == tb) as i64
        )
    });
}

pub fn random_history(out: &mut Out, g: &mut Gen, p: &Prof) -> usize {
    let mut run = KR::new(out, "stack", "stack", Fam::Avl, 0);
    let s = &mut run;
    op_new(s, 1);
    for _ in 0..p.init {
        if g.rng.chance(1, 30) {
            if let Some(n) = s.free() {
                op_clone(s, 1, n)
            }
        }
        let v = 1 + g.rng.below(p.u as usize) as i64;
        op_push(s, 1, v)
    }
    for _ in 0..p.steps {
        if s.dead {
            break;
        }
        let live = s.lives();
        if live.is_empty() {
            op_new(s, 1);
            continue;
        }
        let h = *g.rng.pick(&live);
        let len = s.last[h].len();
        let total: usize = s.last.iter().map(|l| l.len()).sum();
        let free = s.free();
        let v = 1 + g.rng.below(p.u as usize) as i64;
        let ents = |g: &mut Gen, n: usize| -> Vec<i64> { (0..n).map(|_| 1 + g.rng.below(p.u as usize) as i64).collect() };
        match choose(&mut g.rng, &p.ops) {
            "clone" => match free {
                Some(n) if live.len() < 5 && total + len < 4 * p.maxlen + 40 => op_clone(s, h, n),
                _ => op_drop(s, h),
            },
            "assign" => {
                if let Some(&o) = live.iter().find(|&&x| x != h) {
                    op_assign(s, h, o)
                }
            }
            "drop" => op_drop(s, h),
            "new" => {
                if let Some(n) = free {
                    op_new(s, n)
                }
            }
            "push" if len < p.maxlen => op_push(s, h, v),
            "push" | "pop" => op_pop(s, h),
            "topm" => op_top_mut(s, h, 10000),
            "probe" => {
                let l: Vec<i64> = (0..1 + g.rng.below(3))
                    .map(|_| {
                        if g.rng.chance(1, 2) && len > 0 {
                            g.rng.pick(&s.last[h]).0
                        } else {
                            1 + g.rng.below(p.u as usize + 2) as i64
                        }
                    })
                    .collect();
                op_probe(s, h, &l)
            }
            "clear" => op_clear(s, h),
            "remove" => {
                let i = if g.rng.chance(1, 8) { *g.rng.pick(&[len, len + 1, usize::MAX, 0]) } else { g.rng.below(len.max(1)) };
                op_remove(s, h, i)
            }
            "split" => {
                if let Some(n) = free {
                    let i = if g.rng.chance(1, 4) { *g.rng.pick(&[len, len + 1, usize::MAX, 0]) } else { g.rng.below(len + 1) };
                    op_split(s, h, i, n)
                }
            }
            "extend" if len < p.maxlen => {
                let k = g.rng.below(8);
                let l = ents(g, k);
                op_extend(s, h, &l)
            }
            "from" => {
                if let Some(n) = free {
                    // often a near copy of another stack, for the relations
                    let mut l: Vec<i64> = s.last[h].iter().map(|e| e.0).collect();
                    match g.rng.below(5) {
                        0 => {
                            let k = g.rng.below(8);
                            l = ents(g, k)
                        }
                        1 if len > 0 => {
                            let i = g.rng.below(len);
                            l[i] = v
                        }
                        2 if len > 0 => {
                            l.remove(0);
                        }
                        3 => l.insert(0, v),
                        _ => (),
                    }
                    op_from(s, n, &l, g.rng.chance(1, 2))
                }
            }
            "it" => {
                let sc = sched(&mut g.rng, len, false, 2);
                op_iter(s, h, *g.rng.pick(&[0, 0, 10000]), &sc)
            }
            "itm" => {
                let sc = sched(&mut g.rng, len, false, 2);
                op_iter(s, h, 10000, &sc)
            }
            "into" => {
                let sc = sched(&mut g.rng, len, false, 2);
                op_into(s, h, &sc)
            }
            "cur" => {
                let c = 1 + g.rng.below(3);
                if s.curs[c].is_none() {
                    op_cnew(s, h, c)
                } else if g.rng.chance(1, 10) {
                    op_cdrop(s, c)
                } else {
                    let code = *g.rng.pick(&[0, 0, 0, 0, 0, 0, 11, 12, 41, 30, 31, 32, 34]);
                    op_cstep(s, c, code)
                }
            }
            "rel" => {
                let o = *g.rng.pick(&live);
                op_rel(s, h, o)
            }
            _ => (),
        }
    }
    run.finish()
}
