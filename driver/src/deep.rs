//! C11: stacks of any depth, in a thread whose call stack is small.
use crate::elem::*;
use crate::profiles::{num, Opt};
use crate::rec::*;
use crate::stackrun::St;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NH: usize = 5;

/// canonical runs of a list given bottom to top
fn runs(l: impl Iterator<Item = i64>) -> String {
    let mut v: Vec<(i64, i64)> = vec![];
    for x in l {
        match v.last_mut() {
            Some(r) if r.0 + r.1 == x => r.1 += 1,
            _ => v.push((x, 1)),
        }
    }
    jents(&v)
}
fn rev_runs(mut l: Vec<i64>) -> String {
    l.reverse();
    runs(l.into_iter())
}

struct D<'o> {
    out: &'o mut Out,
    h: Vec<Option<St>>,
    cur: Option<Box<dyn Iterator<Item = Val>>>,
    dead: bool,
    max: usize,
}
impl D<'_> {
    fn op(&mut self, o: &str, head: String, f: impl FnOnce(&mut Self) -> String) {
        if self.dead {
            return;
        }
        let res = catch_unwind(AssertUnwindSafe(|| f(self)));
        let (r, p) = match res {
            Ok(r) => (r, 0),
            Err(_) => (String::from("[]"), 1),
        };
        let mut s = String::from("[");
        for i in 1..=NH {
            if i > 1 {
                s.push(',')
            }
            match &self.h[i] {
                Some(x) => {
                    let mut l: Vec<i64> = x.iter().map(|v| v.v()).collect();
                    l.reverse();
                    self.max = self.max.max(l.len());
                    let _ = write!(s, "[{},{}]", clamp(x.len()), runs(l.into_iter()));
                }
                None => s.push_str("[]"),
            }
        }
        s.push(']');
        self.out.line(&format!(r#"{{"o":"{o}",{head}"r":{r},"s":{s},"v":{},"f":{},"p":{p}}}"#, live().1, faults().min(1000)));
        if p == 1 {
            self.dead = true;
            for x in self.h.iter_mut() {
                std::mem::forget(x.take())
            }
            std::mem::forget(self.cur.take())
        }
    }
}

fn episode(out: &mut Out, g: &mut Rng, depth: usize, steps: usize) -> usize {
    reset();
    out.line(r#"{"o":"reset","f":0,"p":0}"#);
    let mut d = D { out, h: (0..=NH).map(|_| None).collect(), cur: None, dead: false, max: 0 };
    let s = &mut d;
    let mut next = 1i64;
    for _ in 0..steps {
        if s.dead {
            break;
        }
        let live: Vec<usize> = (1..=NH).filter(|&i| s.h[i].is_some()).collect();
        let free = (1..=NH).find(|&i| s.h[i].is_none());
        let total: usize = live.iter().map(|&i| s.h[i].as_ref().unwrap().len()).sum();
        let mut from = |s: &mut D, n: usize, g: &mut Rng| {
            let k = match g.below(4) {
                0 => g.below(10),
                1 => depth / 4,
                _ => depth,
            };
            let a = next;
            next += k as i64 + 1;
            let how = g.below(3);
            s.op("from", format!(r#""n1":{n},"a":{a},"k":{k},"#), |s| {
                let it = (a..a + k as i64).map(val);
                s.h[n] = Some(match how {
                    0 => it.collect(),
                    1 => St::from(it.collect::<Vec<_>>()),
                    _ => {
                        let mut x = St::new();
                        it.for_each(|v| x.push(v));
                        x
                    }
                });
                "[]".into()
            })
        };
        if live.is_empty() {
            from(s, 1, g);
            continue;
        }
        let h = *g.pick(&live);
        let len = s.h[h].as_ref().unwrap().len();
        // a depth somewhere, often at an end
        let some = match g.below(5) {
            0 => g.below(4),
            1 => len.saturating_sub(g.below(4)),
            2 => len / 2,
            _ => g.below(len + 1),
        };
        match g.below(22) {
            0 | 1 => match free {
                Some(n) if total < 3 * depth => from(s, n, g),
                _ => (),
            },
            2..=6 => match free {
                Some(n) if total + len < 5 * depth => s.op("clone", format!(r#""h":{h},"n1":{n},"#), |s| {
                    s.h[n] = s.h[h].clone();
                    "[]".into()
                }),
                _ => (),
            },
            7 | 8 => s.op("drop", format!(r#""h":{h},"#), |s| {
                s.h[h] = None;
                "[]".into()
            }),
            9 => s.op("clear", format!(r#""h":{h},"#), |s| {
                s.h[h].as_mut().unwrap().clear();
                "[]".into()
            }),
            10 | 11 => {
                let k = if total < 4 * depth { 1 + g.below(depth / 10 + 3) } else { 1 };
                let a = next;
                next += k as i64 + 1;
                s.op("extend", format!(r#""h":{h},"a":{a},"k":{k},"#), |s| {
                    let x = s.h[h].as_mut().unwrap();
                    if k % 2 == 0 {
                        x.extend((a..a + k as i64).map(val))
                    } else {
                        (a..a + k as i64).for_each(|v| x.push(val(v)))
                    }
                    "[]".into()
                })
            }
            12 | 13 => s.op("pop", format!(r#""h":{h},"k":{some},"#), |s| {
                let x = s.h[h].as_mut().unwrap();
                rev_runs((0..some).map_while(|_| x.pop().map(|v| v.v())).collect())
            }),
            14 | 15 if some < len => s.op("remove", format!(r#""h":{h},"i":{some},"#), |s| s.h[h].as_mut().unwrap().remove(some).v().to_string()),
            16 | 17 => {
                let some = some.min(len);
                if let Some(n) = free {
                    s.op("split", format!(r#""h":{h},"i":{some},"n1":{n},"#), |s| {
                        let x = s.h[h].as_mut().unwrap().split_off(some);
                        s.h[n] = Some(x);
                        "[]".into()
                    })
                }
            }
            18 => {
                // iter_mut without writing: it may unshare, not change
                let m = g.chance(1, 2);
                s.op("iter", format!(r#""h":{h},"k":{some},"#), |s| {
                    let x = s.h[h].as_mut().unwrap();
                    rev_runs(if m { x.iter_mut().take(some).map(|v| v.v()).collect() } else { x.iter().take(some).map(|v| v.v()).collect() })
                })
            }
            19 => s.op("into", format!(r#""h":{h},"k":{some},"#), |s| {
                let mut it = s.h[h].take().unwrap().into_iter();
                rev_runs((0..some).map_while(|_| it.next().map(|v| v.v())).collect())
            }),
            _ => {
                if s.cur.is_none() {
                    s.op("copen", format!(r#""h":{h},"#), |s| {
                        s.cur = Some(Box::new(s.h[h].take().unwrap().into_iter()));
                        "[]".into()
                    })
                } else if g.chance(1, 3) {
                    s.op("cdrop", String::new(), |s| {
                        s.cur = None;
                        "[]".into()
                    })
                } else {
                    s.op("cstep", format!(r#""k":{some},"#), |s| {
                        let it = s.cur.as_mut().unwrap();
                        rev_runs((0..some).map_while(|_| it.next().map(|v| v.v())).collect())
                    })
                }
            }
        }
    }
    // what is left goes in any order
    let mut left: Vec<usize> = (0..=NH).collect();
    while !left.is_empty() {
        let i = left.swap_remove(g.below(left.len()));
        if i == 0 && s.cur.is_some() {
            s.op("cdrop", String::new(), |s| {
                s.cur = None;
                "[]".into()
            })
        } else if i > 0 && s.h[i].is_some() {
            s.op("drop", format!(r#""h":{i},"#), |s| {
                s.h[i] = None;
                "[]".into()
            })
        }
    }
    s.op("end", String::new(), |_| "[]".into());
    d.max
}

pub fn random(opt: &Opt, out: &mut Out) -> (usize, usize) {
    let seed = num(opt, "seed", 1);
    let (shard, shards) = (num(opt, "shard", 0), num(opt, "shards", 1));
    let depth = num(opt, "depth", 100_000);
    let budget = num(opt, "budget", 400);
    let stack = num(opt, "stack", 128 << 10);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(sc, || {
                let (mut episodes, mut max) = (0, 0);
                let mut i = shard;
                while out.events < budget {
                    let mut g = Rng::new((seed as u64) << 32 | i as u64 | 1 << 30);
                    // one episode in four is small, for the odd shapes
                    let dp = if (i / shards) % 4 == 3 { 6 } else { depth };
                    max = max.max(episode(out, &mut g, dp, 50));
                    episodes += 1;
                    i += shards;
                }
                (episodes, max)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}
