//! Map operations with logging, and the seeded random map histories.
use crate::api::*;
use crate::elem::*;
use crate::rec::*;
use std::fmt::Write as _;
use std::ops::Bound;

pub type MR<'o> = Run<'o, dyn DMap>;

pub fn kind_n(kind: &str) -> (Fam, usize) {
    match kind {
        "avl" | "avls" => (Fam::Avl, 0),
        "bt1" | "bts1" => (Fam::BTree, 1),
        "bt2" | "bts2" => (Fam::BTree, 2),
        "bt3" => (Fam::BTree, 3),
        "bt5" | "bts5" => (Fam::BTree, 5),
        _ => (Fam::Fixed, 5),
    }
}

#[derive(Clone, Copy)]
pub struct BdSpec(pub i64, pub i64); // 0 unbounded, 1 included, 2 excluded ; ord
pub fn bd(b: BdSpec) -> Bd {
    match b.0 {
        0 => Bound::Unbounded,
        1 => Bound::Included(Core::probe(b.1 as u32)),
        _ => Bound::Excluded(Core::probe(b.1 as u32)),
    }
}

pub fn estep_code(e: EStep) -> (i64, i64) {
    match e {
        EStep::AndModify(d) => (1, d),
        EStep::OrInsert(x) => (2, x),
        EStep::OrWith(x) => (3, x),
        EStep::OrWithKey => (4, 0),
        EStep::OrDefault => (5, 0),
        EStep::Key => (6, 0),
        EStep::None => (0, 0),
    }
}
fn jentry(o: &EntryOut) -> String {
    format!("[[{}],{},{},{}]", o.key.unwrap_or(-1), o.modified, o.calls, jo(o.val))
}

pub fn m<'a>(s: &'a mut MR, h: usize) -> &'a mut dyn DMap {
    s.h[h].as_mut().unwrap().as_mut()
}

pub fn op_new(s: &mut MR, n: usize, kind: &str) {
    s.op("new", &format!(r#""n1":{n},"#), false, |s| {
        s.h[n] = Some(new_map(kind));
        "[]".into()
    });
}
pub fn op_clone(s: &mut MR, h: usize, n: usize) {
    s.op("clone", &format!(r#""h":{h},"n1":{n},"#), false, |s| {
        s.h[n] = Some(s.h[h].as_ref().unwrap().dup());
        "[]".into()
    });
}
/// clone_from: g takes over the contents of h
pub fn op_assign(s: &mut MR, h: usize, g: usize) {
    s.op("assign", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let mut x = s.h[g].take().unwrap();
        x.assign(s.h[h].as_deref().unwrap());
        s.h[g] = Some(x);
        "[]".into()
    });
}
pub fn op_drop(s: &mut MR, h: usize) {
    s.op("drop", &format!(r#""h":{h},"#), false, |s| {
        s.h[h] = None;
        "[]".into()
    });
}
pub fn op_insert(s: &mut MR, h: usize, kk: i64, v: i64) {
    s.op("insert", &format!(r#""h":{h},"k":{kk},"x":{v},"#), false, |s| jo(m(s, h).insert(kk, v)));
}
pub fn op_remove(s: &mut MR, h: usize, ord: i64) {
    let c = Core::probe(ord as u32);
    s.op("remove", &format!(r#""h":{h},"k":{ord},"#), false, |s| jo(m(s, h).remove(&c)));
}
pub fn op_remove_entry(s: &mut MR, h: usize, ord: i64) {
    let c = Core::probe(ord as u32);
    s.op("removee", &format!(r#""h":{h},"k":{ord},"#), false, |s| joe(m(s, h).remove_entry(&c)));
}
pub fn op_pop(s: &mut MR, h: usize, last: bool) {
    let o = if last { "popl" } else { "popf" };
    s.op(o, &format!(r#""h":{h},"#), false, |s| joe(if last { m(s, h).pop_last() } else { m(s, h).pop_first() }));
}
pub fn op_clear(s: &mut MR, h: usize) {
    s.op("clear", &format!(r#""h":{h},"#), false, |s| {
        m(s, h).clear();
        "[]".into()
    });
}
pub fn op_get_mut(s: &mut MR, h: usize, ord: i64, d: i64) {
    let c = Core::probe(ord as u32);
    s.op("getmut", &format!(r#""h":{h},"k":{ord},"x":{d},"#), false, |s| jo(m(s, h).get_mut(&c, d)));
}
pub fn op_index(s: &mut MR, h: usize, ord: i64) {
    let c = Core::probe(ord as u32);
    s.op("index", &format!(r#""h":{h},"k":{ord},"#), true, |s| jo(Some(m(s, h).index(&c))));
}
/// Batch of lookups: [[ord, get, contains, get_key_value, comparisons of get]...], first, last, is_empty
pub fn op_probe(s: &mut MR, h: usize, ords: &[i64]) {
    let fixed = m(s, h).fam() == Fam::Fixed;
    s.op("probe", &format!(r#""h":{h},"#), false, |s| {
        let mut r = String::from("[[");
        for (i, &o) in ords.iter().enumerate() {
            let c = Core::probe(o as u32);
            let c0 = counters().0;
            let g = m(s, h).get(&c);
            let used = counters().0 - c0;
            let (ck, kv) = if fixed {
                (g.is_some(), String::from("[-1,-1]"))
            } else {
                (m(s, h).contains(&c), joe(m(s, h).get_kv(&c)))
            };
            let _ = write!(r, "{}[{o},{},{},{kv},{used}]", if i > 0 { "," } else { "" }, jo(g), ck as i64);
        }
        if fixed {
            let _ = write!(r, "],[-1,-1],[-1,-1],{}]", m(s, h).is_empty() as i64);
        } else {
            let _ = write!(r, "],{},{},{}]", joe(m(s, h).first()), joe(m(s, h).last()), m(s, h).is_empty() as i64);
        }
        r
    });
}
/// Several point operations in one event: codes 0 insert, 1 remove, 2 get, 3 pop_first, 4 pop_last
pub fn op_seq(s: &mut MR, h: usize, ops: &[(i64, i64, i64)]) {
    s.op("seq", &format!(r#""h":{h},"#), false, |s| {
        let mut r = String::from("[");
        for (i, &(c, k, v)) in ops.iter().enumerate() {
            let mm = m(s, h);
            let c0 = counters().0;
            let x = match c {
                0 => jo(mm.insert(k, v)),
                1 => jo(mm.remove(&Core::probe(k as u32))),
                2 => jo(mm.get(&Core::probe(k as u32))),
                3 => joe(mm.pop_first()),
                _ => joe(mm.pop_last()),
            };
            let _ = write!(r, "{}[{c},{k},{v},{x},{}]", if i > 0 { "," } else { "" }, counters().0 - c0);
        }
        r.push(']');
        r
    });
}
pub fn op_append(s: &mut MR, h: usize, g: usize) {
    s.op("append", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let mut o = s.h[g].take().unwrap();
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m(s, h).append(o.as_mut())));
        s.h[g] = Some(o);
        if let Err(e) = x {
            std::panic::resume_unwind(e)
        }
        "[]".into()
    });
}
pub fn op_extend(s: &mut MR, h: usize, l: &[Ent], refs: bool) {
    s.op("extend", &format!(r#""h":{h},"l":{},"rf":{},"#, jents(l), refs as i64), false, |s| {
        if refs {
            m(s, h).extend_refs(l)
        } else {
            m(s, h).extend(l)
        }
        "[]".into()
    });
}
pub fn op_from(s: &mut MR, n: usize, kind: &str, l: &[Ent], array: bool) {
    s.op("from", &format!(r#""n1":{n},"l":{},"#, jents(l)), false, |s| {
        let proto = new_map(kind);
        s.h[n] = Some(if array { proto.from_array(l) } else { proto.collect_new(l) });
        "[]".into()
    });
}
pub fn op_split_off(s: &mut MR, h: usize, ord: i64, n: usize) {
    let c = Core::probe(ord as u32);
    s.op("splitoff", &format!(r#""h":{h},"k":{ord},"n1":{n},"#), false, |s| {
        let x = m(s, h).split_off(&c);
        s.h[n] = Some(x);
        "[]".into()
    });
}
/// keep iff (ord*a + v) mod md < t ; every visited value then grows by d
pub fn op_retain(s: &mut MR, h: usize, a: i64, md: i64, t: i64, d: i64) {
    s.op("retain", &format!(r#""h":{h},"a":{a},"m":{md},"t":{t},"x":{d},"#), false, |s| {
        let mut calls = vec![];
        m(s, h).retain(&mut |kk, v| {
            calls.push(kk);
            let keep = (kk / 100 * a + v.v()) % md < t;
            v.add(d);
            keep
        });
        jl(&calls)
    });
}
/// keep the entries with these orders
pub fn op_retain_keys(s: &mut MR, h: usize, l: &[i64], d: i64) {
    s.op("retaink", &format!(r#""h":{h},"l":{},"x":{d},"#, jl(l)), false, |s| {
        let mut calls = vec![];
        m(s, h).retain(&mut |kk, v| {
            calls.push(kk);
            v.add(d);
            l.contains(&(kk / 100))
        });
        jl(&calls)
    });
}
pub fn op_merge(s: &mut MR, h: usize, g: usize, which: u8) {
    s.op("merge", &format!(r#""h":{h},"g":{g},"w":{which},"#), false, |s| {
        let (a, b) = (s.h[h].take().unwrap(), s.h[g].take().unwrap());
        s.h[h] = Some(a.merge(b, which));
        "[]".into()
    });
}
pub fn op_join(s: &mut MR, h: usize, kk: i64, v: i64, g: usize) {
    s.op("join", &format!(r#""h":{h},"g":{g},"k":{kk},"x":{v},"#), false, |s| {
        let (a, b) = (s.h[h].take().unwrap(), s.h[g].take().unwrap());
        s.h[h] = Some(a.join(kk, v, b));
        "[]".into()
    });
}
pub const REF_ITERS: [&str; 4] = ["iter", "refiter", "keys", "values"];
pub const MUT_ITERS: [&str; 3] = ["itermut", "mutiter", "valuesmut"];
pub const INTO_ITERS: [&str; 3] = ["intoiter", "intokeys", "intovalues"];
pub fn proj(w: &str) -> &'static str {
    match w {
        "keys" | "intokeys" => "k",
        "values" | "valuesmut" | "intovalues" => "v",
        _ => "kv",
    }
}
pub fn op_iter(s: &mut MR, h: usize, w: &str, sc: &[i64]) {
    s.op("it", &format!(r#""h":{h},"w":"{w}","pj":"{}","x":0,"#, proj(w)), false, |s| {
        let mm = m(s, h);
        let mut it = match w {
            "iter" => mm.iter(),
            "refiter" => mm.ref_iter(),
            "keys" => mm.keys(),
            _ => mm.values(),
        };
        MR::session(it.as_mut(), sc)
    });
}
pub fn op_iter_mut(s: &mut MR, h: usize, w: &str, d: i64, sc: &[i64]) {
    s.op("it", &format!(r#""h":{h},"w":"{w}","pj":"{}","x":{d},"#, proj(w)), false, |s| {
        let mm = m(s, h);
        let mut it = match w {
            "itermut" => mm.iter_mut(d),
            "mutiter" => mm.mut_iter(d),
            _ => mm.values_mut(d),
        };
        MR::session(it.as_mut(), sc)
    });
}
fn make_into(x: Box<dyn DMap>, w: &str) -> Box<dyn Session> {
    match w {
        "intoiter" => x.into_iter(),
        "intokeys" => x.into_keys(),
        _ => x.into_values(),
    }
}
pub fn op_into(s: &mut MR, h: usize, w: &str, sc: &[i64]) {
    s.op("into", &format!(r#""h":{h},"w":"{w}","pj":"{}","#, proj(w)), false, |s| {
        let mut it = make_into(s.h[h].take().unwrap(), w);
        MR::session(it.as_mut(), sc)
    });
}
pub fn op_into_vec(s: &mut MR, h: usize) {
    s.op("intovec", &format!(r#""h":{h},"#), false, |s| {
        let x = s.h[h].take().unwrap();
        jents(&x.into_vec().unwrap())
    });
}
pub fn op_cnew(s: &mut MR, h: usize, c: usize, w: &str) {
    s.op("cnew", &format!(r#""h":{h},"c1":{c},"w":"{w}","pj":"{}","#, proj(w)), false, |s| {
        let x = s.h[h].take().unwrap();
        s.curs[c] = Some(make_into(x, w));
        "[]".into()
    });
}
pub fn op_cstep<C: Coll + ?Sized>(s: &mut Run<C>, c: usize, code: i64) {
    s.op("cstep", &format!(r#""c1":{c},"#), false, |s| {
        let it = s.curs[c].as_mut().unwrap();
        MR::session(it.as_mut(), &[code])
    });
}
pub fn op_cdrop<C: Coll + ?Sized>(s: &mut Run<C>, c: usize) {
    s.op("cdrop", &format!(r#""c1":{c},"#), false, |s| {
        s.curs[c] = None;
        "[]".into()
    });
}
pub fn op_range(s: &mut MR, h: usize, lo: BdSpec, hi: BdSpec, mutd: Option<i64>, sc: &[i64]) {
    let head = format!(
        r#""h":{h},"b":[{},{},{},{}],"pj":"kv","x":{},"mt":{},"#,
        lo.0,
        lo.1,
        hi.0,
        hi.1,
        mutd.unwrap_or(0),
        mutd.is_some() as i64
    );
    s.op("range", &head, true, |s| {
        let mm = m(s, h);
        let b = (bd(lo), bd(hi));
        let mut it = match mutd {
            Some(d) => mm.range_mut(b, d),
            None => mm.range(b),
        };
        MR::session(it.as_mut(), sc)
    });
}
pub fn op_foreach(s: &mut MR, h: usize, mutd: Option<i64>) {
    let head = format!(r#""h":{h},"x":{},"mt":{},"#, mutd.unwrap_or(0), mutd.is_some() as i64);
    s.op("foreach", &head, false, |s| {
        let mut l = vec![];
        match mutd {
            None => m(s, h).for_each(&mut |k, v| l.push((k, v))),
            Some(d) => m(s, h).for_each_mut(&mut |k, v| {
                v.add(d);
                l.push((k, v.v()))
            }),
        }
        jents(&l)
    });
}
pub fn op_entry(s: &mut MR, h: usize, kk: i64, a: EStep, b: EStep) {
    let (x, y) = (estep_code(a), estep_code(b));
    let head = format!(r#""h":{h},"k":{kk},"e":[{},{},{},{}],"#, x.0, x.1, y.0, y.1);
    s.op("entry", &head, false, |s| jentry(&m(s, h).entry(kk, a, b)));
}
pub fn op_end_entry(s: &mut MR, h: usize, last: bool, a: EStep, b: EStep) {
    let (x, y) = (estep_code(a), estep_code(b));
    let head = format!(r#""h":{h},"w":{},"e":[{},{},{},{}],"#, last as i64, x.0, x.1, y.0, y.1);
    s.op("eentry", &head, false, |s| m(s, h).end_entry(last, a, b).map_or("[]".into(), |o| jentry(&o)));
}
/// integers printed in a Debug text, in order
pub fn numbers(t: &str) -> Vec<i64> {
    let mut v = vec![];
    let mut cur: Option<i64> = None;
    for ch in t.chars() {
        if let Some(d) = ch.to_digit(10) {
            cur = Some(cur.unwrap_or(0) * 10 + d as i64)
        } else if let Some(x) = cur.take() {
            v.push(x)
        }
    }
    v.extend(cur);
    v
}
/// all relations of h and g, and the numbers each one prints; dbg texts equal?
pub fn op_rel(s: &mut MR, h: usize, g: usize) {
    s.op("rel", &format!(r#""h":{h},"g":{g},"#), false, |s| {
        let (a, b) = (s.h[h].as_ref().unwrap(), s.h[g].as_ref().unwrap());
        let (ta, tb) = (a.debug(false), b.debug(false));
        let (xa, xb) = (a.debug(true), b.debug(true));
        format!(
            "[{},{},{},{},{},{},{}]",
            jl(&a.rel(b.as_ref())),
            jl(&numbers(&ta)),
            jl(&numbers(&tb)),
            jl(&numbers(&xa)),
            jl(&numbers(&xb)),
            (ta == tb) as i64,
            (xa == xb) as i64
        )
    });
}
pub fn ser_json(x: crate::serde_io::Ser) -> String {
    format!("[{},{},{},{}]", x.len.map_or(-1, clamp), x.maps, x.err as i64, jents(&x.items))
}
pub fn op_ser(s: &mut MR, h: usize) {
    s.op("ser", &format!(r#""h":{h},"#), false, |s| ser_json(m(s, h).serialize()));
}
pub fn de_head(n: usize, sc: &crate::serde_io::Script) -> String {
    format!(
        r#""n1":{n},"hint":{},"l":{},"er":{},"#,
        sc.hint.map_or(-1, clamp),
        jents(&sc.items),
        sc.err.map_or(-1, clamp)
    )
}
pub fn op_de(s: &mut MR, kind: &str, n: usize, sc: &crate::serde_io::Script) {
    s.op("de", &de_head(n, sc), false, |s| match new_map(kind).deserialize(sc) {
        Ok(x) => {
            s.h[n] = Some(x);
            "[1]".into()
        }
        Err(_) => "[0]".into(),
    });
}

/// Parameters of a random history.
pub struct Prof {
    pub ops: Vec<(&'static str, usize)>,
    pub steps: usize,
    pub u: i64,
    pub init: usize,
    pub maxlen: usize,
}

pub struct Gen {
    pub rng: Rng,
    pub v: i64,
}
impl Gen {
    pub fn ord(&mut self, u: i64) -> i64 {
        1 + self.rng.below(u as usize) as i64
    }
    pub fn kk(&mut self, u: i64) -> i64 {
        self.ord(u) * 100 + self.rng.below(4) as i64
    }
    pub fn val(&mut self) -> i64 {
        self.v += 1;
        self.v % 100000
    }
    pub fn ents(&mut self, n: usize, u: i64) -> Vec<Ent> {
        let mode = self.rng.below(4);
        let mut l: Vec<Ent> = (0..n).map(|_| (self.kk(u), self.val())).collect();
        match mode {
            0 => l.sort(),
            1 => {
                l.sort();
                l.reverse()
            }
            _ => (),
        }
        l
    }
    /// an ord present in the handle (or near one), else any
    pub fn near(&mut self, last: &[Ent], u: i64) -> i64 {
        if last.is_empty() || self.rng.chance(1, 3) {
            return self.ord(u + 1);
        }
        let e = self.rng.pick(last).0 / 100;
        match self.rng.below(6) {
            0 => e + 1,
            1 => (e - 1).max(0),
            _ => e,
        }
    }
    pub fn estep(&mut self) -> (EStep, EStep) {
        let v = self.val();
        let a = match self.rng.below(3) {
            0 => EStep::AndModify(7),
            _ => EStep::None,
        };
        let b = match self.rng.below(8) {
            0 => EStep::AndModify(11),
            1 | 2 => EStep::OrInsert(v),
            3 => EStep::OrWith(v),
            4 => EStep::OrWithKey,
            5 => EStep::OrDefault,
            6 => EStep::Key,
            _ => EStep::None,
        };
        (a, b)
    }
    pub fn bounds(&mut self, last: &[Ent], u: i64) -> (BdSpec, BdSpec) {
        let (mut a, mut b) = (self.near(last, u), self.near(last, u));
        if self.rng.chance(1, 4) {
            b = a
        }
        if a > b && !self.rng.chance(1, 12) {
            std::mem::swap(&mut a, &mut b)
        }
        let (x, y) = (self.rng.below(5), self.rng.below(5));
        let f = |x: usize, o: i64| match x {
            0 => BdSpec(0, 0),
            1 | 2 => BdSpec(1, o),
            _ => BdSpec(2, o),
        };
        (f(x, a), f(y, b))
    }
}

pub fn choose(rng: &mut Rng, ops: &[(&'static str, usize)]) -> &'static str {
    let t: usize = ops.iter().map(|o| o.1).sum();
    let mut x = rng.below(t);
    for o in ops {
        if x < o.1 {
            return o.0;
        }
        x -= o.1
    }
    ops[0].0
}

/// Fill handle 1 with about `init` entries, in one of several orders.
pub fn fill(s: &mut MR, g: &mut Gen, h: usize, init: usize, u: i64) {
    let mode = g.rng.below(5);
    let mut ops = vec![];
    match mode {
        0 | 1 => {
            // ascending or descending, distinct
            let step = (u / (init as i64 + 1)).max(1);
            for i in 0..init as i64 {
                let o = if mode == 0 { 1 + i * step } else { 1 + (init as i64 - 1 - i) * step };
                ops.push((0, o * 100 + g.rng.below(4) as i64, g.val()))
            }
        }
        2 => {
            // grow beyond and shrink back
            for _ in 0..init * 3 / 2 {
                ops.push((0, g.kk(u), g.val()))
            }
            for _ in 0..init / 2 {
                ops.push((1, g.ord(u), 0))
            }
        }
        _ => {
            for _ in 0..init {
                ops.push((0, g.kk(u), g.val()))
            }
        }
    }
    for c in ops.chunks(60) {
        op_seq(s, h, c)
    }
}

pub fn random_history(out: &mut Out, g: &mut Gen, kind: &str, p: &Prof) -> usize {
    let (fam, n) = kind_n(kind);
    let mut run = MR::new(out, "map", kind, fam, n);
    let s = &mut run;
    op_new(s, 1, kind);
    fill(s, g, 1, p.init, p.u);
    steps(s, g, kind, p);
    run.finish()
}

/// A map with the entries `l`, by a random history of its own.
pub fn rebuild(s: &mut MR, g: &mut Gen, kind: &str, n: usize, l: &[Ent]) {
    let mut l = l.to_vec();
    let extra: Vec<i64> = (0..g.rng.below(l.len() / 2 + 4))
        .map(|_| 1 + g.rng.below(5000) as i64)
        .filter(|o| l.binary_search_by_key(o, |e| e.0 / 100).is_err())
        .collect();
    let way = g.rng.below(5);
    if way >= 3 {
        l.extend(extra.iter().map(|o| (o * 100, 1)));
    }
    match way % 3 {
        0 => (),
        1 => l.reverse(),
        _ => {
            for i in (1..l.len()).rev() {
                let j = g.rng.below(i + 1);
                l.swap(i, j)
            }
        }
    }
    if g.rng.chance(1, 5) {
        let items = l;
        op_de(s, kind, n, &crate::serde_io::Script { hint: Some(items.len()), items, err: None })
    } else {
        op_from(s, n, kind, &l, false)
    }
    if way >= 3 {
        let ops: Vec<_> = extra.iter().map(|&o| (1, o, 0)).collect();
        for c in ops.chunks(60) {
            op_seq(s, n, c)
        }
    }
}

/// `p.steps` random operations
pub fn steps(s: &mut MR, g: &mut Gen, kind: &str, p: &Prof) {
    let (fam, _) = kind_n(kind);
    let fixed = fam == Fam::Fixed;
    let avl = fam == Fam::Avl;
    for _ in 0..p.steps {
        if s.dead {
            break;
        }
        let live = s.lives();
        if live.is_empty() {
            op_new(s, 1, kind);
            continue;
        }
        let h = *g.rng.pick(&live);
        let total: usize = s.last.iter().map(|l| l.len()).sum();
        let u = p.u;
        let last = s.last[h].clone();
        let len = last.len();
        let other = || -> Option<usize> { live.iter().copied().find(|&x| x != h) };
        let free = s.free();
        match choose(&mut g.rng, &p.ops) {
            "clone" => match free {
                Some(n) if live.len() < 5 && total + len < 4 * p.maxlen + 40 => op_clone(s, h, n),
                _ => op_drop(s, h),
            },
            "assign" => {
                if let Some(o) = other() {
                    op_assign(s, h, o)
                }
            }
            "drop" => op_drop(s, h),
            "new" => {
                if let Some(n) = free {
                    op_new(s, n, kind)
                }
            }
            "insert" if len < p.maxlen => {
                let kk = if g.rng.chance(1, 4) { g.near(&last, u) * 100 + g.rng.below(4) as i64 } else { g.kk(u) };
                let v = g.val();
                op_insert(s, h, kk, v)
            }
            "insert" | "remove" => {
                let o = g.near(&last, u);
                op_remove(s, h, o)
            }
            "removee" if avl => {
                let o = g.near(&last, u);
                op_remove_entry(s, h, o)
            }
            "pop" if !fixed => op_pop(s, h, g.rng.chance(1, 2)),
            "clear" => op_clear(s, h),
            "getmut" => {
                let o = g.near(&last, u);
                op_get_mut(s, h, o, 1000)
            }
            "index" if avl => {
                let o = g.near(&last, u);
                op_index(s, h, o)
            }
            "probe" => {
                let k = 1 + g.rng.below(8);
                let ords: Vec<i64> = (0..k).map(|_| g.near(&last, u)).collect();
                op_probe(s, h, &ords)
            }
            "seq" => {
                let k = 5 + g.rng.below(30);
                let ops: Vec<_> = (0..k)
                    .map(|_| match g.rng.below(10) {
                        0..=3 => (0, g.kk(u), g.val()),
                        4..=6 => (1, g.near(&last, u), 0),
                        7 if !fixed => (3, 0, 0),
                        8 if !fixed => (4, 0, 0),
                        _ => (2, g.near(&last, u), 0),
                    })
                    .collect();
                op_seq(s, h, &ops)
            }
            "grow" if len < p.maxlen => {
                let k = 10 + g.rng.below(20);
                let base = g.ord(u);
                let dir = g.rng.below(3);
                let ops: Vec<_> = (0..k as i64)
                    .map(|i| {
                        let o = match dir {
                            0 => (base + i) % u + 1,
                            1 => (base + u - i % u) % u + 1,
                            _ => g.ord(u),
                        };
                        (0, o * 100 + g.rng.below(4) as i64, g.val())
                    })
                    .collect();
                op_seq(s, h, &ops)
            }
            "grow" | "shrink" => {
                // remove a run of neighbours, or many random ones
                let k = 5 + g.rng.below(20);
                let start = g.rng.below(len + 1);
                let dir = g.rng.below(3);
                let ops: Vec<_> = (0..k)
                    .filter_map(|i| {
                        let e = match dir {
                            0 => last.get(start + i),
                            1 => last.get(start.wrapping_sub(i)),
                            _ => last.get(g.rng.below(len + 1)),
                        };
                        e.map(|e| (1, e.0 / 100, 0))
                    })
                    .collect();
                op_seq(s, h, &ops)
            }
            "append" if !fixed => {
                if let Some(o) = other() {
                    op_append(s, h, o)
                }
            }
            "extend" if len < p.maxlen => {
                let k = g.rng.below(12);
                let l = g.ents(k, u);
                let refs = avl && g.rng.chance(1, 3);
                op_extend(s, h, &l, refs)
            }
            "from" => {
                if let Some(n) = free {
                    let arr = !fixed && g.rng.chance(1, 2);
                    let k = if arr { *g.rng.pick(&[0, 1, 2, 3, 5]) } else { g.rng.below(p.maxlen / 2 + 2) };
                    let l = g.ents(k, u);
                    op_from(s, n, kind, &l, arr)
                }
            }
            "splitoff" if !fixed => {
                if let Some(n) = free {
                    let o = g.near(&last, u);
                    op_split_off(s, h, o, n)
                }
            }
            "retain" if !fixed => {
                let md = 1 + g.rng.below(5) as i64;
                let (a, t) = (g.rng.below(3) as i64, g.rng.below(md as usize + 1) as i64);
                let d = *g.rng.pick(&[0, 0, 3]);
                op_retain(s, h, a, md, t, d)
            }
            "merge" if avl => {
                if let Some(o) = other() {
                    let w = g.rng.below(4) as u8;
                    op_merge(s, h, o, w)
                }
            }
            "join" if avl => {
                // split h at x, remove x from the right part, join again with x
                if let Some(n) = free {
                    let o = g.near(&last, u);
                    op_split_off(s, h, o, n);
                    op_remove(s, n, o);
                    // optionally thin out one side so that the sizes differ
                    let side = if g.rng.chance(1, 2) { h } else { n };
                    if g.rng.chance(1, 2) {
                        op_retain(s, side, 1, 8, 1, 0);
                    }
                    let v = g.val();
                    op_join(s, h, o * 100, v, n);
                }
            }
            "it" => {
                let w = if fixed { "iter" } else { *g.rng.pick(&REF_ITERS) };
                let sc = sched(&mut g.rng, len, true, 2);
                op_iter(s, h, w, &sc)
            }
            "itm" => {
                let w = if fixed { "itermut" } else { *g.rng.pick(&MUT_ITERS) };
                let sc = sched(&mut g.rng, len, true, 2);
                op_iter_mut(s, h, w, 1000, &sc)
            }
            "into" => {
                let w = if fixed { "intoiter" } else { *g.rng.pick(&INTO_ITERS) };
                let sc = sched(&mut g.rng, len, true, 2);
                if fam == Fam::BTree && g.rng.chance(1, 6) {
                    op_into_vec(s, h)
                } else {
                    op_into(s, h, w, &sc)
                }
            }
            "cur" => {
                let c = 1 + g.rng.below(3);
                if s.curs[c].is_none() {
                    let w = if fixed { "intoiter" } else { *g.rng.pick(&INTO_ITERS) };
                    op_cnew(s, h, c, w)
                } else if g.rng.chance(1, 12) {
                    op_cdrop(s, c)
                } else {
                    let code = *g.rng.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 11, 21, 41, 51, 30, 31, 32, 33, 34]);
                    op_cstep(s, c, code)
                }
            }
            "range" | "rangem" if !fixed => {
                let (lo, hi) = g.bounds(&last, u);
                let n = 1 + g.rng.below(len.min(12) + 2);
                let sc = if g.rng.chance(1, 2) { sched(&mut g.rng, n, true, 1) } else { sched(&mut g.rng, len, true, 1) };
                let mt = g.rng.chance(1, 2).then_some(1000);
                op_range(s, h, lo, hi, mt, &sc)
            }
            "foreach" if avl => {
                let mt = g.rng.chance(1, 2).then_some(1000);
                op_foreach(s, h, mt)
            }
            "entry" if !fixed => {
                let (a, b) = g.estep();
                if g.rng.chance(1, 4) {
                    op_end_entry(s, h, g.rng.chance(1, 2), a, b)
                } else {
                    let kk = g.near(&last, u) * 100 + g.rng.below(4) as i64;
                    op_entry(s, h, kk, a, b)
                }
            }
            "rel" if !fixed && free.is_some() && g.rng.chance(1, 2) => {
                // against the same entries, put together in another way
                let n = free.unwrap();
                rebuild(s, g, kind, n, &last);
                op_rel(s, h, n);
                op_rel(s, n, h);
                op_drop(s, n)
            }
            "rel" if !fixed => {
                let o = *g.rng.pick(&live);
                op_rel(s, h, o)
            }
            "ser" if !fixed => op_ser(s, h),
            "de" if !fixed => {
                if let Some(n) = free {
                    let sc = g.script(p.u, &last, p.maxlen);
                    op_de(s, kind, n, &sc)
                }
            }
            _ => (),
        }
    }
}

impl Gen {
    pub fn script(&mut self, u: i64, last: &[Ent], maxlen: usize) -> crate::serde_io::Script {
        let k = self.rng.below(maxlen / 2 + 2);
        let mut items = match self.rng.below(3) {
            0 => last.to_vec(),
            _ => self.ents(k, u),
        };
        if self.rng.chance(1, 3) {
            items.sort();
            items.dedup_by_key(|e| e.0 / 100);
            if items.len() > 1 && self.rng.chance(1, 2) {
                // one violation of order
                let (i, j) = (self.rng.below(items.len()), self.rng.below(items.len()));
                items.swap(i, j)
            }
        }
        let n = items.len();
        let hint = match self.rng.below(8) {
            0 => None,
            1 => Some(self.rng.below(n + 1)),
            2 => Some(n + 1 + self.rng.below(n + 20)),
            3 => Some(*self.rng.pick(&[usize::MAX, usize::MAX / 2, 1 << 40, 1000, 0])),
            _ => Some(n),
        };
        let err = self.rng.chance(1, 5).then(|| self.rng.below(2 * n + 2));
        crate::serde_io::Script { hint, items, err }
    }
}
