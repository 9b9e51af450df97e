//! What each profile runs.
use crate::maprun::{self, Gen, Prof};
use crate::rec::*;
use crate::{setrun, stackrun};
use std::collections::HashMap;

pub type Opt = HashMap<String, String>;
pub fn num(opt: &Opt, k: &str, d: usize) -> usize {
    opt.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("driver: bad --{k}")))
}

type Ops = &'static [(&'static str, usize)];
const COMMON: Ops = &[("clone", 4), ("drop", 2), ("new", 1), ("grow", 2), ("shrink", 2)];
const MAPS: [&str; 5] = ["avl", "bt1", "bt2", "bt3", "bt5"];
const FIX: [&str; 2] = ["fx", "fxb"];
const SETS: [&str; 4] = ["avls", "bts1", "bts2", "bts5"];

/// (type, kinds, weights)
fn table(id: &str) -> Vec<(&'static str, &'static [&'static str], Ops)> {
    const POINT: Ops = &[
        ("insert", 20), ("remove", 16), ("removee", 6), ("pop", 6), ("clear", 1), ("getmut", 6), ("index", 3), ("probe", 14), ("seq", 8), ("entry", 2),
    ];
    const SHARE: Ops = &[
        ("assign", 3), ("clone", 14), ("insert", 8), ("remove", 8), ("pop", 3), ("clear", 1), ("getmut", 4), ("seq", 3), ("append", 3), ("extend", 2),
        ("splitoff", 4), ("retain", 3), ("merge", 5), ("join", 3), ("itm", 4), ("into", 3), ("cur", 14), ("rangem", 4), ("foreach", 2),
        ("entry", 4), ("from", 1), ("probe", 2), ("it", 1), ("ser", 1), ("rel", 1),
    ];
    const BULK: Ops = &[
        ("append", 8), ("extend", 8), ("from", 8), ("splitoff", 10), ("retain", 8), ("clear", 1), ("merge", 14), ("join", 8), ("insert", 3),
        ("remove", 3), ("seq", 4), ("probe", 2), ("pop", 1), ("clone", 4),
    ];
    const ITERS: Ops = &[("it", 16), ("itm", 10), ("into", 8), ("cur", 30), ("clone", 10), ("insert", 3), ("seq", 4), ("foreach", 2), ("merge", 1), ("splitoff", 2)];
    const KITERS: Ops = &[("it", 16), ("itm", 8), ("into", 6), ("cur", 24), ("clone", 10), ("push", 20), ("extend", 4), ("split", 2), ("drop", 2)];
    const RANGES: Ops = &[("range", 40), ("insert", 4), ("remove", 3), ("seq", 4), ("splitoff", 2), ("merge", 1), ("clone", 4)];
    const SBULK: Ops = &[
        ("oper", 12), ("lazy", 16), ("relns", 16), ("merge", 8), ("append", 6), ("retain", 5), ("splitoff", 6), ("extend", 5), ("from", 14),
        ("insert", 4), ("remove", 3), ("clone", 8), ("seq", 3), ("drop", 4),
    ];
    const COST: Ops = &[
        ("insert", 14), ("remove", 14), ("pop", 8), ("probe", 10), ("getmut", 3), ("entry", 3), ("grow", 14), ("shrink", 14), ("append", 2), ("extend", 2), ("splitoff", 3),
        ("retain", 2), ("merge", 4), ("join", 3), ("de", 3), ("seq", 8), ("range", 12), ("it", 2), ("into", 1), ("cur", 2), ("from", 1), ("oper", 2), ("lazy", 2), ("relns", 1), ("ser", 1), ("clone", 3), ("clear", 1),
    ];
    const LAZY: Ops = &[
        ("assign", 3), ("clone", 14), ("insert", 12), ("remove", 12), ("pop", 6), ("getmut", 6), ("probe", 4), ("entry", 4), ("it", 3), ("range", 3), ("seq", 4),
        ("append", 2), ("splitoff", 3), ("retain", 2), ("merge", 3), ("itm", 2), ("rangem", 2), ("into", 2), ("cur", 6), ("drop", 6), ("rel", 1), ("ser", 1), ("foreach", 2), ("extend", 1), ("clear", 1),
    ];
    const ALL: Ops = &[
        ("assign", 3), ("clone", 10), ("drop", 4), ("new", 2), ("insert", 8), ("remove", 8), ("removee", 2), ("pop", 4), ("clear", 1), ("getmut", 3), ("probe", 1),
        ("seq", 4), ("append", 4), ("extend", 3), ("from", 3), ("splitoff", 4), ("retain", 4), ("merge", 6), ("join", 4), ("it", 1), ("itm", 3),
        ("into", 6), ("cur", 16), ("rangem", 3), ("foreach", 1), ("entry", 4), ("de", 3), ("ser", 1), ("rel", 1),
    ];
    const SALL: Ops = &[
        ("assign", 3), ("clone", 10), ("drop", 4), ("new", 2), ("insert", 8), ("remove", 8), ("replace", 4), ("take", 4), ("pop", 4), ("clear", 1), ("probe", 1),
        ("seq", 4), ("append", 4), ("extend", 3), ("from", 3), ("splitoff", 4), ("retain", 4), ("merge", 6), ("oper", 5), ("lazy", 1), ("relns", 1), ("it", 1),
        ("into", 6), ("cur", 16), ("de", 3), ("ser", 1), ("rel", 1), ("range", 1),
    ];
    const KALL: Ops = &[
        ("assign", 3), ("clone", 10), ("drop", 4), ("new", 1), ("push", 16), ("pop", 10), ("topm", 6), ("probe", 8), ("clear", 1), ("remove", 8), ("split", 8),
        ("extend", 3), ("from", 3), ("it", 4), ("itm", 4), ("into", 3), ("cur", 10), ("rel", 4),
    ];
    const RELS: Ops = &[
        ("rel", 30), ("clone", 6), ("insert", 6), ("remove", 6), ("seq", 4), ("merge", 2), ("splitoff", 3), ("append", 2), ("from", 6), ("getmut", 3), ("de", 1), ("retain", 1), ("replace", 3),
    ];
    const SERDE: Ops = &[("ser", 16), ("de", 30), ("insert", 4), ("remove", 4), ("seq", 4), ("clone", 2), ("splitoff", 2), ("merge", 1), ("drop", 6), ("probe", 2)];
    const ENTRY: Ops = &[("entry", 50), ("insert", 4), ("remove", 6), ("seq", 3), ("clone", 6), ("drop", 3), ("clear", 1), ("pop", 2)];
    const MUTS: Ops = &[("getmut", 12), ("itm", 20), ("rangem", 20), ("foreach", 8), ("clone", 12), ("drop", 4), ("seq", 3), ("insert", 3), ("remove", 2), ("probe", 2), ("entry", 4), ("splitoff", 2), ("append", 1)];
    const KMUTS: Ops = &[("clone", 10), ("drop", 4), ("push", 8), ("pop", 6), ("topm", 14), ("itm", 20), ("split", 3), ("extend", 2)];
    const SPOINT: Ops = &[
        ("insert", 20), ("remove", 12), ("replace", 14), ("take", 12), ("pop", 8), ("clear", 1), ("probe", 16), ("seq", 8), ("clone", 6), ("drop", 4), ("splitoff", 1), ("oper", 1),
    ];
    const FIXED: Ops = &[
        ("insert", 16), ("remove", 14), ("probe", 8), ("getmut", 5), ("extend", 3), ("from", 3), ("clone", 8), ("clear", 1), ("drop", 4), ("it", 8),
        ("itm", 6), ("into", 5), ("cur", 14), ("seq", 8), ("grow", 8), ("shrink", 8),
    ];
    match id {
        "C01" => vec![("map", &MAPS, POINT)],
        "C02" => vec![("map", &MAPS, SHARE), ("map", &FIX, FIXED), ("set", &SETS, SALL), ("stack", &["stack"], KALL)],
        "C03" => vec![("map", &MAPS, BULK)],
        "C04" => vec![("map", &MAPS, ITERS), ("set", &SETS, ITERS), ("stack", &["stack"], KITERS), ("map", &FIX, FIXED)],
        "C05" => vec![("map", &MAPS, RANGES), ("set", &SETS, RANGES)],
        "C06" => vec![("set", &SETS, SBULK)],
        "C07" => vec![("map", &MAPS, COST), ("set", &SETS, COST), ("map", &FIX, FIXED)],
        "C08" => vec![("map", &MAPS, LAZY), ("set", &SETS, LAZY), ("stack", &["stack"], KALL)],
        "C09" => vec![("map", &MAPS, ALL), ("set", &SETS, SALL), ("stack", &["stack"], KALL), ("map", &FIX, FIXED)],
        "C10" => vec![("stack", &["stack"], KALL)],
        "C12" => vec![("map", &MAPS, RELS), ("set", &SETS, RELS)],
        "C13" => vec![("map", &MAPS, SERDE), ("set", &SETS, SERDE)],
        "C16" => vec![("map", &FIX, FIXED)],
        "C17" => vec![("map", &MAPS, ENTRY)],
        "C18" => vec![("map", &MAPS, MUTS), ("stack", &["stack"], KMUTS), ("map", &FIX, FIXED)],
        "C19" => vec![("set", &SETS, SPOINT)],
        _ => panic!("driver: unknown profile {id}"),
    }
}

/// Seeded random histories until the shard's event budget is used up.
fn random(id: &str, opt: &Opt, out: &mut Out) -> (usize, usize) {
    let seed = num(opt, "seed", 1);
    let shard = num(opt, "shard", 0);
    let shards = num(opt, "shards", 1);
    let budget = num(opt, "budget", 2000);
    let only = opt.get("kind").cloned().unwrap_or_default();
    let t = table(id);
    let pairs: Vec<_> = t.iter().flat_map(|x| x.1.iter().map(|k| (x.0, *k, x.2))).filter(|p| only.is_empty() || p.1 == only).collect();
    let (mut episodes, mut maxlen) = (0, 0);
    let mut i = shard;
    while out.events < budget {
        let mut g = Gen { rng: Rng::new((seed as u64) << 32 | i as u64), v: 0 };
        let (ty, kind, ops) = pairs[i % pairs.len()];
        let size = g.rng.below(20);
        let (u, init, maxl, steps) = match size {
            0..=4 => (8, 0, 8, 120),
            5..=10 => (30, g.rng.below(25), 30, 160),
            11..=15 => (120, 20 + g.rng.below(80), 110, 150),
            16..=18 => (500, 100 + g.rng.below(200), 330, 120),
            _ => (3000, 500 + g.rng.below(500), 1000, 60),
        };
        let mut w: Vec<(&'static str, usize)> = ops.to_vec();
        if ty != "stack" {
            for c in COMMON {
                if !w.iter().any(|o| o.0 == c.0) {
                    w.push(*c)
                }
            }
        }
        let p = Prof { ops: w, steps, u, init, maxlen: maxl };
        let m = match ty {
            "map" => maprun::random_history(out, &mut g, kind, &p),
            "set" => setrun::random_history(out, &mut g, kind, &p),
            _ => {
                let p = Prof { init: init.min(60), u: if size % 2 == 0 { 4 } else { u }, ..p };
                stackrun::random_history(out, &mut g, &p)
            }
        };
        maxlen = maxlen.max(m);
        episodes += 1;
        i += shards;
    }
    (episodes, maxlen)
}

pub fn main(id: &str, opt: &Opt) {
    let path = opt.get("out").expect("driver: --out").clone();
    let mut out = Out::new(&path);
    let mut extra = String::new();
    let (episodes, maxlen) = match id {
        "C14" => {
            let (e, m, inj) = crate::inject::random(opt, &mut out);
            extra = format!(r#","injected":{inj}"#);
            (e, m)
        }
        "C11" => crate::deep::random(opt, &mut out),
        "script" => {
            let i = crate::script::run(opt, &mut out);
            extra = format!(r#","predicted":{},"agreed":{},"injected":{}"#, i.predicted, i.agreed, i.injected);
            (i.episodes, i.maxlen)
        }
        _ => random(id, opt, &mut out),
    };
    out.flush();
    println!(r#"{{"events":{},"episodes":{episodes},"maxlen":{maxlen},"bytes":{}{extra}}}"#, out.events, out.bytes);
}
