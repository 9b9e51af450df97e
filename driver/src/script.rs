//! Histories given as text, one call per line: the tours through the
//! transition graphs that TLC prints for the structural specifications.
//! `R type kind` starts a history.  A trailing `@n` is the number of elements
//! the structural specification copies in that call; it is only counted.
use crate::api::*;
use crate::maprun::{self as mm, kind_n, BdSpec, MR};
use crate::profiles::Opt;
use crate::rec::*;
use crate::serde_io::Script;
use crate::setrun::{self as ss, SR};
use crate::stackrun::{self as kk, KR};
use std::io::BufRead;

struct Args<'a> {
    t: Vec<&'a str>,
    i: usize,
    line: &'a str,
}
impl<'a> Args<'a> {
    fn s(&mut self) -> &'a str {
        self.i += 1;
        self.t.get(self.i - 1).copied().unwrap_or_else(|| panic!("driver: script line: {}", self.line))
    }
    fn n(&mut self) -> i64 {
        let line = self.line;
        self.s().parse().unwrap_or_else(|_| panic!("driver: script line: {line}"))
    }
    fn h(&mut self) -> usize {
        self.n() as usize
    }
    fn rest(&mut self) -> Vec<i64> {
        let mut v = vec![];
        while self.i < self.t.len() {
            v.push(self.n())
        }
        v
    }
    fn pairs(&mut self) -> Vec<Ent> {
        self.rest().chunks(2).map(|c| (c[0], c[1])).collect()
    }
    fn triples(&mut self) -> Vec<(i64, i64, i64)> {
        self.rest().chunks(3).map(|c| (c[0], c[1], c[2])).collect()
    }
    fn bounds(&mut self) -> (BdSpec, BdSpec) {
        let (a, b, c, d) = (self.n(), self.n(), self.n(), self.n());
        (BdSpec(a, b), BdSpec(c, d))
    }
    fn some(&mut self) -> Option<i64> {
        match self.n() {
            0 => None,
            d => Some(d),
        }
    }
    fn estep(&mut self) -> EStep {
        let (c, x) = (self.n(), self.n());
        match c {
            1 => EStep::AndModify(x),
            2 => EStep::OrInsert(x),
            3 => EStep::OrWith(x),
            4 => EStep::OrWithKey,
            5 => EStep::OrDefault,
            6 => EStep::Key,
            _ => EStep::None,
        }
    }
    fn script(&mut self) -> Script {
        let (hint, err) = (self.n(), self.n());
        let hint = match hint {
            -1 => None,
            -2 => Some(usize::MAX),
            n => Some(n as usize),
        };
        Script { hint, items: self.pairs(), err: (err >= 0).then_some(err as usize) }
    }
}

fn map(s: &mut MR, kind: &str, a: &mut Args) {
    match a.s() {
        "new" => mm::op_new(s, a.h(), kind),
        "clone" => mm::op_clone(s, a.h(), a.h()),
        "assign" => mm::op_assign(s, a.h(), a.h()),
        "drop" => mm::op_drop(s, a.h()),
        "ins" => mm::op_insert(s, a.h(), a.n(), a.n()),
        "rem" => mm::op_remove(s, a.h(), a.n()),
        "reme" => mm::op_remove_entry(s, a.h(), a.n()),
        "popf" => mm::op_pop(s, a.h(), false),
        "popl" => mm::op_pop(s, a.h(), true),
        "clear" => mm::op_clear(s, a.h()),
        "getm" => mm::op_get_mut(s, a.h(), a.n(), a.n()),
        "index" => mm::op_index(s, a.h(), a.n()),
        "probe" => mm::op_probe(s, a.h(), &a.rest()),
        "seq" => mm::op_seq(s, a.h(), &a.triples()),
        "app" => mm::op_append(s, a.h(), a.h()),
        "ext" => {
            let (h, r) = (a.h(), a.n());
            mm::op_extend(s, h, &a.pairs(), r == 1)
        }
        "from" => {
            let (h, r) = (a.h(), a.n());
            mm::op_from(s, h, kind, &a.pairs(), r == 1)
        }
        "split" => mm::op_split_off(s, a.h(), a.n(), a.h()),
        "ret" => mm::op_retain(s, a.h(), a.n(), a.n(), a.n(), a.n()),
        "retk" => {
            let (h, d) = (a.h(), a.n());
            mm::op_retain_keys(s, h, &a.rest(), d)
        }
        "merge" => mm::op_merge(s, a.h(), a.h(), a.n() as u8),
        "join" => mm::op_join(s, a.h(), a.n(), a.n(), a.h()),
        "it" => mm::op_iter(s, a.h(), a.s(), &a.rest()),
        "itm" => mm::op_iter_mut(s, a.h(), a.s(), a.n(), &a.rest()),
        "into" => mm::op_into(s, a.h(), a.s(), &a.rest()),
        "intovec" => mm::op_into_vec(s, a.h()),
        "cnew" => mm::op_cnew(s, a.h(), a.h(), a.s()),
        "cstep" => mm::op_cstep(s, a.h(), a.n()),
        "cdrop" => mm::op_cdrop(s, a.h()),
        "range" => {
            let h = a.h();
            let (lo, hi) = a.bounds();
            let d = a.some();
            mm::op_range(s, h, lo, hi, d, &a.rest())
        }
        "fe" => mm::op_foreach(s, a.h(), a.some()),
        "entry" => mm::op_entry(s, a.h(), a.n(), a.estep(), a.estep()),
        "ee" => mm::op_end_entry(s, a.h(), a.n() == 1, a.estep(), a.estep()),
        "rel" => mm::op_rel(s, a.h(), a.h()),
        "inject" => crate::inject::map_at(s, kind, a.n() as u64, a.n()),
        "ser" => mm::op_ser(s, a.h()),
        "de" => {
            let n = a.h();
            mm::op_de(s, kind, n, &a.script())
        }
        _ => panic!("driver: script line: {}", a.line),
    }
}

fn set(s: &mut SR, kind: &str, a: &mut Args) {
    match a.s() {
        "new" => ss::op_new(s, a.h(), kind),
        "clone" => ss::op_clone(s, a.h(), a.h()),
        "assign" => ss::op_assign(s, a.h(), a.h()),
        "drop" => ss::op_drop(s, a.h()),
        "ins" => ss::op_insert(s, a.h(), a.n()),
        "repl" => ss::op_replace(s, a.h(), a.n()),
        "rem" => ss::op_remove(s, a.h(), a.n()),
        "take" => ss::op_take(s, a.h(), a.n()),
        "popf" => ss::op_pop(s, a.h(), false),
        "popl" => ss::op_pop(s, a.h(), true),
        "clear" => ss::op_clear(s, a.h()),
        "probe" => ss::op_probe(s, a.h(), &a.rest()),
        "seq" => {
            let h = a.h();
            let l: Vec<_> = a.triples().iter().map(|x| (x.0, x.1)).collect();
            ss::op_seq(s, h, &l)
        }
        "app" => ss::op_append(s, a.h(), a.h()),
        "ext" => {
            let (h, r) = (a.h(), a.n());
            ss::op_extend(s, h, &a.rest(), r == 1)
        }
        "from" => {
            let (h, r) = (a.h(), a.n());
            ss::op_from(s, h, kind, &a.rest(), r == 1)
        }
        "split" => ss::op_split_off(s, a.h(), a.n(), a.h()),
        "ret" => ss::op_retain(s, a.h(), a.n(), a.n(), a.n()),
        "retk" => {
            let h = a.h();
            ss::op_retain_keys(s, h, &a.rest())
        }
        "merge" => ss::op_merge(s, a.h(), a.h(), a.n() as u8),
        "oper" => ss::op_oper(s, a.h(), a.h(), a.n() as u8, a.h()),
        "lazy" => ss::op_lazy(s, a.h(), a.h(), a.n() as u8, &a.rest()),
        "relns" => ss::op_relations(s, a.h(), a.h()),
        "it" => ss::op_iter(s, a.h(), a.n() == 1, &a.rest()),
        "into" => ss::op_into(s, a.h(), &a.rest()),
        "cnew" => ss::op_cnew(s, a.h(), a.h()),
        "cstep" => mm::op_cstep(s, a.h(), a.n()),
        "cdrop" => mm::op_cdrop(s, a.h()),
        "range" => {
            let h = a.h();
            let (lo, hi) = a.bounds();
            ss::op_range(s, h, lo, hi, &a.rest())
        }
        "rel" => ss::op_rel(s, a.h(), a.h()),
        "inject" => crate::inject::set_at(s, kind, a.n() as u64, a.n()),
        "ser" => ss::op_ser(s, a.h()),
        "de" => {
            let n = a.h();
            ss::op_de(s, kind, n, &a.script())
        }
        _ => panic!("driver: script line: {}", a.line),
    }
}

fn stack(s: &mut KR, a: &mut Args) {
    match a.s() {
        "new" => kk::op_new(s, a.h()),
        "clone" => kk::op_clone(s, a.h(), a.h()),
        "assign" => kk::op_assign(s, a.h(), a.h()),
        "drop" => kk::op_drop(s, a.h()),
        "push" => kk::op_push(s, a.h(), a.n()),
        "pop" => kk::op_pop(s, a.h()),
        "topm" => kk::op_top_mut(s, a.h(), a.n()),
        "probe" => kk::op_probe(s, a.h(), &a.rest()),
        "clear" => kk::op_clear(s, a.h()),
        "remi" => kk::op_remove(s, a.h(), a.h()),
        "split" => kk::op_split(s, a.h(), a.h(), a.h()),
        "ext" => kk::op_extend(s, a.h(), &a.rest()),
        "from" => {
            let (h, r) = (a.h(), a.n());
            kk::op_from(s, h, &a.rest(), r == 1)
        }
        "it" => kk::op_iter(s, a.h(), a.n(), &a.rest()),
        "into" => kk::op_into(s, a.h(), &a.rest()),
        "cnew" => kk::op_cnew(s, a.h(), a.h()),
        "cstep" => mm::op_cstep(s, a.h(), a.n()),
        "cdrop" => mm::op_cdrop(s, a.h()),
        "rel" => kk::op_rel(s, a.h(), a.h()),
        _ => panic!("driver: script line: {}", a.line),
    }
}

#[derive(Default)]
pub struct Info {
    pub episodes: usize,
    pub maxlen: usize,
    /// calls with a prediction, and those that copied as many elements
    pub predicted: usize,
    pub agreed: usize,
    pub injected: usize,
}

fn history<C: Coll + ?Sized>(mut s: Run<C>, lines: &[String], w: &mut Info, mut f: impl FnMut(&mut Run<C>, &mut Args)) {
    for l in lines {
        if s.dead {
            break;
        }
        let mut t: Vec<&str> = l.split(' ').collect();
        let p = t.last().and_then(|x| x.strip_prefix('@')).map(|x| x.parse::<u64>().expect("driver: prediction"));
        if p.is_some() {
            t.pop();
        }
        f(&mut s, &mut Args { t, i: 0, line: l });
        if let Some(p) = p {
            w.predicted += 1;
            let ok = s.lastc.1.max(s.lastc.2) == p;
            w.agreed += ok as usize;
            if !ok && std::env::var("VERIF_VERBOSE").is_ok() {
                eprintln!("{l}: {:?}", s.lastc)
            }
        }
    }
    w.injected += s.injected;
    let m = s.finish();
    w.maxlen = w.maxlen.max(m);
    w.episodes += 1;
}

pub fn run(opt: &Opt, out: &mut Out) -> Info {
    let path = opt.get("in").expect("driver: --in");
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("driver: script"));
    let mut w = Info::default();
    let mut head = String::new();
    let mut buf: Vec<String> = vec![];
    let mut play = |head: &str, buf: &[String], w: &mut Info| {
        if head.is_empty() {
            return;
        }
        let p: Vec<&str> = head.split(' ').collect();
        let kind = p[2];
        let (fam, n) = kind_n(kind);
        match p[1] {
            "map" => history(MR::new(out, "map", kind, fam, n), buf, w, |s, a| map(s, kind, a)),
            "set" => history(SR::new(out, "set", kind, fam, n), buf, w, |s, a| set(s, kind, a)),
            _ => history(KR::new(out, "stack", "stack", Fam::Avl, 0), buf, w, stack),
        }
    };
    for l in f.lines() {
        let l = l.expect("driver: script");
        if l.starts_with("R ") {
            play(&head, &buf, &mut w);
            buf.clear();
            head = l;
        } else if !l.is_empty() {
            buf.push(l)
        }
    }
    play(&head, &buf, &mut w);
    w
}
