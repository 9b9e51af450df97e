//! Object-safe views of the collections under test.
use crate::elem::*;
use lazy_clone_collections::{btree, AvlMap, AvlSet, Map, Set};
use std::any::Any;
use std::ops::Bound;

pub type Bd = Bound<Core>;
pub type Ent = (i64, i64);

/// One running iteration: items are printed as small integer lists.
pub trait Session {
    fn next(&mut self) -> Option<Vec<i64>>;
    fn back(&mut self) -> Option<Vec<i64>>;
    fn nth(&mut self, n: usize) -> Option<Vec<i64>>;
    fn nth_back(&mut self, n: usize) -> Option<Vec<i64>>;
    /// the n-th element that is left, by `find` and `rfind`
    fn find(&mut self, n: usize) -> Option<Vec<i64>>;
    fn rfind(&mut self, n: usize) -> Option<Vec<i64>>;
    // the rest, by the method of that name
    fn count(&mut self) -> i64;
    fn last(&mut self) -> Option<Vec<i64>>;
    fn fold(&mut self) -> Vec<i64>;
    fn rfold(&mut self) -> Vec<i64>;
    fn collect(&mut self) -> Vec<i64>;
    /// exact length, where the iterator claims to know it
    fn len(&self) -> Option<usize>;
    fn hint(&self) -> (usize, Option<usize>);
    fn double_ended(&self) -> bool;
}

/// The iterator sits in an option, since some ways to consume it take it by
/// value; afterwards it counts as exhausted.
macro_rules! session {
    ($name:ident, $st:ident, [$($b:tt)*], $de:expr, |$s:ident| $len:expr, ($bk:ident) $back:expr, ($nb:ident, $nn:ident) $nthb:expr, ($rb:ident, $rn:ident) $rfind:expr, ($fb:ident, $ff:ident) $rfold:expr) => {
        pub struct $st<I, F>(Option<I>, F);
        #[allow(non_snake_case)]
        pub fn $name<I, F>(i: I, f: F) -> $st<I, F> {
            $st(Some(i), f)
        }
        impl<T, I: $($b)* + Iterator<Item = T>, F: FnMut(T) -> Vec<i64>> Session for $st<I, F> {
            fn next(&mut self) -> Option<Vec<i64>> { self.0.as_mut()?.next().map(&mut self.1) }
            fn back(&mut self) -> Option<Vec<i64>> { let $bk = self.0.as_mut()?; $back.map(&mut self.1) }
            fn nth(&mut self, n: usize) -> Option<Vec<i64>> { self.0.as_mut()?.nth(n).map(&mut self.1) }
            fn nth_back(&mut self, $nn: usize) -> Option<Vec<i64>> { let $nb = self.0.as_mut()?; $nthb.map(&mut self.1) }
            fn find(&mut self, n: usize) -> Option<Vec<i64>> {
                let mut i = 0;
                self.0.as_mut()?.find(|_| { i += 1; i > n }).map(&mut self.1)
            }
            fn rfind(&mut self, n: usize) -> Option<Vec<i64>> {
                let mut i = 0;
                let $rn = |_: &T| { i += 1; i > n };
                let $rb = self.0.as_mut()?;
                $rfind.map(&mut self.1)
            }
            fn count(&mut self) -> i64 { self.0.take().map_or(0, |i| i.count() as i64) }
            fn last(&mut self) -> Option<Vec<i64>> { self.0.take()?.last().map(&mut self.1) }
            fn fold(&mut self) -> Vec<i64> {
                let mut l = vec![];
                if let Some(i) = self.0.take() { i.for_each(|x| l.extend((self.1)(x))) }
                l
            }
            fn rfold(&mut self) -> Vec<i64> {
                let mut l = vec![];
                if let Some($fb) = self.0.take() {
                    let mut $ff = |x| l.extend((self.1)(x));
                    $rfold
                }
                l
            }
            fn collect(&mut self) -> Vec<i64> {
                self.0.take().map_or(vec![], |i| { let l: Vec<T> = i.collect(); l.into_iter().flat_map(&mut self.1).collect() })
            }
            fn len(&self) -> Option<usize> { match &self.0 { Some($s) => $len, None => $de.1.then_some(0) } }
            fn hint(&self) -> (usize, Option<usize>) { self.0.as_ref().map_or((0, Some(0)), |i| i.size_hint()) }
            fn double_ended(&self) -> bool { $de.0 }
        }
    };
}
session!(SDE, SDEs, [DoubleEndedIterator + ExactSizeIterator], (true, true), |s| Some(s.len()), (b) b.next_back(), (b, n) b.nth_back(n), (b, f) b.rfind(f), (b, f) b.rfold((), |_, x| f(x)));
session!(SD, SDs, [DoubleEndedIterator], (true, false), |_s| None, (b) b.next_back(), (b, n) b.nth_back(n), (b, f) b.rfind(f), (b, f) b.rfold((), |_, x| f(x)));
session!(SE, SEs, [ExactSizeIterator], (false, true), |s| Some(s.len()), (b) b.next(), (b, n) b.nth(n), (b, f) b.find(f), (b, f) b.fold((), |_, x| f(x)));
session!(SN, SNs, [Iterator], (false, false), |_s| None, (b) b.next(), (b, n) b.nth(n), (b, f) b.find(f), (b, f) b.fold((), |_, x| f(x)));

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam { Avl, BTree, Fixed }

pub fn ov(o: Option<Val>) -> Option<i64> {
    o.map(|v| v.v())
}

/// What an `entry` chain does; see `maprun::entry`.
#[derive(Clone, Copy)]
pub enum EStep { AndModify(i64), OrInsert(i64), OrWith(i64), OrWithKey, OrDefault, Key, None }

pub struct EntryOut {
    pub key: Option<i64>,
    pub modified: i64,
    pub calls: i64,
    pub val: Option<i64>,
}

/// Maps: AvlMap, btree::BTreeMap<N>, btree::fixed::BTreeMap.
pub trait DMap {
    fn any(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn any_ref(&self) -> &dyn Any;
    fn fam(&self) -> Fam;
    fn dup(&self) -> Box<dyn DMap>;
    fn assign(&mut self, o: &dyn DMap);
    fn fresh(&self) -> Box<dyn DMap>;
    fn contents(&self) -> Vec<Ent>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn check(&self) -> bool { true }
    fn get(&self, c: &Core) -> Option<i64>;
    fn get_mut(&mut self, c: &Core, d: i64) -> Option<i64>;
    fn contains(&self, c: &Core) -> bool { self.get(c).is_some() }
    fn get_kv(&self, _c: &Core) -> Option<Ent> { unreachable!() }
    fn index(&self, _c: &Core) -> i64 { unreachable!() }
    fn first(&self) -> Option<Ent> { unreachable!() }
    fn last(&self) -> Option<Ent> { unreachable!() }
    fn insert(&mut self, kk: i64, v: i64) -> Option<i64>;
    fn remove(&mut self, c: &Core) -> Option<i64>;
    fn remove_entry(&mut self, _c: &Core) -> Option<Ent> { unreachable!() }
    fn pop_first(&mut self) -> Option<Ent> { unreachable!() }
    fn pop_last(&mut self) -> Option<Ent> { unreachable!() }
    fn clear(&mut self);
    fn append(&mut self, _o: &mut dyn DMap) { unreachable!() }
    fn extend(&mut self, l: &[Ent]);
    fn extend_refs(&mut self, _l: &[Ent]) { unreachable!() }
    fn collect_new(&self, l: &[Ent]) -> Box<dyn DMap>;
    fn from_array(&self, _l: &[Ent]) -> Box<dyn DMap> { unreachable!() }
    fn split_off(&mut self, _c: &Core) -> Box<dyn DMap> { unreachable!() }
    fn retain(&mut self, _f: &mut dyn FnMut(i64, &mut Val) -> bool) { unreachable!() }
    fn iter<'a>(&'a self) -> Box<dyn Session + 'a>;
    fn ref_iter<'a>(&'a self) -> Box<dyn Session + 'a> { self.iter() }
    fn iter_mut<'a>(&'a mut self, d: i64) -> Box<dyn Session + 'a>;
    fn mut_iter<'a>(&'a mut self, d: i64) -> Box<dyn Session + 'a> { self.iter_mut(d) }
    fn keys<'a>(&'a self) -> Box<dyn Session + 'a> { unreachable!() }
    fn values<'a>(&'a self) -> Box<dyn Session + 'a> { unreachable!() }
    fn values_mut<'a>(&'a mut self, _d: i64) -> Box<dyn Session + 'a> { unreachable!() }
    fn into_iter(self: Box<Self>) -> Box<dyn Session>;
    fn into_keys(self: Box<Self>) -> Box<dyn Session> { unreachable!() }
    fn into_values(self: Box<Self>) -> Box<dyn Session> { unreachable!() }
    fn into_vec(self: Box<Self>) -> Option<Vec<Ent>> { None }
    fn range<'a>(&'a self, _b: (Bd, Bd)) -> Box<dyn Session + 'a> { unreachable!() }
    fn range_mut<'a>(&'a mut self, _b: (Bd, Bd), _d: i64) -> Box<dyn Session + 'a> { unreachable!() }
    fn for_each(&self, _f: &mut dyn FnMut(i64, i64)) { unreachable!() }
    fn for_each_mut(&mut self, _f: &mut dyn FnMut(i64, &mut Val)) { unreachable!() }
    /// merges of whole maps: 0 union 1 intersect 2 diff 3 sym_diff
    fn merge(self: Box<Self>, _o: Box<dyn DMap>, _which: u8) -> Box<dyn DMap> { unreachable!() }
    fn join(self: Box<Self>, _kk: i64, _v: i64, _o: Box<dyn DMap>) -> Box<dyn DMap> { unreachable!() }
    fn entry(&mut self, _kk: i64, _first: EStep, _second: EStep) -> EntryOut { unreachable!() }
    fn end_entry(&mut self, _last: bool, _first: EStep, _second: EStep) -> Option<EntryOut> { unreachable!() }
    /// [eq, ne, cmp, partial_cmp, lt, hash equal] ; cmp as -1/0/1, hash -1 if not hashable
    fn rel(&self, _o: &dyn DMap) -> Vec<i64> { unreachable!() }
    fn debug(&self, _alt: bool) -> String { unreachable!() }
    fn serialize(&self) -> crate::serde_io::Ser { unreachable!() }
    fn deserialize(&self, _s: &crate::serde_io::Script) -> Result<Box<dyn DMap>, String> { unreachable!() }
}

/// Sets: AvlSet, BTreeSet<N>.
pub trait DSet {
    fn any(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn any_ref(&self) -> &dyn Any;
    fn fam(&self) -> Fam;
    fn dup(&self) -> Box<dyn DSet>;
    fn assign(&mut self, o: &dyn DSet);
    fn fresh(&self) -> Box<dyn DSet>;
    fn contents(&self) -> Vec<Ent>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn check(&self) -> bool;
    fn contains(&self, c: &Core) -> bool;
    fn get(&self, c: &Core) -> Option<i64>;
    fn first(&self) -> Option<i64>;
    fn last(&self) -> Option<i64>;
    fn insert(&mut self, kk: i64) -> bool;
    fn replace(&mut self, kk: i64) -> Option<i64>;
    fn remove(&mut self, c: &Core) -> bool;
    fn take(&mut self, c: &Core) -> Option<i64>;
    fn pop_first(&mut self) -> Option<i64>;
    fn pop_last(&mut self) -> Option<i64>;
    fn clear(&mut self);
    fn append(&mut self, o: &mut dyn DSet);
    fn extend(&mut self, l: &[i64]);
    fn extend_refs(&mut self, l: &[i64]);
    fn collect_new(&self, l: &[i64]) -> Box<dyn DSet>;
    fn from_array(&self, l: &[i64]) -> Box<dyn DSet>;
    fn split_off(&mut self, c: &Core) -> Box<dyn DSet>;
    fn retain(&mut self, f: &mut dyn FnMut(i64) -> bool);
    fn iter<'a>(&'a self) -> Box<dyn Session + 'a>;
    fn ref_iter<'a>(&'a self) -> Box<dyn Session + 'a>;
    fn into_iter(self: Box<Self>) -> Box<dyn Session>;
    fn range<'a>(&'a self, b: (Bd, Bd)) -> Box<dyn Session + 'a>;
    /// lazy set operations: 0 union 1 intersection 2 difference 3 symmetric_difference
    fn lazy<'a>(&'a self, o: &'a dyn DSet, which: u8) -> Box<dyn Session + 'a>;
    /// operators on references, same numbering
    fn oper(&self, o: &dyn DSet, which: u8) -> Box<dyn DSet>;
    fn merge(self: Box<Self>, o: Box<dyn DSet>, which: u8) -> Box<dyn DSet>;
    /// [subset, superset, disjoint]
    fn relations(&self, o: &dyn DSet) -> Vec<i64>;
    fn rel(&self, o: &dyn DSet) -> Vec<i64>;
    fn debug(&self, alt: bool) -> String;
    fn serialize(&self) -> crate::serde_io::Ser;
    fn deserialize(&self, s: &crate::serde_io::Script) -> Result<Box<dyn DSet>, String>;
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn sg(o: std::cmp::Ordering) -> i64 {
    o as i8 as i64
}
pub fn rels<T: Ord>(a: &T, b: &T, hash: Option<bool>) -> Vec<i64> {
    vec![
        (a == b) as i64,
        (a != b) as i64,
        sg(a.cmp(b)),
        a.partial_cmp(b).map_or(7, sg),
        (a < b) as i64,
        hash.map_or(-1, |b| b as i64),
    ]
}

fn kv_ref<const P: usize>(e: (&Key<P>, &Val)) -> Vec<i64> {
    vec![e.0.kk(), e.1.v()]
}
fn kv_own<const P: usize>(e: (Key<P>, Val)) -> Vec<i64> {
    vec![e.0.kk(), e.1.v()]
}
fn ent<const P: usize>(e: (&Key<P>, &Val)) -> Ent {
    (e.0.kk(), e.1.v())
}
fn ent_own<const P: usize>(e: (Key<P>, Val)) -> Ent {
    (e.0.kk(), e.1.v())
}


/// Runs `entry.first.second` and reads the value the chain ends with.
macro_rules! entry_chain {
    ($e:expr, $first:expr, $second:expr) => {{
        let mut e = $e;
        let calls = std::cell::Cell::new(0i64);
        let modified = std::cell::Cell::new(0i64);
        let key = Some(e.key().kk());
        let mut val: Option<i64> = None;
        if let EStep::AndModify(d) = $first {
            e = e.and_modify(|v| {
                tick(K_CLOSURE);
                modified.set(modified.get() + 1);
                v.add(d)
            });
        }
        match $second {
            EStep::AndModify(d) => {
                let _ = e.and_modify(|v| {
                    tick(K_CLOSURE);
                    modified.set(modified.get() + 1);
                    v.add(d)
                });
            }
            EStep::OrInsert(x) => {
                let r = e.or_insert(crate::elem::val(x));
                r.add(1000);
                val = Some(r.v())
            }
            EStep::OrWith(x) => {
                let r = e.or_insert_with(|| {
                    tick(K_CLOSURE);
                    calls.set(calls.get() + 1);
                    crate::elem::val(x)
                });
                r.add(1000);
                val = Some(r.v())
            }
            EStep::OrWithKey => {
                let r = e.or_insert_with_key(|k| {
                    tick(K_CLOSURE);
                    calls.set(calls.get() + 1);
                    crate::elem::val(k.kk())
                });
                r.add(1000);
                val = Some(r.v())
            }
            EStep::OrDefault => {
                let r = e.or_default();
                r.add(1000);
                val = Some(r.v())
            }
            EStep::Key | EStep::None => drop(e),
        }
        EntryOut { key, modified: modified.get(), calls: calls.get(), val }
    }};
}

macro_rules! map_common {
    ($ty:ty, $P:literal, $fam:expr) => {
        fn any(&mut self) -> &mut dyn Any { self }
        fn into_any(self: Box<Self>) -> Box<dyn Any> { self }
        fn any_ref(&self) -> &dyn Any { self }
        fn fam(&self) -> Fam { $fam }
        fn dup(&self) -> Box<dyn DMap> { Box::new(self.clone()) }
        fn assign(&mut self, o: &dyn DMap) { self.clone_from(o.any_ref().downcast_ref::<$ty>().unwrap()) }
        fn fresh(&self) -> Box<dyn DMap> { Box::new(<$ty>::new()) }
        fn contents(&self) -> Vec<Ent> { <$ty>::iter(self).map(ent).collect() }
        fn len(&self) -> usize { <$ty>::len(self) }
        fn is_empty(&self) -> bool { <$ty>::is_empty(self) }
        fn get(&self, c: &Core) -> Option<i64> { <$ty>::get(self, c).map(|v| v.v()) }
        fn get_mut(&mut self, c: &Core, d: i64) -> Option<i64> {
            <$ty>::get_mut(self, c).map(|v| { v.add(d); v.v() })
        }
        fn insert(&mut self, kk: i64, v: i64) -> Option<i64> { ov(<$ty>::insert(self, key::<$P>(kk), val(v))) }
        fn remove(&mut self, c: &Core) -> Option<i64> { ov(<$ty>::remove(self, c)) }
        fn clear(&mut self) { <$ty>::clear(self) }
        fn extend(&mut self, l: &[Ent]) { Extend::extend(self, l.iter().map(|e| (key::<$P>(e.0), val(e.1)))) }
        fn collect_new(&self, l: &[Ent]) -> Box<dyn DMap> {
            Box::new(l.iter().map(|e| (key::<$P>(e.0), val(e.1))).collect::<$ty>())
        }
        fn iter<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new(SDE(<$ty>::iter(self), kv_ref)) }
        fn iter_mut<'a>(&'a mut self, d: i64) -> Box<dyn Session + 'a> {
            Box::new(SDE(<$ty>::iter_mut(self), move |(k, v): (&Key<$P>, &mut Val)| { v.add(d); vec![k.kk(), v.v()] }))
        }
        fn into_iter(self: Box<Self>) -> Box<dyn Session> { Box::new(SDE(IntoIterator::into_iter(*self), kv_own)) }
    };
}

macro_rules! map_full {
    ($ty:ty) => {
        fn check(&self) -> bool { Map::check(self).is_ok() }
        fn contains(&self, c: &Core) -> bool { <$ty>::contains_key(self, c) }
        fn get_kv(&self, c: &Core) -> Option<Ent> { <$ty>::get_key_value(self, c).map(ent) }
        fn first(&self) -> Option<Ent> { <$ty>::first_key_value(self).map(ent) }
        fn last(&self) -> Option<Ent> { <$ty>::last_key_value(self).map(ent) }
        fn pop_first(&mut self) -> Option<Ent> { <$ty>::pop_first(self).map(ent_own) }
        fn pop_last(&mut self) -> Option<Ent> { <$ty>::pop_last(self).map(ent_own) }
        fn append(&mut self, o: &mut dyn DMap) { <$ty>::append(self, o.any().downcast_mut::<$ty>().unwrap()) }
        fn from_array(&self, l: &[Ent]) -> Box<dyn DMap> {
            let mk = |i: usize| (key::<0>(l[i].0), val(l[i].1));
            Box::new(match l.len() {
                0 => <$ty>::from([]),
                1 => <$ty>::from([mk(0)]),
                2 => <$ty>::from([mk(0), mk(1)]),
                3 => <$ty>::from([mk(0), mk(1), mk(2)]),
                _ => <$ty>::from([mk(0), mk(1), mk(2), mk(3), mk(4)]),
            })
        }
        fn split_off(&mut self, c: &Core) -> Box<dyn DMap> { Box::new(<$ty>::split_off(self, c)) }
        fn retain(&mut self, f: &mut dyn FnMut(i64, &mut Val) -> bool) {
            <$ty>::retain(self, |k, v| { tick(K_CLOSURE); f(k.kk(), v) })
        }
        fn ref_iter<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new(SDE(IntoIterator::into_iter(self), kv_ref)) }
        fn mut_iter<'a>(&'a mut self, d: i64) -> Box<dyn Session + 'a> {
            Box::new(SDE(IntoIterator::into_iter(self), move |(k, v): (&Key<0>, &mut Val)| { v.add(d); vec![k.kk(), v.v()] }))
        }
        fn keys<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new(SDE(<$ty>::keys(self), |k: &Key<0>| vec![k.kk()])) }
        fn values<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new(SDE(<$ty>::values(self), |v: &Val| vec![v.v()])) }
        fn values_mut<'a>(&'a mut self, d: i64) -> Box<dyn Session + 'a> {
            Box::new(SDE(<$ty>::values_mut(self), move |v: &mut Val| { v.add(d); vec![v.v()] }))
        }
        fn into_keys(self: Box<Self>) -> Box<dyn Session> { Box::new(SDE(<$ty>::into_keys(*self), |k: Key<0>| vec![k.kk()])) }
        fn into_values(self: Box<Self>) -> Box<dyn Session> { Box::new(SDE(<$ty>::into_values(*self), |v: Val| vec![v.v()])) }
        fn range<'a>(&'a self, b: (Bd, Bd)) -> Box<dyn Session + 'a> { Box::new(SD(<$ty>::range::<Core, _>(self, b), kv_ref)) }
        fn range_mut<'a>(&'a mut self, b: (Bd, Bd), d: i64) -> Box<dyn Session + 'a> {
            Box::new(SD(<$ty>::range_mut::<Core, _>(self, b), move |(k, v): (&Key<0>, &mut Val)| { v.add(d); vec![k.kk(), v.v()] }))
        }
        fn entry(&mut self, kk: i64, first: EStep, second: EStep) -> EntryOut {
            entry_chain!(<$ty>::entry(self, key::<0>(kk)), first, second)
        }
        fn end_entry(&mut self, last: bool, first: EStep, second: EStep) -> Option<EntryOut> {
            let e = if last { <$ty>::last_entry(self) } else { <$ty>::first_entry(self) };
            e.map(|e| entry_chain!(e, first, second))
        }
        fn debug(&self, alt: bool) -> String { if alt { format!("{:#?}", self) } else { format!("{:?}", self) } }
        fn serialize(&self) -> crate::serde_io::Ser { crate::serde_io::serialize(self) }
        fn deserialize(&self, s: &crate::serde_io::Script) -> Result<Box<dyn DMap>, String> {
            crate::serde_io::deserialize::<$ty>(s).map(|m| Box::new(m) as Box<dyn DMap>)
        }
    };
}

pub type Avl = AvlMap<Key<0>, Val>;
impl DMap for Avl {
    map_common!(Avl, 0, Fam::Avl);
    map_full!(Avl);
    fn index(&self, c: &Core) -> i64 { self[c].v() }
    fn remove_entry(&mut self, c: &Core) -> Option<Ent> { Avl::remove_entry(self, c).map(ent_own) }
    fn extend_refs(&mut self, l: &[Ent]) {
        let own: Vec<_> = l.iter().map(|e| (key::<0>(e.0), val(e.1))).collect();
        Extend::extend(self, own.iter().map(|e| (&e.0, &e.1)))
    }
    fn for_each(&self, f: &mut dyn FnMut(i64, i64)) {
        Avl::for_each(self, |(k, v)| { tick(K_CLOSURE); f(k.kk(), v.v()) })
    }
    fn for_each_mut(&mut self, f: &mut dyn FnMut(i64, &mut Val)) {
        Avl::for_each_mut(self, |(k, v)| { tick(K_CLOSURE); f(k.kk(), v) })
    }
    fn merge(self: Box<Self>, o: Box<dyn DMap>, which: u8) -> Box<dyn DMap> {
        let o = *o.into_any().downcast::<Avl>().unwrap();
        Box::new(match which {
            0 => Avl::new_union(*self, o),
            1 => Avl::new_intersect(*self, o),
            2 => Avl::new_diff(*self, o),
            _ => Avl::new_sym_diff(*self, o),
        })
    }
    fn join(self: Box<Self>, kk: i64, v: i64, o: Box<dyn DMap>) -> Box<dyn DMap> {
        let o = *o.into_any().downcast::<Avl>().unwrap();
        Box::new(Avl::new_join(*self, key::<0>(kk), val(v), o))
    }
    fn rel(&self, o: &dyn DMap) -> Vec<i64> {
        let o = o.any_ref().downcast_ref::<Avl>().unwrap();
        rels(self, o, Some(hash_of(self) == hash_of(o)))
    }
}

macro_rules! bt_map {
    ($name:ident, $N:literal) => {
        pub type $name = btree::BTreeMap<Key<0>, Val, $N>;
        impl DMap for $name {
            map_common!($name, 0, Fam::BTree);
            map_full!($name);
            fn rel(&self, o: &dyn DMap) -> Vec<i64> {
                rels(self, o.any_ref().downcast_ref::<$name>().unwrap(), None)
            }
            fn into_vec(self: Box<Self>) -> Option<Vec<Ent>> {
                let v: Vec<(Key<0>, Val)> = (*self).into();
                Some(v.into_iter().map(ent_own).collect())
            }
        }
    };
}
bt_map!(Bt1, 1);
bt_map!(Bt2, 2);
bt_map!(Bt3, 3);
bt_map!(Bt5, 5);

macro_rules! fx_map {
    ($name:ident, $P:literal) => {
        pub type $name = btree::fixed::BTreeMap<Key<$P>, Val>;
        impl DMap for $name {
            map_common!($name, $P, Fam::Fixed);
        }
    };
}
fx_map!(Fx0, 0);
fx_map!(Fx16, 16);

macro_rules! set_impl {
    ($name:ident, $ty:ty, $fam:expr, $It:ident, $II:ident) => {
        pub type $name = $ty;
        impl DSet for $name {
            fn any(&mut self) -> &mut dyn Any { self }
            fn into_any(self: Box<Self>) -> Box<dyn Any> { self }
            fn any_ref(&self) -> &dyn Any { self }
            fn fam(&self) -> Fam { $fam }
            fn dup(&self) -> Box<dyn DSet> { Box::new(self.clone()) }
            fn assign(&mut self, o: &dyn DSet) { self.clone_from(o.any_ref().downcast_ref::<$name>().unwrap()) }
            fn fresh(&self) -> Box<dyn DSet> { Box::new(<$name>::default()) }
            fn contents(&self) -> Vec<Ent> { <$name>::iter(self).map(|k| (k.kk(), 0)).collect() }
            fn len(&self) -> usize { <$name>::len(self) }
            fn is_empty(&self) -> bool { <$name>::is_empty(self) }
            fn check(&self) -> bool { Set::check(self).is_ok() }
            fn contains(&self, c: &Core) -> bool { <$name>::contains(self, c) }
            fn get(&self, c: &Core) -> Option<i64> { <$name>::get(self, c).map(|k| k.kk()) }
            fn first(&self) -> Option<i64> { <$name>::first(self).map(|k| k.kk()) }
            fn last(&self) -> Option<i64> { <$name>::last(self).map(|k| k.kk()) }
            fn insert(&mut self, kk: i64) -> bool { <$name>::insert(self, key::<0>(kk)) }
            fn replace(&mut self, kk: i64) -> Option<i64> { <$name>::replace(self, key::<0>(kk)).map(|k| k.kk()) }
            fn remove(&mut self, c: &Core) -> bool { <$name>::remove(self, c) }
            fn take(&mut self, c: &Core) -> Option<i64> { <$name>::take(self, c).map(|k| k.kk()) }
            fn pop_first(&mut self) -> Option<i64> { <$name>::pop_first(self).map(|k| k.kk()) }
            fn pop_last(&mut self) -> Option<i64> { <$name>::pop_last(self).map(|k| k.kk()) }
            fn clear(&mut self) { <$name>::clear(self) }
            fn append(&mut self, o: &mut dyn DSet) { <$name>::append(self, o.any().downcast_mut::<$name>().unwrap()) }
            fn extend(&mut self, l: &[i64]) { Extend::extend(self, l.iter().map(|&k| key::<0>(k))) }
            fn extend_refs(&mut self, l: &[i64]) {
                let own: Vec<Key<0>> = l.iter().map(|&k| key::<0>(k)).collect();
                Extend::extend(self, own.iter())
            }
            fn collect_new(&self, l: &[i64]) -> Box<dyn DSet> { Box::new(l.iter().map(|&k| key::<0>(k)).collect::<$name>()) }
            fn from_array(&self, l: &[i64]) -> Box<dyn DSet> {
                let mk = |i: usize| key::<0>(l[i]);
                Box::new(match l.len() {
                    0 => <$name>::from([]),
                    1 => <$name>::from([mk(0)]),
                    2 => <$name>::from([mk(0), mk(1)]),
                    3 => <$name>::from([mk(0), mk(1), mk(2)]),
                    _ => <$name>::from([mk(0), mk(1), mk(2), mk(3), mk(4)]),
                })
            }
            fn split_off(&mut self, c: &Core) -> Box<dyn DSet> { Box::new(<$name>::split_off(self, c)) }
            fn retain(&mut self, f: &mut dyn FnMut(i64) -> bool) {
                <$name>::retain(self, |k| { tick(K_CLOSURE); f(k.kk()) })
            }
            fn iter<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new($It(<$name>::iter(self), |k: &Key<0>| vec![k.kk()])) }
            fn ref_iter<'a>(&'a self) -> Box<dyn Session + 'a> { Box::new($It(IntoIterator::into_iter(self), |k: &Key<0>| vec![k.kk()])) }
            fn into_iter(self: Box<Self>) -> Box<dyn Session> { Box::new($II(IntoIterator::into_iter(*self), |k: Key<0>| vec![k.kk()])) }
            fn range<'a>(&'a self, b: (Bd, Bd)) -> Box<dyn Session + 'a> { Box::new(SD(<$name>::range::<Core, _>(self, b), |k: &Key<0>| vec![k.kk()])) }
            fn lazy<'a>(&'a self, o: &'a dyn DSet, which: u8) -> Box<dyn Session + 'a> {
                let o = o.any_ref().downcast_ref::<$name>().unwrap();
                match which {
                    0 => Box::new(SN(<$name>::union(self, o), |k: &Key<0>| vec![k.kk()])),
                    1 => Box::new(SN(<$name>::intersection(self, o), |k: &Key<0>| vec![k.kk()])),
                    2 => Box::new(SN(<$name>::difference(self, o), |k: &Key<0>| vec![k.kk()])),
                    _ => Box::new(SN(<$name>::symmetric_difference(self, o), |k: &Key<0>| vec![k.kk()])),
                }
            }
            fn oper(&self, o: &dyn DSet, which: u8) -> Box<dyn DSet> {
                let o = o.any_ref().downcast_ref::<$name>().unwrap();
                Box::new(match which { 0 => self | o, 1 => self & o, 2 => self - o, _ => self ^ o })
            }
            fn merge(self: Box<Self>, o: Box<dyn DSet>, which: u8) -> Box<dyn DSet> {
                let o = *o.into_any().downcast::<$name>().unwrap();
                Box::new(match which {
                    0 => <$name>::new_union(*self, o),
                    1 => <$name>::new_intersection(*self, o),
                    2 => <$name>::new_diff(*self, o),
                    _ => <$name>::new_sym_diff(*self, o),
                })
            }
            fn relations(&self, o: &dyn DSet) -> Vec<i64> {
                let o = o.any_ref().downcast_ref::<$name>().unwrap();
                vec![self.is_subset(o) as i64, self.is_superset(o) as i64, self.is_disjoint(o) as i64]
            }
            fn rel(&self, o: &dyn DSet) -> Vec<i64> {
                let o = o.any_ref().downcast_ref::<$name>().unwrap();
                rels(self, o, Some(hash_of(self) == hash_of(o)))
            }
            fn debug(&self, alt: bool) -> String { if alt { format!("{:#?}", self) } else { format!("{:?}", self) } }
            fn serialize(&self) -> crate::serde_io::Ser { crate::serde_io::serialize(self) }
            fn deserialize(&self, s: &crate::serde_io::Script) -> Result<Box<dyn DSet>, String> {
                crate::serde_io::deserialize::<$name>(s).map(|m| Box::new(m) as Box<dyn DSet>)
            }
        }
    };
}
set_impl!(AvlS, AvlSet<Key<0>>, Fam::Avl, SE, SE);
set_impl!(BtS1, btree::btree_set::BTreeSet<Key<0>, 1>, Fam::BTree, SDE, SDE);
set_impl!(BtS2, btree::btree_set::BTreeSet<Key<0>, 2>, Fam::BTree, SDE, SDE);
set_impl!(BtS5, btree::btree_set::BTreeSet<Key<0>, 5>, Fam::BTree, SDE, SDE);

/// The kinds of map and set, by name.
pub fn new_map(kind: &str) -> Box<dyn DMap> {
    match kind {
        "avl" => Box::new(Avl::new()),
        "bt1" => Box::new(Bt1::new()),
        "bt2" => Box::new(Bt2::new()),
        "bt3" => Box::new(Bt3::new()),
        "bt5" => Box::new(Bt5::new()),
        "fx" => Box::new(Fx0::new()),
        "fxb" => Box::new(Fx16::new()),
        _ => panic!("driver: map kind {kind}"),
    }
}
pub fn new_set(kind: &str) -> Box<dyn DSet> {
    match kind {
        "avls" => Box::<AvlS>::default(),
        "bts1" => Box::<BtS1>::default(),
        "bts2" => Box::<BtS2>::default(),
        "bts5" => Box::<BtS5>::default(),
        _ => panic!("driver: set kind {kind}"),
    }
}
