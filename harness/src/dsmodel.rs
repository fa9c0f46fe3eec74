//! Model based monitors of the elementary containers. Included by the harness binary `ds` (plain and AddressSanitizer builds) and by the
//! Miri harness, hence only uses `super::engine` (the code under test) and `super::Rng`.
use super::engine::datastr::{clearlist_vector::*, heap::Heap, index_heap::*, rank_select_map::*, timestamped_vector::*};
use super::engine::util::in_range_option::*;
use super::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
const INF: u32 = u32::MAX / 2;
pub type Ev<'a> = &'a mut dyn FnMut(&str);

/// the element owns heap memory, so that a lost or duplicated element is visible to the sanitizers
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Item {
    key: Box<u64>,
    id: usize,
    tag: u64,
}
impl Indexing for Item {
    fn as_index(&self) -> usize {
        self.id
    }
}
fn item(key: u64, id: usize, tag: u64) -> Item {
    Item { key: Box::new(key), id, tag }
}

/// order by key only: equal keys are ties
#[derive(Debug, Clone)]
struct Tied(Item);
impl PartialEq for Tied {
    fn eq(&self, o: &Self) -> bool {
        self.0.key == o.0.key
    }
}
impl Eq for Tied {}
impl PartialOrd for Tied {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tied {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.key.cmp(&o.0.key)
    }
}
impl Indexing for Tied {
    fn as_index(&self) -> usize {
        self.0.id
    }
}

trait Elem: Ord + Indexing + Clone + std::fmt::Debug {
    fn make(key: u64, id: usize, tag: u64) -> Self;
    fn parts(&self) -> (u64, usize, u64);
}
impl Elem for Item {
    fn make(key: u64, id: usize, tag: u64) -> Self {
        item(key, id, tag)
    }
    fn parts(&self) -> (u64, usize, u64) {
        (*self.key, self.id, self.tag)
    }
}
impl Elem for Tied {
    fn make(key: u64, id: usize, tag: u64) -> Self {
        Tied(item(key, id, tag))
    }
    fn parts(&self) -> (u64, usize, u64) {
        self.0.parts()
    }
}

pub fn index_heap(rng: &mut Rng, ev: Ev, max_n: usize, ops: usize) -> R {
    if rng.chance(1, 2) {
        index_heap_with::<Item>(rng, ev, max_n, ops)
    } else {
        index_heap_with::<Tied>(rng, ev, max_n, ops)
    }
}

fn index_heap_with<E: Elem>(rng: &mut Rng, ev: Ev, max_n: usize, ops: usize) -> R {
    let n = 1 + rng.below(max_n);
    let keys = [3, 50, 1 << 40][rng.below(3)];
    // how eager the history is to shrink the queue
    let pops = 1 + rng.below(5) as u64;
    let mut h = IndexdMinHeap::<E>::new(n);
    let mut m: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let mut tag = 0;
    for step in 0..ops {
        tag += 1;
        let id = rng.below(n);
        let key = rng.u64() % keys;
        let el = E::make(key, id, tag);
        let known = m.get(&id).cloned();
        match rng.below(20) {
            0..=5 => match known {
                None => {
                    h.push(el);
                    m.insert(id, (key, tag));
                }
                Some((old, _)) => {
                    // the element in the queue gets replaced
                    let mut new = el;
                    if rng.chance(1, 3) {
                        // update_key leaves an element which compares equal alone
                        if new != E::make(old, id, m[&id].1) {
                            m.insert(id, (key, tag));
                        }
                        h.update_key(new);
                        ev("update-key");
                    } else if key <= old {
                        h.decrease_key(new);
                        m.insert(id, (key, tag));
                        ev("decrease-key");
                    } else {
                        if rng.chance(1, 8) {
                            new = E::make(u64::MAX, id, tag);
                            m.insert(id, (u64::MAX, tag));
                        } else {
                            m.insert(id, (key, tag));
                        }
                        h.increase_key(new);
                        ev("increase-key");
                    }
                }
            },
            6..=8 => {
                h.push_unless_contained(el);
                if known.is_none() {
                    m.insert(id, (key, tag));
                    ev("push-unless-contained");
                }
            }
            9..=12 if rng.chance(pops, 5) => {
                let least = m.values().map(|v| v.0).min();
                let got = h.pop();
                ensure!(got.is_some() == least.is_some(), "pop from a queue with {} elements returned {:?}", m.len(), got);
                if let Some(e) = got {
                    let (k, i, t) = e.parts();
                    ensure!(Some(k) == least, "pop returned key {} but the least key is {:?} (step {})", k, least, step);
                    ensure!(m.remove(&i) == Some((k, t)), "pop returned {:?} which is not in the queue", e);
                    ev("pop");
                }
            }
            13 => {
                let got = h.peek().map(|e| e.parts());
                let least = m.values().map(|v| v.0).min();
                ensure!(got.map(|g| g.0) == least, "peek shows {:?} but the least key is {:?}", got, least);
                if let Some((k, i, t)) = got {
                    ensure!(m.get(&i) == Some(&(k, t)), "peek shows an element which is not in the queue: {:?}", got);
                }
            }
            14 => {
                let i = rng.below(n);
                ensure!(h.contains_index(i) == m.contains_key(&i), "contains_index({}) is wrong", i);
                let got = h.get(i).map(|e| e.parts());
                ensure!(got == m.get(&i).map(|&(k, t)| (k, i, t)), "get({}) returned {:?}, expected {:?}", i, got, m.get(&i));
            }
            15 => {
                let mut got: Vec<_> = h.elements().iter().map(|e| e.parts()).collect();
                got.sort_unstable();
                let mut exp: Vec<_> = m.iter().map(|(&i, &(k, t))| (k, i, t)).collect();
                exp.sort_unstable();
                ensure!(got == exp, "elements are {:?}, expected {:?}", got, exp);
                ev("elements");
            }
            16 if rng.chance(1, 6) => {
                h.clear();
                m.clear();
                ev("clear");
            }
            17 if rng.chance(1, 6) => {
                let k = rng.below(m.len() + 2);
                let got: Vec<_> = h.drain().take(k).map(|e| e.parts()).collect();
                ensure!(got.len() == k.min(m.len()), "drain returned {} elements", got.len());
                for (k, i, t) in got {
                    ensure!(m.remove(&i) == Some((k, t)), "drain returned element {} twice or with a wrong key", i);
                }
                // elements which were not taken are dropped with the iterator
                m.clear();
                ev("drain");
            }
            18 if rng.chance(1, 10) => {
                h = h.clone();
            }
            _ => {}
        }
        ensure!(h.len() == m.len() && h.is_empty() == m.is_empty(), "the queue has {} elements, expected {}", h.len(), m.len());
    }
    while let Some(e) = h.pop() {
        let (k, i, t) = e.parts();
        let least = m.values().map(|v| v.0).min();
        ensure!(Some(k) == least && m.remove(&i) == Some((k, t)), "pop returned {:?}, the least key is {:?}", e, least);
    }
    ensure!(m.is_empty(), "{} elements were lost", m.len());
    ev("index-heap");
    Ok(())
}

fn multiset<'a>(it: impl Iterator<Item = &'a Item>) -> Vec<(u64, usize)> {
    let mut v: Vec<_> = it.map(|e| (*e.key, e.id)).collect();
    v.sort_unstable();
    v
}

/// max heap which keeps popped elements
pub fn bag_heap(rng: &mut Rng, ev: Ev, max_n: usize, ops: usize) -> R {
    let keys = [2, 40, 1 << 40][rng.below(3)];
    let mut h = Heap::new();
    let (mut queued, mut popped): (Vec<Item>, Vec<Item>) = (vec![], vec![]);
    let mut id = 0;
    for _ in 0..ops {
        match rng.below(12) {
            0..=4 if queued.len() + popped.len() < max_n => {
                id += 1;
                let it = item(rng.u64() % keys, id, 0);
                h.push(it.clone());
                queued.push(it);
                ev("bag-push");
            }
            5..=7 => {
                let best = queued.iter().max().cloned();
                let got = h.pop().cloned();
                ensure!(got == best, "pop returned {:?} but the greatest element is {:?}", got, best);
                if let Some(b) = best {
                    queued.retain(|e| *e != b);
                    popped.push(b);
                    ev("bag-pop");
                }
            }
            8 => {
                ensure!(h.peek() == queued.iter().max(), "peek shows {:?} but the greatest element is {:?}", h.peek(), queued.iter().max());
            }
            9 | 10 => {
                let (a, b) = (2 + rng.u64() % 6, rng.u64() % 8);
                let keep = |e: &Item| (*e.key ^ e.id as u64) % a != b;
                let mut asked = vec![];
                h.retain(|e| {
                    asked.push(e.clone());
                    keep(e)
                });
                ensure!(multiset(asked.iter()) == multiset(queued.iter().chain(&popped)), "retain did not visit every element once");
                queued.retain(|e| keep(e));
                popped.retain(|e| keep(e));
                ev("bag-retain");
            }
            11 if rng.chance(1, 8) => {
                h.clear();
                queued.clear();
                popped.clear();
                ev("bag-clear");
            }
            _ => {}
        }
        ensure!(multiset(h.popped().iter()) == multiset(popped.iter()), "popped elements are {:?}, expected {:?}", h.popped(), popped);
    }
    queued.sort();
    while let Some(e) = queued.pop() {
        ensure!(h.pop() == Some(&e), "pop did not return the greatest element {:?}", e);
    }
    ensure!(h.pop().is_none(), "the heap has too many elements");
    ev("bag-heap");
    Ok(())
}

fn timestamped<T: Reset + PartialEq + std::fmt::Debug + Clone>(rng: &mut Rng, n: usize, ops: usize, value: &dyn Fn(&mut Rng) -> T) -> R {
    let mut v = TimestampedVector::<T>::new(n);
    let mut m: Vec<T> = vec![T::DEFAULT; n];
    ensure!(v.len() == n && v.is_empty() == (n == 0), "a vector of {} elements has {} elements", n, v.len());
    for _ in 0..ops {
        let i = rng.below(n);
        match rng.below(9) {
            0 | 1 => {
                let x = value(rng);
                v.set(i, x.clone());
                m[i] = x;
            }
            2 => {
                let x = value(rng);
                v[i] = x.clone();
                m[i] = x;
            }
            3 => {
                let x = value(rng);
                let p = unsafe { v.get_unchecked_mut(i) };
                ensure!(*p == m[i], "mutable access to {} shows {:?}, expected {:?}", i, p, m[i]);
                *p = x.clone();
                m[i] = x;
            }
            4 => {
                let p = &mut v[i];
                ensure!(*p == m[i], "mutable access to {} shows {:?}, expected {:?}", i, p, m[i]);
            }
            5 => ensure!(unsafe { v.get_unchecked(i) } == &m[i], "element {} is {:?}, expected {:?}", i, unsafe { v.get_unchecked(i) }, m[i]),
            6 | 7 => ensure!(v[i] == m[i], "element {} is {:?}, expected {:?}", i, v[i], m[i]),
            _ if rng.chance(1, 3) => {
                v.reset();
                m = vec![T::DEFAULT; n];
            }
            _ if rng.chance(1, 10) => v = v.clone(),
            _ => {}
        }
    }
    for i in 0..n {
        ensure!(v[i] == m[i], "element {} is {:?}, expected {:?}", i, v[i], m[i]);
    }
    Ok(())
}

pub fn resettable(rng: &mut Rng, ev: Ev, max_n: usize, ops: usize) -> R {
    let n = 1 + rng.below(max_n);
    timestamped::<u32>(rng, n, ops, &|r| r.u64() as u32)?;
    timestamped::<(u32, u32)>(rng, n, ops, &|r| (r.below(4) as u32, r.u64() as u32))?;
    timestamped::<bool>(rng, n, ops, &|r| r.chance(1, 2))?;
    timestamped::<InRangeOption<u32>>(rng, n, ops, &|r| InRangeOption::new(if r.chance(1, 3) { None } else { Some(r.below(5) as u32) }))?;
    timestamped::<Vec<u64>>(rng, n, ops / 2, &|r| vec![r.u64(); r.below(4)])?;
    ev("timestamped");

    let mut a = AtomicDists::new(n);
    let mut c = ClearlistVector::<u32>::new(n, 7);
    let mut f = FastClearBitVec::new(n);
    let (mut ma, mut mc, mut mf) = (vec![INF; n], vec![7u32; n], BTreeSet::new());
    ensure!(a.len() == n && a.is_empty() == (n == 0), "wrong number of distances");
    for _ in 0..ops {
        let i = rng.below(n);
        let x = rng.below(9) as u32;
        match rng.below(10) {
            0..=1 => {
                a.set(i, x);
                ma[i] = x;
            }
            2..=3 => {
                c[i] = x;
                mc[i] = x;
            }
            4..=5 => {
                f.set(i);
                mf.insert(i);
            }
            6 if rng.chance(1, 4) => {
                a.reset();
                ma = vec![INF; n];
            }
            7 if rng.chance(1, 4) => {
                c.reset();
                mc = vec![7; n];
            }
            8 if rng.chance(1, 4) => {
                f.clear();
                mf.clear();
            }
            _ => {
                ensure!(a.get(i) == ma[i], "atomic distance {} is {}, expected {}", i, a.get(i), ma[i]);
                ensure!(c[i] == mc[i], "clearlist element {} is {}, expected {}", i, c[i], mc[i]);
                ensure!(f.get(i) == mf.contains(&i), "fast clear bit {} is {}", i, f.get(i));
                if rng.chance(1, 5) {
                    let mut bits: Vec<_> = f.set_bits_iter().collect();
                    bits.sort_unstable();
                    ensure!(bits == mf.iter().cloned().collect::<Vec<_>>(), "set bits are {:?}, expected {:?}", bits, mf);
                }
            }
        }
    }
    for i in 0..n {
        ensure!(a.get(i) == ma[i], "atomic distance {} is {}, expected {}", i, a.get(i), ma[i]);
        ensure!(c[i] == mc[i], "clearlist element {} is {}, expected {}", i, c[i], mc[i]);
        ensure!(f.get(i) == mf.contains(&i), "fast clear bit {} is {}", i, f.get(i));
    }
    ev("resettable");
    Ok(())
}

/// more resets than there are timestamps must not bring back old values
pub fn many_resets(rng: &mut Rng, ev: Ev, resets: u64) -> R {
    let n = 4;
    let mut v = TimestampedVector::<u32>::new(n);
    let mut a = AtomicDists::new(n);
    v[0] = 23;
    a.set(0, 23);
    // written in a round whose timestamp comes again
    let early = 1 + rng.u64() % 5;
    for _ in 0..early {
        v.reset();
        a.reset();
    }
    v.set(1, 42);
    v[3] = 42;
    a.set(1, 42);
    let mut left = resets;
    while left > 0 {
        v.reset();
        left -= 1;
    }
    let mut left = resets;
    while left > 0 {
        a.reset();
        left -= 1;
    }
    for round in 0..12 {
        for i in 0..n {
            ensure!(v[i] == INF && unsafe { *v.get_unchecked(i) } == INF, "element {} was never written in this round but is {} ({} rounds after {} resets)", i, v[i], round, resets);
            ensure!(a.get(i) == INF, "distance {} was never written in this round but is {} ({} rounds after {} resets)", i, a.get(i), round, resets);
        }
        if round % 3 == 2 {
            v.set(2, round);
            a.set(2, round);
            ensure!(v[2] == round && a.get(2) == round, "element written in this round is lost");
        }
        v.reset();
        a.reset();
    }
    ev("many-resets");
    Ok(())
}

pub fn bits(rng: &mut Rng, ev: Ev, max_n: usize, ops: usize) -> R {
    let n = match rng.below(8) {
        0 => rng.below(3),
        1 => [63, 64, 65, 128, 511, 512, 513, 1024][rng.below(8)].min(max_n),
        _ => 1 + rng.below(max_n),
    };
    let density = [1, 3, 8, 12, 15, 16][rng.below(6)];
    let mut b = BitVec::new(n);
    let mut m: BTreeSet<usize> = BTreeSet::new();
    ensure!(b.len() == n && b.is_empty() == (n == 0), "a bit vector of {} bits has {} bits", n, b.len());
    if rng.chance(1, 2) {
        // runs and gaps of different lengths
        let mut i = rng.below(2 + n / 2);
        while i < n {
            let max = if rng.chance(1, 4) { 700 } else { 5 };
            let mut run = 1 + rng.below(max);
            while run > 0 && i < n {
                b.set(i);
                m.insert(i);
                i += 1;
                run -= 1;
            }
            let max = if rng.chance(1, 4) { 1500 } else { 9 };
            i += 1 + rng.below(max);
        }
    } else {
        for i in 0..n {
            if rng.below(16) < density {
                b.set(i);
                m.insert(i);
            }
        }
    }
    for _ in 0..ops {
        if n == 0 {
            break;
        }
        let i = rng.below(n);
        match rng.below(60) {
            0..=9 => {
                b.set(i);
                m.insert(i);
            }
            10..=19 => {
                b.unset(i);
                m.remove(&i);
            }
            20 => {
                b.unset_all_around(i);
                // all bits in the same 64 bit integer
                for j in (i / 64 * 64)..(i / 64 * 64 + 64) {
                    m.remove(&j);
                }
            }
            21 if rng.chance(1, 6) => {
                b.clear();
                m.clear();
            }
            22 if rng.chance(1, 6) => {
                b.set_all();
                m = (0..n).collect();
            }
            23..=25 => ensure!(b.count_ones() == m.len(), "{} of {} bits are counted, {} were set", b.count_ones(), n, m.len()),
            _ => ensure!(b.get(i) == m.contains(&i), "bit {} of {} is {}", i, n, b.get(i)),
        }
    }
    for i in 0..n {
        ensure!(b.get(i) == m.contains(&i), "bit {} of {} is {}", i, n, b.get(i));
    }
    ensure!(b.count_ones() == m.len(), "{} of {} bits are counted, {} were set", b.count_ones(), n, m.len());

    let map = InvertableRankSelectMap::new(RankSelectMap::new(b));
    ensure!(map.len() == m.len() && map.is_empty() == m.is_empty(), "the map of {} bits has {} entries, expected {}", n, map.len(), m.len());
    let mut rank = 0usize;
    for i in 0..n {
        if m.contains(&i) {
            ensure!(map.get(i) == Some(rank), "rank of {} is {:?}, expected {}", i, map.get(i), rank);
            ensure!(map.at(i) == rank && map.at_or_next_lower(i) == rank, "rank of {} is {} / {}, expected {}", i, map.at(i), map.at_or_next_lower(i), rank);
            ensure!(map.inverse(rank) == i, "entry {} is {}, expected {} (n = {})", rank, map.inverse(rank), i, n);
            rank += 1;
        } else {
            ensure!(map.get(i).is_none(), "{} is not in the map but has rank {:?}", i, map.get(i));
            if rank > 0 {
                ensure!(map.at_or_next_lower(i) == rank - 1, "next lower rank of {} is {}, expected {}", i, map.at_or_next_lower(i), rank - 1);
            }
        }
    }
    for i in [n, n + 1, n + 64, n + 1000] {
        ensure!(map.get(i).is_none(), "{} is outside of the map but has rank {:?}", i, map.get(i));
    }
    ev("rank-select");

    // sentinel options
    for _ in 0..8 {
        let x = if rng.chance(1, 2) { rng.u64() as u32 } else { rng.below(3) as u32 };
        if x != u32::MAX {
            let (o, p) = (InRangeOption::new(Some(x)), InRangeOption::some(x));
            ensure!(o.value() == Some(x) && p.value() == Some(x) && o == p, "option of {} holds {:?}", x, o.value());
        }
    }
    ensure!(InRangeOption::<u32>::new(None).value().is_none() && InRangeOption::<u64>::NONE.value().is_none() && InRangeOption::<usize>::default().value().is_none(), "the empty option has a value");
    Ok(())
}
