//! C16. Lists of variable-size items with limits, into collections that accept and that refuse.

use mc::alloc::measure;
use mc::codec::short;
use mc::engine::{guard, Task, Unit};
use mc::model::list_partition;
use mc::space::{big_words, odometer, structural, Table};
use smallvec::SmallVec;
use ssz::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    static DECODED: Cell<u64> = const { Cell::new(0) };
    static PULLED: Cell<u64> = const { Cell::new(0) };
}

/// A bulky item: space for even one shows in the allocation record. Rejects bytes starting with
/// 0xee.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Item {
    bytes: Vec<u8>,
    bulk: [u64; 512],
}
impl Decode for Item {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        DECODED.with(|d| d.set(d.get() + 1));
        if b.first() == Some(&0xee) {
            return Err(DecodeError::BytesInvalid("0xee".into()));
        }
        Ok(Item { bytes: b.to_vec(), bulk: [7; 512] })
    }
}
/// The same as a map entry.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Slim(Vec<u8>);
impl Decode for Slim {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        DECODED.with(|d| d.set(d.get() + 1));
        if b.first() == Some(&0xee) {
            return Err(DecodeError::BytesInvalid("0xee".into()));
        }
        Ok(Slim(b.to_vec()))
    }
}

trait Key: Decode {
    fn key(self) -> Vec<u8>;
}
impl Key for Item {
    fn key(self) -> Vec<u8> {
        assert!(self.bulk == [7; 512]);
        self.bytes
    }
}
impl Key for Slim {
    fn key(self) -> Vec<u8> {
        self.0
    }
}

/// What a collection holds, in its order.
trait Contents {
    fn contents(self) -> Vec<Vec<u8>>;
    /// What it would hold after being given all of these, or `None` if it refuses them.
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>>;
}
impl<T: Key> Contents for Vec<T> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.into_iter().map(|x| x.key()).collect()
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        Some(items.to_vec())
    }
}
impl<T: Key, const N: usize> Contents for SmallVec<[T; N]> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.into_iter().map(|x| x.key()).collect()
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        Some(items.to_vec())
    }
}
impl<T: Key + Ord> Contents for BTreeSet<T> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.into_iter().map(|x| x.key()).collect()
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        let mut v = items.to_vec();
        v.sort();
        v.dedup();
        Some(v)
    }
}

/// Accepts at most K items, refusing as soon as it is given one more.
struct AtMost<const K: usize>(Vec<Vec<u8>>);
impl<T: Key, const K: usize> TryFromIter<T> for AtMost<K> {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, String> {
        let mut v = vec![];
        for x in iter {
            PULLED.with(|p| p.set(p.get() + 1));
            if v.len() == K {
                return Err("too many".into());
            }
            v.push(x.key());
        }
        Ok(AtMost(v))
    }
}
impl<const K: usize> Contents for AtMost<K> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.0
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        (items.len() <= K).then(|| items.to_vec())
    }
}
/// Refuses without looking.
struct Never(());
impl<T> TryFromIter<T> for Never {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = T>>(_: I) -> Result<Self, ()> {
        Err(())
    }
}
impl Contents for Never {
    fn contents(self) -> Vec<Vec<u8>> {
        let _ = self.0;
        vec![]
    }
    fn expect(_: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        None
    }
}
/// Takes everything, then refuses unless the count is exactly K.
struct Exactly<const K: usize>(Vec<Vec<u8>>);
impl<T: Key, const K: usize> TryFromIter<T> for Exactly<K> {
    type Error = (usize, usize);
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, (usize, usize)> {
        let v: Vec<Vec<u8>> = iter.into_iter().map(|x| x.key()).collect();
        if v.len() == K {
            Ok(Exactly(v))
        } else {
            Err((v.len(), K))
        }
    }
}
impl<const K: usize> Contents for Exactly<K> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.0
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        (items.len() == K).then(|| items.to_vec())
    }
}
/// Relies on the announced size: refuses by the lower bound alone, and counts on both bounds.
struct Hinted<const K: usize>(Vec<Vec<u8>>);
impl<T: Key, const K: usize> TryFromIter<T> for Hinted<K> {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, String> {
        let mut it = iter.into_iter();
        let mut v = vec![];
        loop {
            let (lo, hi) = it.size_hint();
            if v.len() + lo > K || hi.is_some_and(|h| h < lo) {
                return Err(format!("{} and at least {lo} more", v.len()));
            }
            match it.next() {
                Some(x) if v.len() < K && hi != Some(0) => v.push(x.key()),
                Some(_) => return Err("more than announced".into()),
                None => return Ok(Hinted(v)),
            }
        }
    }
}
impl<const K: usize> Contents for Hinted<K> {
    fn contents(self) -> Vec<Vec<u8>> {
        self.0
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        (items.len() <= K).then(|| items.to_vec())
    }
}
/// Refuses a repeated item.
struct Distinct(Vec<Vec<u8>>);
impl<T: Key> TryFromIter<T> for Distinct {
    type Error = Vec<u8>;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Vec<u8>> {
        let mut v = vec![];
        let mut seen = BTreeSet::new();
        for x in iter {
            let x = x.key();
            if !seen.insert(x.clone()) {
                return Err(x);
            }
            v.push(x);
        }
        Ok(Distinct(v))
    }
}
impl Contents for Distinct {
    fn contents(self) -> Vec<Vec<u8>> {
        self.0
    }
    fn expect(items: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
        let mut v = items.to_vec();
        v.sort();
        v.dedup();
        (v.len() == items.len()).then(|| items.to_vec())
    }
}

/// Items a well-formed first offset announces.
fn announced(b: &[u8]) -> Option<usize> {
    let w = b.get(..4)?;
    let f = u32::from_le_bytes(w.try_into().unwrap()) as usize;
    (f >= 4 && f % 4 == 0 && f <= b.len()).then_some(f / 4)
}

fn case<T: Key, C: TryFromIter<T> + Contents>(t: &mut Task, b: &[u8], bulky: bool) {
    t.states += 1;
    t.case(
        || short(b),
        |t| {
            // The specification: the items, if the string is a list of them.
            let items: Option<Vec<Vec<u8>>> = list_partition(b)
                .ok()
                .map(|r| r.into_iter().map(|(x, y)| b[x..y].to_vec()).collect::<Vec<_>>())
                .filter(|v| v.iter().all(|x| x.first() != Some(&0xee)));
            let want = items.and_then(|v| C::expect(&v));
            let n = announced(b);
            let mut limits: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(usize::MAX), Some(usize::MAX / 4), Some(1 << 32)];
            if let Some(n) = n {
                for x in [n.saturating_sub(1), n, n + 1, n / 2, 3, 4, 5, n % 256, n % 65_536, n + 65_536, n + (1 << 32)] {
                    if !limits.contains(&Some(x)) {
                        limits.push(Some(x));
                    }
                }
            }
            for l in limits {
                t.traces += 1;
                t.transitions += 1;
                DECODED.with(|d| d.set(0));
                let (r, peak, _) = measure(|| guard(|| decode_list_of_variable_length_items::<T, C>(b, l)));
                let decoded = DECODED.with(|d| d.get());
                let r = r.map_err(|p| format!("limit {l:?}: panics: {p}"))?;
                let over = matches!((l, n), (Some(l), Some(n)) if n > l);
                match r {
                    Err(e) => {
                        if over {
                            if decoded != 0 {
                                return Err(format!("limit {l:?}, {} items announced: {decoded} items were decoded", n.unwrap()));
                            }
                            // The offsets may be looked at; one item of these takes 4096 bytes.
                            if bulky && peak > 2048 + 24 * n.unwrap() {
                                return Err(format!("limit {l:?}, {} items announced: {peak} bytes of heap were requested", n.unwrap()));
                            }
                            t.count("limits enforced", 1);
                        } else if let Some(w) = &want {
                            return Err(format!("limit {l:?}: fails with {e:?}, but the list has {} items that fit", w.len()));
                        }
                    }
                    Ok(c) => {
                        let got = c.contents();
                        if over {
                            return Err(format!("limit {l:?}, but {} items were announced and {} returned", n.unwrap(), got.len()));
                        }
                        match &want {
                            None => return Err(format!("limit {l:?}: returns {} items, but must fail", got.len())),
                            Some(w) if *w != got => {
                                return Err(if w.len() < 100 && got.len() < 100 { format!("limit {l:?}: returns {got:?}, expected {w:?}") } else { format!("limit {l:?}: returns {} items that are not the {} expected", got.len(), w.len()) });
                            }
                            _ => t.count("collections returned", 1),
                        }
                    }
                }
            }
            Ok(())
        },
    );
}

/// Counts beyond 20 bits.
fn huge<T: Key + 'static, C: TryFromIter<T> + Contents + 'static>(name: &str) -> Unit {
    Unit::new(format!("{name}, more than 2^20 items"), |t| {
        for n in [1usize << 20, (1 << 20) + 3] {
            let items: Vec<Vec<u8>> =
                (0..n).map(|i| if i % 3 == 0 { vec![] } else { vec![(i % 200) as u8, (i >> 8) as u8, (i >> 16) as u8] }).collect();
            let (mut b, _) = list_bytes(&items);
            case::<T, C>(t, &b, false);
            let end = b.len();
            b[end - 3] = 0xee;
            case::<T, C>(t, &b, false);
        }
    })
}

fn list_bytes(items: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let mut at = items.len() * 4;
    let mut b = vec![];
    let mut offs = vec![];
    for i in items {
        offs.push(b.len());
        b.extend((at as u32).to_le_bytes());
        at += i.len();
    }
    for i in items {
        b.extend(i);
    }
    (b, offs)
}

fn explore(t: &mut Task, bulky: bool, f: &dyn Fn(&mut Task, &[u8])) {
    let deep = t.thorough();
    odometer(&Table { alphabet: vec![0, 1, 4, 5, 8, 0xee], max_len: if deep { 7 } else { 5 } }, |b| f(t, b));
    // Every list of up to five items over a small alphabet, one of which does not decode.
    let alphabet: [&[u8]; 5] = [&[], &[1], &[2, 3], &[0xee], &[1, 0xee]];
    let mut lists: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let mut i = 0;
    while i < lists.len() {
        let l = lists[i].clone();
        i += 1;
        if l.len() < if deep { 6 } else { 5 } {
            for a in alphabet {
                let mut n = l.clone();
                n.push(a.to_vec());
                lists.push(n);
            }
        }
    }
    for n in [8usize, 9, 16, 33, 64, 100, 257, 1000] {
        lists.push((0..n).map(|i| vec![(i % 200) as u8]).collect());
        lists.push((0..n).map(|i| vec![i as u8, (i >> 8) as u8, 9]).collect());
        lists.push((0..n).map(|i| if i == n - 1 { vec![0xee] } else { vec![1] }).collect());
        lists.push((0..n).map(|i| if i == n / 2 { vec![0xee] } else { vec![1] }).collect());
        lists.push(vec![vec![]; n]);
    }
    // Counts beyond 8 and 16 bits.
    for n in [256usize, 65_535, 65_536, 70_001] {
        if !bulky || n < 1000 {
            lists.push((0..n).map(|i| if i % 3 == 0 { vec![] } else { vec![(i % 200) as u8, (i >> 8) as u8, (i >> 16) as u8] }).collect());
            lists.push((0..n).map(|i| if i == n - 1 { vec![0xee] } else { vec![1] }).collect());
        }
    }
    for l in lists {
        let (b, offs) = list_bytes(&l);
        f(t, &b);
        if l.len() <= 3 {
            structural(&b, &offs, &mut |x| f(t, x));
        } else if l.len() <= 5 {
            for k in 0..b.len() {
                f(t, &b[..k]);
            }
        }
    }
    // Announcements without substance.
    for len in [4usize, 8, 12, 64, 1024, 65_536, 1 << 20] {
        for fill in [0u8, 4, 0xff] {
            let mut b = vec![fill; len];
            for w in [0u32, 1, 3, 4, 5, 8, len as u32 / 2 & !3, len as u32 - 4, len as u32, len as u32 + 4].into_iter().chain(big_words()) {
                b[..4].copy_from_slice(&w.to_le_bytes());
                f(t, &b);
            }
        }
    }
}

fn unit<T: Key + 'static, C: TryFromIter<T> + Contents + 'static>(name: &str, bulky: bool) -> Unit {
    Unit::new(name, move |t| explore(t, bulky, &|t, b| case::<T, C>(t, b, bulky)))
}

/// Maps: the later duplicate key replaces the earlier one.
fn map_unit() -> Unit {
    Unit::new("BTreeMap<u8, Vec<u8>>", |t| {
        let mut lists: Vec<Vec<(u8, Vec<u8>)>> = vec![vec![]];
        let mut i = 0;
        while i < lists.len() {
            let l = lists[i].clone();
            i += 1;
            if l.len() < 4 {
                for e in [(1u8, vec![]), (1, vec![5u8]), (2, vec![6]), (0, vec![7, 8])] {
                    let mut n = l.clone();
                    n.push(e);
                    lists.push(n);
                }
            }
        }
        for l in lists {
            let parts: Vec<Vec<u8>> = l
                .iter()
                .map(|(k, v)| {
                    let mut b = vec![*k, 5, 0, 0, 0];
                    b.extend(v);
                    b
                })
                .collect();
            let (b, _) = list_bytes(&parts);
            for max in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(usize::MAX)] {
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || format!("{} with limit {max:?}", short(&b)),
                    |t| {
                        t.traces += 1;
                        let got = guard(|| decode_list_of_variable_length_items::<(u8, Vec<u8>), BTreeMap<u8, Vec<u8>>>(&b, max))
                            .map_err(|p| format!("panics: {p}"))?;
                        let over = max.is_some_and(|m| l.len() > m);
                        match got {
                            Err(_) if over => Ok(()),
                            Err(e) => Err(format!("fails with {e:?}")),
                            Ok(_) if over => Err("the limit is ignored".into()),
                            Ok(m) => {
                                let want: BTreeMap<u8, Vec<u8>> = l.iter().cloned().collect();
                                if m == want {
                                    Ok(())
                                } else {
                                    Err(format!("returns {m:?}, expected {want:?}"))
                                }
                            }
                        }
                    },
                );
            }
        }
    })
}

pub fn units() -> Vec<Unit> {
    vec![
        unit::<Item, Vec<Item>>("Vec of bulky items", true),
        unit::<Slim, Vec<Slim>>("Vec", false),
        unit::<Item, SmallVec<[Item; 1]>>("SmallVec<1> of bulky items", true),
        unit::<Slim, SmallVec<[Slim; 1]>>("SmallVec<1>", false),
        unit::<Slim, SmallVec<[Slim; 4]>>("SmallVec<4>", false),
        unit::<Item, BTreeSet<Item>>("BTreeSet of bulky items", true),
        unit::<Slim, BTreeSet<Slim>>("BTreeSet", false),
        unit::<Slim, AtMost<0>>("a collection of at most 0", false),
        unit::<Slim, AtMost<1>>("a collection of at most 1", false),
        unit::<Item, AtMost<2>>("a collection of at most 2 bulky items", true),
        unit::<Slim, AtMost<3>>("a collection of at most 3", false),
        unit::<Slim, AtMost<64>>("a collection of at most 64", false),
        unit::<Slim, Never>("a collection that refuses", false),
        unit::<Item, Never>("a collection that refuses bulky items", true),
        unit::<Slim, Exactly<0>>("a collection of exactly 0", false),
        unit::<Slim, Exactly<1>>("a collection of exactly 1", false),
        unit::<Slim, Exactly<3>>("a collection of exactly 3", false),
        unit::<Slim, Exactly<9>>("a collection of exactly 9", false),
        unit::<Slim, Hinted<2>>("a collection of at most 2 by size hint", false),
        unit::<Item, Hinted<3>>("a collection of at most 3 bulky items by size hint", true),
        unit::<Slim, Hinted<70_000>>("a collection of at most 70,000 by size hint", false),
        unit::<Slim, AtMost<65_536>>("a collection of at most 65,536", false),
        unit::<Slim, Exactly<65_536>>("a collection of exactly 65,536", false),
        huge::<Slim, Vec<Slim>>("Vec"),
        huge::<Slim, SmallVec<[Slim; 4]>>("SmallVec<4>"),
        huge::<Slim, BTreeSet<Slim>>("BTreeSet"),
        unit::<Slim, Distinct>("a collection of distinct items", false),
        map_unit(),
    ]
}
