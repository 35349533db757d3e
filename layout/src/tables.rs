//! C09. The real builder, lists, tuples and derived containers hand their bytes to probes, which
//! report where in the input they were cut. The oracle is `model::partition`.

use mc::codec::short;
use mc::engine::{guard, hex, Task, Unit};
use mc::model::{list_partition, partition};
use mc::space::{big_words, odometer, structural, Table};
use smallvec::SmallVec;
use ssz::*;
use ssz_derive::{Decode, Encode};
use std::cell::Cell;

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
}

/// Where a slice lies in the current input.
fn place(b: &[u8]) -> (usize, usize) {
    let at = (b.as_ptr() as usize).wrapping_sub(BASE.with(|x| x.get()));
    (at, at.wrapping_add(b.len()))
}

/// Where a slice lies in `from`.
pub fn place_from(from: &[u8], b: &[u8]) -> (usize, usize) {
    let at = (b.as_ptr() as usize).wrapping_sub(from.as_ptr() as usize);
    (at, at.wrapping_add(b.len()))
}

/// Empty slices have no place.
fn same(got: (usize, usize), want: (usize, usize)) -> bool {
    if want.0 == want.1 {
        got.0 == got.1
    } else {
        got == want
    }
}

pub fn compare(got: Result<Vec<(usize, usize)>, String>, want: Result<Vec<(usize, usize)>, ()>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            if g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| same(*a, *b)) {
                Ok(())
            } else {
                Err(format!("items are cut at {g:?}, expected {w:?}"))
            }
        }
        (Err(_), Err(())) => Ok(()),
        (Ok(g), Err(())) => Err(format!("accepted with items at {g:?}, but the parts do not tile the input")),
        (Err(e), Ok(w)) => Err(format!("rejected ({e}), but the parts tile the input: {w:?}")),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Probe((usize, usize));
impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(Probe(place(bytes)))
    }
}
impl Encode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, _: &mut Vec<u8>) {}
    fn ssz_bytes_len(&self) -> usize {
        0
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Fix<const N: usize>((usize, usize));
impl<const N: usize> Decode for Fix<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(Fix(place(bytes)))
    }
}
impl<const N: usize> Encode for Fix<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_append(&self, _: &mut Vec<u8>) {}
    fn ssz_bytes_len(&self) -> usize {
        N
    }
}

/// Item kinds: `None` is variable.
pub type Items = Vec<Option<usize>>;

const KINDS: [Option<usize>; 6] = [None, Some(0), Some(1), Some(2), Some(4), Some(5)];

fn describe(items: &Items) -> String {
    items.iter().map(|i| i.map(|n| n.to_string()).unwrap_or("v".into())).collect::<Vec<_>>().join(",")
}

/// The three ways of registering an item.
pub fn register(b: &mut SszDecoderBuilder, kind: Option<usize>, way: usize) -> Result<(), DecodeError> {
    match (kind, way) {
        (None, 0) => b.register_type::<Probe>(),
        (None, 1) => b.register_anonymous_variable_length_item(),
        (None, _) => b.register_type_parameterized(false, 4),
        (Some(0), 0) => b.register_type::<Fix<0>>(),
        (Some(1), 0) => b.register_type::<Fix<1>>(),
        (Some(2), 0) => b.register_type::<Fix<2>>(),
        (Some(4), 0) => b.register_type::<Fix<4>>(),
        (Some(5), 0) => b.register_type::<Fix<5>>(),
        (Some(n), _) => b.register_type_parameterized(true, n),
    }
}

fn build(items: &Items, bytes: &[u8], way: usize) -> Result<Vec<(usize, usize)>, String> {
    let mut b = SszDecoderBuilder::new(bytes);
    for (i, k) in items.iter().enumerate() {
        register(&mut b, *k, if way == 3 { i % 3 } else { way }).map_err(|e| format!("item {i}: {e:?}"))?;
    }
    let mut d = b.build().map_err(|e| format!("build: {e:?}"))?;
    let mut out = vec![];
    for i in 0..items.len() {
        if i % 2 == 0 {
            out.push(d.decode_next_with(|b| Ok(place(b))).map_err(|e| format!("decoding item {i}: {e:?}"))?);
        } else {
            out.push(d.decode_next::<Probe>().map_err(|e| format!("decoding item {i}: {e:?}"))?.0);
        }
    }
    Ok(out)
}

fn builder_case(t: &mut Task, items: &Items, bytes: &[u8], ways: &[usize]) {
    t.states += 1;
    t.transitions += items.len() as u64 + 1;
    t.case(
        || format!("[{}] over {}", describe(items), short(bytes)),
        |t| {
            BASE.with(|b| b.set(bytes.as_ptr() as usize));
            let want = partition(items, bytes);
            t.count(if want.is_ok() { "layouts that tile the input" } else { "layouts that do not" }, 1);
            for way in ways {
                t.traces += 1;
                let got = guard(|| build(items, bytes, *way)).map_err(|p| format!("panics: {p}"))?;
                compare(got, want.clone())?;
            }
            Ok(())
        },
    );
}

/// A valid layout: bytes all different enough, offsets by the rule.
pub fn layout(items: &Items, lens: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let fixed: usize = items.iter().map(|i| i.unwrap_or(4)).sum();
    let mut out = vec![];
    let mut offs = vec![];
    let mut at = fixed;
    let mut k = 0;
    for i in items {
        match i {
            Some(n) => {
                let from = out.len();
                out.extend((0..*n).map(|j| (0x11 * (from + j) + 3) as u8));
            }
            None => {
                offs.push(out.len());
                out.extend((at as u32).to_le_bytes());
                at += lens[k];
                k += 1;
            }
        }
    }
    out.extend((fixed..at).map(|j| (0x0d * j + 7) as u8));
    (out, offs)
}

fn explore_items(t: &mut Task, items: &Items, ways: &[usize], deep: bool) {
    let vars = items.iter().filter(|i| i.is_none()).count();
    // All part lengths up to 2 for few variable items; else a menu.
    let mut lens: Vec<Vec<usize>> = vec![];
    if vars == 0 {
        lens.push(vec![]);
    } else if vars <= 4 {
        odometer(&Table { alphabet: vec![0, 1, 3], max_len: vars }, |b| {
            if b.len() == vars {
                lens.push(b.iter().map(|x| *x as usize).collect());
            }
        });
    } else {
        lens.push(vec![0; vars]);
        lens.push(vec![1; vars]);
        lens.push((0..vars).map(|i| i % 3).collect());
        lens.push((0..vars).map(|i| if i + 1 == vars { 9 } else { 0 }).collect());
        lens.push((0..vars).map(|i| if i == 0 { 9 } else { 0 }).collect());
        lens.push((0..vars).map(|i| if i == vars / 2 { 300 } else { 1 }).collect());
    }
    for (li, l) in lens.iter().enumerate() {
        let (b, offs) = layout(items, l);
        builder_case(t, items, &b, ways);
        let mut go = |x: &[u8]| builder_case(t, items, x, ways);
        structural(&b, &offs, &mut go);
        // Every pair of offset words from the numbers that matter.
        if offs.len() >= 2 && (deep || li == 0 || li + 1 == lens.len() || li == lens.len() / 2) {
            let pairs: Vec<(usize, usize)> = if offs.len() <= 4 {
                (0..offs.len()).flat_map(|i| (0..i).map(move |j| (j, i))).collect()
            } else {
                let n = offs.len();
                vec![(0, 1), (0, n - 1), (1, 2), (n / 2, n / 2 + 1), (n - 2, n - 1)]
            };
            for (i, j) in pairs {
                if i == j || j >= offs.len() {
                    continue;
                }
                let mut c = b.clone();
                let n = b.len() as u32;
                let f = offs.len() as u32 * 4;
                let cands: Vec<u32> =
                    if n <= 30 { (0..=n + 1).collect() } else { (f.saturating_sub(1)..=f + 2).chain([0, n / 2, n - 1, n, n + 1]).collect() };
                for x in &cands {
                    for y in &cands {
                        c[offs[i]..offs[i] + 4].copy_from_slice(&x.to_le_bytes());
                        c[offs[j]..offs[j] + 4].copy_from_slice(&y.to_le_bytes());
                        go(&c);
                    }
                }
            }
        }
        // Every triple, for exactly three offsets and short inputs.
        if offs.len() == 3 && b.len() <= 24 && (deep || l.iter().sum::<usize>() <= 2) {
            let n = b.len() as u32;
            let lo = (b.len() as u32).saturating_sub(8).min(11);
            let mut c = b.clone();
            for x in lo..=n + 1 {
                for y in lo..=n + 1 {
                    for z in lo..=n + 1 {
                        for (k, w) in [x, y, z].iter().enumerate() {
                            c[offs[k]..offs[k] + 4].copy_from_slice(&w.to_le_bytes());
                        }
                        go(&c);
                    }
                }
            }
        }
    }
    // Short strings of every shape.
    odometer(&Table { alphabet: vec![0, 1, 4, 8, 9], max_len: if deep { 6 } else { 4 } }, |b| builder_case(t, items, b, ways));
}

/// The string, and what a word that lost or gained a part does to it.
fn deviate(b: &[u8], offs: &[usize], mut go: impl FnMut(&[u8])) {
    go(b);
    let mut c = b.to_vec();
    let n = offs.len();
    let mut at: Vec<usize> = [0, 1, 255, 256, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)].iter().filter_map(|i| offs.get(*i).copied()).collect();
    at.sort();
    at.dedup();
    for o in at {
        let w = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        for x in [0, w & 0xff, w & 0xffff, w.wrapping_sub(0x1_0000), w.wrapping_sub(4), w.wrapping_sub(1), w + 1, w + 4, b.len() as u32, b.len() as u32 + 1, u32::MAX] {
            if x != w {
                c[o..o + 4].copy_from_slice(&x.to_le_bytes());
                go(&c);
            }
        }
        c[o..o + 4].copy_from_slice(&b[o..o + 4]);
    }
    if b.is_empty() {
        return;
    }
    go(&b[..b.len() - 1]);
    c.push(0);
    go(&c);
}

fn few(t: &mut Task, items: &Items, b: &[u8], offs: &[usize]) {
    deviate(b, offs, |x| builder_case(t, items, x, &[3]));
}

/// Very many items. Decoding n items takes the builder n^2 steps, so few layouts for the largest n.
fn many(t: &mut Task, n: usize, pat: usize) {
    let items: Items = match pat {
        0 => vec![None; n],
        1 => vec![Some(1); n],
        2 => (0..n).map(|i| if i % 2 == 0 { None } else { Some(2) }).collect(),
        3 => (0..n).map(|i| if i + 1 == n { None } else { Some(1) }).collect(),
        4 => (0..n).map(|i| if i == 0 || i + 2 == n { None } else { Some(1) }).collect(),
        5 => (0..n).map(|i| if i + 1 == n || i == n / 2 { Some(5) } else { None }).collect(),
        _ => (0..n).map(|i| if i % 256 == 255 || i == n - 2 { None } else { Some(i % 3) }).collect(),
    };
    let vars = items.iter().filter(|i| i.is_none()).count();
    let (b, offs) = layout(&items, &(0..vars).map(|i| i % 3).collect::<Vec<_>>());
    if n > 5000 {
        builder_case(t, &items, &b, &[3]);
        if t.thorough() {
            builder_case(t, &items, &b[..b.len() - 1], &[0]);
        }
        return;
    }
    few(t, &items, &b, &offs);
    if n < 600 {
        for lens in [vec![0; vars], (0..vars).map(|i| if i + 1 == vars { 300 } else { 1 }).collect::<Vec<_>>()] {
            let (b, offs) = layout(&items, &lens);
            few(t, &items, &b, &offs);
        }
    }
}

pub fn units() -> Vec<Unit> {
    let mut out = crate::interleave::units();
    // Every sequence of up to four (five) items.
    for a in 0..KINDS.len() {
        for b in 0..KINDS.len() {
            out.push(Unit::new(format!("builder, sequences from {}", describe(&vec![KINDS[a], KINDS[b]])), move |t| {
                let depth = if t.thorough() { 5 } else { 4 };
                let mut seqs: Vec<Items> = vec![vec![KINDS[a], KINDS[b]]];
                if b == 0 {
                    seqs.push(vec![KINDS[a]]);
                }
                if a == 0 && b == 0 {
                    seqs.push(vec![]);
                }
                let mut i = 0;
                while i < seqs.len() {
                    let s = seqs[i].clone();
                    i += 1;
                    if s.len() >= 2 && s.len() < depth {
                        for k in KINDS {
                            let mut n = s.clone();
                            n.push(k);
                            seqs.push(n);
                        }
                    }
                    explore_items(t, &s, if s.len() <= 3 { &[0, 1, 2, 3] } else { &[3] }, t.thorough() && s.len() <= 4);
                }
            }));
        }
    }
    // Around and past the inline capacity of the builder's vectors.
    for n in [5usize, 6, 7, 8, 9, 10, 15, 16, 17, 18, 33, 64, 70] {
        out.push(Unit::new(format!("builder, {n} items"), move |t| {
            let mut pats: Vec<Items> = vec![
                vec![None; n],
                vec![Some(1); n],
                vec![Some(0); n],
                (0..n).map(|i| if i % 2 == 0 { None } else { Some(2) }).collect(),
                (0..n).map(|i| if i % 2 == 0 { Some(5) } else { None }).collect(),
                (0..n).map(|i| if i % 3 == 0 { None } else { Some(i % 3) }).collect(),
            ];
            for p in 0..n {
                if n <= 18 || p % 8 < 2 || p + 2 > n {
                    pats.push((0..n).map(|i| if i == p { None } else { Some(1) }).collect());
                    pats.push((0..n).map(|i| if i == p { Some(2) } else { None }).collect());
                }
            }
            if n <= 10 {
                for p in 0..n {
                    for q in 0..p {
                        pats.push((0..n).map(|i| if i == p || i == q { None } else { Some(1 + i % 2) }).collect());
                    }
                }
            }
            for p in pats {
                explore_items(t, &p, &[0, 3], t.thorough());
            }
        }));
    }
    // Item counts, positions and offsets beyond 8 and 16 bits.
    for n in [254usize, 255, 256, 257, 258, 300, 511, 512, 513, 1025, 4097, 16_385, 65_535, 65_537] {
        for pat in 0..7 {
            out.push(Unit::new(format!("builder, {n} items, pattern {pat}"), move |t| many(t, n, pat)));
        }
    }
    for n in [300usize, 65_535, 65_536, 70_000, 1 << 24] {
        out.push(Unit::new(format!("builder, fixed items of {n} bytes"), move |t| {
            for items in [vec![Some(n)], vec![Some(n), None], vec![None, Some(n)], vec![None, Some(n), None], vec![Some(n), Some(2), Some(n), None, Some(3)]] {
                let vars = items.iter().filter(|i| i.is_none()).count();
                for l in [0usize, 1, 300] {
                    let (b, offs) = layout(&items, &vec![l; vars]);
                    few(t, &items, &b, &offs);
                }
            }
        }));
    }
    for n in [4096usize, 16_383, 16_384, 16_385, 65_535, 65_536, 65_537, 262_145, 1 << 20] {
        for k in 0..4 {
            out.push(Unit::new(format!("list of {n} items, lengths {k}"), move |t| {
                let l: Vec<usize> = (0..n)
                    .map(|i| match k {
                        0 => 0,
                        1 => i % 4,
                        2 if i + 1 == n => 700,
                        2 => usize::from(i % 5 == 0),
                        _ if i == 0 => 70_000,
                        _ => usize::from(i % 3 == 0),
                    })
                    .collect();
                let (b, offs) = list_bytes(&l);
                deviate(&b, &offs, |x| list_case(t, x));
            }));
        }
    }
    out.extend(list_units());
    out.extend(typed_units());
    out.extend(word_units());
    out.push(Unit::new("inputs of more than 4 GiB", giant));
    out
}

// --- lists --------------------------------------------------------------------------------------

fn list_case(t: &mut Task, bytes: &[u8]) {
    t.states += 1;
    t.transitions += 1;
    t.case(
        || short(bytes),
        |t| {
            BASE.with(|b| b.set(bytes.as_ptr() as usize));
            let want = list_partition(bytes);
            t.count(if want.is_ok() { "layouts that tile the input" } else { "layouts that do not" }, 1);
            let probes = |v: Result<Vec<Probe>, DecodeError>| v.map(|v| v.into_iter().map(|p| p.0).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"));
            let smalls = |v: Result<SmallVec<[Probe; 2]>, DecodeError>| {
                v.map(|v| v.into_iter().map(|p| p.0).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))
            };
            t.traces += 4;
            let got = guard(|| {
                [
                    probes(decode_list_of_variable_length_items(bytes, None)),
                    probes(decode_list_of_variable_length_items(bytes, Some(usize::MAX))),
                    probes(Vec::<Probe>::from_ssz_bytes(bytes)),
                    smalls(SmallVec::<[Probe; 2]>::from_ssz_bytes(bytes)),
                ]
            })
            .map_err(|p| format!("panics: {p}"))?;
            for g in got {
                compare(g, want.clone())?;
            }
            Ok(())
        },
    );
}

fn list_bytes(lens: &[usize]) -> (Vec<u8>, Vec<usize>) {
    layout(&vec![None; lens.len()], lens)
}

fn list_units() -> Vec<Unit> {
    let mut out = vec![Unit::new("list, short strings", |t| {
        let deep = t.thorough();
        odometer(&Table { alphabet: (0..=255).collect(), max_len: 2 }, |b| list_case(t, b));
        odometer(&Table { alphabet: vec![0, 1, 4, 5, 8, 9, 12], max_len: if deep { 9 } else { 7 } }, |b| {
            if b.len() > 2 {
                list_case(t, b)
            }
        });
        odometer(&Table { alphabet: vec![0, 4, 8], max_len: if deep { 14 } else { 12 } }, |b| {
            if b.len() > if deep { 9 } else { 7 } {
                list_case(t, b)
            }
        });
    })];
    for n in 1..=5usize {
        out.push(Unit::new(format!("list of {n}, every table of offsets"), move |t| {
            // All offset words from a window, over inputs of every length in a window.
            let extra = if t.thorough() { 4 } else { 3 };
            for len in (4 * n).saturating_sub(3)..=4 * n + extra {
                let lo = if n <= 3 { 0 } else { 4 * n - 2 } as u32;
                let hi = (4 * n + extra + 2) as u32;
                let alphabet: Vec<u8> = (lo..=hi).map(|x| x as u8).collect();
                odometer(&Table { alphabet, max_len: n }, |w| {
                    if w.len() == n {
                        let mut b: Vec<u8> = w.iter().flat_map(|x| [*x, 0, 0, 0]).collect();
                        b.resize(len, 0x55);
                        list_case(t, &b);
                    }
                });
            }
        }));
    }
    out.push(Unit::new("lists, structural deviations", |t| {
        let mut lens: Vec<Vec<usize>> = vec![];
        for n in 0..=4 {
            odometer(&Table { alphabet: vec![0, 1, 2, 3, 5], max_len: n }, |b| {
                if b.len() == n {
                    lens.push(b.iter().map(|x| *x as usize).collect());
                }
            });
        }
        for n in [5usize, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000] {
            lens.push(vec![0; n]);
            lens.push((0..n).map(|i| i % 4).collect());
            lens.push((0..n).map(|i| if i == n - 1 { 700 } else { 1 }).collect());
        }
        for l in lens {
            let (b, offs) = list_bytes(&l);
            list_case(t, &b);
            let offs: Vec<usize> =
                if offs.len() > 12 { offs.iter().enumerate().filter(|(i, _)| [0, 1, 2, offs.len() / 2, offs.len() - 2, offs.len() - 1].contains(i)).map(|x| *x.1).collect() } else { offs };
            if b.len() < 200 {
                structural(&b, &offs, &mut |x| list_case(t, x));
            } else {
                let n = b.len() as u32;
                for o in offs {
                    let mut c = b.clone();
                    let w = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                    for x in [0, 3, 4, w.wrapping_sub(4), w.wrapping_sub(1), w + 1, w + 4, n - 1, n, n + 1].into_iter().chain(big_words()) {
                        c[o..o + 4].copy_from_slice(&x.to_le_bytes());
                        list_case(t, &c);
                    }
                }
            }
        }
    }));
    out
}

// --- tuples and derived containers of probes -----------------------------------------------------

trait Places: Decode + 'static {
    fn items() -> Items;
    fn places(&self) -> Vec<(usize, usize)>;
}
trait Part: Decode + 'static {
    fn kind() -> Option<usize> {
        if Self::is_ssz_fixed_len() {
            Some(Self::ssz_fixed_len())
        } else {
            None
        }
    }
    fn at(&self) -> (usize, usize);
}
impl Part for Probe {
    fn at(&self) -> (usize, usize) {
        self.0
    }
}
impl<const N: usize> Part for Fix<N> {
    fn at(&self) -> (usize, usize) {
        self.0
    }
}

macro_rules! tuple_places {
    ($($t:ident . $i:tt),*) => {
        impl<$($t: Part),*> Places for ($($t),*) where ($($t),*): Decode {
            fn items() -> Items {
                vec![$($t::kind()),*]
            }
            fn places(&self) -> Vec<(usize, usize)> {
                vec![$(self.$i.at()),*]
            }
        }
    };
}
tuple_places!(A.0, B.1);
tuple_places!(A.0, B.1, C.2);
tuple_places!(A.0, B.1, C.2, D.3);
tuple_places!(A.0, B.1, C.2, D.3, E.4);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10);
tuple_places!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10, L.11);

macro_rules! struct_places {
    ($name:ident<$($t:ident),*>) => {
        #[allow(non_snake_case)]
        #[derive(Encode, Decode)]
        struct $name<$($t: Part + Encode),*> {
            $($t: $t),*
        }
        impl<$($t: Part + Encode),*> Places for $name<$($t),*> {
            fn items() -> Items {
                vec![$($t::kind()),*]
            }
            fn places(&self) -> Vec<(usize, usize)> {
                vec![$(self.$t.at()),*]
            }
        }
    };
}
struct_places!(S1<A>);
struct_places!(S2<A, B>);
struct_places!(S3<A, B, C>);
struct_places!(S4<A, B, C, D>);
struct_places!(S9<A, B, C, D, E, F, G, H, I>);
struct_places!(S10<A, B, C, D, E, F, G, H, I, J>);

fn typed<P: Places>(name: &str) -> Unit {
    Unit::new(format!("decoding {name}"), |t| {
        let items = P::items();
        let vars = items.iter().filter(|i| i.is_none()).count();
        let mut lens: Vec<Vec<usize>> = vec![(0..vars).map(|i| i % 3).collect(), vec![0; vars], vec![2; vars]];
        lens.dedup();
        for l in lens {
            let (b, offs) = layout(&items, &l);
            let mut strings: Vec<Vec<u8>> = vec![b.clone()];
            structural(&b, &offs, &mut |x| strings.push(x.to_vec()));
            for i in 0..offs.len() {
                for j in 0..i {
                    let n = b.len() as u32;
                    let f = offs.len() as u32 * 4;
                    for x in [f, f + 1, f + 2, n, n - 1, n + 1] {
                        for y in [f, f + 1, f + 2, n, n - 1, n + 1] {
                            let mut c = b.clone();
                            c[offs[i]..offs[i] + 4].copy_from_slice(&x.to_le_bytes());
                            c[offs[j]..offs[j] + 4].copy_from_slice(&y.to_le_bytes());
                            strings.push(c);
                        }
                    }
                }
            }
            for x in strings {
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || hex(&x),
                    |t| {
                        t.traces += 1;
                        BASE.with(|b| b.set(x.as_ptr() as usize));
                        let got = guard(|| P::from_ssz_bytes(&x).map(|p| p.places()).map_err(|e| format!("{e:?}")))
                            .map_err(|p| format!("panics: {p}"))?;
                        compare(got, partition(&items, &x))
                    },
                );
            }
        }
    })
}

macro_rules! typed_all {
    ($($t:ty),* $(,)?) => { vec![$(typed::<$t>(stringify!($t))),*] };
}

fn typed_units() -> Vec<Unit> {
    type V = Probe;
    type A = Fix<1>;
    type B = Fix<2>;
    type Z = Fix<0>;
    typed_all![
        (V, V), (V, A), (A, V), (A, B), (Z, V), (V, Z), (Z, Z),
        (V, V, V), (A, V, B), (V, A, V), (A, B, V), (V, A, B), (A, V, V), (V, V, A), (A, Z, B),
        (V, V, V, V), (A, V, B, V), (V, A, V, B), (A, B, A, V), (V, A, B, A), (A, A, A, A), (A, V, V, B),
        (V, V, V, V, V), (A, V, A, V, A), (V, A, V, A, V), (A, A, A, A, V), (B, A, B, A, B),
        (V, V, V, V, V, V), (A, V, A, V, A, V), (A, B, A, B, A, B), (V, A, A, A, A, V),
        (V, V, V, V, V, V, V), (A, V, A, V, A, V, A), (A, B, A, B, A, B, A), (V, A, V, A, V, A, V),
        (V, V, V, V, V, V, V, V), (A, V, A, V, A, V, A, V), (A, B, A, B, A, B, A, B), (A, A, A, A, A, A, A, V),
        (V, V, V, V, V, V, V, V, V), (A, V, A, V, A, V, A, V, A), (A, B, A, B, A, B, A, B, A), (A, A, A, A, A, A, A, A, V),
        (V, V, V, V, V, V, V, V, V, V), (A, V, A, V, A, V, A, V, A, V), (A, B, A, B, A, B, A, B, A, B),
        (V, V, V, V, V, V, V, V, V, V, V), (A, V, A, V, A, V, A, V, A, V, A), (A, B, A, B, A, B, A, B, A, B, A),
        (V, V, V, V, V, V, V, V, V, V, V, V), (A, V, A, V, A, V, A, V, A, V, A, V), (A, B, A, B, A, B, A, B, A, B, A, B),
        S1<V>, S1<A>, S1<Z>,
        S2<V, V>, S2<V, A>, S2<A, V>, S2<A, B>, S2<Z, V>, S2<V, Z>,
        S3<V, V, V>, S3<A, V, B>, S3<V, A, V>, S3<A, B, V>, S3<V, A, B>, S3<A, V, V>, S3<V, V, A>, S3<A, B, A>,
        S4<V, V, V, V>, S4<A, V, B, V>, S4<V, A, V, B>, S4<A, B, A, V>, S4<V, A, B, A>, S4<A, V, V, B>,
        S9<V, V, V, V, V, V, V, V, V>, S9<A, V, A, V, A, V, A, V, A>, S9<A, B, A, B, A, B, A, B, A>, S9<A, A, A, A, A, A, A, A, V>,
        S10<V, V, V, V, V, V, V, V, V, V>, S10<V, A, V, A, V, A, V, A, V, A>,
    ]
}

// --- offset words -------------------------------------------------------------------------------

fn word_units() -> Vec<Unit> {
    let mut out = vec![];
    for top in 0..64u64 {
        out.push(Unit::new(format!("offset words, block {top} of 64"), move |t| {
            for mid in 0..1024u64 {
                let from = (top << 26) | (mid << 16);
                t.states += 1 << 16;
                t.transitions += 1 << 16;
                t.case(
                    || format!("words {from:#x}..{:#x}", from + 0x10000),
                    |t| {
                        let bad = guard(|| {
                            (from..from + 0x10000).find(|n| {
                                let n = *n as usize;
                                let w = encode_length(n);
                                let own = [n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8];
                                w != own || read_offset(&own) != Ok(n)
                            })
                        })
                        .map_err(|p| format!("panics: {p}"))?;
                        t.traces += 1 << 16;
                        match bad {
                            None => Ok(()),
                            Some(n) => Err(format!(
                                "{n} encodes to {:?}; its little-endian word reads as {:?}",
                                encode_length(n as usize),
                                read_offset(&(n as u32).to_le_bytes())
                            )),
                        }
                    },
                );
            }
        }));
    }
    out.push(Unit::new("offset words in strings of other lengths", |t| {
        let mut go = |b: &[u8]| {
            t.states += 1;
            t.transitions += 1;
            t.case(
                || hex(b),
                |t| {
                    t.traces += 1;
                    let got = guard(|| read_offset(b).ok()).map_err(|p| format!("panics: {p}"))?;
                    let want = b.get(..4).map(|w| w.iter().rev().fold(0usize, |a, x| a * 256 + *x as usize));
                    if got == want {
                        Ok(())
                    } else {
                        Err(format!("reads as {got:?}, expected {want:?}"))
                    }
                },
            );
        };
        odometer(&Table { alphabet: vec![0, 1, 0x7f, 0x80, 0xff], max_len: 7 }, &mut go);
        for n in [8usize, 9, 64, 1000] {
            let b: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
            go(&b);
        }
    }));
    out
}

// --- giant inputs -------------------------------------------------------------------------------

fn giant(t: &mut Task) {
    // Untouched pages cost nothing.
    let len = (1usize << 32) + 64;
    let mem = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    if mem == libc::MAP_FAILED {
        t.count("giant inputs could not be mapped", 1);
        return;
    }
    let all = unsafe { std::slice::from_raw_parts_mut(mem as *mut u8, len) };
    let points = [8u32, 9, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
    let sizes = [1usize << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 64];
    let items: Items = vec![None, None];
    for second in points {
        all[..4].copy_from_slice(&8u32.to_le_bytes());
        all[4..8].copy_from_slice(&second.to_le_bytes());
        for n in sizes {
            let b = &all[..n];
            t.states += 1;
            t.transitions += 3;
            t.case(
                || format!("offsets 8, {second} over {n} bytes"),
                |t| {
                    t.traces += 2;
                    BASE.with(|x| x.set(b.as_ptr() as usize));
                    let want = partition(&items, b);
                    let got = guard(|| build(&items, b, 3)).map_err(|p| format!("panics: {p}"))?;
                    compare(got, want.clone())?;
                    let got = guard(|| {
                        decode_list_of_variable_length_items::<Probe, Vec<Probe>>(b, None)
                            .map(|v| v.into_iter().map(|p| p.0).collect())
                            .map_err(|e| format!("{e:?}"))
                    })
                    .map_err(|p| format!("panics: {p}"))?;
                    compare(got, want)
                },
            );
        }
    }
    // A fixed item of more than 2 and 4 GiB before a variable one.
    for big in [(1usize << 31) - 4, 1 << 31, (1 << 32) - 8] {
        for n in [big, big + 3, big + 4, big + 5, big + 8] {
            let items: Items = vec![Some(big), None];
            all[..8].fill(0);
            all[big..big + 4].copy_from_slice(&((big + 4) as u32).to_le_bytes());
            let b = &all[..n];
            t.states += 1;
            t.transitions += 3;
            t.case(
                || format!("[{big}, v] over {n} bytes"),
                |t| {
                    t.traces += 1;
                    BASE.with(|x| x.set(b.as_ptr() as usize));
                    let got = guard(|| build(&items, b, 2)).map_err(|p| format!("panics: {p}"))?;
                    compare(got, partition(&items, b))
                },
            );
            all[big..big + 4].fill(0);
        }
    }
    unsafe {
        libc::munmap(mem, len);
    }
}
