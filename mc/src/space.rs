//! Bounded spaces of values and byte strings, enumerated exhaustively in a fixed order.

use crate::model::{ser_map, Schema, Val};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

use Schema::*;

/// Enumerates the values of a schema by weight: weight 0 is the simplest value, every departure
/// from it (another menu entry, one more list item, another variant) adds weight.
#[derive(Default)]
pub struct Values {
    memo: HashMap<(Schema, usize), Rc<Vec<Val>>>,
}

fn uint(n: usize, x: u128) -> Val {
    if n == 32 {
        Val::W(0, x)
    } else {
        Val::N(x)
    }
}

fn max_of(n: usize) -> u128 {
    if n >= 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}

/// Bit patterns of a given length used for bitfields.
fn bit_patterns(len: usize) -> Vec<Vec<bool>> {
    let mut out: Vec<Vec<bool>> = vec![vec![false; len]];
    if len == 0 {
        return out;
    }
    let mut add = |v: Vec<bool>| {
        if !out.contains(&v) {
            out.push(v)
        }
    };
    add(vec![true; len]);
    add((0..len).map(|i| i == len - 1).collect());
    add((0..len).map(|i| i == 0).collect());
    add((0..len).map(|i| i % 2 == 0).collect());
    add((0..len).map(|i| i % 3 == 1).collect());
    out
}

fn near_lengths(n: usize) -> Vec<usize> {
    let mut out: Vec<usize> = vec![
        2, 3, 6, 7, 8, 9, 10, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129,
        255, 256, 257, 511, 512, 513, 1015, 1016, 1017, 1022, 1023, 1024, 1025, 1032, 2046, 2047,
        2048,
    ];
    for d in 0..3 {
        out.push(n.saturating_sub(d));
    }
    out.retain(|x| *x <= n && *x >= 2);
    out.sort();
    out.dedup();
    out
}

impl Values {
    fn leaf(&self, s: &Schema, w: usize) -> Option<Vec<Val>> {
        let out = match s {
            Uint(n) => match w {
                0 => vec![uint(*n, 0)],
                1 => {
                    let mut v = vec![uint(*n, 1)];
                    v.push(if *n == 32 {
                        Val::W(u128::MAX, u128::MAX)
                    } else {
                        Val::N(max_of(*n))
                    });
                    v
                }
                2 => {
                    // All bytes different: any permutation of bytes shows.
                    let mut x = 0u128;
                    for i in 0..(*n).min(16) {
                        x += (i as u128 + 1) << (8 * i);
                    }
                    let mut v = vec![];
                    if *n == 32 {
                        let mut hi = 0u128;
                        for i in 0..16 {
                            hi += (i as u128 + 17) << (8 * i);
                        }
                        v.push(Val::W(hi, x));
                        v.push(Val::W(1, 0));
                        v.push(Val::W(1 << 127, 0));
                    } else {
                        if *n > 1 {
                            v.push(Val::N(x));
                            v.push(Val::N(256));
                        } else {
                            v.push(Val::N(2));
                            v.push(Val::N(4));
                        }
                        v.push(Val::N(1 << (8 * n - 1)));
                    }
                    v
                }
                3 => {
                    // Every single bit.
                    (1..8 * n)
                        .map(|i| {
                            if *n == 32 {
                                if i < 128 {
                                    Val::W(0, 1 << i)
                                } else {
                                    Val::W(1 << (i - 128), 0)
                                }
                            } else {
                                Val::N(1 << i)
                            }
                        })
                        .filter(|v| *v != Val::N(256) && *v != Val::N(1 << (8 * n.min(&16) - 1)))
                        .filter(|v| *n > 1 || (*v != Val::N(2) && *v != Val::N(4)))
                        .collect()
                }
                4 if *n == 1 => (0..256u128)
                    .filter(|x| !x.is_power_of_two() && *x != 0 && *x != 255)
                    .map(Val::N)
                    .collect(),
                _ => vec![],
            },
            NonZero(n) => match w {
                0 => vec![Val::N(1)],
                1 => vec![Val::N(max_of(*n)), Val::N(2)],
                2 => vec![Val::N(0x0807060504030201), Val::N(256), Val::N(1 << 63)],
                3 => (2..63).filter(|i| *i != 8).map(|i| Val::N(1 << i)).collect(),
                _ => vec![],
            },
            Bool => match w {
                0 => vec![Val::B(false)],
                1 => vec![Val::B(true)],
                _ => vec![],
            },
            BytesN(n) => {
                let n = *n;
                let all = vec![
                    vec![0u8; n],
                    (0..n).map(|i| (i as u8).wrapping_add(1)).collect(),
                    vec![0xff; n],
                    (0..n).map(|i| if i == 0 { 1 } else { 0 }).collect(),
                    (0..n).map(|i| if i + 1 == n { 0x80 } else { 0 }).collect(),
                    (0..n).map(|i| 255 - i as u8).collect(),
                ];
                let mut uniq: Vec<Vec<u8>> = vec![];
                for a in all {
                    if !uniq.contains(&a) {
                        uniq.push(a);
                    }
                }
                let pick = |r: std::ops::Range<usize>| {
                    uniq.iter().skip(r.start).take(r.len()).cloned().map(Val::Bytes).collect()
                };
                match w {
                    0 => pick(0..1),
                    1 => pick(1..3),
                    2 => pick(3..6),
                    _ => vec![],
                }
            }
            ByteList => match w {
                0 => vec![Val::Bytes(vec![])],
                1 => vec![Val::Bytes(vec![0]), Val::Bytes(vec![1, 2])],
                2 => [3usize, 4, 5, 8]
                    .iter()
                    .map(|n| Val::Bytes((0..*n).map(|i| i as u8 + 1).collect()))
                    .collect(),
                3 => [7usize, 9, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257]
                    .iter()
                    .map(|n| Val::Bytes((0..*n).map(|i| (i * 7 + 1) as u8).collect()))
                    .collect(),
                _ => vec![],
            },
            BitVec(n) => {
                let pats = bit_patterns(*n);
                match w {
                    0 => pats[..1].iter().cloned().map(Val::Bits).collect(),
                    1 => pats.iter().skip(1).take(2).cloned().map(Val::Bits).collect(),
                    2 => pats.iter().skip(3).cloned().map(Val::Bits).collect(),
                    3 => (1..n.saturating_sub(1))
                        .map(|i| Val::Bits((0..*n).map(|j| i == j).collect()))
                        .filter(|v| match v {
                            Val::Bits(b) => !pats.contains(b),
                            _ => true,
                        })
                        .collect(),
                    _ => vec![],
                }
            }
            BitList(n) => match w {
                0 => vec![Val::Bits(vec![])],
                1 if *n >= 1 => vec![Val::Bits(vec![false]), Val::Bits(vec![true])],
                2 => near_lengths(*n)
                    .into_iter()
                    .filter(|l| *l <= 9 || *l + 1 >= *n)
                    .flat_map(|l| bit_patterns(l).into_iter().take(3))
                    .map(Val::Bits)
                    .collect(),
                3 => near_lengths(*n)
                    .into_iter()
                    .flat_map(|l| {
                        let skip = if l <= 9 || l + 1 >= *n { 3 } else { 0 };
                        bit_patterns(l).into_iter().skip(skip)
                    })
                    .map(Val::Bits)
                    .collect(),
                _ => vec![],
            },
            BitDyn => {
                let lens: &[usize] = match w {
                    0 => return Some(vec![Val::Bits(vec![false; 8])]),
                    1 => &[8],
                    2 => &[16],
                    3 => &[24, 32, 64, 256, 1016, 1024, 1032],
                    _ => &[],
                };
                lens.iter()
                    .flat_map(|l| {
                        let skip = usize::from(w == 1);
                        bit_patterns(*l).into_iter().skip(skip)
                    })
                    .map(Val::Bits)
                    .collect()
            }
            Tag(n) => match w {
                0 => vec![Val::U(0, None)],
                1 => (1..*n).map(|i| Val::U(i as u8, None)).collect(),
                _ => vec![],
            },
            _ => return None,
        };
        Some(out)
    }

    /// All values of weight exactly `w`, simplest first.
    pub fn exact(&mut self, s: &Schema, w: usize) -> Rc<Vec<Val>> {
        if let Some(v) = self.memo.get(&(s.clone(), w)) {
            return v.clone();
        }
        let v = match self.leaf(s, w) {
            Some(v) => v,
            None => match s {
                List(item) => {
                    let mut out = vec![];
                    self.lists(item, w, &mut vec![], &mut out);
                    out.into_iter().map(Val::L).collect()
                }
                Set(item) => {
                    let mut out = vec![];
                    self.lists(item, w, &mut vec![], &mut out);
                    out.into_iter()
                        .filter(|l| l.windows(2).all(|p| p[0] < p[1]))
                        .map(Val::L)
                        .collect()
                }
                Map(k, v) => {
                    let entry = Cont(vec![(**k).clone(), (**v).clone()]);
                    let mut out = vec![];
                    self.lists(&entry, w, &mut vec![], &mut out);
                    let key = |x: &Val| match x {
                        Val::C(kv) => kv[0].clone(),
                        _ => unreachable!(),
                    };
                    out.into_iter()
                        .filter(|l| l.windows(2).all(|p| key(&p[0]) < key(&p[1])))
                        .map(Val::L)
                        .collect()
                }
                Cont(fs) => {
                    let mut out = vec![];
                    self.fields(fs, w, &mut vec![], &mut out);
                    out.into_iter().map(Val::C).collect()
                }
                Union(vars) => {
                    let mut out = vec![];
                    for (i, p) in vars.iter().enumerate() {
                        let extra = i.min(1);
                        if w < extra {
                            continue;
                        }
                        match p {
                            None => {
                                if w == extra {
                                    out.push(Val::U(i as u8, None));
                                }
                            }
                            Some(p) => {
                                for v in self.exact(p, w - extra).iter() {
                                    out.push(Val::U(i as u8, Some(Box::new(v.clone()))));
                                }
                            }
                        }
                    }
                    out
                }
                Legacy(p) => {
                    let mut out = vec![];
                    if w == 0 {
                        out.push(Val::U(0, None));
                    } else {
                        for v in self.exact(p, w - 1).iter() {
                            out.push(Val::U(1, Some(Box::new(v.clone()))));
                        }
                    }
                    out
                }
                TEnum(vars) => {
                    let mut out = vec![];
                    for (i, p) in vars.iter().enumerate() {
                        let extra = i.min(1);
                        if w < extra {
                            continue;
                        }
                        for v in self.exact(p, w - extra).iter() {
                            out.push(Val::U(i as u8, Some(Box::new(v.clone()))));
                        }
                    }
                    out
                }
                _ => unreachable!(),
            },
        };
        let v = Rc::new(v);
        self.memo.insert((s.clone(), w), v.clone());
        v
    }

    fn lists(&mut self, item: &Schema, w: usize, cur: &mut Vec<Val>, out: &mut Vec<Vec<Val>>) {
        if w == 0 {
            out.push(cur.clone());
            return;
        }
        for iw in 0..w {
            for v in self.exact(item, iw).iter() {
                cur.push(v.clone());
                self.lists(item, w - 1 - iw, cur, out);
                cur.pop();
            }
        }
    }

    fn fields(&mut self, fs: &[Schema], w: usize, cur: &mut Vec<Val>, out: &mut Vec<Vec<Val>>) {
        match fs.split_first() {
            None => {
                if w == 0 {
                    out.push(cur.clone());
                }
            }
            Some((f, rest)) => {
                for fw in 0..=w {
                    for v in self.exact(f, fw).iter() {
                        cur.push(v.clone());
                        self.fields(rest, w - fw, cur, out);
                        cur.pop();
                    }
                }
            }
        }
    }

    /// Cheap upper bound test: would weight `w` produce more than `cap` values?
    fn count(&mut self, s: &Schema, w: usize, cap: usize) -> usize {
        // Counting is done by enumerating weights in increasing order, so lower weights are memoised
        // and the number for `w` is estimated from convolution without materialising.
        match s {
            Cont(fs) => {
                let mut acc = vec![0usize; w + 1];
                acc[0] = 1;
                for f in fs {
                    let mut next = vec![0usize; w + 1];
                    for fw in 0..=w {
                        let c = self.count(f, fw, cap);
                        if c == 0 {
                            continue;
                        }
                        for r in 0..=w - fw {
                            next[r + fw] = next[r + fw].saturating_add(acc[r].saturating_mul(c));
                        }
                    }
                    acc = next;
                }
                acc[w]
            }
            List(i) => self.count_list(&i.clone(), w, cap),
            Set(i) => self.count_list(&i.clone(), w, cap),
            Map(k, v) => {
                let e = Cont(vec![(**k).clone(), (**v).clone()]);
                self.count_list(&e, w, cap)
            }
            Union(vs) => {
                let mut n = 0usize;
                for (i, p) in vs.iter().enumerate() {
                    let extra = i.min(1);
                    if w < extra {
                        continue;
                    }
                    n = n.saturating_add(match p {
                        None => usize::from(w == extra),
                        Some(p) => self.count(p, w - extra, cap),
                    });
                }
                n
            }
            TEnum(vs) => {
                let mut n = 0usize;
                for (i, p) in vs.iter().enumerate() {
                    let extra = i.min(1);
                    if w >= extra {
                        n = n.saturating_add(self.count(p, w - extra, cap));
                    }
                }
                n
            }
            Legacy(p) => {
                if w == 0 {
                    1
                } else {
                    self.count(p, w - 1, cap)
                }
            }
            _ => self.leaf(s, w).map(|v| v.len()).unwrap_or(0),
        }
    }

    fn count_list(&mut self, item: &Schema, w: usize, cap: usize) -> usize {
        let mut acc = vec![0usize; w + 1];
        acc[0] = 1;
        let c: Vec<usize> = (0..w).map(|iw| self.count(item, iw, cap)).collect();
        for t in 1..=w {
            for iw in 0..t {
                acc[t] = acc[t].saturating_add(c[iw].saturating_mul(acc[t - 1 - iw]));
            }
        }
        acc[w]
    }

    /// All values of weight at most W, for the largest W <= wmax with at most `cap` values.
    /// Returns the values and W.
    pub fn upto(&mut self, s: &Schema, wmax: usize, cap: usize) -> (Vec<Val>, usize) {
        let mut out: Vec<Val> = self.exact(s, 0).iter().cloned().collect();
        let mut done = 0;
        for w in 1..=wmax {
            if out.len() + self.count(s, w, cap) > cap {
                break;
            }
            out.extend(self.exact(s, w).iter().cloned());
            done = w;
        }
        (out, done)
    }
}

/// Values with long lists / byte strings: item counts around powers of two, in every list position.
pub fn big_values(s: &Schema, counts: &[usize], inner: &[usize]) -> Vec<Val> {
    let mut vals = Values::default();
    big_at(s, counts, inner, &mut vals)
}

/// A few values whose encodings pass 2^16 bytes or items: counts where offsets and lengths leave 16
/// bits, spread over the list positions of the schema.
pub fn huge_values(s: &Schema, counts: &[usize], inner: &[usize], max_len: usize, keep: usize) -> Vec<Val> {
    let mut all: Vec<Val> = vec![];
    for (c, n) in counts.iter().flat_map(|c| inner.iter().map(move |n| (c, n))) {
        // `inner` is halved with the depth: one more level sees the count once more.
        let mut vs = big_values(s, &[*c], &[*n, 300]);
        vs.retain(|v| {
            let l = crate::model::ser_len(s, v);
            l > 60_000 && l <= max_len
        });
        all.extend(vs);
    }
    spread(all, keep)
}

/// Every item count up to `max`, and the counts around powers of two up to 2^16, of the lists, sets and
/// maps of small items, with no count left out.
pub fn sweep(s: &Schema, max: usize, mut f: impl FnMut(Val)) {
    fn small(s: &Schema) -> bool {
        matches!(s, Bool | ByteList) || s.fixed().is_some_and(|n| (1..=8).contains(&n)) || matches!(s, List(i) if matches!(**i, Uint(1 | 2)))
    }
    let far = (10..=16).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > max);
    let counts = (0..=max).chain(far);
    let mut vals = Values::default();
    match s {
        ByteList => counts.for_each(|n| f(Val::Bytes((0..n).map(|i| (i * 7 % 253) as u8).collect()))),
        List(i) if small(i) => {
            let p = pool(i, &mut vals);
            counts.for_each(|n| f(Val::L((0..n).map(|j| p[(j + j / 5) % p.len()].clone()).collect())));
        }
        Set(i) if small(i) => counts.for_each(|n| {
            if let Some(l) = ascending(i, n) {
                f(Val::L(l));
            }
        }),
        Map(k, v) if small(k) && small(v) => {
            let p = pool(v, &mut vals);
            counts.for_each(|n| {
                if let Some(l) = ascending(k, n) {
                    f(Val::L(l.into_iter().enumerate().map(|(j, k)| Val::C(vec![k, p[(j + j / 5) % p.len()].clone()])).collect()));
                }
            });
        }
        _ => {}
    }
}

/// Values of more than 2^20 bytes: one long byte string, in each place of the schema that holds one, and
/// long lists of simple items.
pub fn giant_values(s: &Schema, sizes: &[usize], keep: usize) -> Vec<Val> {
    let mut vals = Values::default();
    let mut out = vec![];
    for n in sizes {
        out.extend(spread(blobs(s, *n, &mut vals), keep));
    }
    let items = match s {
        List(i) => match &**i {
            Uint(k) if *k <= 8 => 1 << 20 | 5,
            Bool => 1 << 20 | 3,
            ByteList => 1 << 18 | 1,
            List(j) if matches!(**j, Uint(1 | 2)) => 1 << 18 | 1,
            _ => 0,
        },
        _ => 0,
    };
    if let (true, List(i)) = (items > 0, s) {
        let p = pool(i, &mut vals);
        out.push(Val::L((0..items).map(|j| p[(j * j / 7) % p.len()].clone()).collect()));
    }
    out
}

fn blobs(s: &Schema, n: usize, vals: &mut Values) -> Vec<Val> {
    let mut out = vec![];
    match s {
        ByteList => out.push(Val::Bytes((0..n).map(|i| (i % 251) as u8).collect())),
        List(i) | Set(i) => {
            for b in blobs(i, n, vals) {
                let list = matches!(s, List(_));
                let mut l: Vec<Val> = pool(i, vals).into_iter().take(3).collect();
                if !list {
                    l.truncate(1);
                }
                l.insert(l.len().min(1), b.clone());
                if !list {
                    l.sort();
                    l.dedup();
                }
                out.extend([Val::L(vec![b]), Val::L(l)]);
            }
        }
        Map(k, v) => {
            for b in blobs(&Cont(vec![(**k).clone(), (**v).clone()]), n, vals) {
                out.push(Val::L(vec![b]));
            }
        }
        Cont(fs) => {
            for (i, f) in fs.iter().enumerate() {
                for b in blobs(f, n, vals) {
                    let rest: Vec<Val> = fs.iter().map(|g| pool(g, vals).pop().unwrap()).collect();
                    let mut c = rest;
                    c[i] = b;
                    out.push(Val::C(c));
                }
            }
        }
        Union(vs) => {
            for (i, p) in vs.iter().enumerate() {
                if let Some(p) = p {
                    out.extend(blobs(p, n, vals).into_iter().map(|b| Val::U(i as u8, Some(Box::new(b)))));
                }
            }
        }
        Legacy(p) => out.extend(blobs(p, n, vals).into_iter().map(|b| Val::U(1, Some(Box::new(b))))),
        _ => {}
    }
    out
}

/// At most `keep` elements, evenly spread, with the first and the last.
pub fn spread<T>(all: Vec<T>, keep: usize) -> Vec<T> {
    let n = all.len();
    if n <= keep {
        return all;
    }
    let mut want: Vec<usize> = (0..keep).map(|i| if keep == 1 { n - 1 } else { i * (n - 1) / (keep - 1) }).collect();
    want.dedup();
    let mut k = 0;
    all.into_iter()
        .enumerate()
        .filter_map(|(i, v)| {
            if k < want.len() && want[k] == i {
                k += 1;
                Some(v)
            } else {
                None
            }
        })
        .collect()
}

fn pool(s: &Schema, vals: &mut Values) -> Vec<Val> {
    let mut p: Vec<Val> = vals.exact(s, 0).iter().cloned().collect();
    p.extend(vals.exact(s, 1).iter().take(4).cloned());
    p.extend(vals.exact(s, 2).iter().take(4).cloned());
    p
}

/// n distinct ascending keys of a schema, if it has that many in a simple family.
pub fn ascending(s: &Schema, n: usize) -> Option<Vec<Val>> {
    let out: Vec<Val> = match s {
        Uint(32) => (0..n).map(|i| Val::W(i as u128 % 3, i as u128 / 3)).collect(),
        Uint(k) => {
            if *k < 8 && n > 1usize << (8 * k) {
                return None;
            }
            (0..n).map(|i| Val::N(i as u128)).collect()
        }
        NonZero(_) => (0..n).map(|i| Val::N(i as u128 + 1)).collect(),
        BytesN(k) if *k >= 3 => (0..n)
            .map(|i| {
                let mut b = vec![0u8; *k];
                b[0] = (i >> 8) as u8;
                b[*k - 1] = i as u8;
                b[1] = (i >> 16) as u8;
                Val::Bytes(b)
            })
            .collect(),
        ByteList => (0..n).map(|i| Val::Bytes(vec![7; i % 5].into_iter().chain((i as u32).to_be_bytes()).collect())).collect(),
        List(item) => match &**item {
            Uint(k) if *k < 32 => (0..n)
                .map(|i| Val::L((i as u32).to_be_bytes().iter().take(1 + i % 4).map(|b| Val::N(*b as u128)).chain([Val::N(i as u128 % 251)]).collect()))
                .collect(),
            _ => return None,
        },
        Cont(fs) if !fs.is_empty() => {
            let first = ascending(&fs[0], n)?;
            let mut vals = Values::default();
            let rest: Vec<Val> = fs[1..].iter().map(|f| vals.exact(f, 0)[0].clone()).collect();
            first
                .into_iter()
                .map(|f| Val::C([f].into_iter().chain(rest.clone()).collect()))
                .collect()
        }
        Union(vs) => {
            let (i, p) = vs.iter().enumerate().find_map(|(i, p)| p.as_ref().map(|p| (i, p)))?;
            ascending(p, n)?.into_iter().map(|v| Val::U(i as u8, Some(Box::new(v)))).collect()
        }
        _ => return None,
    };
    let mut out = out;
    out.sort();
    out.dedup();
    Some(out)
}

fn big_at(s: &Schema, counts: &[usize], inner: &[usize], vals: &mut Values) -> Vec<Val> {
    let mut out = vec![];
    match s {
        ByteList => {
            for c in counts {
                out.push(Val::Bytes((0..*c).map(|i| (i % 251) as u8).collect()));
            }
        }
        BitList(n) => {
            for l in near_lengths(*n) {
                if l > 33 {
                    out.extend(bit_patterns(l).into_iter().map(Val::Bits));
                }
            }
        }
        BitDyn => {
            for c in counts {
                if *c <= 1100 {
                    out.extend(bit_patterns(c * 8).into_iter().take(3).map(Val::Bits));
                } else {
                    // Few fields of this size: a pattern that tells the bytes apart.
                    out.push(Val::Bits((0..c * 8).map(|i| i % 7 == 0 || i % 251 < 3).collect()));
                }
            }
        }
        List(item) => {
            let p = pool(item, vals);
            let size = crate::model::ser_len(item, &p[0]);
            for c in counts.iter().filter(|c| *c * size <= 6_000_000) {
                out.push(Val::L((0..*c).map(|i| p[i % p.len()].clone()).collect()));
            }
            for b in big_at(item, inner, &inner[..inner.len() / 2], vals) {
                out.push(Val::L(vec![b.clone()]));
                out.push(Val::L(vec![p[0].clone(), b.clone()]));
                out.push(Val::L(vec![b.clone(), p[p.len() - 1].clone(), b.clone()]));
            }
        }
        Set(item) => {
            for c in counts {
                if let Some(v) = ascending(item, *c) {
                    out.push(Val::L(v));
                }
            }
        }
        Map(k, v) => {
            let p = pool(v, vals);
            let size = crate::model::ser_len(v, &p[0]);
            for c in counts.iter().filter(|c| *c * size <= 6_000_000) {
                if let Some(ks) = ascending(k, *c) {
                    out.push(Val::L(
                        ks.into_iter()
                            .enumerate()
                            .map(|(i, k)| Val::C(vec![k, p[i % p.len()].clone()]))
                            .collect(),
                    ));
                }
            }
            let k0 = vals.exact(k, 0)[0].clone();
            for b in big_at(v, inner, &inner[..inner.len() / 2], vals) {
                out.push(Val::L(vec![Val::C(vec![k0.clone(), b])]));
            }
        }
        Cont(fs) => {
            let zero: Vec<Val> = fs.iter().map(|f| vals.exact(f, 0)[0].clone()).collect();
            let alt: Vec<Val> = fs
                .iter()
                .zip(&zero)
                .map(|(f, z)| vals.exact(f, 1).last().cloned().unwrap_or(z.clone()))
                .collect();
            for (i, f) in fs.iter().enumerate() {
                for b in big_at(f, counts, inner, vals) {
                    for base in [&zero, &alt] {
                        let mut v = base.clone();
                        v[i] = b.clone();
                        out.push(Val::C(v));
                    }
                }
            }
        }
        Union(vars) => {
            // With many variants, the first, the second and the last one stand for all.
            for (i, p) in vars.iter().enumerate() {
                if i > 1 && i + 1 != vars.len() {
                    continue;
                }
                if let Some(p) = p {
                    for b in big_at(p, counts, inner, vals) {
                        out.push(Val::U(i as u8, Some(Box::new(b))));
                    }
                }
            }
        }
        Legacy(p) => {
            for b in big_at(p, counts, inner, vals) {
                out.push(Val::U(1, Some(Box::new(b))));
            }
        }
        TEnum(vars) => {
            for (i, p) in vars.iter().enumerate() {
                for b in big_at(p, counts, inner, vals) {
                    out.push(Val::U(i as u8, Some(Box::new(b))));
                }
            }
        }
        _ => (),
    }
    out
}

// ------------------------------------------------------------------------------------------------
// Leaf tables
// ------------------------------------------------------------------------------------------------

/// Byte patterns of length n: with n <= 2 all of them; with n <= 4 every combination of the menu; beyond,
/// every pair of positions in every combination of the menu over backgrounds of zeros and of 0xff.
pub fn patterns(n: usize, wide: bool) -> Vec<Vec<u8>> {
    let menu: &[u8] = if wide {
        &[0, 1, 2, 3, 7, 8, 0x0f, 0x10, 0x3f, 0x40, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xc0, 0xfe, 0xff]
    } else {
        &[0, 1, 2, 0x7f, 0x80, 0xff]
    };
    let mut out = vec![];
    match n {
        0 => out.push(vec![]),
        1 => out.extend((0..=255u8).map(|b| vec![b])),
        2 => out.extend((0..=65_535u32).map(|x| vec![x as u8, (x >> 8) as u8])),
        3 | 4 => odometer(&Table { alphabet: menu.to_vec(), max_len: n }, |x| {
            if x.len() == n {
                out.push(x.to_vec());
            }
        }),
        _ => {
            for bg in [0u8, 0xff] {
                out.push(vec![bg; n]);
                let menu: Vec<u8> = menu.iter().copied().filter(|b| *b != bg).collect();
                for i in 0..n {
                    for a in &menu {
                        let mut x = vec![bg; n];
                        x[i] = *a;
                        out.push(x.clone());
                        if n > 64 && i > 1 && i + 2 < n {
                            continue;
                        }
                        for j in i + 1..n {
                            for b in &menu {
                                x[j] = *b;
                                out.push(x.clone());
                            }
                            x[j] = bg;
                        }
                    }
                }
            }
        }
    }
    out
}

/// Values that put the patterns in every leaf of the schema, one leaf at a time: alone, and in lists of
/// one and of all of them. Below the top, at most `cap` patterns per leaf, evenly spread.
pub fn table_values(s: &Schema, wide: bool, cap: usize) -> Vec<Val> {
    table_at(s, wide, cap, usize::MAX, &mut Values::default())
}

fn table_at(s: &Schema, wide: bool, cap: usize, here: usize, vals: &mut Values) -> Vec<Val> {
    let below = |i: &Schema, vals: &mut Values| table_at(i, wide, cap, cap, vals);
    let out: Vec<Val> = match s {
        Bool | Tag(_) => vec![],
        Uint(n) | NonZero(n) | BytesN(n) if *n <= 300 => {
            patterns(*n, wide && *n <= 64).iter().filter_map(|b| crate::model::de(s, b).ok()).collect()
        }
        ByteList => [2usize, 5, 8, 33]
            .iter()
            .flat_map(|n| spread(patterns(*n, false), 3 * cap))
            .map(Val::Bytes)
            .collect(),
        List(i) => {
            let all = table_at(i, wide, cap, usize::MAX, vals);
            if all.is_empty() {
                return vec![];
            }
            let lead = vals.exact(i, 0)[0].clone();
            let mut out: Vec<Val> = vec![];
            for v in spread(all.clone(), cap.min(here)) {
                out.push(Val::L(vec![v.clone()]));
                out.push(Val::L(vec![lead.clone(), v]));
            }
            if here == usize::MAX {
                for c in all.chunks(4_096) {
                    out.push(Val::L(c.to_vec()));
                }
            }
            return out;
        }
        Set(i) => {
            let mut all = table_at(i, wide, cap, usize::MAX, vals);
            let mut out: Vec<Val> = spread(all.clone(), cap).into_iter().map(|v| Val::L(vec![v])).collect();
            all.sort();
            all.dedup();
            if !all.is_empty() {
                out.push(Val::L(spread(all, 5_000)));
            }
            out
        }
        Map(k, v) => {
            let mut ks = table_at(k, wide, cap, usize::MAX, vals);
            ks.sort();
            ks.dedup();
            let (k0, v0) = (vals.exact(k, 0)[0].clone(), vals.exact(v, 0)[0].clone());
            let mut out: Vec<Val> = spread(ks.clone(), cap)
                .into_iter()
                .map(|k| Val::L(vec![Val::C(vec![k, v0.clone()])]))
                .collect();
            if !ks.is_empty() {
                let all = spread(ks, 5_000);
                out.push(Val::L(all.into_iter().map(|k| Val::C(vec![k, v0.clone()])).collect()));
            }
            out.extend(below(v, vals).into_iter().map(|v| Val::L(vec![Val::C(vec![k0.clone(), v])])));
            out
        }
        Cont(fs) => {
            let rest: Vec<Val> = fs.iter().map(|g| pool(g, vals).pop().unwrap()).collect();
            let mut out = vec![];
            for (i, f) in fs.iter().enumerate() {
                for v in below(f, vals) {
                    let mut c = rest.clone();
                    c[i] = v;
                    out.push(Val::C(c));
                }
            }
            out
        }
        Union(vs) => {
            let mut out = vec![];
            for (i, p) in vs.iter().enumerate() {
                if let Some(p) = p {
                    out.extend(below(p, vals).into_iter().map(|v| Val::U(i as u8, Some(Box::new(v)))));
                }
            }
            out
        }
        Legacy(p) => below(p, vals).into_iter().map(|v| Val::U(1, Some(Box::new(v)))).collect(),
        TEnum(vs) => {
            let mut out = vec![];
            for (i, p) in vs.iter().enumerate() {
                out.extend(below(p, vals).into_iter().map(|v| Val::U(i as u8, Some(Box::new(v)))));
            }
            out
        }
        _ => vec![],
    };
    if here == usize::MAX {
        out
    } else {
        spread(out, here)
    }
}

/// Byte strings of the leaf tables: the encodings of the table's values, and for a type of fixed size
/// the patterns themselves, which also include invalid ones.
pub fn table_strings(s: &Schema, wide: bool, cap: usize, mut f: impl FnMut(&[u8])) {
    if let Some(n) = s.fixed().filter(|n| *n <= 300) {
        for p in patterns(n, wide && n <= 64) {
            f(&p);
        }
    }
    if matches!(s, Uint(_) | NonZero(_) | BytesN(_)) {
        return;
    }
    for v in table_values(s, wide, cap) {
        f(&crate::model::ser(s, &v));
    }
}

// ------------------------------------------------------------------------------------------------
// Byte strings
// ------------------------------------------------------------------------------------------------

/// All strings over `alphabet` of length at most `max_len`.
#[derive(Clone, Debug)]
pub struct Table {
    pub alphabet: Vec<u8>,
    pub max_len: usize,
}

/// Bounds of the byte-string space of one type.
#[derive(Clone, Debug)]
pub struct ByteBounds {
    pub tables: Vec<Table>,
    /// Seeds: encodings of all values up to a weight / count.
    pub seed_weight: usize,
    pub seed_cap: usize,
    pub seed_max_len: usize,
    /// Seeds up to this length get every pair of structural deviations.
    pub pair_max_len: usize,
    pub pair_seeds: usize,
    /// Every byte value at every position (else a fixed menu).
    pub full_bytes: bool,
}

impl Table {
    fn covers(&self, b: &[u8]) -> bool {
        b.len() <= self.max_len && b.iter().all(|x| self.alphabet.contains(x))
    }
}

fn push_symbol(a: &mut Vec<u8>, x: usize) {
    if x < 256 && !a.contains(&(x as u8)) {
        a.push(x as u8);
    }
}

/// Alphabets adapted to the schema: 0, 1 (bools, selectors, delimiters) and the numbers around the
/// end of its fixed part (first offsets).
pub fn tables(s: &Schema, wide: bool) -> Vec<Table> {
    if wide {
        tables_sized(s, 70_000, 1_200_000, 1_200_000, 1_500_000)
    } else {
        tables_sized(s, 70_000, 0, 120_000, 90_000)
    }
}

/// Alphabets of 256, about 20, about 10 and 4 symbols, each to the length that fits its budget.
pub fn tables_sized(s: &Schema, full_n: usize, big_n: usize, mid_n: usize, small_n: usize) -> Vec<Table> {
    // The prefix before the first offset word: selectors shift it.
    let f = match s {
        Cont(fs) => fs.iter().map(|f| f.part()).sum(),
        Union(_) => 4,
        _ => 4,
    };
    let mut small = vec![0u8, 1];
    push_symbol(&mut small, f);
    push_symbol(&mut small, f + 1);
    let mut mid = small.clone();
    for x in [f + 2, 4, 8, 2, 0x80, 0xff] {
        push_symbol(&mut mid, x);
    }
    let mut big = mid.clone();
    for x in [f + 3, f + 4, 3, 5, 7, 9, 12, 0x7f, 0xfe, 0x10] {
        push_symbol(&mut big, x);
    }
    let full: Vec<u8> = (0..=255).collect();
    let fit = |alphabet: Vec<u8>, budget: usize| {
        let mut max_len = 0;
        let mut total = 1usize;
        let mut pow = 1usize;
        while max_len < 14 {
            pow = pow.saturating_mul(alphabet.len());
            total = total.saturating_add(pow);
            if total > budget {
                break;
            }
            max_len += 1;
        }
        Table { alphabet, max_len }
    };
    let mut out = vec![fit(full, full_n)];
    if big_n > 0 {
        out.push(fit(big, big_n));
    }
    out.push(fit(mid, mid_n));
    out.push(fit(small, small_n));
    out
}

pub fn odometer(t: &Table, mut f: impl FnMut(&[u8])) {
    for len in 0..=t.max_len {
        let mut idx = vec![0usize; len];
        let mut buf: Vec<u8> = vec![t.alphabet[0]; len];
        loop {
            f(&buf);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                idx[i] += 1;
                if idx[i] < t.alphabet.len() {
                    buf[i] = t.alphabet[idx[i]];
                    break;
                }
                idx[i] = 0;
                buf[i] = t.alphabet[0];
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || len == 0 {
                break;
            }
        }
    }
}

const BYTE_MENU: [u8; 12] = [0, 1, 2, 3, 4, 5, 8, 0x10, 0x7f, 0x80, 0xfe, 0xff];
const BIG_WORDS: [u32; 16] = [
    0xff,
    0x100,
    0x103,
    0x104,
    0xffff,
    0x1_0000,
    0x1_0004,
    0xff_ffff,
    0x100_0000,
    0x100_0004,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0004,
    0xffff_fff0,
    0xffff_fffc,
    0xffff_ffff,
];

/// Deviations of one structural kind: offset words, truncation, extension, block moves.
pub fn structural(b: &[u8], offs: &[usize], f: &mut dyn FnMut(&[u8])) {
    let n = b.len();
    let mut c = b.to_vec();
    for &o in offs {
        if o + 4 > n {
            continue;
        }
        for x in (0..=n as u32 + 5).chain(BIG_WORDS) {
            c[o..o + 4].copy_from_slice(&x.to_le_bytes());
            f(&c);
        }
        c[o..o + 4].copy_from_slice(&b[o..o + 4]);
    }
    for k in 0..n {
        f(&b[..k]);
    }
    for tail in [&[0u8][..], &[1], &[0xff], &[0, 0], &[0; 4], &[4, 0, 0, 0], &[1; 8]] {
        c.truncate(n);
        c.extend_from_slice(tail);
        f(&c);
    }
    c.truncate(n);
    // Remove the first byte(s).
    for k in 1..n.min(5) {
        f(&b[k..]);
    }
}

/// All single deviations of a string.
pub fn single(b: &[u8], offs: &[usize], full: bool, f: &mut dyn FnMut(&[u8])) {
    let n = b.len();
    structural(b, offs, f);
    let mut c = b.to_vec();
    for i in 0..n {
        let orig = b[i];
        if full {
            for x in 0..=255u8 {
                if x != orig {
                    c[i] = x;
                    f(&c);
                }
            }
        } else {
            for x in BYTE_MENU {
                c[i] = x;
                f(&c);
            }
            for k in 0..8 {
                c[i] = orig ^ (1 << k);
                f(&c);
            }
            c[i] = orig.wrapping_add(1);
            f(&c);
            c[i] = orig.wrapping_sub(1);
            f(&c);
        }
        c[i] = orig;
    }
    // Four-byte windows that are not known offset words.
    if n >= 4 {
        for o in 0..=n - 4 {
            if offs.contains(&o) {
                continue;
            }
            for x in (0..=n as u32 + 2).chain([0x8000_0000, 0xffff_fffc, 0xffff_ffff]) {
                c[o..o + 4].copy_from_slice(&x.to_le_bytes());
                f(&c);
            }
            c[o..o + 4].copy_from_slice(&b[o..o + 4]);
        }
    }
    for i in 0..n {
        // Delete one byte.
        let mut d = b.to_vec();
        d.remove(i);
        f(&d);
        // Delete a word.
        if i + 4 <= n {
            let mut d = b.to_vec();
            d.drain(i..i + 4);
            f(&d);
        }
    }
    for i in 0..=n {
        for x in [0u8, 1, 4, 0xff] {
            let mut d = b.to_vec();
            d.insert(i, x);
            f(&d);
        }
        let mut d = b.to_vec();
        for _ in 0..4 {
            d.insert(i, 0);
        }
        f(&d);
    }
    // Repeat the whole string.
    let mut d = b.to_vec();
    d.extend_from_slice(b);
    f(&d);
}

/// All assignments of the offset words from the set of positions that matter.
pub fn offset_grid(b: &[u8], offs: &[usize], budget: usize, f: &mut dyn FnMut(&[u8])) {
    let k = offs.len();
    if !(2..=6).contains(&k) {
        return;
    }
    let n = b.len() as u32;
    let word = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
    let mut cands: Vec<u32> = (0..=n + 1).collect();
    if cands.len().saturating_pow(k as u32) > budget {
        cands.clear();
        for o in offs {
            let w = word(*o);
            for x in [w.wrapping_sub(1), w, w + 1] {
                if x <= n + 1 && !cands.contains(&x) {
                    cands.push(x);
                }
            }
        }
        for x in [n, n + 1, 0] {
            if !cands.contains(&x) {
                cands.push(x);
            }
        }
    }
    if cands.len().saturating_pow(k as u32) > budget {
        return;
    }
    let mut idx = vec![0usize; k];
    let mut c = b.to_vec();
    'outer: loop {
        for j in 0..k {
            c[offs[j]..offs[j] + 4].copy_from_slice(&cands[idx[j]].to_le_bytes());
        }
        f(&c);
        let mut j = 0;
        loop {
            idx[j] += 1;
            if idx[j] < cands.len() {
                break;
            }
            idx[j] = 0;
            j += 1;
            if j == k {
                break 'outer;
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct ByteStats {
    /// Distinct strings visited.
    pub states: u64,
    /// Deviation edges generated, including those leading to a string already visited.
    pub transitions: u64,
    pub seeds: u64,
    pub weight: usize,
    pub pair_seeds: u64,
}

/// Visits every string of the bounded space of `s` exactly once.
pub fn explore_bytes(s: &Schema, bounds: &ByteBounds, mut visit: impl FnMut(&[u8])) -> ByteStats {
    let mut st = ByteStats::default();
    // 1. complete tables
    for (i, t) in bounds.tables.iter().enumerate() {
        odometer(t, |b| {
            st.transitions += 1;
            if bounds.tables[..i].iter().any(|p| p.covers(b)) {
                return;
            }
            st.states += 1;
            visit(b);
        });
    }
    // 2. deviation closure around valid encodings
    let (vals, w) = Values::default().upto(s, bounds.seed_weight, bounds.seed_cap);
    st.weight = w;
    let mut seen: HashSet<Box<[u8]>> = HashSet::new();
    let mut seeds: Vec<(Vec<u8>, Vec<usize>)> = vec![];
    {
        let mut seed_set: HashSet<Vec<u8>> = HashSet::new();
        for v in &vals {
            let (b, offs) = ser_map(s, v);
            if b.len() <= bounds.seed_max_len && seed_set.insert(b.clone()) {
                seeds.push((b, offs));
            }
        }
    }
    if seeds.is_empty() {
        // All encodings are longer than the bound: take the simplest.
        let (b, offs) = ser_map(s, &vals[0]);
        seeds.push((b, offs));
    }
    seeds.sort_by_key(|(b, _)| b.len());
    st.seeds = seeds.len() as u64;
    let mut go = |b: &[u8], st: &mut ByteStats| {
        st.transitions += 1;
        if bounds.tables.iter().any(|p| p.covers(b)) || seen.contains(b) {
            return;
        }
        seen.insert(b.into());
        st.states += 1;
        visit(b);
    };
    for (b, offs) in &seeds {
        go(b, &mut st);
        single(b, offs, bounds.full_bytes, &mut |x| go(x, &mut st));
        offset_grid(b, offs, if bounds.full_bytes { 30_000 } else { 4_000 }, &mut |x| go(x, &mut st));
    }
    // 3. every pair of structural deviations on the smallest seeds with offsets, then any
    let mut order: Vec<&(Vec<u8>, Vec<usize>)> =
        seeds.iter().filter(|(b, _)| b.len() <= bounds.pair_max_len).collect();
    order.sort_by_key(|(b, o)| (o.is_empty(), b.len()));
    for (b, offs) in order.into_iter().take(bounds.pair_seeds) {
        st.pair_seeds += 1;
        let mut level1: HashSet<Vec<u8>> = HashSet::new();
        structural(b, offs, &mut |x| {
            level1.insert(x.to_vec());
        });
        let mut level1: Vec<Vec<u8>> = level1.into_iter().collect();
        level1.sort();
        for x in level1 {
            single(&x, offs, false, &mut |y| go(y, &mut st));
        }
    }
    st
}

pub fn big_words() -> impl Iterator<Item = u32> {
    BIG_WORDS.into_iter()
}
