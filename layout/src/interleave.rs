//! Several decoder builders at once, and decodes that end early, for C09.
//!
//! Where a builder cuts its input depends on its own registrations and input alone. Every merge of
//! the call sequences of two live builders over different inputs, and good decodes after every
//! way a decode can end early (dropped builder, failed build, item that fails, item that panics).

use crate::tables::{compare, layout, place_from, register, Items};
use mc::engine::{guard, hex, Task, Unit};
use mc::model::partition;
use ssz::*;

const FEW: [Option<usize>; 3] = [None, Some(1), Some(2)];

fn seqs(lo: usize, hi: usize) -> Vec<Items> {
    let mut out = vec![];
    let mut last: Vec<Items> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(last.iter().cloned());
        }
        last = last
            .into_iter()
            .flat_map(|s| {
                FEW.iter().map(move |o| {
                    let mut s = s.clone();
                    s.push(*o);
                    s
                })
            })
            .collect();
    }
    out
}

/// Inputs for the items: valid ones, and ones that fail at each of the stages.
fn inputs(items: &Items) -> Vec<Vec<u8>> {
    let vars = items.iter().filter(|i| i.is_none()).count();
    let mut out = vec![];
    for k in 0..if vars > 0 { 3usize } else { 1 } {
        out.push(layout(items, &(0..vars).map(|i| [2, i % 2, (i + 1) % 2 * 5][k]).collect::<Vec<_>>()).0);
    }
    let (b, offs) = layout(items, &vec![1; vars]);
    // Short, long, a first offset past the fixed part, a last one past the end, decreasing ones.
    if !b.is_empty() {
        out.push(b[..b.len() - 1].to_vec());
    }
    out.push([&b[..], &[9]].concat());
    for (i, d) in [(0, 1u32), (offs.len().wrapping_sub(1), 2), (1, u32::MAX)] {
        if let Some(o) = offs.get(i) {
            let mut c = b.clone();
            let w = u32::from_le_bytes(b[*o..*o + 4].try_into().unwrap()).wrapping_add(d);
            c[*o..*o + 4].copy_from_slice(&w.to_le_bytes());
            out.push(c);
        }
    }
    out
}

enum Stage<'a> {
    Building(SszDecoderBuilder<'a>),
    Decoding(SszDecoder<'a>),
    Over,
}

/// One decode, a step at a time: registrations, the build, the items.
struct Run<'a> {
    items: &'a Items,
    bytes: &'a [u8],
    way: usize,
    stage: Stage<'a>,
    done: usize,
    got: Result<Vec<(usize, usize)>, String>,
}

impl<'a> Run<'a> {
    fn new(items: &'a Items, bytes: &'a [u8], way: usize) -> Self {
        Run { items, bytes, way, stage: Stage::Building(SszDecoderBuilder::new(bytes)), done: 0, got: Ok(vec![]) }
    }
    fn steps(items: &Items) -> usize {
        2 * items.len() + 1
    }
    fn step(&mut self) {
        let n = self.items.len();
        let k = self.done;
        self.done += 1;
        self.stage = match std::mem::replace(&mut self.stage, Stage::Over) {
            Stage::Building(mut b) if k < n => match register(&mut b, self.items[k], (self.way + k) % 3) {
                Ok(()) => Stage::Building(b),
                Err(e) => self.fail(format!("item {k}: {e:?}")),
            },
            Stage::Building(b) => match b.build() {
                Ok(d) => Stage::Decoding(d),
                Err(e) => self.fail(format!("build: {e:?}")),
            },
            Stage::Decoding(mut d) => {
                let from = self.bytes;
                match d.decode_next_with(|b| Ok(place_from(from, b))) {
                    Ok(p) => {
                        self.got.as_mut().unwrap().push(p);
                        Stage::Decoding(d)
                    }
                    Err(e) => self.fail(format!("decoding: {e:?}")),
                }
            }
            Stage::Over => Stage::Over,
        };
    }
    fn fail(&mut self, e: String) -> Stage<'a> {
        self.got = Err(e);
        Stage::Over
    }
}

fn merges(lens: [usize; 2], f: &mut dyn FnMut(&[usize])) {
    fn go(left: &mut [usize; 2], path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if *left == [0, 0] {
            return f(path);
        }
        for i in 0..2 {
            if left[i] > 0 {
                left[i] -= 1;
                path.push(i);
                go(left, path, f);
                path.pop();
                left[i] += 1;
            }
        }
    }
    let mut left = lens;
    go(&mut left, &mut vec![], f)
}

fn kinds(items: &Items) -> String {
    items.iter().map(|i| i.map(|n| n.to_string()).unwrap_or("v".into())).collect::<Vec<_>>().join(",")
}

fn interleaved() -> Vec<Unit> {
    seqs(0, 2)
        .into_iter()
        .map(|a| {
            Unit::new(format!("two live builders, one with [{}]", kinds(&a)), move |t| {
                let hi = if t.thorough() { 3 } else { 2 };
                for b in seqs(0, hi) {
                    // The longest pairs have hundreds of merges: fewer inputs for them.
                    let cap = if a.len() + b.len() > 4 { 2 } else { usize::MAX };
                    for x in inputs(&a).iter().take(cap) {
                        for y in inputs(&b).iter().take(cap) {
                            if t.stopped() {
                                return;
                            }
                            merges([Run::steps(&a), Run::steps(&b)], &mut |path| {
                                t.states += 1;
                                t.transitions += path.len() as u64;
                                t.case(
                                    || format!("[{}] over {}, [{}] over {}, in the order {path:?}", kinds(&a), hex(x), kinds(&b), hex(y)),
                                    |t| {
                                        t.traces += 1;
                                        let got = guard(|| {
                                            let mut r = [Run::new(&a, x, 0), Run::new(&b, y, 1)];
                                            for i in path {
                                                r[*i].step();
                                            }
                                            r.map(|r| r.got)
                                        })
                                        .map_err(|p| format!("panics: {p}"))?;
                                        let [g, h] = got;
                                        compare(g, partition(&a, x)).map_err(|e| format!("the first: {e}"))?;
                                        compare(h, partition(&b, y)).map_err(|e| format!("the second: {e}"))
                                    },
                                );
                            });
                        }
                    }
                }
            })
        })
        .collect()
}

#[derive(Clone, Copy, Debug)]
enum End {
    /// Stops after so many steps.
    After(usize),
    /// The reader of the first item refuses it, or panics.
    Refuses,
    Panics,
    Forgotten,
}

fn early(items: &Items, bytes: &[u8], end: End) {
    let _ = guard(|| {
        let mut b = SszDecoderBuilder::new(bytes);
        let steps = if let End::After(n) = end { n } else { usize::MAX };
        for (i, k) in items.iter().enumerate() {
            if i >= steps || register(&mut b, *k, 1).is_err() {
                return;
            }
        }
        if steps <= items.len() {
            return;
        }
        let Ok(mut d) = b.build() else { return };
        match end {
            End::After(n) => {
                for _ in items.len() + 1..n {
                    if d.decode_next_with(|_| Ok(())).is_err() {
                        return;
                    }
                }
            }
            End::Refuses => {
                let _ = d.decode_next_with(|_| Err::<(), _>(DecodeError::BytesInvalid("no".into())));
            }
            End::Panics => {
                let _ = d.decode_next_with(|_| -> Result<(), DecodeError> { panic!("no") });
            }
            End::Forgotten => std::mem::forget(d),
        }
    });
}

fn after_early() -> Vec<Unit> {
    seqs(1, 2)
        .into_iter()
        .map(|a| {
            Unit::new(format!("decodes after one of [{}] that ends early", kinds(&a)), move |t| {
                let ends: Vec<End> =
                    (0..=2 * a.len()).map(End::After).chain([End::Refuses, End::Panics, End::Forgotten]).collect();
                for x in inputs(&a) {
                    for end in &ends {
                        for b in seqs(0, 3) {
                            for y in inputs(&b) {
                                t.states += 1;
                                t.transitions += 1;
                                t.case(
                                    || format!("[{}] over {}, {end:?}, then [{}] over {}", kinds(&a), hex(&x), kinds(&b), hex(&y)),
                                    |t| {
                                        t.traces += 1;
                                        early(&a, &x, *end);
                                        let got = guard(|| {
                                            let mut r = Run::new(&b, &y, 2);
                                            for _ in 0..Run::steps(&b) {
                                                r.step();
                                            }
                                            r.got
                                        })
                                        .map_err(|p| format!("panics: {p}"))?;
                                        compare(got, partition(&b, &y))
                                    },
                                );
                            }
                        }
                        if t.stopped() {
                            return;
                        }
                    }
                }
            })
        })
        .collect()
}

pub fn units() -> Vec<Unit> {
    let mut out = interleaved();
    out.extend(after_early());
    out
}
