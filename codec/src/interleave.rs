//! Several encoders at once, and encoders that are never finished, for C10.
//!
//! What an encoding appends depends on the value alone, whatever other encoders live at the same
//! time in the thread and however earlier ones ended. Every merge of the call sequences of two or
//! three live encoders, and every way an encoder can be abandoned, followed by encodings that are
//! compared with the specification's bytes.

use crate::histories::{diff, expected, Op};
use mc::engine::{guard, hex, Task, Unit};
use ssz::*;

const FEW: [Op; 6] = [Op::U8, Op::V1, Op::VV, Op::ParamVar, Op::V0, Op::Tuple];

fn spec(seq: &[Op]) -> Vec<(bool, Vec<u8>)> {
    seq.iter().map(|o| o.spec()).collect()
}

fn fixed_len(seq: &[Op]) -> usize {
    spec(seq).iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum()
}

/// All sequences of `FEW` of length `lo..=hi`.
fn seqs(lo: usize, hi: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(last.iter().cloned());
        }
        last = last
            .into_iter()
            .flat_map(|s| {
                FEW.iter().map(move |o| {
                    let mut s = s.clone();
                    s.push(*o);
                    s
                })
            })
            .collect();
    }
    out
}

/// All merges of `lens.len()` sequences of these lengths, as the list of who moves.
fn merges(lens: &[usize], f: &mut dyn FnMut(&[usize])) {
    fn go(left: &mut Vec<usize>, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if left.iter().all(|n| *n == 0) {
            return f(path);
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                path.push(i);
                go(left, path, f);
                path.pop();
                left[i] += 1;
            }
        }
    }
    go(&mut lens.to_vec(), &mut vec![], f)
}

/// One merge: encoder `i` is created, given its operations and finalized, in `lens[i] = ops + 2`
/// moves.
fn run_merge(parts: &[Vec<Op>], path: &[usize]) -> Result<(), String> {
    let mut bufs: Vec<Vec<u8>> = (0..parts.len()).map(|i| vec![0x30 + i as u8; i]).collect();
    let want: Vec<Vec<u8>> = parts.iter().enumerate().map(|(i, s)| expected(&spec(s), &bufs[i], 0)).collect();
    guard(|| {
        let mut slots: Vec<Option<&mut Vec<u8>>> = bufs.iter_mut().map(Some).collect();
        let mut live: Vec<Option<SszEncoder>> = parts.iter().map(|_| None).collect();
        let mut done = vec![0usize; parts.len()];
        for &i in path {
            match done[i] {
                0 => live[i] = Some(SszEncoder::container(slots[i].take().unwrap(), fixed_len(&parts[i]))),
                k if k <= parts[i].len() => parts[i][k - 1].apply(live[i].as_mut().unwrap()),
                _ => {
                    live[i].as_mut().unwrap().finalize();
                    live[i] = None;
                }
            }
            done[i] += 1;
        }
    })
    .map_err(|p| format!("panics: {p}"))?;
    for i in 0..parts.len() {
        diff(&bufs[i], &want[i]).map_err(|e| format!("encoder {i}: {e}"))?;
    }
    Ok(())
}

fn interleaved() -> Vec<Unit> {
    let mut out = vec![];
    for (k, first) in seqs(0, 2).into_iter().enumerate() {
        out.push(Unit::new(format!("two live encoders, one with {first:?}"), move |t| {
            let hi = if t.thorough() && k < 7 { 3 } else { 2 };
            for second in seqs(0, hi) {
                let parts = [first.clone(), second];
                merges(&[parts[0].len() + 2, parts[1].len() + 2], &mut |path| {
                    t.states += 1;
                    t.transitions += path.len() as u64;
                    t.case(
                        || format!("{:?} and {:?} in the order {path:?}", parts[0], parts[1]),
                        |t| {
                            t.traces += 1;
                            run_merge(&parts, path)
                        },
                    );
                });
            }
        }));
    }
    out.push(Unit::new("three live encoders", |t| {
        let all = seqs(0, 1);
        for a in &all {
            for b in &all {
                for c in &all {
                    if t.stopped() {
                        return;
                    }
                    if !t.thorough() && [a, b, c].iter().any(|s| s.is_empty()) {
                        continue;
                    }
                    let parts = [a.clone(), b.clone(), c.clone()];
                    merges(&[a.len() + 2, b.len() + 2, c.len() + 2], &mut |path| {
                        // Symmetric orders: only those in which encoder 0 is created first.
                        if path[0] != 0 {
                            return;
                        }
                        t.states += 1;
                        t.transitions += path.len() as u64;
                        t.case(
                            || format!("{parts:?} in the order {path:?}"),
                            |t| {
                                t.traces += 1;
                                run_merge(&parts, path)
                            },
                        );
                    });
                }
            }
        }
    }));
    out
}

#[derive(Clone, Copy, Debug)]
enum End {
    /// Dropped without `finalize`.
    Dropped,
    /// Its destructor never runs.
    Forgotten,
    /// The last operation panics after writing some bytes, and the unwinding drops it.
    PanicFixed,
    PanicVar,
    /// The same inside an item of a list and a field of a nested container.
    PanicNested,
    /// `finalize` twice.
    Twice,
    /// More operations after `finalize`, then dropped.
    After,
}

const ENDS: [End; 7] = [
    End::Dropped,
    End::Forgotten,
    End::PanicFixed,
    End::PanicVar,
    End::PanicNested,
    End::Twice,
    End::After,
];

/// Writes two bytes, then panics.
struct Bad;
impl Encode for Bad {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend([0xba, 0xd0]);
        panic!("an item that cannot be encoded")
    }
    fn ssz_bytes_len(&self) -> usize {
        2
    }
}

fn abandon(seq: &[Op], end: End) {
    let mut buf = vec![1, 2, 3];
    let _ = guard(|| {
        let mut e = SszEncoder::container(&mut buf, fixed_len(seq));
        for o in seq {
            o.apply(&mut e);
        }
        match end {
            End::Dropped => drop(e),
            End::Forgotten => std::mem::forget(e),
            End::PanicFixed => e.append_parameterized(true, |b| {
                b.push(0xbb);
                panic!("x")
            }),
            End::PanicVar => e.append(&Bad),
            End::PanicNested => {
                e.append(&vec![(1u8, vec![7u8])]);
                e.append(&vec![(vec![9u8], vec![Bad])])
            }
            End::Twice => {
                e.finalize();
                e.finalize();
            }
            End::After => {
                e.finalize();
                e.append(&vec![5u8, 6]);
            }
        }
    });
}

/// Values of every kind of encoding that keeps bytes aside, against the specification's bytes.
fn probes() -> Result<(), String> {
    let want = expected(&[(true, vec![5]), (false, vec![6, 7]), (false, vec![])], &[], 0);
    diff(&(5u8, vec![6u8, 7], Vec::<u8>::new()).as_ssz_bytes(), &want).map_err(|e| format!("a tuple {e}"))?;
    let want = expected(&[(false, vec![1]), (false, vec![2, 3])], &[], 0);
    diff(&vec![vec![1u8], vec![2, 3]].as_ssz_bytes(), &want).map_err(|e| format!("a list {e}"))?;
    let m: std::collections::BTreeMap<u8, Vec<u8>> = [(1, vec![2]), (3, vec![4, 5])].into();
    let item = |k: u8, v: &[u8]| expected(&[(true, vec![k]), (false, v.to_vec())], &[], 0);
    let want = expected(&[(false, item(1, &[2])), (false, item(3, &[4, 5]))], &[], 0);
    diff(&m.as_ssz_bytes(), &want).map_err(|e| format!("a map {e}"))?;
    let want = [&[1u8][..], &expected(&[(false, vec![8])], &[], 0)].concat();
    diff(&Some(vec![vec![8u8]]).as_ssz_bytes(), &want).map_err(|e| format!("an option {e}"))?;
    let d = Der { a: vec![1, 2], b: 0x0403, c: vec![vec![5]] };
    let want = expected(&[(false, vec![1, 2]), (true, vec![3, 4]), (false, expected(&[(false, vec![5])], &[], 0))], &[], 0);
    diff(&d.as_ssz_bytes(), &want).map_err(|e| format!("a derived container {e}"))?;
    // And the same through one encoder on a used buffer.
    let seq = [Op::V1, Op::U8, Op::VV];
    let mut buf = vec![0xf0, 0x0d];
    let want = expected(&spec(&seq), &buf, 0);
    let mut e = SszEncoder::container(&mut buf, fixed_len(&seq));
    for o in seq {
        o.apply(&mut e);
    }
    e.finalize();
    diff(&buf, &want).map_err(|e| format!("an encoder {e}"))
}

#[derive(ssz_derive::Encode)]
struct Der {
    a: Vec<u8>,
    b: u16,
    c: Vec<Vec<u8>>,
}

fn abandoned() -> Vec<Unit> {
    ENDS.iter()
        .map(|&end| {
            Unit::new(format!("after an encoder that ends as {end:?}"), move |t| {
                let all = seqs(0, if t.thorough() { 3 } else { 2 });
                for a in &all {
                    t.states += 1;
                    t.transitions += 1;
                    t.case(
                        || format!("{a:?}, {end:?}, then other encodings"),
                        |t| {
                            t.traces += 1;
                            abandon(a, end);
                            guard(probes).map_err(|p| format!("panics: {p}"))?
                        },
                    );
                    // Abandoned inside the life of another encoder.
                    for outer in seqs(1, 2) {
                        for at in 0..=outer.len() {
                            t.states += 1;
                            t.transitions += 1;
                            t.case(
                                || format!("{a:?}, {end:?}, before operation {at} of {outer:?}"),
                                |t| {
                                    t.traces += 1;
                                    let prefix = [0xaa, 0xbb];
                                    let want = expected(&spec(&outer), &prefix, 0);
                                    let got = guard(|| {
                                        let mut buf = prefix.to_vec();
                                        let mut e = SszEncoder::container(&mut buf, fixed_len(&outer));
                                        for (i, o) in outer.iter().enumerate() {
                                            if i == at {
                                                abandon(a, end);
                                            }
                                            o.apply(&mut e);
                                        }
                                        if at == outer.len() {
                                            abandon(a, end);
                                        }
                                        e.finalize();
                                        buf
                                    })
                                    .map_err(|p| format!("panics: {p}"))?;
                                    diff(&got, &want).map_err(|e| format!("{e} ({})", hex(&got)))
                                },
                            );
                        }
                    }
                    if t.stopped() {
                        return;
                    }
                }
            })
        })
        .collect()
}

pub fn units() -> Vec<Unit> {
    let mut out = interleaved();
    out.extend(abandoned());
    out
}
