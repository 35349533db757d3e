//! C12. Union, intersection, difference and subset for all operand pairs.

use crate::field::*;
use mc::engine::{guard, Task, Unit};
use ssz::*;

fn at(m: &[bool], i: usize) -> bool {
    m.get(i).copied().unwrap_or(false)
}

struct Expected {
    union: Vec<bool>,
    inter: Vec<bool>,
    diff: Vec<bool>,
    subset: bool,
}

fn expected(k: Kind, a: &[bool], b: &[bool]) -> Expected {
    let long = a.len().max(b.len());
    let short = match k {
        Kind::List(_) => a.len().min(b.len()),
        _ => long,
    };
    Expected {
        union: (0..long).map(|i| at(a, i) || at(b, i)).collect(),
        inter: (0..short).map(|i| at(a, i) && at(b, i)).collect(),
        diff: (0..a.len()).map(|i| at(a, i) && !at(b, i)).collect(),
        subset: (0..a.len()).all(|i| !at(a, i) || at(b, i)),
    }
}

/// One operand pair. `deep`: also the complete observation of each result.
fn pair(f: Ty, x: &Bx, a: &[bool], y: &Bx, b: &[bool], deep: bool) -> Result<u64, String> {
    let e = expected(f.kind(), a, b);
    let with = || format!("with {}", show(b));
    let judge = |what: &str, r: Result<Result<Bx, ()>, String>, m: &[bool]| -> Result<(), String> {
        let r = r.map_err(|e| format!("{what} {} panics: {e}", with()))?;
        let r = r.map_err(|_| format!("{what} {} fails", with()))?;
        let ok = if deep { observe(&r, m) } else { valid(&r, m) };
        ok.map_err(|e| format!("{what} {}: {e} (expected {})", with(), show(m)))?;
        if deep {
            equal(&r, &f.of(m), what)?;
        }
        Ok(())
    };
    judge("union", guard(|| x.union_(y)), &e.union)?;
    judge("intersection", guard(|| x.intersection_(y)), &e.inter)?;
    judge("difference", guard(|| Ok(x.difference_(y))), &e.diff)?;
    judge(
        "difference_inplace",
        guard(|| {
            let mut z = x.clone();
            z.difference_in_(y);
            Ok(z)
        }),
        &e.diff,
    )?;
    match guard(|| x.subset_(y)).map_err(|e| format!("is_subset {} panics: {e}", with()))? {
        Some(s) if s != e.subset => return Err(format!("is_subset {} is {s}", with())),
        _ => (),
    }
    if deep {
        valid(x, a).map_err(|e| format!("the left operand afterwards: {e}"))?;
        valid(y, b).map_err(|e| format!("the right operand afterwards: {e}"))?;
    }
    Ok(5)
}

fn run_pairs(f: Ty, t: &mut Task, left: &[Vec<bool>], right: &[Vec<bool>], deep: bool) {
    let ys: Vec<Bx> = right.iter().map(|m| f.of(m)).collect();
    for a in left {
        if t.stopped() {
            return;
        }
        t.case(
            || format!("left operand {}, {} right operands", show(a), right.len()),
            |t| {
                let x = f.of(a);
                for (b, y) in right.iter().zip(&ys) {
                    t.transitions += pair(f, &x, a, y, b, deep)?;
                    t.states += 1;
                }
                // The same object on both sides.
                t.transitions += pair(f, &x, a, &x, a, true)?;
                t.traces += 1;
                Ok(())
            },
        );
    }
}

/// Splits the left operands over several units.
fn all_pairs(f: Ty, units: &mut Vec<Unit>, max: usize, rmax: usize, parts: usize, deep: bool) {
    for p in 0..parts {
        units.push(Unit::new(format!("all pairs {} up to {max} and {rmax} bits, part {p}", f.kind().name()), move |t| {
            let all: Vec<Vec<bool>> = f.kind().lengths(max).into_iter().flat_map(all_bits).collect();
            let right: Vec<Vec<bool>> = f.kind().lengths(rmax).into_iter().flat_map(all_bits).collect();
            let left: Vec<Vec<bool>> = all.into_iter().skip(p).step_by(parts).collect();
            run_pairs(f, t, &left, &right, deep);
        }));
    }
}

/// Operand pairs that are themselves results of set operations.
fn nested(f: Ty, max: usize) -> Unit {
    Unit::new(format!("operations on results {} up to {max} bits", f.kind().name()), move |t| {
        let all: Vec<Vec<bool>> = f.kind().lengths(max).into_iter().flat_map(all_bits).collect();
        let real: Vec<Bx> = all.iter().map(|m| f.of(m)).collect();
        for (a, x) in all.iter().zip(&real) {
            t.case(
                || format!("{} op b, then op c", show(a)),
                |t| {
                    for (b, y) in all.iter().zip(&real) {
                        let e = expected(f.kind(), a, b);
                        let r = [
                            (x.union_(y).map_err(|_| "union fails")?, e.union),
                            (x.intersection_(y).map_err(|_| "intersection fails")?, e.inter),
                            (x.difference_(y), e.diff),
                        ];
                        for (z, mz) in &r {
                            for (c, w) in all.iter().zip(&real) {
                                t.transitions += pair(f, z, mz, w, c, false).map_err(|e| format!("{} as left: {e}", show(mz)))?;
                                t.transitions += pair(f, w, c, z, mz, false).map_err(|e| format!("{} as left: {e}", show(c)))?;
                                t.states += 1;
                            }
                        }
                    }
                    t.traces += 1;
                    Ok(())
                },
            );
        }
    })
}

/// Long operands: every pair of patterns over every pair of lengths.
fn wide(f: Ty, units: &mut Vec<Unit>, lens: Vec<usize>, all_up_to: usize) {
    for l in &lens {
        let (l, lens) = (*l, lens.clone());
        units.push(Unit::new(format!("patterns {} left length {l}", f.kind().name()), move |t| {
            let left = patterns(l, all_up_to);
            let right: Vec<Vec<bool>> = lens.iter().flat_map(|r| patterns(*r, if l.max(*r) > 300 { 0 } else { all_up_to })).collect();
            run_pairs(f, t, &left, &right, false);
            // A few of them completely observed.
            let few: Vec<Vec<bool>> = lens.iter().flat_map(|r| patterns(*r, 0).into_iter().take(8)).collect();
            run_pairs(f, t, &left[..left.len().min(8)], &few, true);
        }));
    }
}

/// Every pair of byte values at one byte position of a long field.
fn bytewise(f: Ty, units: &mut Vec<Unit>, len: usize, positions: Vec<usize>) {
    for p in positions {
        units.push(Unit::new(format!("byte pairs {} length {len} byte {p}", f.kind().name()), move |t| {
            let make = |back: bool| -> Vec<Vec<bool>> {
                (0..256usize)
                    .map(|v| (0..len).map(|i| if i / 8 == p { v >> (i % 8) & 1 == 1 } else { back }).collect())
                    .collect()
            };
            let (zero, one) = (make(false), make(true));
            run_pairs(f, t, &zero, &one, false);
            run_pairs(f, t, &one, &zero, false);
            run_pairs(f, t, &zero, &zero, false);
        }));
    }
}

/// Lengths beyond 2^16.
fn vast(f: Ty, units: &mut Vec<Unit>) {
    for l in few_lengths(f.kind()) {
        if l < 1024 && f.kind() != Kind::Dyn {
            continue;
        }
        units.push(Unit::new(format!("vast {} left length {l}", f.kind().name()), move |t| {
            for r in few_lengths(f.kind()) {
                let (left, right) = (few(l), few(r));
                let n = if l < 140_000 && r < 140_000 { 14 } else { 4 };
                run_pairs(f, t, &left[..n.min(left.len())], &right[..n.min(right.len())], false);
                run_pairs(f, t, &left[..2.min(left.len())], &right[..2.min(right.len())], true);
            }
        }));
    }
}

pub fn units(thorough: bool) -> Vec<Unit> {
    use crate::caps::*;
    let mut u = vec![];
    macro_rules! small {
        ($n:expr, $t:ty) => {
            if ($n as usize) <= if thorough { 11 } else { 9 } {
                all_pairs(Ty::new::<BitList<$t>>(), &mut u, $n, $n, if $n > 7 { 8 } else { 1 }, $n <= 7);
                all_pairs(Ty::new::<BitVector<$t>>(), &mut u, $n, $n, if $n > 8 { 8 } else { 1 }, $n <= 8);
            }
            if ($n as usize) <= if thorough { 4 } else { 3 } {
                u.push(nested(Ty::new::<BitList<$t>>(), $n));
                u.push(nested(Ty::new::<BitVector<$t>>(), $n));
            }
            if [12, 15, 16, 17, 18, 24, 31, 32, 33, 63, 64, 65, 72, 127, 128, 129].contains(&$n) {
                let mut lens: Vec<usize> = [0, 1, 2, 5, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 128, 129]
                    .into_iter()
                    .filter(|l| *l < $n && (thorough || *l + 24 > $n || *l % 8 == 1))
                    .collect();
                lens.push($n);
                wide(Ty::new::<BitList<$t>>(), &mut u, lens, 64);
                wide(Ty::new::<BitVector<$t>>(), &mut u, vec![$n], 140);
            }
            if [257, 1016, 1024, 1025].contains(&$n) || thorough && [2049, 4096].contains(&$n) {
                let mut lens: Vec<usize> = [8, 9, 255, 256, 1007, 1008, 1015, 1016, 1017, 1023, 1024, 2047, 2048]
                    .into_iter()
                    .filter(|l| *l < $n)
                    .collect();
                lens.push($n);
                if !thorough {
                    lens.retain(|l| *l > 1000 || *l == 9 || *l == $n);
                }
                wide(Ty::new::<BitList<$t>>(), &mut u, lens, 0);
                wide(Ty::new::<BitVector<$t>>(), &mut u, vec![$n], 0);
            }
            if [16, 17, 33, 1024, 1025].contains(&$n) {
                let last = ($n as usize).saturating_sub(1) / 8;
                let mut ps = vec![0, 1, last / 2, last];
                ps.dedup();
                bytewise(Ty::new::<BitVector<$t>>(), &mut u, $n, ps.clone());
                bytewise(Ty::new::<BitList<$t>>(), &mut u, $n, ps);
            }
        };
    }
    crate::caps!(small);
    macro_rules! big {
        ($n:expr, $t:ty) => {
            if $n < 200_000 {
                vast(Ty::new::<BitList<$t>>(), &mut u);
                vast(Ty::new::<BitVector<$t>>(), &mut u);
            }
        };
    }
    crate::caps_big!(big);
    vast(Ty::new::<BitVectorDynamic>(), &mut u);
    type D = BitVectorDynamic;
    all_pairs(Ty::new::<D>(), &mut u, 8, 8, 1, true);
    if thorough {
        all_pairs(Ty::new::<D>(), &mut u, 8, 16, 8, false);
        // 256 + 65536 left operands against all of 8 bits.
        all_pairs(Ty::new::<D>(), &mut u, 16, 8, 8, false);
    }
    wide(Ty::new::<D>(), &mut u, vec![8, 16, 24, 32, 40, 64, 128], 128);
    wide(Ty::new::<D>(), &mut u, if thorough { vec![8, 256, 1008, 1016, 1024, 1032, 1040, 2048] } else { vec![8, 1016, 1024, 1032] }, 0);
    bytewise(Ty::new::<D>(), &mut u, 24, vec![0, 1, 2]);
    bytewise(Ty::new::<D>(), &mut u, 1032, vec![0, 127, 128]);
    u
}
