//! C11. Bitfields as boolean sequences under operation histories.
//!
//! * graph: for each length, the complete graph of bit states under every operation, each edge
//!   taken on the real object that represents its source;
//! * trees: every history up to a depth from every way of construction, without merging states, so
//!   that state hidden from the observations would still come to light;
//! * wide: long bitfields around the byte, inline-storage and capacity boundaries.

use crate::field::*;
use mc::engine::{guard, Task, Unit};
use ssz::*;
use std::collections::HashMap;

/// Bitfields with these bits, obtained in every way the API offers.
fn routes(f: Ty, bits: &[bool]) -> Vec<(&'static str, Bx)> {
    let mut out = vec![("set bit by bit", f.of(bits))];
    let enc = encoding(f.kind(), bits);
    let n = bits.len();
    out.push(("decoded", f.from_ssz(&enc).expect("valid encoding")));
    for (name, r) in [("from inline bytes", 0), ("from heap bytes", 1), ("from spilled bytes", 2)] {
        out.push((name, f.from_bytes_api(raw(&enc, r)).expect("valid bytes")));
    }
    out.push(("cloned", f.of(bits).clone()));
    // Cloned onto a bitfield that held something else.
    for l in [n, 0, 1, 8, n + 8, n + 2000] {
        if f.kind().allows(l) && l < n + 3000 {
            if let Ok(mut y) = f.create(l) {
                for i in (0..l).step_by(1 + l / 50) {
                    let _ = y.set_(i, i % 5 != 0);
                }
                y.0.become_clone(&*f.of(bits).0);
                out.push(("cloned onto another", y));
            }
        }
    }
    let hex = mc::engine::hex(&enc);
    out.push(("deserialized", f.json_value(serde_json::Value::String(hex)).expect("valid string")));
    let mut x = f.create(n).unwrap();
    for i in 0..n {
        x.set_(i, true).unwrap();
    }
    for i in (0..n).rev() {
        if !bits[i] {
            x.set_(i, false).unwrap();
        }
    }
    out.push(("all set, then cleared", x));
    let ones = f.of(&vec![true; n]);
    let not: Vec<bool> = bits.iter().map(|b| !b).collect();
    out.push(("difference", ones.difference_(&f.of(&not))));
    let mut x = ones.clone();
    x.difference_in_(&f.of(&not));
    out.push(("difference in place", x));
    out.push(("intersection", ones.intersection_(&f.of(bits)).unwrap()));
    let even: Vec<bool> = bits.iter().enumerate().map(|(i, b)| *b && i % 2 == 0).collect();
    let odd: Vec<bool> = bits.iter().enumerate().map(|(i, b)| *b && i % 2 == 1).collect();
    out.push(("union", f.of(&even).union_(&f.of(&odd)).unwrap()));
    let lead = bits.iter().position(|b| *b).unwrap_or(n);
    let mut x: Vec<bool> = bits[lead..].to_vec();
    x.extend((0..lead).map(|i| i % 2 == 0));
    let mut x = f.of(&x);
    x.shift_(lead).unwrap();
    out.push(("shifted up", x));
    let mut x = f.of(bits);
    let _ = x.set_(n, true);
    let _ = x.set_(n | 7, true);
    let _ = x.set_(usize::MAX, true);
    let _ = x.shift_(n + 1);
    out.push(("after failed operations", x));
    // A list of them, encoded and decoded.
    let list = f.list_ssz(&[f.of(bits), f.of(&not), f.of(bits)]);
    let back = f.list_from_ssz(&list).expect("list of bitfields");
    out.push(("decoded from a list", back.into_iter().nth(2).unwrap()));
    match f.kind() {
        Kind::List(cap) => {
            // Longer operands cut down, shorter ones extended.
            let mut long = bits.to_vec();
            long.extend((n..cap.min(n + 9)).map(|i| i % 3 != 0));
            out.push(("intersection with a longer list", f.of(&long).intersection_(&ones).unwrap()));
            let cut = bits.iter().rposition(|b| *b).map_or(0, |i| i + 1);
            out.push((
                "union with a longer list",
                f.of(&bits[..cut]).union_(&f.create(n).unwrap()).unwrap(),
            ));
            let beyond: Vec<bool> = (0..long.len()).map(|i| i >= n).collect();
            out.push(("difference with a longer list", f.of(bits).difference_(&f.of(&beyond))));
            if n == cap {
                out.push(("resized to the same capacity", f.resize_same(&f.of(bits)).unwrap().unwrap()));
            }
        }
        Kind::Vect(_) => {
            let mut d = f.default().unwrap();
            for (i, b) in bits.iter().enumerate() {
                d.set_(i, *b).unwrap();
            }
            out.push(("default, then set", d));
        }
        Kind::Dyn => {
            let cut = bits.iter().rposition(|b| *b).map_or(8, |i| (i / 8 + 1) * 8);
            out.push((
                "union with a longer one",
                f.of(&bits[..cut]).union_(&f.create(n).unwrap()).unwrap(),
            ));
            out.push(("intersection with a longer one", f.of(&bits[..cut]).intersection_(&ones).unwrap()));
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Set(usize, bool),
    Shift(usize),
    Diff(Vec<bool>),
    Clone,
    Recode,
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Diff(m) => format!("difference_inplace({})", show(m)),
            Op::Set(i, v) => format!("set({i}, {v})"),
            Op::Shift(n) => format!("shift_up({n})"),
            Op::Clone => "clone".into(),
            Op::Recode => "encode and decode".into(),
        }
    }
    /// The model. Returns whether the operation succeeds.
    fn model(&self, m: &mut Vec<bool>) -> bool {
        match self {
            Op::Set(i, v) => {
                if *i >= m.len() {
                    return false;
                }
                m[*i] = *v;
            }
            Op::Shift(n) => {
                if *n > m.len() {
                    return false;
                }
                let mut r = vec![false; *n];
                r.extend_from_slice(&m[..m.len() - n]);
                *m = r;
            }
            Op::Diff(o) => {
                for (i, b) in m.iter_mut().enumerate() {
                    *b = *b && !o.get(i).copied().unwrap_or(false);
                }
            }
            Op::Clone | Op::Recode => (),
        }
        true
    }
    fn real(&self, f: Ty, x: &mut Bx, mask: Option<&Bx>) -> bool {
        match self {
            Op::Set(i, v) => x.set_(*i, *v).is_ok(),
            Op::Shift(n) => x.shift_(*n).is_ok(),
            Op::Diff(o) => {
                match mask {
                    Some(m) => x.difference_in_(m),
                    None => x.difference_in_(&f.of(o)),
                }
                true
            }
            Op::Clone => {
                *x = x.clone();
                true
            }
            Op::Recode => {
                let b = x.as_ssz_bytes();
                match f.from_ssz(&b) {
                    Ok(y) => {
                        *x = y;
                        true
                    }
                    Err(_) => false,
                }
            }
        }
    }
}

fn far(n: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, n | 7, n + 8, n + 9, 64, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 61, 1 << 63, usize::MAX - 8, usize::MAX - 7, usize::MAX];
    v.retain(|i| *i >= n);
    v.sort();
    v.dedup();
    v
}

fn step(f: Ty, op: &Op, x: &mut Bx, m: &mut Vec<bool>, mask: Option<&Bx>) -> Result<(), String> {
    let ok = guard(|| op.real(f, x, mask)).map_err(|e| format!("{} panics: {e}", op.show()))?;
    let exp = op.model(m);
    if ok != exp {
        return Err(format!(
            "{} {} on {} bits",
            op.show(),
            if ok { "succeeds" } else { "fails" },
            m.len()
        ));
    }
    Ok(())
}

/// The complete graph of one length.
fn graph(f: Ty, len: usize, mask_max: usize) -> Unit {
    Unit::new(format!("graph {} length {len}", f.kind().name()), move |t: &mut Task| {
        let mut ops: Vec<(Op, Option<Bx>)> = vec![];
        for i in (0..len).chain(far(len)) {
            for v in [false, true] {
                ops.push((Op::Set(i, v), None));
            }
        }
        for n in (0..=len).chain(far(len + 1)) {
            ops.push((Op::Shift(n), None));
        }
        for l in f.kind().lengths(mask_max.max(len)) {
            if l <= mask_max {
                for m in all_bits(l) {
                    ops.push((Op::Diff(m.clone()), Some(f.of(&m))));
                }
            } else {
                for m in patterns(l, 12) {
                    ops.push((Op::Diff(m.clone()), Some(f.of(&m))));
                }
            }
        }
        ops.push((Op::Clone, None));
        ops.push((Op::Recode, None));
        // Breadth first from the new bitfield.
        let zero = vec![false; len];
        let Ok(first) = f.create(len) else { return };
        let mut reps: HashMap<Vec<bool>, Bx> = HashMap::new();
        t.case(|| "newly created".into(), |_| observe(&first, &zero));
        reps.insert(zero.clone(), first);
        let mut queue = std::collections::VecDeque::from([zero]);
        while let Some(m) = queue.pop_front() {
            if t.stopped() {
                return;
            }
            let x = reps[&m].clone();
            t.states += 1;
            let mut found: Vec<(Vec<bool>, Bx)> = vec![];
            let reps_ref = &reps;
            t.case(
                || format!("state {} and every operation on it", show(&m)),
                |t| {
                    let canon = f.of(&m);
                    equal(&x, &canon, "the state reached")?;
                    for (name, y) in guard(|| routes(f, &m)).map_err(|e| format!("constructing {} panics: {e}", show(&m)))? {
                        t.transitions += 1;
                        observe(&y, &m).map_err(|e| format!("{name}: {e}"))?;
                        equal(&y, &canon, name)?;
                    }
                    x.0.iter_check(&m)?;
                    for (op, mask) in &ops {
                        let mut y = x.clone();
                        let mut my = m.clone();
                        step(f, op, &mut y, &mut my, mask.as_ref())?;
                        observe(&y, &my).map_err(|e| format!("after {}: {e}", op.show()))?;
                        t.transitions += 1;
                        match reps_ref.get(&my) {
                            Some(r) => equal(&y, r, &op.show())?,
                            None => match found.iter().find(|f| f.0 == my) {
                                Some((_, r)) => equal(&y, r, &op.show())?,
                                None => found.push((my, y)),
                            },
                        }
                    }
                    t.traces += 1;
                    Ok(())
                },
            );
            for (my, y) in found {
                queue.push_back(my.clone());
                reps.insert(my, y);
            }
        }
        t.count("graph states", reps.len() as u64);
        // Pairwise: equal exactly when the bits are the same.
        if len <= 6 {
            let all: Vec<_> = reps.iter().collect();
            t.case(
                || "equality of every pair of states".into(),
                |t| {
                    for (m, x) in &all {
                        for (n, y) in &all {
                            t.transitions += 1;
                            if (x == y) != (m == n) {
                                return Err(format!("{} == {} is {}", show(m), show(n), x == y));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    })
}

/// Bitfields of different lengths are never equal, whatever their bits.
fn cross(f: Ty, max: usize) -> Unit {
    Unit::new(format!("equality across lengths {}", f.kind().name()), move |t: &mut Task| {
        let all: Vec<Vec<bool>> = f.kind().lengths(max).into_iter().flat_map(all_bits).collect();
        let real: Vec<Bx> = all.iter().map(|m| f.of(m)).collect();
        for (i, m) in all.iter().enumerate() {
            t.states += 1;
            t.case(
                || format!("{} and every other", show(m)),
                |t| {
                    for (j, n) in all.iter().enumerate() {
                        t.transitions += 1;
                        if (real[i] == real[j]) != (m == n) {
                            return Err(format!("{} == {} is {}", show(m), show(n), real[i] == real[j]));
                        }
                    }
                    t.traces += 1;
                    Ok(())
                },
            );
        }
    })
}

/// Every history up to `depth`, replayed from scratch. `watch`: observe after every step, else only
/// at the end.
fn tree(f: Ty, len: usize, depth: usize, ops: Vec<Op>, watch: bool) -> Unit {
    let how = if watch { "watched" } else { "unwatched" };
    Unit::new(format!("histories {} length {len} depth {depth} {how}", f.kind().name()), move |t: &mut Task| {
        let start: Vec<bool> = (0..len).map(|i| i % 3 != 1).collect();
        let mut starts = guard(|| routes(f, &start)).unwrap_or_default();
        if let Ok(new) = f.create(len) {
            starts.push(("new", new));
        }
        t.case(
            || format!("constructing {} in every way", show(&start)),
            |_| if starts.len() < 2 { Err("panics".into()) } else { Ok(()) },
        );
        for (name, x0) in starts {
            let m0 = if name == "new" { vec![false; len] } else { start.clone() };
            let mut idx = vec![0usize; depth];
            'seqs: loop {
                if t.stopped() {
                    return;
                }
                t.case(
                    || format!("{name}: {}", idx.iter().map(|i| ops[*i].show()).collect::<Vec<_>>().join(", ")),
                    |t| {
                        let mut x = x0.clone();
                        let mut m = m0.clone();
                        for i in &idx {
                            step(f, &ops[*i], &mut x, &mut m, None)?;
                            t.transitions += 1;
                            if watch {
                                observe(&x, &m).map_err(|e| format!("after {}: {e}", ops[*i].show()))?;
                            }
                        }
                        if !watch {
                            observe(&x, &m).map_err(|e| format!("at the end: {e}"))?;
                        }
                        equal(&x, &f.of(&m), "the result")?;
                        t.states += 1;
                        t.traces += 1;
                        Ok(())
                    },
                );
                let mut j = depth;
                loop {
                    if j == 0 {
                        break 'seqs;
                    }
                    j -= 1;
                    idx[j] += 1;
                    if idx[j] < ops.len() {
                        break;
                    }
                    idx[j] = 0;
                }
            }
        }
    })
}

fn tree_ops(k: Kind, len: usize) -> Vec<Op> {
    let mut ops = vec![Op::Clone, Op::Recode];
    let mut at = vec![0, 7, 8, len / 2, len.wrapping_sub(1), len, len | 7];
    at.retain(|i| *i <= len + 8);
    at.sort();
    at.dedup();
    for i in at {
        ops.push(Op::Set(i, true));
        ops.push(Op::Set(i, false));
    }
    for n in [0, 1, 7, 8, len.saturating_sub(1), len, len + 1] {
        if !ops.contains(&Op::Shift(n)) {
            ops.push(Op::Shift(n));
        }
    }
    for l in [len, len.saturating_sub(1), len + 1, len + 8, 8] {
        if k.allows(l) {
            let o = Op::Diff((0..l).map(|i| i % 2 == 0 || i + 1 == l).collect());
            if !ops.contains(&o) {
                ops.push(o);
            }
        }
    }
    ops
}

/// A long bitfield differs from what it becomes by flipping any one bit, and from those of the same
/// bits at another length.
fn differs(f: Ty, t: &mut Task, m: &[bool], every: usize) {
    let len = m.len();
    let x = f.of(m);
    t.case(
        || format!("{} and its neighbours", show(m)),
        |t| {
            let mut y = x.clone();
            let mut n = m.to_vec();
            for i in (0..len).filter(|i| i % every == 0 || i + 70 >= len || *i < 70) {
                y.0.set(i, !m[i]).map_err(|()| format!("set({i}, _) fails"))?;
                t.transitions += 1;
                if x == y || y == x {
                    return Err(format!("equal to the bitfield with bit {i} flipped"));
                }
                y.0.set(i, m[i]).map_err(|()| format!("set({i}, _) fails"))?;
                if x != y || (i % 64 == 0 && x.0.hash_value() != y.0.hash_value()) {
                    return Err(format!("not equal to itself, or another hash, after bit {i} was flipped twice"));
                }
            }
            for l in [len + 1, len + 7, len + 8, len + 64, len * 2, len.saturating_sub(1), len.saturating_sub(8), len / 2] {
                if l == len || !f.kind().allows(l) {
                    continue;
                }
                n.resize(l, false);
                let z = f.of(&n);
                n.resize(len, false);
                n.copy_from_slice(m);
                t.transitions += 1;
                if x == z || z == x {
                    return Err(format!("equal to a bitfield of length {l}"));
                }
            }
            t.states += 1;
            t.traces += 1;
            Ok(())
        },
    );
}

/// Long bitfields: every pattern, every construction, every interesting operation, then a second.
fn wide(f: Ty, len: usize, all_up_to: usize, second: bool) -> Unit {
    Unit::new(format!("wide {} length {len}", f.kind().name()), move |t: &mut Task| {
        let pats = patterns(len, all_up_to.min(72));
        let mut ops = vec![Op::Clone, Op::Recode];
        for i in interesting(len, all_up_to).into_iter().chain(far(len)) {
            ops.push(Op::Set(i, true));
            ops.push(Op::Set(i, false));
            ops.push(Op::Shift(i));
        }
        let mut masks: Vec<usize> = vec![0, 1, 8, 9, len.saturating_sub(8), len.saturating_sub(1), len, len + 1, len + 8, len + 200, len * 2];
        masks.retain(|l| f.kind().allows(*l));
        masks.sort();
        masks.dedup();
        for l in masks {
            for p in patterns(l, 0).into_iter().take(14) {
                ops.push(Op::Diff(p));
            }
        }
        let follow = tree_ops(f.kind(), len);
        for m in &pats {
            if t.stopped() {
                return;
            }
            t.case(
                || format!("{} constructed in every way", show(m)),
                |t| {
                    let canon = f.of(m);
                    for (name, y) in guard(|| routes(f, m)).map_err(|e| format!("constructing it panics: {e}"))? {
                        t.transitions += 1;
                        observe(&y, m).map_err(|e| format!("{name}: {e}"))?;
                        equal(&y, &canon, name)?;
                    }
                    canon.0.iter_check(m)?;
                    t.states += 1;
                    t.traces += 1;
                    Ok(())
                },
            );
            differs(f, t, m, 1);
            let x = f.of(m);
            for op in &ops {
                t.case(
                    || format!("{}, {}", show(m), op.show()),
                    |t| {
                        let mut y = x.clone();
                        let mut my = m.clone();
                        step(f, op, &mut y, &mut my, None)?;
                        observe(&y, &my).map_err(|e| format!("after {}: {e}", op.show()))?;
                        equal(&y, &f.of(&my), &op.show())?;
                        t.states += 1;
                        t.transitions += 1;
                        t.traces += 1;
                        if second {
                            for op2 in &follow {
                                let mut z = y.clone();
                                let mut mz = my.clone();
                                step(f, op2, &mut z, &mut mz, None)?;
                                t.transitions += 1;
                                observe(&z, &mz).map_err(|e| format!("after {} then {}: {e}", op.show(), op2.show()))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    })
}

/// Lengths beyond 2^16.
fn vast(f: Ty, len: usize) -> Unit {
    Unit::new(format!("vast {} length {len}", f.kind().name()), move |t: &mut Task| {
        let mut ops = vec![Op::Clone, Op::Recode];
        for i in [0, 65535, 65536, 65537, len - 1, len, len + 1, len | 7, 1 << 32, usize::MAX] {
            ops.push(Op::Set(i, true));
            ops.push(Op::Set(i, false));
        }
        for i in [0, 1, 8, 255, 256, 65535, 65536, 65537, len - 1, len, len + 1, 1 << 32, usize::MAX] {
            ops.push(Op::Shift(i));
        }
        for l in few_lengths(f.kind()) {
            for p in few(l).into_iter().take(3) {
                ops.push(Op::Diff(p));
            }
        }
        // Larger ones: fewer cases.
        let pats = few(len);
        let (pats, ops) = if len < 140_000 { (&pats[..], &ops[..]) } else { (&pats[..4], &ops[..]) };
        for m in pats {
            if t.stopped() {
                return;
            }
            t.case(
                || format!("{} constructed in every way", show(m)),
                |t| {
                    let canon = f.of(m);
                    for (name, y) in guard(|| routes(f, m)).map_err(|e| format!("constructing it panics: {e}"))? {
                        t.transitions += 1;
                        observe(&y, m).map_err(|e| format!("{name}: {e}"))?;
                        equal(&y, &canon, name)?;
                    }
                    canon.0.iter_check(m)?;
                    t.states += 1;
                    t.traces += 1;
                    Ok(())
                },
            );
            differs(f, t, m, (len / 512).max(61));
            let x = f.of(m);
            for op in ops {
                if len > 1 << 22 && matches!(op, Op::Set(..)) {
                    continue;
                }
                t.case(
                    || format!("{}, {}", show(m), op.show()),
                    |t| {
                        let mut y = x.clone();
                        let mut my = m.clone();
                        step(f, op, &mut y, &mut my, None)?;
                        observe(&y, &my).map_err(|e| format!("after {}: {e}", op.show()))?;
                        equal(&y, &f.of(&my), &op.show())?;
                        t.states += 1;
                        t.transitions += 1;
                        t.traces += 1;
                        Ok(())
                    },
                );
            }
        }
    })
}

fn for_kind(f: Ty, units: &mut Vec<Unit>, thorough: bool) {
    let cap = match f.kind() {
        Kind::List(n) | Kind::Vect(n) => n,
        Kind::Dyn => usize::MAX,
    };
    let is_list = matches!(f.kind(), Kind::List(_));
    // Complete graphs.
    let top = if thorough { 12 } else { 10 };
    if cap <= top || (is_list && cap == 17) {
        for len in f.kind().lengths(cap.min(top)) {
            let masks = if thorough { 11 } else { 9 };
            units.push(graph(f, len, masks.min(cap)));
        }
        units.push(cross(f, cap.min(if thorough { 11 } else { 9 })));
    }
    if f.kind() == Kind::Dyn {
        units.push(graph(f, 8, 8));
        units.push(graph(f, 16, if thorough { 8 } else { 0 }));
        units.push(cross(f, 8));
    }
    // Histories.
    let mut lens: Vec<usize> = match (f.kind(), cap) {
        (Kind::Dyn, _) => vec![8, 16, 24],
        (Kind::List(_), 17) => vec![0, 1, 3, 7, 8, 9, 16, 17],
        (Kind::List(_), 1025) => vec![1015, 1016, 1023, 1024, 1025],
        (Kind::Vect(_), 0 | 1 | 5 | 8 | 9 | 16 | 17) => vec![cap],
        _ => vec![],
    };
    if f.kind() == Kind::Dyn {
        lens.extend([1016, 1024, 1032]);
    }
    for len in lens {
        let ops = tree_ops(f.kind(), len);
        let depth = if len > 100 {
            2
        } else if thorough {
            4
        } else {
            3
        };
        for watch in [true, false] {
            units.push(tree(f, len, depth, ops.clone(), watch));
        }
    }
    // Wide ones.
    if cap > 10 {
        let lens: Vec<usize> = match f.kind() {
            Kind::Vect(n) => vec![n],
            Kind::List(n) => {
                let mut l = vec![n, n - 1, n - n % 8, n / 2];
                if n == 1025 {
                    l.extend([13, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1015, 1016, 1017, 1023]);
                }
                if n == 4096 {
                    l.extend([1024, 1032, 2047]);
                }
                l.sort();
                l.dedup();
                l
            }
            Kind::Dyn => vec![8, 16, 24, 32, 40, 64, 128, 136, 256, 512, 1008, 1016, 1024, 1032, 1040, 2048, 4096],
        };
        for l in lens {
            units.push(wide(f, l, if thorough { 140 } else { 40 }, thorough && l <= 140));
        }
    }
}

pub fn units(thorough: bool) -> Vec<Unit> {
    use crate::caps::*;
    let mut u = vec![];
    macro_rules! one {
        ($n:expr, $t:ty) => {
            if $n <= 18 || [31, 32, 33, 64, 65, 128, 129, 256, 257, 1016, 1023, 1024, 1025, 1032, 4096].contains(&$n) {
                for_kind(Ty::new::<BitList<$t>>(), &mut u, thorough);
                for_kind(Ty::new::<BitVector<$t>>(), &mut u, thorough);
            }
        };
    }
    crate::caps!(one);
    macro_rules! big {
        ($n:expr, $t:ty) => {
            if [65535, 65536, 65537, 131079, (1 << 20) + 1].contains(&$n) || thorough {
                let l = Ty::new::<BitList<$t>>();
                u.push(vast(l, $n));
                if $n == 65537 || thorough && $n < 1 << 21 {
                    u.push(vast(l, $n - 1));
                    u.push(vast(l, $n - 9));
                }
                u.push(vast(Ty::new::<BitVector<$t>>(), $n));
            }
        };
    }
    crate::caps_big!(big);
    for l in [65528, 65536, 65544, 131072] {
        u.push(vast(Ty::new::<BitVectorDynamic>(), l));
    }
    for_kind(Ty::new::<BitVectorDynamic>(), &mut u, thorough);
    u
}
