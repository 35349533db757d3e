//! C13. Length bounds on every path.

use crate::field::*;
use mc::engine::{guard, hex, Task, Unit};
use serde_json::Value;
use ssz::*;

fn requests(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n.min(80) + 20).collect();
    for c in [n, 2 * n, n.next_multiple_of(8), 8 * n, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 61, 1 << 63] {
        for d in -9i64..=17 {
            v.push((c as i64).wrapping_add(d) as usize);
        }
    }
    v.extend((0..=17).map(|d| usize::MAX - d));
    v.sort();
    v.dedup();
    v
}

/// Is the outcome of a request right? `exp`: the bits expected, `None` for an error.
fn outcome(what: &str, got: Result<Result<Bx, ()>, String>, exp: Option<&[bool]>) -> Result<(), String> {
    let got = got.map_err(|e| format!("{what} panics: {e}"))?;
    match (got, exp) {
        (Err(()), None) => Ok(()),
        (Err(()), Some(m)) => Err(format!("{what} fails, expected {}", show(m))),
        (Ok(x), None) => Err(format!("{what} gives {} bits, expected an error", x.len_())),
        (Ok(x), Some(m)) => valid(&x, m).map_err(|e| format!("{what}: {e}")),
    }
}

/// Every path that takes a byte string.
fn bytes_paths(f: Ty, t: &mut Task, b: &[u8]) {
    let exp = meaning(f.kind(), b);
    t.states += 1;
    t.case(
        || format!("bytes {}", shorten(b)),
        |t| {
            let m = exp.as_deref();
            t.traces += 1;
            t.transitions += 5;
            outcome("from_ssz_bytes", guard(|| f.from_ssz(b)), m)?;
            outcome("from_bytes (inline)", guard(|| f.from_bytes_api(raw(b, 0))), m)?;
            outcome("from_bytes (heap)", guard(|| f.from_bytes_api(raw(b, 1))), m)?;
            let s = Value::String(hex(b));
            outcome("deserialize", guard(|| f.json_value(s).map_err(|_| ())), m)?;
            // As the only item of a list.
            let mut l = vec![4, 0, 0, 0];
            l.extend_from_slice(b);
            let whole = match f.fixed_len() {
                Some(n) if n != b.len() => return Ok(()),
                Some(_) => b,
                None => &l[..],
            };
            outcome("list decoding", guard(|| f.list_from_ssz(whole).map(|mut v| v.remove(0))), m)?;
            Ok(())
        },
    );
}

pub fn shorten(b: &[u8]) -> String {
    if b.len() <= 40 {
        return hex(b);
    }
    format!("{} bytes {}..{}", b.len(), hex(&b[..8]), hex(&b[b.len() - 8..]))
}

/// Byte strings that place the top bit everywhere around a bound of `n` bits.
pub fn around(n: usize, thorough: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let full = n.div_ceil(8);
    let mut lens: Vec<usize> = (0..=full.min(4) + 2).collect();
    lens.extend((full.saturating_sub(2)..=full + 4).chain([2 * full, 8 * full, 8 * full + 8, 126, 127, 128, 129, 130, 300]));
    if thorough || [0, 1, 8, 1024].contains(&n) {
        lens.extend([4096, 65536, 65537, 1 << 20]);
    }
    lens.sort();
    lens.dedup();
    for l in lens {
        if l == 0 {
            continue;
        }
        for fill in [0u8, 0xff, 0x55] {
            let tops: Vec<u8> = if l <= full + 4 && l < 400 { (0..=255).collect() } else { vec![0, 1, 2, 0x7f, 0x80, 0xff] };
            for top in tops {
                let mut b = vec![fill; l];
                b[l - 1] = top;
                out.push(b);
                if top == 1 && fill == 0 && l > 1 {
                    // A set bit below the top byte only.
                    let mut b = vec![0u8; l];
                    b[l - 2] = 0x80;
                    out.push(b);
                }
            }
        }
    }
    out
}

/// Growing by set or shift is refused.
fn refuses(x: &mut Bx, n: usize) -> Result<u64, String> {
    let len = x.len_();
    let mut k = 0;
    for i in requests(n) {
        if i >= len {
            k += 1;
            if guard(|| x.set_(i, true)).map_err(|e| format!("set({i}) panics: {e}"))?.is_ok() {
                return Err(format!("set({i}) succeeds on {len} bits"));
            }
        }
        if i > len && guard(|| x.shift_(i)).map_err(|e| format!("shift_up({i}) panics: {e}"))?.is_ok() {
            return Err(format!("shift_up({i}) succeeds on {len} bits"));
        }
    }
    Ok(k)
}

/// Set operations on bitfields at and around the bound.
fn results(f: Ty, t: &mut Task, lens: &[usize]) {
    let all: Vec<Vec<bool>> = lens.iter().flat_map(|l| if *l > 60_000 { few(*l) } else { patterns(*l, 0) }.into_iter().take(8)).collect();
    for a in &all {
        t.case(
            || format!("set operations on {}", show(a)),
            |t| {
                let x = f.of(a);
                for b in &all {
                    let y = f.of(b);
                    t.states += 1;
                    t.transitions += 3;
                    for (what, r) in [
                        ("union", guard(|| x.union_(&y))),
                        ("intersection", guard(|| x.intersection_(&y))),
                        ("difference", guard(|| Ok(x.difference_(&y)))),
                    ] {
                        let r = r.map_err(|e| format!("{what} with {} panics: {e}", show(b)))?;
                        let r = r.map_err(|_| format!("{what} with {} fails", show(b)))?;
                        if !f.kind().allows(r.len_()) || r.slice_().len() != r.len_().div_ceil(8).max(1) {
                            return Err(format!("{what} with {} has {} bits", show(b), r.len_()));
                        }
                    }
                }
                t.traces += 1;
                Ok(())
            },
        );
    }
}

fn list(f: Ty, n: usize, units: &mut Vec<Unit>, thorough: bool) {
    units.push(Unit::new(format!("BitList<{n}>"), move |t| {
        for r in requests(n) {
            t.states += 1;
            t.case(
                || format!("with_capacity({r})"),
                |t| {
                    t.transitions += 1;
                    t.traces += 1;
                    let zero = if r <= n { Some(vec![false; r]) } else { None };
                    outcome("with_capacity", guard(|| f.create(r)), zero.as_deref())?;
                    if let Some(z) = zero {
                        let mut x = f.create(r).unwrap();
                        t.transitions += refuses(&mut x, n)?;
                        valid(&x, &z)?;
                    }
                    Ok(())
                },
            );
        }
        t.case(
            || "max_len()".into(),
            |_| if f.capacity() == Some(n) { Ok(()) } else { Err(format!("is {:?}", f.capacity())) },
        );
        for b in around(n, thorough) {
            bytes_paths(f, t, &b);
        }
        let mut lens = vec![0, 1, n / 2, n.saturating_sub(8), n.saturating_sub(1), n];
        lens.retain(|l| *l <= n);
        lens.sort();
        lens.dedup();
        results(f, t, &lens);
    }));
}

fn vector(f: Ty, n: usize, units: &mut Vec<Unit>, thorough: bool) {
    units.push(Unit::new(format!("BitVector<{n}>"), move |t| {
        let zero = vec![false; n];
        t.case(
            || "new, default, capacity".into(),
            |t| {
                t.states += 2;
                t.transitions += 2;
                outcome("new", guard(|| f.create(n)), Some(&zero))?;
                outcome("default", guard(|| Ok(f.default().unwrap())), Some(&zero))?;
                if f.capacity() != Some(n) {
                    return Err(format!("capacity() is {:?}", f.capacity()));
                }
                let mut x = f.create(n).unwrap();
                t.transitions += refuses(&mut x, n)?;
                valid(&x, &zero)
            },
        );
        for b in around(n, thorough) {
            bytes_paths(f, t, &b);
        }
        results(f, t, &[n]);
    }));
}

fn resize(f: Ty, m: usize, to: fn(&Bx) -> Result<Bx, ()>, t: &mut Task, thorough: bool) {
    let n = f.capacity().unwrap();
    let mut lens: Vec<usize> = if n <= 9 || thorough && n <= 40 { (0..=n).collect() } else { vec![0, 1, 7, 8, 9, n / 2, n.saturating_sub(8), n.saturating_sub(1), n, n.min(65535), n.min(65536)] };
    lens.retain(|l| *l <= n);
    lens.sort();
    lens.dedup();
    for l in lens {
        let pats: Vec<Vec<bool>> = if l <= 5 || thorough && l <= 8 { all_bits(l).collect() } else { if l > 60_000 { few(l).into_iter().take(12).collect() } else { patterns(l, if thorough { 40 } else { 0 }).into_iter().take(60).collect() } };
        for p in pats {
            t.states += 1;
            t.case(
                || format!("{} of capacity {n}, resize to {m}", show(&p)),
                |t| {
                    t.transitions += 1;
                    t.traces += 1;
                    let x = f.of(&p);
                    let r = guard(|| to(&x)).map_err(|e| format!("panics: {e}"))?;
                    valid(&x, &p).map_err(|e| format!("the original afterwards: {e}"))?;
                    match r {
                        Err(()) => {
                            if m >= n {
                                return Err("fails".into());
                            }
                        }
                        Ok(y) => {
                            if m < n {
                                return Err(format!("succeeds with {} bits", y.len_()));
                            }
                            if y.len_() > m || y.len_() < p.len() {
                                return Err(format!("has {} bits", y.len_()));
                            }
                            let mut q = p.clone();
                            q.resize(y.len_(), false);
                            observe(&y, &q)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn dynamic(units: &mut Vec<Unit>, thorough: bool) {
    type D = BitVectorDynamic;
    let f = Ty::new::<D>();
    units.push(Unit::new("BitVectorDynamic new", move |t| {
        let mut v: Vec<usize> = (0..=if thorough { 20_000 } else { 4200 }).collect();
        // Allocating is fine for these; the others must fail without.
        v.extend([1 << 16, (1 << 20) - 8, 1 << 20]);
        v.extend(requests(1 << 20).into_iter().filter(|r| r % 8 != 0));
        for r in v {
            t.states += 1;
            t.case(
                || format!("new({r})"),
                |t| {
                    t.transitions += 1;
                    t.traces += 1;
                    let z = if r > 0 && r % 8 == 0 { Some(vec![false; r]) } else { None };
                    outcome("new", guard(|| f.create(r)), z.as_deref())
                },
            );
        }
    }));
    units.push(Unit::new("BitVectorDynamic from_bytes_with_len", move |t| {
        for n in (0..=40usize).chain([126, 127, 128, 129, 130, 256, 1024]) {
            let mut lens: Vec<usize> = (0..=8 * n + 20).collect();
            lens.extend(requests(8 * n));
            lens.sort();
            lens.dedup();
            for fill in [0u8, 0xff, 1, 0x80] {
                let b = vec![fill; n];
                for l in &lens {
                    t.states += 1;
                    t.case(
                        || format!("{n} bytes {fill:#04x}, length {l}"),
                        |t| {
                            t.transitions += 2;
                            t.traces += 1;
                            let m: Vec<bool> = (0..8 * n).map(|i| bit_at(&b, i)).collect();
                            let exp = if *l == 8 * n && n > 0 { Some(&m[..]) } else { None };
                            for route in 0..2 {
                                outcome("from_bytes_with_len", guard(|| D::from_bytes_with_len(raw(&b, route), *l).map(|x| Bx(Box::new(x))).map_err(|_| ())), exp)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    units.push(Unit::new("BitVectorDynamic bytes and results", move |t| {
        for b in around(64, true) {
            bytes_paths(f, t, &b);
        }
        results(f, t, &[8, 16, 24, 64, 1016, 1024, 1032, 2048]);
    }));
}

/// Byte strings with the top bit around a bound beyond 2^16.
pub fn around_big(n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let full = n.div_ceil(8);
    let mut lens = vec![full - 1, full, full + 1, full + 2, 2 * full, full + (1 << 13), full + (1 << 16)];
    // Lengths that agree with a good one in their low bits only.
    lens.extend([full % (1 << 13), full % (1 << 16), full % 256]);
    lens.retain(|l| *l > 0);
    lens.sort();
    lens.dedup();
    for l in lens {
        for fill in [0u8, 0xff, 0x55] {
            for top in if l.abs_diff(full) < 3 { vec![0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xff] } else { vec![0, 1, 0x80, 0xff] } {
                let mut b = vec![fill; l];
                b[l - 1] = top;
                out.push(b);
            }
        }
    }
    out
}

/// Capacities beyond 2^16.
fn vast(f: Ty, units: &mut Vec<Unit>) {
    let n = f.capacity().unwrap_or(0);
    units.push(Unit::new(f.kind().name(), move |t| {
        if f.capacity() != Some(n) {
            return;
        }
        let is_list = matches!(f.kind(), Kind::List(_));
        for r in [0, 1, 8, 65528, 65535, 65536, 65537, n - 9, n - 8, n - 1, n, n + 1, n + 7, n + 8, 2 * n, n + (1 << 16), n + (1 << 32), 1 << 63, usize::MAX - 7, usize::MAX] {
            if !is_list && r != n {
                continue;
            }
            t.states += 1;
            t.case(
                || format!("a bitfield of {r} bits"),
                |t| {
                    t.transitions += 1;
                    t.traces += 1;
                    let zero = if r <= n { Some(vec![false; r]) } else { None };
                    outcome("construction", guard(|| f.create(r)), zero.as_deref())?;
                    if let Some(z) = zero {
                        let mut x = f.create(r).unwrap();
                        for at in [r, r + 1, r | 7, n, n + 1, n + 8, r + (1 << 16), 1 << 32, usize::MAX] {
                            if at < r {
                                continue;
                            }
                            t.transitions += 1;
                            if guard(|| x.set_(at, true)).map_err(|e| format!("set({at}) panics: {e}"))?.is_ok() {
                                return Err(format!("set({at}) succeeds on {r} bits"));
                            }
                            if at > r && guard(|| x.shift_(at)).map_err(|e| format!("shift_up({at}) panics: {e}"))?.is_ok() {
                                return Err(format!("shift_up({at}) succeeds on {r} bits"));
                            }
                        }
                        valid(&x, &z)?;
                    }
                    Ok(())
                },
            );
        }
        for b in around_big(n) {
            bytes_paths(f, t, &b);
        }
        if n < 200_000 {
            let lens = if is_list { vec![1, 65528, n - 8, n - 1, n] } else { vec![n] };
            results(f, t, &lens);
        }
    }));
}

/// A capacity far beyond memory, with lists of ordinary length.
fn huge(units: &mut Vec<Unit>) {
    use crate::caps::NBIG;
    let f = Ty::new::<BitList<NBIG>>();
    units.push(Unit::new("BitList<2^40>", move |t| {
        for r in (0..=70usize).chain([1015, 1016, 1024, 1025, 1 << 20]).chain([(1 << 40) + 1, (1 << 40) + 8, 1 << 41, 1 << 63, usize::MAX]) {
            t.states += 1;
            t.case(
                || format!("with_capacity({r})"),
                |t| {
                    t.transitions += 1;
                    t.traces += 1;
                    let z = if r <= 1 << 40 { Some(vec![false; r]) } else { None };
                    outcome("with_capacity", guard(|| f.create(r)), z.as_deref())
                },
            );
        }
        for b in around(64, true) {
            bytes_paths(f, t, &b);
        }
    }));
}

pub fn units(thorough: bool) -> Vec<Unit> {
    use crate::caps::*;
    let mut u = vec![];
    macro_rules! one {
        ($n:expr, $t:ty) => {
            list(Ty::new::<BitList<$t>>(), $n, &mut u, thorough);
            vector(Ty::new::<BitVector<$t>>(), $n, &mut u, thorough);
        };
    }
    crate::caps!(one);
    macro_rules! big {
        ($n:expr, $t:ty) => {
            vast(Ty::new::<BitList<$t>>(), &mut u);
            vast(Ty::new::<BitVector<$t>>(), &mut u);
        };
    }
    crate::caps_big!(big);
    // Resizing: all pairs of these capacities.
    macro_rules! from {
        ($a:ty; $($b:ty),*) => {
            let f = Ty::new::<BitList<$a>>();
            let to: Vec<(usize, fn(&Bx) -> Result<Bx, ()>)> = vec![$( (<$b as typenum::Unsigned>::to_usize(), crate::field::resize::<$a, $b>) ),*];
            u.push(Unit::new(format!("resize from BitList<{}>", f.capacity().unwrap_or(0)), move |t| {
                for (m, to) in &to {
                    resize(f, *m, *to, t, thorough);
                }
            }));
        };
    }
    macro_rules! square {
        ([$($a:ty),*] $l:tt) => { $( square!(@ $a $l); )* };
        (@ $a:ty [$($b:ty),*]) => { from!($a; $($b),*); };
    }
    square!([N0, N1, N2, N3, N4, N7, N8, N9, N10, N15, N16, N17, N31, N32, N33, N64, N65, N1016, N1017, N1024, N1025] [N0, N1, N2, N3, N4, N7, N8, N9, N10, N15, N16, N17, N31, N32, N33, N64, N65, N1016, N1017, N1024, N1025]);
    square!([N8, N65535, N65536, N65537, N131079] [N8, N65535, N65536, N65537, N131079]);
    dynamic(&mut u, thorough);
    huge(&mut u);
    u
}
