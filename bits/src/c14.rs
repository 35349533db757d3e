//! C14. The byte-level API against the SSZ codec and the validity rules.

use crate::c13::{around, around_big, shorten};
use crate::field::*;
use mc::engine::{guard, hex, Task, Unit};
use ssz::*;

/// One byte string through both interfaces and back.
fn judge(f: Ty, b: &[u8], routes: usize) -> Result<u64, String> {
    let exp = meaning(f.kind(), b);
    let mut n = 0;
    for route in 0..routes {
        n += 1;
        let api = guard(|| f.from_bytes_api(raw(b, route))).map_err(|e| format!("from_bytes({}) panics: {e}", shorten(b)))?;
        match (&api, &exp) {
            (Ok(_), None) => return Err(format!("from_bytes accepts {}", shorten(b))),
            (Err(_), Some(_)) => return Err(format!("from_bytes rejects {}", shorten(b))),
            (Err(_), None) => (),
            (Ok(x), Some(m)) => {
                valid(x, m).map_err(|e| format!("from_bytes({}): {e}", shorten(b)))?;
                let back = x.0.into_bytes();
                if &back[..] != b {
                    return Err(format!("into_bytes after from_bytes({}) is {}", shorten(b), shorten(&back)));
                }
                // Raw bytes: the same without a delimiter.
                let r = x.0.raw();
                if r[..] != pack(m)[..] {
                    return Err(format!("into_raw_bytes after from_bytes({}) is {}", shorten(b), shorten(&r)));
                }
                n += 2;
            }
        }
        if route == 0 {
            let ssz = guard(|| f.from_ssz(b)).map_err(|e| format!("from_ssz_bytes({}) panics: {e}", shorten(b)))?;
            n += 1;
            match (&ssz, &api) {
                (Ok(_), Err(_)) => return Err(format!("from_ssz_bytes accepts {}, from_bytes does not", shorten(b))),
                (Err(_), Ok(_)) => return Err(format!("from_bytes accepts {}, from_ssz_bytes does not", shorten(b))),
                (Ok(x), Ok(y)) => {
                    equal(x, y, &format!("from_ssz_bytes({})", shorten(b)))?;
                    let e = x.as_ssz_bytes();
                    if e != b {
                        return Err(format!("as_ssz_bytes after decoding {} is {}", shorten(b), shorten(&e)));
                    }
                    let mut buf = vec![0xaa, 0x55];
                    y.0.ssz_onto(&mut buf);
                    if &buf[2..] != b {
                        return Err(format!("ssz_append after decoding {} gives {}", shorten(b), shorten(&buf[2..])));
                    }
                    if y.0.ssz_len() != b.len() {
                        return Err(format!("ssz_bytes_len after decoding {} is {}", shorten(b), y.0.ssz_len()));
                    }
                    n += 3;
                }
                _ => (),
            }
        }
    }
    Ok(n)
}

/// All byte strings up to `max` bytes, grouped by all but the last byte.
fn short(f: Ty, units: &mut Vec<Unit>, max: usize) {
    let parts = if max > 2 { 16usize } else { 1 };
    for p in 0..parts {
        units.push(Unit::new(format!("{}: all strings of at most {max} bytes, part {p}", f.kind().name()), move |t: &mut Task| {
            if p == 0 {
                t.case(
                    || "the empty string".into(),
                    |t| {
                        t.states += 1;
                        t.transitions += judge(f, &[], 3)?;
                        t.traces += 1;
                        Ok(())
                    },
                );
            }
            for len in 1..=max {
                for x in 0..1usize << (8 * (len - 1)) {
                    if len == 3 && x % parts != p || len < 3 && p > 0 {
                        continue;
                    }
                    let mut b: Vec<u8> = x.to_le_bytes()[..len - 1].to_vec();
                    b.push(0);
                    t.case(
                        || format!("{} and any last byte", hex(&b[..len - 1])),
                        |t| {
                            let mut b = b.clone();
                            for last in 0..=255u8 {
                                b[len - 1] = last;
                                t.states += 1;
                                t.transitions += judge(f, &b, if len < 3 { 3 } else { 1 })?;
                                t.traces += 1;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
}

fn long(f: Ty, units: &mut Vec<Unit>, n: usize, thorough: bool) {
    units.push(Unit::new(format!("{}: longer strings", f.kind().name()), move |t: &mut Task| {
        let mut seen = std::collections::HashSet::new();
        let mut go = |t: &mut Task, b: Vec<u8>| {
            if !seen.insert(b.clone()) {
                return;
            }
            t.states += 1;
            t.case(
                || shorten(&b),
                |t| {
                    t.transitions += judge(f, &b, 3)?;
                    t.traces += 1;
                    Ok(())
                },
            );
        };
        for b in around(n, thorough) {
            go(t, b);
        }
        // Valid encodings of patterns, and each with one deviation.
        let mut lens = vec![0, 1, 7, 8, 9, n / 2, n.saturating_sub(8), n.saturating_sub(1), n, n + 1, n + 7, n + 8];
        lens.retain(|l| f.kind().allows(*l));
        lens.sort();
        lens.dedup();
        for l in lens {
            for p in patterns(l, if thorough { 70 } else { 0 }).into_iter().take(if thorough { 400 } else { 60 }) {
                let b = encoding(f.kind(), &p);
                go(t, b.clone());
                for tail in [&[0u8][..], &[1], &[0x80], &[0, 0], &[0, 1], &[0, 0, 0, 0, 0, 0, 0, 0]] {
                    go(t, [&b[..], tail].concat());
                }
                go(t, b[..b.len() - 1].to_vec());
                go(t, [&[0u8][..], &b].concat());
                for k in 0..8 {
                    let mut c = b.clone();
                    *c.last_mut().unwrap() ^= 1 << k;
                    go(t, c);
                    let mut c = b.clone();
                    c[0] ^= 1 << k;
                    go(t, c);
                }
            }
        }
        // Every value up to 10 bits above the others' reach, into bytes and back.
        if n <= if thorough { 14 } else { 11 } {
            for l in f.kind().lengths(n) {
                for m in all_bits(l) {
                    let e = encoding(f.kind(), &m);
                    t.states += 1;
                    t.case(
                        || format!("value {}", show(&m)),
                        |t| {
                            let x = f.of(&m);
                            if x.0.into_bytes()[..] != e[..] || x.as_ssz_bytes() != e {
                                return Err(format!("into_bytes is {}, encoding is {}, expected {}", hex(&x.0.into_bytes()), hex(&x.as_ssz_bytes()), hex(&e)));
                            }
                            t.transitions += 2;
                            t.traces += 1;
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
}

/// Capacities and lengths beyond 2^16 bits.
fn vast(f: Ty, units: &mut Vec<Unit>) {
    units.push(Unit::new(format!("{}: vast strings", f.kind().name()), move |t: &mut Task| {
        let n = match f.kind() {
            Kind::List(n) | Kind::Vect(n) => n,
            Kind::Dyn => 1 << 19,
        };
        let mut go = |t: &mut Task, b: Vec<u8>| {
            t.states += 1;
            t.case(
                || shorten(&b),
                |t| {
                    t.transitions += judge(f, &b, if n < 200_000 { 3 } else { 1 })?;
                    t.traces += 1;
                    Ok(())
                },
            );
        };
        for b in around_big(n) {
            go(t, b);
        }
        if n > 1 << 22 {
            return;
        }
        for l in few_lengths(f.kind()) {
            for p in few(l).into_iter().take(if n < 200_000 { 12 } else { 3 }) {
                let b = encoding(f.kind(), &p);
                go(t, b.clone());
                for tail in [&[0u8][..], &[1], &[0x80], &[0, 0]] {
                    go(t, [&b[..], tail].concat());
                }
                go(t, b[..b.len() - 1].to_vec());
                go(t, [&[0u8][..], &b].concat());
                for k in 0..8 {
                    let mut c = b.clone();
                    *c.last_mut().unwrap() ^= 1 << k;
                    go(t, c);
                }
            }
        }
    }));
}

/// from_bytes_with_len with a length that is not the number of bits given.
fn with_len(units: &mut Vec<Unit>) {
    units.push(Unit::new("BitVectorDynamic: from_bytes_with_len", move |t: &mut Task| {
        for n in 0..=4usize {
            for l in (0..=48).chain([usize::MAX, usize::MAX - 7, 1 << 61, (1 << 61) + 8, 1 << 63]) {
                for v in [0u8, 1, 0x7f, 0x80, 0xff] {
                    with_len_case(t, n, l, v);
                }
            }
        }
        for n in (5..=40usize).chain([63, 64, 127, 128, 129, 130, 131, 136, 255, 256, 257, 1024, 8191, 8192, 8193, 70_000]) {
            let bits = 8 * n;
            let mut ls: Vec<usize> = vec![0, 8, n, bits % 256, bits % 65_536, bits / 2, bits * 2, bits + 256, bits + 65_536, (1 << 32) + bits, (1 << 61) + bits, usize::MAX - 7];
            for d in [0usize, 1, 2, 4, 7, 8, 9, 15, 16, 24, 32, 64, 128] {
                ls.extend([bits + d, bits.wrapping_sub(d)]);
            }
            ls.sort();
            ls.dedup();
            for l in ls {
                for v in [0u8, 1, 0xff] {
                    with_len_case(t, n, l, v);
                }
            }
        }
    }));
}

/// `n` bytes `v`, said to be `l` bits.
fn with_len_case(t: &mut Task, n: usize, l: usize, v: u8) {
    let b = vec![v; n];
    t.states += 1;
    t.case(
        || format!("{} with length {l}", shorten(&b)),
        |t| {
            t.transitions += 1;
            t.traces += 1;
            let r = guard(|| BitVectorDynamic::from_bytes_with_len(raw(&b, 0), l).map(|x| Bx(Box::new(x)))).map_err(|e| format!("panics: {e}"))?;
            match r {
                Ok(x) if l == 8 * n && n > 0 => valid(&x, &meaning(Kind::Dyn, &b).unwrap()),
                Ok(_) => Err("accepted".into()),
                Err(_) if l == 8 * n && n > 0 => Err("rejected".into()),
                Err(_) => Ok(()),
            }
        },
    );
}

pub fn units(thorough: bool) -> Vec<Unit> {
    use crate::caps::*;
    let mut u = vec![];
    macro_rules! one {
        ($n:expr, $t:ty) => {
            if $n <= 25 {
                let three = thorough && [0, 1, 7, 8, 9, 15, 16, 17, 18, 23, 24, 25].contains(&$n);
                short(Ty::new::<BitList<$t>>(), &mut u, if three { 3 } else { 2 });
                short(Ty::new::<BitVector<$t>>(), &mut u, if three && ($n == 16 || $n >= 17) { 3 } else { 2 });
            }
            long(Ty::new::<BitList<$t>>(), &mut u, $n, thorough);
            long(Ty::new::<BitVector<$t>>(), &mut u, $n, thorough);
        };
    }
    crate::caps!(one);
    macro_rules! big {
        ($n:expr, $t:ty) => {
            vast(Ty::new::<BitList<$t>>(), &mut u);
            vast(Ty::new::<BitVector<$t>>(), &mut u);
        };
    }
    crate::caps_big!(big);
    vast(Ty::new::<BitVectorDynamic>(), &mut u);
    short(Ty::new::<BitVectorDynamic>(), &mut u, if thorough { 3 } else { 2 });
    long(Ty::new::<BitVectorDynamic>(), &mut u, 64, thorough);
    long(Ty::new::<BitVectorDynamic>(), &mut u, 1024, thorough);
    with_len(&mut u);
    u
}
