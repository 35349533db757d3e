//! C20. Arbitrary generators of bitfields: every input of a bounded space of unstructured data.

use arbitrary::{Arbitrary, Unstructured};
use mc::engine::{args, guard, hex, run, Task, Tier, Unit};
use ssz::*;
use typenum::Unsigned;

include!("../gen/all.rs");

/// What a generated bitfield looks like from outside.
struct Seen {
    len: usize,
    slice: Vec<u8>,
    bits: Vec<bool>,
    enc: Vec<u8>,
    round_trip: Result<(), String>,
}

/// How a value is drawn.
#[derive(Clone, Copy, Debug)]
enum How {
    Arbitrary,
    TakeRest,
    /// As the items of a list, and inside a tuple and an option.
    Inside,
}

type Gen = fn(&mut Unstructured<'_>, How) -> Result<Vec<Seen>, String>;

fn draw<F: for<'a> Arbitrary<'a>>(u: &mut Unstructured<'_>, how: How) -> Result<Vec<F>, String> {
    let r = match how {
        How::Arbitrary => F::arbitrary(u).map(|x| vec![x]),
        How::TakeRest => {
            let n = u.len();
            u.bytes(n).and_then(|b| F::arbitrary_take_rest(Unstructured::new(b))).map(|x| vec![x])
        }
        How::Inside => <(Option<F>, Vec<F>, u8, [F; 2])>::arbitrary(u).map(|(a, b, _, c)| a.into_iter().chain(b).chain(c).take(40).collect()),
    };
    r.map_err(|e| e.to_string())
}

fn list<N: Unsigned + Clone + std::fmt::Debug + 'static>(u: &mut Unstructured<'_>, how: How) -> Result<Vec<Seen>, String> {
    Ok(draw::<BitList<N>>(u, how)?
        .into_iter()
        .map(|x| {
            let enc = x.as_ssz_bytes();
            let round_trip = match BitList::<N>::from_ssz_bytes(&enc) {
                Ok(y) if y == x => Ok(()),
                Ok(y) => Err(format!("round trip gives {:?}", y.as_slice())),
                Err(e) => Err(format!("its encoding does not decode: {e:?}")),
            };
            Seen { len: x.len(), slice: x.as_slice().to_vec(), bits: x.iter().collect(), enc, round_trip }
        })
        .collect())
}

fn vector<N: Unsigned + Clone + std::fmt::Debug + 'static>(u: &mut Unstructured<'_>, how: How) -> Result<Vec<Seen>, String> {
    Ok(draw::<BitVector<N>>(u, how)?
        .into_iter()
        .map(|x| {
            let enc = x.as_ssz_bytes();
            let round_trip = match BitVector::<N>::from_ssz_bytes(&enc) {
                Ok(y) if y == x => Ok(()),
                Ok(y) => Err(format!("round trip gives {:?}", y.as_slice())),
                Err(e) => Err(format!("its encoding does not decode: {e:?}")),
            };
            Seen { len: x.len(), slice: x.as_slice().to_vec(), bits: x.iter().collect(), enc, round_trip }
        })
        .collect())
}

fn valid(s: &Seen, n: usize, is_list: bool) -> Result<(), String> {
    if is_list && s.len > n || !is_list && s.len != n {
        return Err(format!("has {} bits", s.len));
    }
    let bytes = s.len.div_ceil(8).max(1);
    if s.slice.len() != bytes {
        return Err(format!("{} bits in {} bytes", s.len, s.slice.len()));
    }
    if s.bits.len() != s.len {
        return Err(format!("iterates over {} of {} bits", s.bits.len(), s.len));
    }
    for i in 0..8 * bytes {
        let b = s.slice[i / 8] >> (i % 8) & 1 == 1;
        if i >= s.len && b {
            return Err(format!("bit {i} set beyond {} bits", s.len));
        }
        if i < s.len && b != s.bits[i] {
            return Err(format!("bit {i} iterates as {}", s.bits[i]));
        }
    }
    let mut e = s.bits.clone();
    if is_list {
        e.push(true);
    }
    let mut exp = vec![0u8; e.len().div_ceil(8).max(1)];
    for (i, b) in e.iter().enumerate() {
        exp[i / 8] |= u8::from(*b) << (i % 8);
    }
    if s.enc != exp {
        return Err(format!("encodes as {}, expected {}", show(&s.enc), show(&exp)));
    }
    s.round_trip.clone()
}

fn show(b: &[u8]) -> String {
    if b.len() <= 48 {
        return hex(b);
    }
    format!("{} bytes {}..{}", b.len(), hex(&b[..20]), hex(&b[b.len() - 10..]))
}

/// Draws up to `draws` values from one input. Returns how many succeeded.
fn judge(gen: Gen, n: usize, is_list: bool, input: &[u8], draws: usize) -> Result<u64, String> {
    let mut u = Unstructured::new(input);
    let mut ok = 0;
    for i in 0..draws {
        let r = guard(|| gen(&mut u, How::Arbitrary)).map_err(|e| format!("draw {i} panics: {e}"))?;
        for s in r.unwrap_or_default() {
            valid(&s, n, is_list).map_err(|e| format!("draw {i}: {e}"))?;
            ok += 1;
        }
    }
    // The other ways to draw from the same data; first draws only.
    if draws > 1 || input.len() < 2 {
        for how in [How::TakeRest, How::Inside] {
            let mut u = Unstructured::new(input);
            let r = guard(|| gen(&mut u, how)).map_err(|e| format!("{how:?} panics: {e}"))?;
            for s in r.unwrap_or_default() {
                valid(&s, n, is_list).map_err(|e| format!("{how:?}: {e}"))?;
            }
        }
    }
    Ok(ok)
}

/// Inputs with every size word near the bounds, at the front or at the back, and every kind of fill.
fn structured(n: usize, thorough: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let need = n.div_ceil(8).clamp(1, 1 << 18);
    let mut sizes: Vec<u64> = (0..=need.min(6) as u64 + 3).collect();
    for d in 0..=4 {
        sizes.push((need as u64 + d).saturating_sub(2));
        sizes.push((n as u64).wrapping_add(d).wrapping_sub(2));
    }
    sizes.extend([1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 60, 1 << 63, u64::MAX - 7, u64::MAX - 1, u64::MAX]);
    sizes.sort();
    sizes.dedup();
    let mut bodies: Vec<usize> = vec![0, 1, need - 1, need, need + 1, need + 8, need + 9];
    if need < 40 {
        bodies.extend([need / 2, 2 * need, 3 * need + 8]);
    }
    bodies.sort();
    bodies.dedup();
    let mut tops: Vec<u8> = (0..8).map(|i| 1 << i).collect();
    tops.extend([0, 3, 0x7f, 0xff]);
    if thorough {
        tops.extend(if need < 300 { 0..=255u8 } else { 0..=16 });
    }
    tops.sort();
    tops.dedup();
    for b in &bodies {
        for fill in [0u8, 0xff, 1, 0x80, 0x55] {
            let plain = vec![fill; *b];
            out.push(plain.clone());
            // The last byte that fits the bitfield, and the very last byte.
            let mut ends: Vec<usize> = vec![need.wrapping_sub(1), b.wrapping_sub(1), need.wrapping_sub(2)];
            ends.retain(|e| e < b);
            ends.dedup();
            let mut fills = vec![plain];
            for e in ends {
                for t in &tops {
                    let mut v = vec![fill; *b];
                    v[e] = *t;
                    fills.push(v);
                }
            }
            if *b > 400 {
                fills.truncate(6);
            }
            for v in fills {
                if n < 64 || thorough && need < 200 {
                    out.push(v.clone());
                }
                for s in &sizes {
                    out.push([&s.to_le_bytes()[..], &v].concat());
                    if n < 24 || v.len() < 3 {
                        out.push([&v[..], &s.to_le_bytes()].concat());
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Inputs of all lengths with one fill: some must succeed.
fn fills(n: usize) -> impl Iterator<Item = Vec<u8>> {
    let need = n.div_ceil(8).clamp(1, 1 << 18);
    let lens = [need, need + 8, 2 * need + 16, 1, 2, 3, 8, 9, 10, 16];
    lens.into_iter().flat_map(|l| [0u8, 1, 0x80, 0xff, 2, 3, 0x0f, 0x55].into_iter().map(move |f| vec![f; l]))
}

fn main() {
    let a = args();
    assert_eq!(a.prop, "C20");
    let thorough = a.tier == Tier::Thorough;
    let mut units = vec![];
    let mut types: Vec<(usize, bool, Gen)> = vec![];
    for (n, l, v) in all() {
        types.push((n, true, l));
        types.push((n, false, v));
    }
    for (n, l) in huge() {
        types.push((n, true, l));
    }
    for (n, is_list, gen) in types {
        let name = if is_list { format!("BitList<{n}>") } else { format!("BitVector<{n}>") };
        units.push(Unit::new(name, move |t: &mut Task| {
            let mut succeeded = 0u64;
            // A spread of capacities gets the complete tables of short inputs.
            let short = if n <= 33 || [63, 64, 65, 127, 128, 129, 1023, 1024, 1025].contains(&n) || n > 1 << 30 {
                if thorough && [1, 2, 7, 8, 9, 15, 16, 17, 24].contains(&n) {
                    3
                } else {
                    2
                }
            } else {
                1
            };
            for len in 0..=short {
                for x in 0..1usize << (8 * len) {
                    let b = x.to_le_bytes()[..len].to_vec();
                    t.states += 1;
                    t.case(
                        || format!("input {}", hex(&b)),
                        |t| {
                            t.transitions += 2;
                            t.traces += 1;
                            succeeded += judge(gen, n, is_list, &b, if len < 2 { 3 } else { 1 })?;
                            Ok(())
                        },
                    );
                }
            }
            // A size word followed by every short body.
            if n <= 17 || thorough && n <= 40 {
                for size in 0..=(n.div_ceil(8) as u64 + 2) {
                    for back in [false, true] {
                        for x in 0..1usize << 16 {
                            let body = &x.to_le_bytes()[..if size < 2 { 1 } else { 2 }];
                            if size < 2 && x > 255 {
                                break;
                            }
                            let w = size.to_le_bytes();
                            let b = if back { [body, &w[..]].concat() } else { [&w[..], body].concat() };
                            t.states += 1;
                            t.case(
                                || format!("input {}", hex(&b)),
                                |t| {
                                    t.transitions += 1;
                                    t.traces += 1;
                                    succeeded += judge(gen, n, is_list, &b, 1)?;
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
            let few = n > 300 && !thorough;
            for (i, b) in structured(n, thorough && n < 300).into_iter().enumerate() {
                if (few && i % 5 != 0) || (n > 60_000 && i % 40 != 0) {
                    continue;
                }
                t.states += 1;
                t.case(
                    || format!("input {}", show(&b)),
                    |t| {
                        t.transitions += 4;
                        t.traces += 1;
                        succeeded += judge(gen, n, is_list, &b, 4)?;
                        Ok(())
                    },
                );
            }
            for b in fills(n) {
                t.states += 1;
                t.case(
                    || format!("input {}", show(&b)),
                    |t| {
                        t.transitions += 1;
                        t.traces += 1;
                        succeeded += judge(gen, n, is_list, &b, 1)?;
                        Ok(())
                    },
                );
            }
            // Reachability, judged on this unit's own explorations only.
            t.case(
                || "some input makes generation succeed".into(),
                |t| {
                    let mut tried = 0;
                    let mut ok = succeeded;
                    if ok == 0 {
                        for b in structured(n, true).into_iter().chain(fills(n)) {
                            tried += 1;
                            ok += guard(|| judge(gen, n, is_list, &b, 1)).unwrap_or(Ok(0)).unwrap_or(0);
                            if ok > 0 {
                                break;
                            }
                        }
                    }
                    t.transitions += tried;
                    if n > 0 && ok == 0 {
                        return Err(format!("none of the inputs explored ({} here) does", tried));
                    }
                    t.count("capacities shown reachable", 1);
                    Ok(())
                },
            );
        }));
    }
    run(a, units)
}
