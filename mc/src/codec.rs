//! The codec properties, as bounded spaces over a registry of real types.

use crate::engine::{guard, hex, Task, Tier, Unit};
use crate::model::{de, ser, ser_map, Schema, Val};
use crate::ops::{Dec, Ops};
use crate::space::{ascending, big_values, explore_bytes, giant_values, huge_values, spread, sweep, table_strings, table_values, tables, ByteBounds, Values};

pub type Registry = &'static [Ops];

/// Short description of a value.
pub fn show(v: &Val) -> String {
    let mut s = match v {
        Val::Bits(b) => format!("Bits({})", b.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>()),
        Val::Bytes(b) => format!("Bytes({})", hex(b)),
        _ => format!("{v:?}"),
    };
    if s.len() > 4000 {
        s.truncate(4000);
        s.push_str("...");
    }
    s
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 600 {
        hex(b)
    } else {
        format!("{}...({} bytes)...{}", hex(&b[..300]), b.len(), hex(&b[b.len() - 200..]))
    }
}

fn rank(tier: Tier, q: usize, t: usize) -> usize {
    match tier {
        Tier::Quick => q,
        Tier::Thorough => t,
    }
}

/// Bounds of the byte-string space by tier, halved in depth for schemas with many seeds.
pub fn bounds(s: &Schema, tier: Tier) -> ByteBounds {
    let big_leaf = s.fixed().map(|n| n > 70).unwrap_or(false);
    ByteBounds {
        tables: tables(s, tier == Tier::Thorough),
        seed_weight: rank(tier, 3, 4),
        seed_cap: rank(tier, 120, 500),
        seed_max_len: if big_leaf { 300 } else { rank(tier, 72, 110) },
        pair_max_len: rank(tier, 24, 36),
        pair_seeds: rank(tier, 2, 5),
        full_bytes: tier == Tier::Thorough,
    }
}

/// Visits all byte strings of the bounded space as cases.
fn bytes_cases(t: &mut Task, s: &Schema, b: &ByteBounds, check: impl Fn(&mut Task, &[u8]) -> Result<(), String>) {
    if vast(s) {
        for v in Values::default().upto(s, 1, 12).0 {
            let (b, offs) = ser_map(s, &v);
            deviations(t, &b, &offs, &check);
        }
        return;
    }
    let mut n = 0u64;
    let st = explore_bytes(s, b, |x| {
        n += 1;
        t.case(|| hex(x), |t| check(t, x));
    });
    table_strings(s, t.thorough(), rank(t.tier, 250, 2_500), |x| {
        t.states += 1;
        t.transitions += 1;
        t.count("strings of the leaf tables", 1);
        t.case(|| short(x), |t| check(t, x));
    });
    t.states += st.states;
    t.transitions += st.transitions;
    t.count("valid encodings used as seeds", st.seeds);
    t.count("seeds with all pairs of structural deviations", st.pair_seeds);
}

/// Types whose every encoding is long: few values, few deviations.
fn vast(s: &Schema) -> bool {
    crate::model::ser_len(s, &Values::default().exact(s, 0)[0]) > 3000
}

/// Values beyond 2^16 bytes or items.
fn huge(s: &Schema, tier: Tier) -> Vec<Val> {
    match tier {
        Tier::Quick => huge_values(s, &[16_385], &[70_000], 1_200_000, 4),
        Tier::Thorough => huge_values(s, &[16_384, 16_385, 65_536, 65_537], &[65_532, 70_000], 4_000_000, 16),
    }
}

/// Values beyond 2^20 and 2^24 bytes, of the types with byte strings or simple items.
fn giants(s: &Schema, tier: Tier) -> Vec<Val> {
    match tier {
        Tier::Quick => giant_values(s, &[1 << 20 | 5, 1 << 24 | 3], 2),
        Tier::Thorough => giant_values(s, &[1 << 20 | 5, 1 << 24 | 3, 1 << 26 | 1], 4),
    }
}

/// The value space of a schema: every value up to the largest weight that fits the cap, then long
/// lists.
fn value_space(s: &Schema, tier: Tier) -> (Vec<Val>, usize, Vec<Val>) {
    let cap = if vast(s) { rank(tier, 60, 600) } else { rank(tier, 12_000, 150_000) };
    let (vals, w) = Values::default().upto(s, rank(tier, 8, 12), cap);
    let counts: &[usize] = match tier {
        Tier::Quick => &[3, 8, 17, 33, 64, 70, 128, 257, 300],
        Tier::Thorough => &[3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025],
    };
    let inner: &[usize] = match tier {
        Tier::Quick => &[5, 63, 64, 256],
        Tier::Thorough => &[5, 8, 63, 64, 65, 255, 256, 257],
    };
    let mut big = big_values(s, counts, inner);
    big.retain(|v| crate::model::ser_len(s, v) <= 2_000_000);
    if vast(s) {
        big = spread(big, rank(tier, 20, 100));
    }
    big.extend(huge(s, tier));
    (vals, w, big)
}

fn value_cases(t: &mut Task, s: &Schema, check: impl Fn(&mut Task, &Val) -> Result<(), String>) {
    let (vals, _w, big) = value_space(s, t.tier);
    for v in vals.iter().chain(&big) {
        t.states += 1;
        t.transitions += 1;
        t.case(|| show(v), |t| check(t, v));
    }
    drop((vals, big));
    if !vast(s) {
        for v in table_values(s, t.thorough(), rank(t.tier, 250, 2_500)) {
            t.states += 1;
            t.transitions += 1;
            t.count("values of the leaf tables", 1);
            t.case(|| show(&v), |t| check(t, &v));
        }
    }
    sweep(s, rank(t.tier, 1_030, 4_100), |v| {
        t.states += 1;
        t.transitions += 1;
        t.count("values of every item count", 1);
        t.case(|| show(&v), |t| check(t, &v));
    });
    for v in giants(s, t.tier) {
        t.states += 1;
        t.transitions += 1;
        t.case(|| show(&v), |t| check(t, &v));
    }
}

fn unit(o: &'static Ops, run: impl Fn(&mut Task, &Schema) + Send + Sync + 'static) -> Unit {
    Unit::new(o.name, move |t| {
        let s = (o.schema)();
        run(t, &s)
    })
}

/// Encoding a container around a transparent enum with a fixed-size variant panics by design.
pub fn encodable(s: &Schema) -> bool {
    match s {
        Schema::TEnum(v) => v.iter().all(|x| !x.has_fixed_tenum()),
        _ => !s.has_fixed_tenum(),
    }
}

// --- C01 ---------------------------------------------------------------------------------------

pub fn c01(r: Registry) -> Vec<Unit> {
    r.iter()
        .filter(|o| {
            let s = (o.schema)();
            !s.has_zero_items() && !s.has_tenum()
        })
        .map(|o| unit(o, move |t, s| value_cases(t, s, |t, v| check_rt(t, o, v))))
        .collect()
}

pub fn check_rt(t: &mut Task, o: &Ops, v: &Val) -> Result<(), String> {
    match (o.rt)(v) {
        None => {
            t.count("values that could not be built", 1);
            Ok(())
        }
        Some(Ok(r)) => {
            t.traces += 1;
            r
        }
        Some(Err(p)) => Err(format!("panic: {p}")),
    }
}

// --- C02 ---------------------------------------------------------------------------------------

pub fn c02(r: Registry) -> Vec<Unit> {
    r.iter()
        .filter(|o| {
            let s = (o.schema)();
            !s.has_collections() && !s.has_tenum()
        })
        .map(|o| {
            unit(o, move |t, s| {
                let b = bounds(s, t.tier);
                bytes_cases(t, s, &b, |t, x| check_canonical(t, o, x));
                big_bytes(t, s, (o.heap)().0, |t, x| check_canonical(t, o, x));
            })
        })
        .collect()
}

pub fn check_canonical(t: &mut Task, o: &Ops, x: &[u8]) -> Result<(), String> {
    match (o.dec_enc)(x) {
        // Panics on decoding are C05's matter.
        Err(_) | Ok(None) => {
            t.count("strings rejected", 1);
            Ok(())
        }
        Ok(Some(y)) => {
            t.traces += 1;
            t.count("strings accepted", 1);
            if x == y {
                Ok(())
            } else {
                Err(format!("accepted, but the decoded value encodes to {}", short(&y)))
            }
        }
    }
}

/// Long encodings and the structural deviations of their first, second and last offset words.
/// `amp` is what decoding may reserve per byte of input, which bounds the items that may be announced.
fn big_bytes(t: &mut Task, s: &Schema, amp: f64, check: impl Fn(&mut Task, &[u8]) -> Result<(), String>) {
    let counts: &[usize] = if t.thorough() { &[9, 17, 64, 65, 130, 257] } else { &[9, 70, 257] };
    let mut vals = big_values(s, counts, &[5, 64]);
    vals.retain(|v| crate::model::ser_len(s, v) <= 20_000);
    if !t.thorough() {
        vals.truncate(24);
    }
    for v in &vals {
        let (b, offs) = ser_map(s, v);
        deviations(t, &b, &offs, &check);
    }
    // Every item count: the encoding, one byte more, one byte less.
    sweep(s, rank(t.tier, 1_030, 4_100), |v| {
        let (mut b, _) = ser_map(s, &v);
        drop(v);
        for cut in 0..3 {
            match cut {
                1 => b.push(1),
                2 => b.truncate(b.len().saturating_sub(2)),
                _ => {}
            }
            t.states += 1;
            t.transitions += 1;
            t.count("strings of every item count", 1);
            t.case(|| short(&b), |t| check(t, &b));
        }
    });
    // Beyond 16 bits: the value itself, and what shifts or truncates a word.
    let n = if t.thorough() { 6 } else { 2 };
    for v in spread(huge(s, t.tier), n) {
        let (b, offs) = ser_map(s, &v);
        few_deviations(t, &b, &offs, amp, &check);
    }
    // Beyond 2^20 and 2^24 bytes: the value itself, one byte less, two more, and one high bit of the
    // first and the last offset.
    for v in giants(s, t.tier) {
        let (mut b, offs) = ser_map(s, &v);
        drop(v);
        for o in spread(offs, 2) {
            let w = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
            for x in [16, 20, 24, 25].map(|k| w ^ (1 << k)) {
                if x as usize <= b.len() && amp * f64::from(x) < 5e8 {
                    b[o..o + 4].copy_from_slice(&x.to_le_bytes());
                    t.states += 1;
                    t.transitions += 1;
                    t.case(|| short(&b), |t| check(t, &b));
                }
            }
            b[o..o + 4].copy_from_slice(&w.to_le_bytes());
        }
        for cut in [0usize, 1, usize::MAX] {
            match cut {
                1 => {
                    b.pop();
                }
                usize::MAX => b.extend([0, 0]),
                _ => {}
            }
            t.states += 1;
            t.transitions += 1;
            t.case(|| short(&b), |t| check(t, &b));
        }
    }
}

fn few_deviations(t: &mut Task, b: &[u8], offs: &[usize], amp: f64, check: &impl Fn(&mut Task, &[u8]) -> Result<(), String>) {
    let go = |t: &mut Task, x: &[u8]| {
        t.states += 1;
        t.transitions += 1;
        t.case(|| short(x), |t| check(t, x));
    };
    go(t, b);
    let mut c = b.to_vec();
    for o in spread(offs.to_vec(), 3) {
        let w = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
        let n = b.len() as u32;
        let far = [16, 17, 20, 22, 24, 25].iter().map(|k| w ^ (1 << k)).filter(|x| *x <= n && amp * f64::from(*x) < 5e8);
        for x in [w.wrapping_sub(0x1_0000), w & 0xffff, w + 1, n + 1].into_iter().chain(far) {
            if x != w {
                c[o..o + 4].copy_from_slice(&x.to_le_bytes());
                go(t, &c);
            }
        }
        c[o..o + 4].copy_from_slice(&b[o..o + 4]);
    }
    go(t, &b[..b.len() - 1]);
    c.push(0);
    go(t, &c);
}

fn deviations(t: &mut Task, b: &[u8], offs: &[usize], check: &impl Fn(&mut Task, &[u8]) -> Result<(), String>) {
    let n = b.len();
    let go = |t: &mut Task, x: &[u8]| {
        t.states += 1;
        t.transitions += 1;
        t.case(|| short(x), |t| check(t, x));
    };
    go(t, b);
    if n == 0 {
        return;
    }
    let mut c = b.to_vec();
    let mut pick: Vec<usize> = vec![];
    for i in [0, 1, 2, offs.len() / 2, offs.len().wrapping_sub(2), offs.len().wrapping_sub(1)] {
        if let Some(o) = offs.get(i) {
            if !pick.contains(o) {
                pick.push(*o);
            }
        }
    }
    for o in pick {
        let w = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
        let n32 = n as u32;
        for x in [
            0,
            1,
            4,
            w.wrapping_sub(4),
            w.wrapping_sub(1),
            w + 1,
            w + 4,
            n32 - 1,
            n32,
            n32 + 1,
            n32 + 4,
            n32 & !3,
            (n32 & !3) + 4,
            0xffff,
            0x1_0000,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_fffc,
            0xffff_ffff,
        ] {
            if x == w {
                continue;
            }
            c[o..o + 4].copy_from_slice(&x.to_le_bytes());
            go(t, &c);
        }
        c[o..o + 4].copy_from_slice(&b[o..o + 4]);
    }
    for k in [1, 2, 3, 4, n / 2, n - n.min(5), n - 1] {
        if k < n {
            go(t, &b[..k]);
        }
    }
    for tail in [&[0u8][..], &[1], &[0xff], &[0; 4]] {
        let mut d = b.to_vec();
        d.extend_from_slice(tail);
        go(t, &d);
    }
    for i in [0, 1, n / 2, n - 1] {
        if i >= n {
            continue;
        }
        for x in [1u8, 0x80, 0xff] {
            let mut d = b.to_vec();
            d[i] ^= x;
            go(t, &d);
        }
    }
}

// --- C03 ---------------------------------------------------------------------------------------

pub fn c03(r: Registry) -> Vec<Unit> {
    r.iter()
        .filter(|o| encodable(&(o.schema)()))
        .map(|o| unit(o, move |t, s| value_cases(t, s, |t, v| check_wire(t, o, s, v))))
        .collect()
}

pub fn check_wire(t: &mut Task, o: &Ops, s: &Schema, v: &Val) -> Result<(), String> {
    match (o.enc)(v) {
        None => {
            t.count("values that could not be built", 1);
            Ok(())
        }
        Some(Ok(b)) => {
            t.traces += 1;
            let want = ser(s, v);
            if b == want {
                Ok(())
            } else {
                Err(format!("encodes to {}, the specification says {}", short(&b), short(&want)))
            }
        }
        Some(Err(p)) => Err(format!("panic: {p}")),
    }
}

// --- C04 ---------------------------------------------------------------------------------------

pub fn c04(r: Registry) -> Vec<Unit> {
    r.iter()
        .map(|o| {
            unit(o, move |t, s| {
                let b = bounds(s, t.tier);
                let strict = !s.has_collections();
                bytes_cases(t, s, &b, |t, x| check_decode(t, o, s, x, strict));
                big_bytes(t, s, (o.heap)().0, |t, x| check_decode(t, o, s, x, strict));
            })
        })
        .collect()
}

pub fn check_decode(t: &mut Task, o: &Ops, s: &Schema, x: &[u8], strict: bool) -> Result<(), String> {
    let want = de(s, x);
    match ((o.dec)(x), want) {
        (Dec::Ok(v), Ok(w)) => {
            t.traces += 1;
            t.count("strings accepted", 1);
            if v == w {
                Ok(())
            } else {
                Err(format!("decodes to {}, the specification says {}", show(&v), show(&w)))
            }
        }
        (Dec::Ok(v), Err(())) => Err(format!("invalid, but accepted as {}", show(&v))),
        (Dec::Err, Ok(w)) if strict => Err(format!("valid encoding of {}, but rejected", show(&w))),
        (Dec::Panic(p), Ok(w)) if strict => Err(format!("valid encoding of {}, but panics: {p}", show(&w))),
        _ => {
            t.count("strings rejected", 1);
            Ok(())
        }
    }
}

// --- C05 ---------------------------------------------------------------------------------------

pub fn c05(r: Registry) -> Vec<Unit> {
    r.iter()
        .map(|o| {
            unit(o, move |t, s| {
                let b = bounds(s, t.tier);
                bytes_cases(t, s, &b, |t, x| check_no_panic(t, o, x));
                big_bytes(t, s, (o.heap)().0, |t, x| check_no_panic(t, o, x));
            })
        })
        .collect()
}

pub fn check_no_panic(t: &mut Task, o: &Ops, x: &[u8]) -> Result<(), String> {
    let r = (o.raw)(x);
    t.traces += 1;
    match r.panic {
        None => {
            t.count(if r.ok { "strings decoded" } else { "strings answered with an error" }, 1);
            Ok(())
        }
        Some(p) => Err(format!("decoding panics: {p}")),
    }
}

// --- C06 ---------------------------------------------------------------------------------------

pub fn c06(r: Registry) -> Vec<Unit> {
    r.iter()
        .map(|o| {
            unit(o, move |t, s| {
                let (a, c) = (o.heap)();
                let mut b = bounds(s, t.tier);
                if t.tier == Tier::Quick {
                    b.tables.remove(0);
                }
                let check = |t: &mut Task, x: &[u8]| check_alloc(t, o, a, c, x);
                bytes_cases(t, s, &b, check);
                // Growth: encodings of increasing length and their deviations.
                for v in series(s, t.tier) {
                    let (b, offs) = ser_map(s, &v);
                    deviations(t, &b, &offs, &check);
                }
                // Lengths that announce more than is there, in otherwise empty bulk.
                for n in [64usize, 1024, 16 * 1024] {
                    for fill in [0u8, 1, 4, 0xff] {
                        let mut x = vec![fill; n];
                        for w in [4u32, 8, 0x100, n as u32, (n / 2) as u32 & !3, 0x7fff_fffc, 0xffff_fffc] {
                            x[..4].copy_from_slice(&w.to_le_bytes());
                            t.states += 1;
                            t.transitions += 1;
                            t.case(|| format!("word {w} then {fill:#x} to {n} bytes"), |t| check(t, &x));
                        }
                    }
                }
            })
        })
        .collect()
}

/// Values with encodings up to about 64 KiB, for growth rates.
fn series(s: &Schema, tier: Tier) -> Vec<Val> {
    let mut out = vec![];
    for n in [4usize, 16, 64, 256, 1024, 4096, 16384] {
        let mut vs = big_values(s, &[n], &[if n > 256 { 64 } else { n.min(64) }]);
        vs.retain(|v| crate::model::ser_len(s, v) <= rank(tier, 70_000, 200_000));
        vs.truncate(rank(tier, 6, 40));
        out.extend(vs);
    }
    out
}

pub fn check_alloc(t: &mut Task, o: &Ops, a: f64, c: f64, x: &[u8]) -> Result<(), String> {
    let r = (o.raw)(x);
    t.traces += 1;
    // Room for temporary collections of offsets, slices and items at each level of lists.
    let levels = (o.schema)().list_levels().max(1) as f64;
    let limit = 4.0 * (a * x.len() as f64 + c) + 64.0 * levels * x.len() as f64 + 16_384.0;
    t.count(if r.ok { "strings decoded" } else { "strings answered with an error" }, 1);
    if r.peak as f64 > limit {
        Err(format!(
            "decoding {} bytes requests {} bytes of heap at peak; the linear bound for the type is {:.0}",
            x.len(),
            r.peak,
            limit
        ))
    } else {
        Ok(())
    }
}

// --- C07 ---------------------------------------------------------------------------------------

pub fn c07(r: Registry) -> Vec<Unit> {
    r.iter()
        .filter(|o| !(o.schema)().has_fixed_tenum())
        .map(|o| {
            unit(o, move |t, s| {
                t.states += 1;
                t.transitions += 1;
                t.case(|| "metadata".into(), |_| check_meta(o, s));
                value_cases(t, s, |t, v| check_size(t, o, s, v));
                if let Some(n) = s.fixed() {
                    wrong_lengths(t, o, s, n);
                }
            })
        })
        .collect()
}

pub fn check_meta(o: &Ops, s: &Schema) -> Result<(), String> {
    let m = match (o.meta)() {
        Ok(m) => m,
        Err(p) => return Err(format!("metadata panics: {p}")),
    };
    if m.enc_fixed != m.dec_fixed {
        return Err(format!("encoder says fixed-size = {}, decoder says {}", m.enc_fixed, m.dec_fixed));
    }
    if m.enc_len != m.dec_len {
        return Err(format!("encoder says fixed part {}, decoder says {}", m.enc_len, m.dec_len));
    }
    if !m.enc_fixed && m.enc_len != 4 {
        return Err(format!("variable-size type with a fixed part of {}", m.enc_len));
    }
    if m.enc_fixed != s.fixed().is_some() {
        return Err(format!("says fixed-size = {}, the schema says {}", m.enc_fixed, s.fixed().is_some()));
    }
    if m.enc_len != s.part() {
        return Err(format!("says fixed part {}, the schema says {}", m.enc_len, s.part()));
    }
    Ok(())
}

pub fn check_size(t: &mut Task, o: &Ops, s: &Schema, v: &Val) -> Result<(), String> {
    match (o.len)(v) {
        None => {
            t.count("values that could not be built", 1);
            Ok(())
        }
        Some(Err(p)) => Err(format!("panic: {p}")),
        Some(Ok((predicted, actual))) => {
            t.traces += 1;
            if predicted != actual {
                return Err(format!("predicted size {predicted}, encodes to {actual} bytes"));
            }
            if let Some(n) = s.fixed() {
                if n != actual {
                    return Err(format!("fixed-size type of {n} bytes encodes to {actual} bytes"));
                }
            }
            Ok(())
        }
    }
}

fn wrong_lengths(t: &mut Task, o: &Ops, s: &Schema, n: usize) {
    let valid = ser(s, &Values::default().exact(s, 0)[0]);
    let check = |x: &[u8]| -> Result<(), String> {
        if x.len() == n {
            return Ok(());
        }
        match guard(|| (o.dec)(x)) {
            Ok(Dec::Ok(_)) => Err(format!("fixed-size type of {n} bytes accepts {} bytes", x.len())),
            _ => Ok(()),
        }
    };
    let mut lens: Vec<usize> = (0..=(2 * n + 3).min(700)).collect();
    if n > 300 {
        lens.extend([n - 257, n - 256, n - 8, n - 4, n - 1, n + 1, n + 4, n + 8, n + 255, n + 256, 2 * n, n + 65_536]);
        if n > 65_536 {
            lens.extend([n - 65_536, n & 0xffff, n - 65_535]);
        }
    }
    for l in lens {
        for fill in [0u8, 1, 0xff] {
            let x = vec![fill; l];
            t.states += 1;
            t.transitions += 1;
            t.case(|| hex(&x), |_| check(&x));
        }
        let x: Vec<u8> = valid.iter().copied().cycle().take(if n == 0 { 0 } else { l }).collect();
        t.states += 1;
        t.transitions += 1;
        t.case(|| hex(&x), |_| check(&x));
        if l > n {
            let mut x = valid.clone();
            x.resize(l, 0);
            t.states += 1;
            t.transitions += 1;
            t.case(|| hex(&x), |_| check(&x));
        }
    }
}

// --- C10 ---------------------------------------------------------------------------------------

pub fn c10(r: Registry) -> Vec<Unit> {
    r.iter()
        .filter(|o| !(o.schema)().has_fixed_tenum())
        .map(|o| {
            unit(o, move |t, s| {
                let cap = if t.thorough() { 600 } else { 60 };
                let (mut vals, _) = Values::default().upto(s, 4, cap);
                let mut big = big_values(s, &[9, 70, 300], &[5, 64]);
                big.retain(|v| crate::model::ser_len(s, v) < 100_000);
                big.truncate(if t.thorough() { 40 } else { 8 });
                let plain = vals.len();
                vals.extend(big);
                for v in huge(s, t.tier) {
                    for (p, spare) in [(vec![], 0), (vec![0xa5; 3], 0), (vec![0xa5; 70_000], 200_000)] {
                        t.transitions += 1;
                        t.states += 1;
                        t.case(
                            || format!("{} appended to {} bytes with {spare} spare", show(&v), p.len()),
                            |t| check_entries(t, o, s, &v, &p, spare),
                        );
                    }
                }
                for v in giant_values(s, &[1 << 20 | 5], 2) {
                    let p = [0xa5; 5];
                    t.transitions += 1;
                    t.states += 1;
                    t.case(|| format!("{} appended to 5 bytes", show(&v)), |t| check_entries(t, o, s, &v, &p, 0));
                }
                let prefixes: Vec<(Vec<u8>, usize)> = prefixes(t.thorough());
                for (i, v) in vals.iter().enumerate() {
                    for (p, spare) in &prefixes {
                        if p.len() > 1000 && (i % 16 != 3 || i >= plain) {
                            continue;
                        }
                        t.transitions += 1;
                        t.states += 1;
                        t.case(
                            || format!("{} appended to {} bytes with {spare} spare", show(v), p.len()),
                            |t| check_entries(t, o, s, v, p, *spare),
                        );
                    }
                }
            })
        })
        .collect()
}

fn prefixes(thorough: bool) -> Vec<(Vec<u8>, usize)> {
    let mut out = vec![];
    let mut lens = vec![0usize, 1, 4, 7, 300];
    if thorough {
        lens.extend([2, 3, 5, 8, 31, 32, 33, 64, 255, 256, 257]);
    }
    for l in lens {
        for spare in [0usize, 3, 100_000] {
            if spare == 100_000 && l % 2 == 1 && l != 1 {
                continue;
            }
            out.push(((0..l).map(|i| (i * 5 + 3) as u8).collect(), spare));
        }
    }
    out.push((vec![0xff; 8], 0));
    out.push((vec![0; 70_000], 0));
    out
}

pub fn check_entries(
    t: &mut Task,
    o: &Ops,
    s: &Schema,
    v: &Val,
    prefix: &[u8],
    spare: usize,
) -> Result<(), String> {
    let outs = match (o.entries)(v, prefix, spare) {
        None => {
            t.count("values that could not be built", 1);
            return Ok(());
        }
        Some(Err(p)) => return Err(format!("panic: {p}")),
        Some(Ok(o)) => o,
    };
    let alone = outs[0].2.clone();
    for (name, appends, got) in outs {
        t.traces += 1;
        let mut want = if appends { prefix.to_vec() } else { vec![] };
        match name {
            "SszEncoder[T]" => {
                if s.fixed().is_none() {
                    want.extend([4, 0, 0, 0]);
                }
                want.extend(&alone);
            }
            "SszEncoder[u16,T,u16,T]" => {
                let y = [1, 2];
                if s.fixed().is_none() {
                    want.extend(y);
                    want.extend(12u32.to_le_bytes());
                    want.extend(y);
                    want.extend((12 + alone.len() as u32).to_le_bytes());
                    want.extend(&alone);
                    want.extend(&alone);
                } else {
                    for _ in 0..2 {
                        want.extend(y);
                        want.extend(&alone);
                    }
                }
            }
            _ => want.extend(&alone),
        }
        if got != want {
            return Err(format!("{name} gives {}, expected {}", short(&got), short(&want)));
        }
    }
    Ok(())
}

// --- C17 / C19 ---------------------------------------------------------------------------------

/// Everything about one type against the model: wire, sizes, round trip, strict decoding.
pub fn full(r: Registry, pick: impl Fn(&Schema) -> bool, lists: bool) -> Vec<Unit> {
    r.iter()
        .filter(|o| pick(&(o.schema)()))
        .map(|o| unit(o, move |t, s| full_check(t, o, s, lists)))
        .collect()
}

pub fn full_check(t: &mut Task, o: &'static Ops, s: &Schema, lists: bool) {
    let meta = !s.has_fixed_tenum();
    let enc = encodable(s);
    if meta {
        t.states += 1;
        t.transitions += 1;
        t.case(|| "metadata".into(), |_| check_meta(o, s));
    }
    if enc {
        value_cases(t, s, |t, v| {
            check_wire(t, o, s, v)?;
            if meta {
                check_size(t, o, s, v)?;
            }
            if !s.has_zero_items() && !s.has_tenum() {
                check_rt(t, o, v)?;
            }
            Ok(())
        });
    }
    let b = bounds(s, t.tier);
    let check = |t: &mut Task, x: &[u8]| {
        check_decode(t, o, s, x, true)?;
        if let (Ok(w), true) = (de(s, x), enc) {
            check_fixed_point(o, s, x, &w)?;
        }
        Ok(())
    };
    bytes_cases(t, s, &b, check);
    big_bytes(t, s, (o.heap)().0, check);
    if lists {
        // Entry lists in every order and with duplicates.
        entry_lists(t, s, &check);
    }
}

/// Re-encoding what was decoded gives the encoding of the value, which decodes to the same value.
fn check_fixed_point(o: &Ops, s: &Schema, x: &[u8], w: &Val) -> Result<(), String> {
    match (o.dec_enc)(x) {
        Ok(Some(y)) => {
            let want = ser(s, w);
            if y != want {
                return Err(format!("decodes and encodes to {}, expected {}", short(&y), short(&want)));
            }
            match (o.dec_enc)(&y) {
                Ok(Some(z)) if z == y => Ok(()),
                Ok(Some(z)) => Err(format!("re-encoding {} gives {}", short(&y), short(&z))),
                Ok(None) => Err(format!("its re-encoding {} is rejected", short(&y))),
                Err(p) => Err(format!("re-encoding panics: {p}")),
            }
        }
        Ok(None) => Err("valid, but rejected".into()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn entry_schema(s: &Schema) -> Option<Schema> {
    match s {
        Schema::Map(k, v) => Some(Schema::Cont(vec![(**k).clone(), (**v).clone()])),
        Schema::Set(k) => Some((**k).clone()),
        _ => None,
    }
}

fn entry_lists(t: &mut Task, s: &Schema, check: &impl Fn(&mut Task, &[u8]) -> Result<(), String>) {
    let Some(e) = entry_schema(s) else { return };
    if e.fixed() == Some(0) {
        return;
    }
    let list = Schema::List(Box::new(e.clone()));
    // Alphabet: three keys, two values.
    let mut vals = Values::default();
    let (k, v) = match s {
        Schema::Map(k, v) => ((**k).clone(), Some((**v).clone())),
        Schema::Set(k) => ((**k).clone(), None),
        _ => unreachable!(),
    };
    let mut keys: Vec<Val> = vals.upto(&k, 2, 50).0;
    keys.sort();
    let keys = if keys.len() > 4 {
        vec![keys[0].clone(), keys[1].clone(), keys[keys.len() / 2].clone(), keys[keys.len() - 1].clone()]
    } else {
        keys
    };
    let mut alphabet: Vec<Val> = vec![];
    for k in keys {
        match &v {
            None => alphabet.push(k),
            Some(v) => {
                let mut vs = vals.upto(v, 2, 20).0;
                vs.dedup();
                vs.truncate(2);
                for x in vs {
                    alphabet.push(Val::C(vec![k.clone(), x]));
                }
            }
        }
    }
    let depth = if t.thorough() { 5 } else { 4 };
    let mut idx = vec![];
    fn rec(
        t: &mut Task,
        list: &Schema,
        alphabet: &[Val],
        idx: &mut Vec<usize>,
        depth: usize,
        check: &impl Fn(&mut Task, &[u8]) -> Result<(), String>,
    ) {
        let v = Val::L(idx.iter().map(|i| alphabet[*i].clone()).collect());
        let x = ser(list, &v);
        t.states += 1;
        t.transitions += 1;
        t.count("entry lists", 1);
        t.case(|| hex(&x), |t| check(t, &x));
        if depth == 0 || t.stopped() {
            return;
        }
        for i in 0..alphabet.len() {
            idx.push(i);
            rec(t, list, alphabet, idx, depth - 1, check);
            idx.pop();
        }
    }
    rec(t, &list, &alphabet, &mut idx, depth, check);
    // Longer lists: ascending, descending, rotated, every entry twice with another value.
    for n in [6usize, 11, 12, 13, 64, 150] {
        let Some(asc) = ascending(&k, n) else { continue };
        let (v0, v1) = match &v {
            None => (None, None),
            Some(v) => {
                let p = vals.upto(v, 2, 20).0;
                (Some(p[0].clone()), Some(p[p.len() - 1].clone()))
            }
        };
        let entry = |k: &Val, v: &Option<Val>| match v {
            None => k.clone(),
            Some(v) => Val::C(vec![k.clone(), v.clone()]),
        };
        let a: Vec<Val> = asc.iter().map(|k| entry(k, &v0)).collect();
        let b: Vec<Val> = asc.iter().map(|k| entry(k, &v1)).collect();
        let mut rev = a.clone();
        rev.reverse();
        let mut rot = a.clone();
        rot.rotate_left(n / 3);
        let mut twice = a.clone();
        twice.extend(b.clone());
        let mut woven = vec![];
        for (x, y) in a.iter().zip(&b) {
            woven.push(y.clone());
            woven.push(x.clone());
        }
        for l in [a, rev, rot, twice, woven] {
            let x = ser(&list, &Val::L(l));
            t.states += 1;
            t.transitions += 1;
            t.count("entry lists", 1);
            t.case(|| short(&x), |t| check(t, &x));
        }
    }
}

// --- C08 ---------------------------------------------------------------------------------------

/// Bounds for one of many definitions.
pub fn bounds_of(s: &Schema, thorough: bool) -> ByteBounds {
    ByteBounds {
        tables: if thorough {
            crate::space::tables_sized(s, 300, 0, 30_000, 60_000)
        } else {
            crate::space::tables_sized(s, 300, 0, 8_000, 12_000)
        },
        seed_weight: 3,
        seed_cap: if thorough { 100 } else { 40 },
        seed_max_len: 80,
        pair_max_len: 24,
        pair_seeds: if thorough { 2 } else { 1 },
        full_bytes: false,
    }
}

fn small_values(s: &Schema, t: &Task) -> Vec<Val> {
    let (mut vals, _) = Values::default().upto(s, 6, if t.thorough() { 6_000 } else { 2_500 });
    let mut big = big_values(s, &[8, 64, 257], &[5, 64]);
    big.retain(|v| crate::model::ser_len(s, v) <= 100_000);
    big.truncate(40);
    vals.extend(big);
    vals
}

pub fn c08_encode(t: &mut Task, o: &'static Ops, s: &Schema) {
    t.states += 1;
    t.transitions += 1;
    t.case(|| "metadata".into(), |_| check_meta(o, s));
    for v in small_values(s, t) {
        t.states += 1;
        t.transitions += 1;
        t.case(
            || show(&v),
            |t| {
                check_wire(t, o, s, &v)?;
                check_size(t, o, s, &v)
            },
        );
    }
}

pub fn c08_decode(t: &mut Task, o: &'static Ops, s: &Schema, b: &ByteBounds) {
    t.states += 1;
    t.transitions += 1;
    t.case(|| "metadata".into(), |_| check_meta(o, s));
    bytes_cases(t, s, b, |t, x| check_decode(t, o, s, x, true));
    for v in small_values(s, t) {
        t.states += 1;
        t.transitions += 1;
        let x = ser(s, &v);
        t.case(|| short(&x), |t| check_decode(t, o, s, &x, true));
    }
}

pub fn c08_both(t: &mut Task, o: &'static Ops, s: &Schema, b: &ByteBounds) {
    if s.has_fixed_tenum() {
        // Such an enum has no encoder (it panics by design): the decoder only.
        bytes_cases(t, s, b, |t, x| check_decode(t, o, s, x, true));
        return;
    }
    t.states += 1;
    t.transitions += 1;
    t.case(|| "metadata".into(), |_| check_meta(o, s));
    for v in small_values(s, t) {
        t.states += 1;
        t.transitions += 1;
        t.case(
            || show(&v),
            |t| {
                check_wire(t, o, s, &v)?;
                check_size(t, o, s, &v)?;
                check_decode(t, o, s, &ser(s, &v), true)
            },
        );
    }
    bytes_cases(t, s, b, |t, x| check_decode(t, o, s, x, true));
}
