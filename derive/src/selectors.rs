//! C15: every selector byte against every variant count, and the selector helpers.

use mc::codec::{check_decode, check_wire, short, show};
use mc::engine::{guard, hex, Task, Unit};
use mc::model::{ser, Schema};
use mc::ops::Ops;
use mc::space::{big_values, Values};
use ssz::{split_union_bytes, UnionSelector};

fn variants(s: &Schema) -> &[Option<Schema>] {
    match s {
        Schema::Union(v) => v,
        _ => panic!("not a union: {s:?}"),
    }
}

pub fn units(r: Vec<&'static Ops>) -> Vec<Unit> {
    let mut units: Vec<Unit> = vec![helpers(), split()];
    for o in r {
        units.push(Unit::new(o.name, move |t| one(t, o, &(o.schema)())));
    }
    units
}

/// One union type: all values' first bytes, all selectors with all bodies.
fn one(t: &mut Task, o: &'static Ops, s: &Schema) {
    let vars = variants(s);
    let mut pool = Values::default();
    // Encoding: the selector is the declaration index, the rest is the payload's encoding.
    let mut bodies: Vec<Vec<u8>> = vec![];
    let per = if t.thorough() { 60 } else { 20 };
    for v in (0..vars.len()).flat_map(|i| {
        let vals = match &vars[i] {
            None => vec![mc::model::Val::U(i as u8, None)],
            Some(p) => {
                let mut vs = pool.upto(p, 4, per).0;
                vs.extend(big_values(p, &[3, 64], &[5]).into_iter().take(3));
                vs.into_iter().map(|v| mc::model::Val::U(i as u8, Some(Box::new(v)))).collect()
            }
        };
        vals
    }) {
        let want = ser(s, &v);
        if !bodies.contains(&want[1..].to_vec()) && bodies.len() < 400 {
            bodies.push(want[1..].to_vec());
        }
        t.states += 1;
        t.transitions += 1;
        t.case(
            || show(&v),
            |t| {
                check_wire(t, o, s, &v)?;
                check_decode(t, o, s, &want, true)
            },
        );
    }
    // Decoding.
    t.states += 1;
    t.transitions += 1;
    t.case(|| hex(&[]), |t| check_decode(t, o, s, &[], true));
    for b in bodies.clone() {
        for k in 0..b.len().min(6) {
            bodies.push(b[..k].to_vec());
        }
        for x in [0u8, 1, 0xff] {
            let mut c = b.clone();
            c.push(x);
            bodies.push(c);
        }
    }
    for x in 0..=255u8 {
        bodies.push(vec![x]);
    }
    let two = if t.thorough() || vars.len() < 6 || vars.len() > 126 { 0..=255u8 } else { 0..=3 };
    for x in two.clone() {
        for y in two.clone() {
            bodies.push(vec![x, y]);
        }
    }
    bodies.sort();
    bodies.dedup();
    for sel in 0..=255u8 {
        for b in &bodies {
            let mut x = Vec::with_capacity(b.len() + 1);
            x.push(sel);
            x.extend_from_slice(b);
            t.states += 1;
            t.transitions += 1;
            t.case(|| short(&x), |t| check_decode(t, o, s, &x, true));
        }
    }
    t.count("unions crossed with all 256 selectors", 1);
}

fn helpers() -> Unit {
    Unit::new("UnionSelector::new", |t| {
        for sel in 0..=255u8 {
            t.states += 1;
            t.transitions += 1;
            t.case(
                || format!("{sel}"),
                |t| {
                    t.traces += 1;
                    match (guard(|| UnionSelector::new(sel))?, sel < 128) {
                        (Ok(s), true) => {
                            let byte: u8 = s.into();
                            if byte != sel {
                                return Err(format!("selector {sel} converts to {byte}"));
                            }
                            for other in 0..=255u8 {
                                if (s == other) != (sel == other) {
                                    return Err(format!("selector {sel} == {other} gives {}", s == other));
                                }
                            }
                            Ok(())
                        }
                        (Err(_), false) => Ok(()),
                        (Ok(_), false) => Err("above 127, but accepted".into()),
                        (Err(e), true) => Err(format!("at most 127, but rejected: {e:?}")),
                    }
                },
            );
        }
    })
}

/// The splitting helper: the first byte, and the very rest of the slice.
fn split() -> Unit {
    Unit::new("split_union_bytes", |t| {
        let go = |t: &mut Task, x: &[u8]| {
            t.states += 1;
            t.transitions += 1;
            t.case(
                || short(x),
                |t| {
                    t.traces += 1;
                    match (guard(|| split_union_bytes(x))?, x.first()) {
                        (Err(_), None) => Ok(()),
                        (Ok(_), None) => Err("accepts empty input".into()),
                        (Ok((s, body)), Some(&f)) if f < 128 => {
                            let byte: u8 = s.into();
                            if byte != f {
                                Err(format!("first byte {f} gives selector {byte}"))
                            } else if body.as_ptr() != x[1..].as_ptr() || body.len() != x.len() - 1 {
                                Err(format!("the body is {}", short(body)))
                            } else {
                                Ok(())
                            }
                        }
                        (Err(e), Some(&f)) if f < 128 => Err(format!("selector {f} rejected: {e:?}")),
                        (Ok(_), Some(&f)) => Err(format!("selector {f} accepted")),
                        (Err(_), Some(_)) => Ok(()),
                    }
                },
            );
        };
        go(t, &[]);
        for a in 0..=255u8 {
            go(t, &[a]);
            for b in 0..=255u8 {
                go(t, &[a, b]);
                for c in [0u8, 1, 2, 127, 128, 255] {
                    go(t, &[a, b, c]);
                }
                if t.thorough() {
                    for c in 0..=255u8 {
                        go(t, &[a, b, c, 7]);
                    }
                }
            }
            for n in [5usize, 8, 9, 127, 128, 129, 255, 256, 257, 4096, 65_536] {
                let mut x: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
                x[0] = a;
                go(t, &x);
            }
        }
    })
}
