//! C18. The serde form.

use crate::c13::{around, around_big};
use crate::field::*;
use mc::engine::{guard, hex, Task, Unit};
use serde::ser::{self, Impossible, Serializer};
use ssz::*;
use std::fmt::{self, Display};

/// A serializer that takes only strings, of a format that is not human readable.
pub struct OnlyStr;
#[derive(Debug)]
pub struct NoStr(String);
impl Display for NoStr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for NoStr {}
impl ser::Error for NoStr {
    fn custom<T: Display>(m: T) -> Self {
        NoStr(m.to_string())
    }
}
macro_rules! refuse {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
        $( fn $f(self $(, _: $t)*) -> Result<$r, NoStr> { Err(NoStr(stringify!($f).into())) } )*
    };
}
type Imp = Impossible<String, NoStr>;
impl Serializer for OnlyStr {
    type Ok = String;
    type Error = NoStr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn serialize_str(self, s: &str) -> Result<String, NoStr> {
        Ok(s.to_string())
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    refuse! {
        serialize_bool(bool) -> String;
        serialize_i8(i8) -> String;
        serialize_i16(i16) -> String;
        serialize_i32(i32) -> String;
        serialize_i64(i64) -> String;
        serialize_u8(u8) -> String;
        serialize_u16(u16) -> String;
        serialize_u32(u32) -> String;
        serialize_u64(u64) -> String;
        serialize_f32(f32) -> String;
        serialize_f64(f64) -> String;
        serialize_char(char) -> String;
        serialize_bytes(&[u8]) -> String;
        serialize_none() -> String;
        serialize_unit() -> String;
        serialize_unit_struct(&'static str) -> String;
        serialize_unit_variant(&'static str, u32, &'static str) -> String;
        serialize_seq(Option<usize>) -> Imp;
        serialize_tuple(usize) -> Imp;
        serialize_tuple_struct(&'static str, usize) -> Imp;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp;
        serialize_map(Option<usize>) -> Imp;
        serialize_struct(&'static str, usize) -> Imp;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp;
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, NoStr> {
        Err(NoStr("serialize_some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<String, NoStr> {
        Err(NoStr("serialize_newtype_struct".into()))
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, NoStr> {
        Err(NoStr("serialize_newtype_variant".into()))
    }
}

/// The bytes a string stands for.
fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'0' || b[1] != b'x' || b.len() % 2 != 0 {
        return None;
    }
    let digit = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    let mut out = vec![];
    for p in b[2..].chunks(2) {
        out.push(digit(p[0])? * 16 + digit(p[1])?);
    }
    Some(out)
}

fn escaped(s: &str) -> String {
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        o.push_str(&format!("\\u{u:04x}"));
    }
    o.push('"');
    o
}

/// One string, offered in every way.
fn judge(f: Ty, s: &str, full: bool) -> Result<u64, String> {
    let exp = unhex(s).and_then(|b| meaning(f.kind(), &b));
    let mut n = 0;
    let mut one = |how: &str, r: Result<Result<Bx, String>, String>| -> Result<(), String> {
        n += 1;
        let r = r.map_err(|e| format!("{how} of {} panics: {e}", cut(s)))?;
        match (r, &exp) {
            (Ok(x), None) => Err(format!("{how} of {} gives {}", cut(s), show(&x.iter_()))),
            (Err(e), Some(m)) => Err(format!("{how} of {} fails ({e}), expected {}", cut(s), show(m))),
            (Err(_), None) => Ok(()),
            (Ok(x), Some(m)) => valid(&x, m).map_err(|e| format!("{how} of {}: {e}", cut(s))),
        }
    };
    one("deserialization", guard(|| f.de_str(s)))?;
    if !full {
        return Ok(n);
    }
    one("deserialization (owned)", guard(|| f.de_string(s)))?;
    one("deserialization (borrowed)", guard(|| f.de_borrowed(s)))?;
    let q = serde_json::to_string(s).unwrap();
    one("from_str", guard(|| f.json_str(&q)))?;
    one("from_slice", guard(|| f.json_slice(q.as_bytes())))?;
    one("from_reader", guard(|| f.json_reader(q.as_bytes())))?;
    let q = escaped(s);
    one("from_str (escaped)", guard(|| f.json_str(&q)))?;
    one("from_value", guard(|| f.json_value(serde_json::Value::String(s.to_string()))))?;
    Ok(n)
}

fn cut(s: &str) -> String {
    if s.chars().count() < 120 {
        return format!("{s:?}");
    }
    let c: Vec<char> = s.chars().collect();
    format!("{} characters {:?}..{:?}", c.len(), c[..20].iter().collect::<String>(), c[c.len() - 20..].iter().collect::<String>())
}

/// One value: its serde form, and back.
fn value(f: Ty, m: &[bool]) -> Result<u64, String> {
    let enc = encoding(f.kind(), m);
    let exp = hex(&enc);
    let x = f.of(m);
    let s = guard(|| x.0.json()).map_err(|e| format!("serializing panics: {e}"))?.map_err(|e| format!("serializing fails: {e}"))?;
    if s != format!("\"{exp}\"") {
        return Err(format!("serializes as {s}, expected {exp}"));
    }
    let v = x.0.json_value()?;
    if v != serde_json::Value::String(exp.clone()) {
        return Err(format!("serializes to the value {v}, expected {exp}"));
    }
    match x.0.only_str() {
        Ok(s) if s == exp => (),
        r => return Err(format!("a serializer of strings gets {r:?}, expected {exp}")),
    }
    let back = f.json_str(&s).map_err(|e| format!("{s} does not deserialize: {e}"))?;
    equal(&back, &x, "the value deserialized")?;
    // And what SSZ says of it.
    if mc::engine::hex(&x.as_ssz_bytes()) != exp {
        return Err(format!("SSZ encoding is {}, serde form is {exp}", hex(&x.as_ssz_bytes())));
    }
    Ok(4)
}

fn nested(f: Ty, t: &mut Task, some: &[Vec<bool>]) {
    for w in [some.len(), 2, 1] {
        for c in some.chunks(w.max(1)) {
            if w == some.len() && w > 200 {
                continue;
            }
            t.states += 1;
            t.case(
                || format!("{} values inside other types, the first {}", c.len(), show(&c[0])),
                |t| {
                    let xs: Vec<Bx> = c.iter().map(|m| f.of(m)).collect();
                    let h: Vec<String> = c.iter().map(|m| hex(&encoding(f.kind(), m))).collect();
                    t.transitions += f.nested(&xs, &h)?;
                    t.traces += 1;
                    Ok(())
                },
            );
        }
    }
}

/// Lengths beyond 2^16.
fn vast(f: Ty, units: &mut Vec<Unit>) {
    units.push(Unit::new(format!("{}: vast", f.kind().name()), move |t: &mut Task| {
        let n = match f.kind() {
            Kind::List(n) | Kind::Vect(n) => n,
            Kind::Dyn => 1 << 19,
        };
        let mut some = vec![];
        for l in few_lengths(f.kind()) {
            for m in few(l).into_iter().take(if n < 200_000 { 9 } else { 2 }) {
                t.states += 1;
                t.case(
                    || show(&m),
                    |t| {
                        t.transitions += value(f, &m)?;
                        t.traces += 1;
                        Ok(())
                    },
                );
                if some.len() < 6 && l > 60_000 {
                    some.push(m);
                }
            }
        }
        nested(f, t, &some);
        for b in around_big(n) {
            let h = hex(&b);
            let up = format!("0x{}", h[2..].to_uppercase());
            for s in [&h[..], &up, &h[2..], &h[..h.len() - 1], &format!("{h}g0"), &format!("{h} "), &h.replacen("ff", "fg", 1)] {
                t.states += 1;
                t.case(
                    || cut(s),
                    |t| {
                        t.transitions += judge(f, s, n < 200_000)?;
                        t.traces += 1;
                        Ok(())
                    },
                );
            }
        }
    }));
}

fn strings(alphabet: &[char], len: usize, f: &mut dyn FnMut(&str)) {
    fn go(a: &[char], left: usize, s: &mut String, f: &mut dyn FnMut(&str)) {
        if left == 0 {
            f(s);
            return;
        }
        for c in a {
            s.push(*c);
            go(a, left - 1, s, f);
            s.pop();
        }
    }
    go(alphabet, len, &mut String::new(), f)
}

fn one(f: Ty, units: &mut Vec<Unit>, n: usize, thorough: bool) {
    let name = f.kind().name();
    // Values.
    units.push(Unit::new(format!("{name}: values"), move |t: &mut Task| {
        let small = if thorough { 13 } else { 9 };
        let mut vals: Vec<Vec<bool>> = f.kind().lengths(n.min(small)).into_iter().flat_map(all_bits).collect();
        let mut lens = vec![n, n.saturating_sub(1), n / 2, n + 8];
        lens.retain(|l| *l > small && f.kind().allows(*l));
        for l in lens {
            vals.extend(patterns(l, if thorough { 140 } else { 24 }));
        }
        // Every length.
        for l in f.kind().lengths(n.min(if thorough { 2100 } else { 600 })) {
            if l > small {
                vals.extend(patterns(l, 0).into_iter().take(4));
            }
        }
        for m in vals {
            t.states += 1;
            t.case(
                || show(&m),
                |t| {
                    t.transitions += value(f, &m)?;
                    t.traces += 1;
                    Ok(())
                },
            );
        }
        // Inside lists, options, tuples and maps.
        let mut lens = f.kind().lengths(n.min(9));
        lens.extend([n, n / 2, n.saturating_sub(1)]);
        lens.retain(|l| f.kind().allows(*l));
        lens.sort();
        lens.dedup();
        let some: Vec<Vec<bool>> = lens.iter().flat_map(|l| patterns(*l, 0).into_iter().take(7)).collect();
        nested(f, t, &some);
    }));
    // All short strings over an alphabet, with and without the prefix, and all hex of short bytes.
    let menu = n <= 9 || [15, 16, 17, 24].contains(&n);
    if menu {
        units.push(Unit::new(format!("{name}: all short strings"), move |t: &mut Task| {
            let a: Vec<char> = "0x1aFgX \u{e9}".chars().collect();
            let run = |t: &mut Task, s: &str, full: bool| {
                t.states += 1;
                t.case(
                    || format!("{s:?}"),
                    |t| {
                        t.transitions += judge(f, s, full)?;
                        t.traces += 1;
                        Ok(())
                    },
                );
            };
            for l in 0..=if thorough { 6 } else { 4 } {
                strings(&a, l, &mut |s| run(t, s, l <= 4));
            }
            let b: Vec<char> = "0123456789abcdefABCDEFgxG".chars().collect();
            for l in 0..=if thorough { 4 } else { 3 } {
                strings(&b, l, &mut |s| run(t, &format!("0x{s}"), l <= 2));
            }
            let c: Vec<char> = "018fFx ".chars().collect();
            for l in 4..=if thorough { 7 } else { 5 } {
                strings(&c, l, &mut |s| run(t, &format!("0x{s}"), false));
            }
        }));
        units.push(Unit::new(format!("{name}: hex of all short byte strings"), move |t: &mut Task| {
            for x in 0..256usize {
                let firsts: Vec<Vec<u8>> = if x == 0 { vec![vec![]] } else { vec![] };
                for b in firsts.into_iter().chain((0..257usize).map(|y| if y == 256 { vec![x as u8] } else { vec![x as u8, y as u8] })) {
                    let h = hex(&b);
                    t.states += 2;
                    t.case(
                        || h.clone(),
                        |t| {
                            t.transitions += judge(f, &h, b.len() < 2)?;
                            t.transitions += judge(f, &format!("0x{}", h[2..].to_uppercase()), false)?;
                            t.traces += 1;
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    // Longer ones, well formed and not.
    units.push(Unit::new(format!("{name}: longer strings"), move |t: &mut Task| {
        let mut all = around(n, false);
        all.retain(|b| b.len() < 700);
        if !thorough {
            all = all.into_iter().step_by(3).collect();
        }
        for b in all {
            let h = hex(&b);
            let body = h[2..].to_string();
            let mixed: String = body.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            let mut forms = vec![h.clone(), format!("0x{}", body.to_uppercase()), format!("0x{mixed}"), body.clone(), format!("0X{body}"), format!("{h}0"), format!("0x0{body}"), format!(" {h}"), format!("{h} "), format!("{h}\n"), format!("0x{h}"), format!("{h}0x"), format!("x{body}"), format!("0{body}"), format!("0x{body}\u{0}"), format!("0x{body}g0"), format!("0x-{body}"), format!("0x+{body}"), format!("0x_{body}"), format!("0x{}", body.replace('0', "o"))];
            if !body.is_empty() {
                forms.push(format!("0x{}", &body[1..]));
                forms.push(format!("0x{}", &body[..body.len() - 1]));
            }
            forms.dedup();
            for s in forms {
                t.states += 1;
                t.case(
                    || cut(&s),
                    |t| {
                        t.transitions += judge(f, &s, true)?;
                        t.traces += 1;
                        Ok(())
                    },
                );
            }
        }
    }));
}

pub fn units(thorough: bool) -> Vec<Unit> {
    use crate::caps::*;
    let mut u = vec![];
    macro_rules! cap {
        ($n:expr, $t:ty) => {
            if $n <= 18 || thorough && $n < 4000 || [24, 31, 32, 33, 64, 65, 128, 255, 256, 1016, 1024, 1025].contains(&$n) {
                one(Ty::new::<BitList<$t>>(), &mut u, $n, thorough);
                one(Ty::new::<BitVector<$t>>(), &mut u, $n, thorough);
            }
        };
    }
    crate::caps!(cap);
    macro_rules! big {
        ($n:expr, $t:ty) => {
            if $n < 1 << 22 {
                vast(Ty::new::<BitList<$t>>(), &mut u);
                vast(Ty::new::<BitVector<$t>>(), &mut u);
            }
        };
    }
    crate::caps_big!(big);
    vast(Ty::new::<BitVectorDynamic>(), &mut u);
    one(Ty::new::<BitVectorDynamic>(), &mut u, 16, thorough);
    one(Ty::new::<BitVectorDynamic>(), &mut u, 1024, thorough);
    u
}
