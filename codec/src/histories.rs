//! Call histories of the public encoder and decoder, and the byte-parsing helpers, for C05 and C10.

use mc::engine::{guard, hex, Task, Unit};
use mc::space::{big_words, odometer, Table};
use smallvec::SmallVec;
use ssz::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn units(prop: &str) -> Vec<Unit> {
    match prop {
        "C05" => {
            let mut u = vec![
                Unit::new("read_offset", read_offsets),
                Unit::new("split_union_bytes", split_unions),
                Unit::new("UnionSelector::new", |t| {
                    for b in 0..=255u8 {
                        quiet(t, || format!("{b}"), move || drop(UnionSelector::new(b)));
                    }
                }),
                Unit::new("four-byte selector", |t| {
                    strings(t, 6, 2, &|b| {
                        let _ = legacy::read_four_byte_union_selector(b);
                    })
                }),
            ];
            u.extend(list_units());
            u.extend(bitfield_units());
            u.extend(builder_units());
            u.extend(recursion_units());
            u
        }
        "C10" => {
            let mut u = encoder_units();
            u.extend(crate::interleave::units());
            u.extend(far_units());
            u
        }
        "C03" => far_units(),
        "C06" => huge_capacity_units(),
        _ => vec![],
    }
}

/// A case that must not panic.
fn quiet(t: &mut Task, data: impl Fn() -> String, f: impl FnOnce()) {
    t.states += 1;
    t.transitions += 1;
    t.case(data, |t| {
        t.traces += 1;
        guard(f).map_err(|p| format!("panics: {p}"))
    });
}

/// All strings up to `full` bytes over every byte, and up to `max` bytes over a small alphabet.
fn strings(t: &mut Task, max: usize, full: usize, f: &dyn Fn(&[u8])) {
    let a = Table { alphabet: (0..=255).collect(), max_len: full };
    odometer(&a, |b| {
        let b = b.to_vec();
        let c = b.clone();
        quiet(t, move || hex(&b), move || f(&c));
    });
    let a = Table { alphabet: vec![0, 1, 4, 8, 0x7f, 0x80, 0xff], max_len: max };
    odometer(&a, |b| {
        if b.len() > full {
            let b = b.to_vec();
            let c = b.clone();
            quiet(t, move || hex(&b), move || f(&c));
        }
    });
}

fn read_offsets(t: &mut Task) {
    strings(t, 6, 2, &|b| {
        let _ = read_offset(b);
        for i in 0..=b.len() {
            let _ = read_offset(&b[i..]);
        }
    });
}

fn split_unions(t: &mut Task) {
    strings(t, 5, 2, &|b| {
        let _ = split_union_bytes(b).map(|(s, body)| {
            let x: u8 = s.into();
            (x, body.len())
        });
    });
}

const LIMITS: [Option<usize>; 9] = [
    None,
    Some(0),
    Some(1),
    Some(2),
    Some(3),
    Some(4),
    Some(1 << 32),
    Some(usize::MAX - 1),
    Some(usize::MAX),
];

fn list_unit<T: Decode + 'static, C: TryFromIter<T> + 'static>(name: &str) -> Unit {
    Unit::new(format!("decode_list_of_variable_length_items into {name}"), move |t| {
        let depth = if t.thorough() { 9 } else { 7 };
        let f = |b: &[u8]| {
            for l in LIMITS {
                let _ = decode_list_of_variable_length_items::<T, C>(b, l);
            }
        };
        strings(t, depth - 1, 2, &f);
        let a = Table { alphabet: vec![0, 1, 4, 5, 8], max_len: depth + 1 };
        odometer(&a, |b| {
            let b = b.to_vec();
            let c = b.clone();
            quiet(t, move || hex(&b), move || f(&c));
        });
        // Every first offset word, over lengths up to 40.
        for n in 4..=40usize {
            for w in (0..=n as u32 + 5).chain(big_words()) {
                for second in [0u32, 4, w, w.wrapping_add(1), n as u32, n as u32 + 1, u32::MAX] {
                    let mut b = vec![0u8; n];
                    b[..4].copy_from_slice(&w.to_le_bytes());
                    if n >= 8 {
                        b[4..8].copy_from_slice(&second.to_le_bytes());
                    }
                    let c = b.clone();
                    quiet(t, move || hex(&b), move || f(&c));
                }
            }
        }
    })
}

fn list_units() -> Vec<Unit> {
    vec![
        list_unit::<u8, Vec<u8>>("Vec<u8>"),
        list_unit::<Vec<u8>, Vec<Vec<u8>>>("Vec<Vec<u8>>"),
        list_unit::<Vec<Vec<u16>>, Vec<Vec<Vec<u16>>>>("Vec<Vec<Vec<u16>>>"),
        list_unit::<[u8; 0], Vec<[u8; 0]>>("Vec<[u8; 0]>"),
        list_unit::<Option<u8>, SmallVec<[Option<u8>; 1]>>("SmallVec<[Option<u8>; 1]>"),
        list_unit::<Vec<u8>, SmallVec<[Vec<u8>; 4]>>("SmallVec<[Vec<u8>; 4]>"),
        list_unit::<Vec<u8>, BTreeSet<Vec<u8>>>("BTreeSet<Vec<u8>>"),
        list_unit::<(u8, Vec<u8>), BTreeMap<u8, Vec<u8>>>("BTreeMap<u8, Vec<u8>>"),
        list_unit::<(Vec<u8>, u8), BTreeMap<Vec<u8>, u8>>("BTreeMap<Vec<u8>, u8>"),
    ]
}

fn bitfield_units() -> Vec<Unit> {
    use mctypes::*;
    fn strings_of(t: &mut Task, f: &dyn Fn(&[u8])) {
        strings(t, if t.thorough() { 7 } else { 5 }, 2, f);
        for n in [8usize, 31, 32, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 1024, 1025] {
            for fill in [0u8, 1, 0x80, 0xff] {
                for last in [0u8, 1, 2, 0x80, 0xff] {
                    let mut b = vec![fill; n];
                    b[n - 1] = last;
                    let c = b.clone();
                    quiet(t, move || mc::codec::short(&b), move || f(&c));
                }
            }
        }
    }
    macro_rules! fixed {
        ($($n:ident),*) => {{
            let mut out = vec![];
            $(
                out.push(Unit::new(concat!("BitList<", stringify!($n), ">::from_bytes"), |t| {
                    strings_of(t, &|b| {
                        let _ = BitList::<$n>::from_bytes(SmallVec::from_slice(b)).map(|x| x.into_bytes());
                    })
                }));
                out.push(Unit::new(concat!("BitVector<", stringify!($n), ">::from_bytes"), |t| {
                    strings_of(t, &|b| {
                        let _ = BitVector::<$n>::from_bytes(SmallVec::from_slice(b)).map(|x| x.into_bytes());
                    })
                }));
            )*
            out
        }};
    }
    let mut out: Vec<Unit> = fixed!(N0, N1, N7, N8, N9, N16, N17, N256, N1024, N1025, N2048);
    out.push(Unit::new("BitVectorDynamic::from_bytes_with_len", |t| {
        strings_of(t, &|b| {
            let n = b.len();
            for len in [0, 1, 7, 8, 9, 16, n * 8, n * 8 + 1, n * 8 + 8, (n * 8).wrapping_sub(1), usize::MAX, usize::MAX - 6, usize::MAX - 7, 1 << 63] {
                let _ = BitVectorDynamic::from_bytes_with_len(SmallVec::from_slice(b), len).map(|x| x.into_bytes());
            }
        })
    }));
    out
}

/// Bitfields whose capacity takes megabytes: short inputs must not make them allocate that.
fn huge_capacity_units() -> Vec<Unit> {
    use typenum::{Sum, U1048576, U16777216, U9};
    fn of<T: Decode + 'static>(name: &str) -> Unit {
        Unit::new(format!("heap of {name}"), |t| {
            let judge = |t: &mut Task, b: Vec<u8>| {
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || mc::codec::short(&b),
                    |t| {
                        t.traces += 1;
                        let (r, peak, _) = mc::alloc::measure(|| guard(|| T::from_ssz_bytes(&b).is_ok()));
                        r.map_err(|p| format!("panics: {p}"))?;
                        let limit = 64 * b.len() + 16_384;
                        if peak > limit {
                            return Err(format!("decoding {} bytes requests {peak} bytes of heap, more than {limit}", b.len()));
                        }
                        Ok(())
                    },
                );
            };
            odometer(&Table { alphabet: (0..=255).collect(), max_len: 2 }, |b| judge(t, b.to_vec()));
            odometer(&Table { alphabet: vec![0, 1, 4, 5, 8, 0x80, 0xff], max_len: 6 }, |b| judge(t, b.to_vec()));
            for n in [7usize, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 257, 1024, 4096, 65_536, 131_071, 131_072, 131_073, 2_097_153, 2_097_154] {
                for fill in [0u8, 1, 4, 0x80, 0xff] {
                    for last in [0u8, 1, 2, 0x80, 0xff] {
                        let mut b = vec![fill; n];
                        b[n - 1] = last;
                        judge(t, b);
                    }
                }
            }
        })
    }
    type Big = Sum<U16777216, U9>;
    vec![
        of::<BitList<U1048576>>("BitList<2^20>"),
        of::<BitVector<U1048576>>("BitVector<2^20>"),
        of::<BitList<Big>>("BitList<2^24+9>"),
        of::<BitVector<Big>>("BitVector<2^24+9>"),
        of::<BitVectorDynamic>("BitVectorDynamic"),
        of::<Vec<BitList<Big>>>("Vec<BitList<2^24+9>>"),
        of::<Option<BitVector<Big>>>("Option<BitVector<2^24+9>>"),
        of::<(BitList<Big>, BitVector<U1048576>)>("(BitList<2^24+9>, BitVector<2^20>)"),
        of::<Vec<(BitVector<U1048576>, BitList<U1048576>)>>("Vec<(BitVector<2^20>, BitList<2^20>)>"),
    ]
}

/// The decoder builder: every registration sequence over a small alphabet of fixed lengths
/// (including ones no input can satisfy) and variable items, stopping at the first error, and
/// decoding exactly the registered items.
fn builder_units() -> Vec<Unit> {
    const FIXED: [usize; 10] = [0, 1, 2, 3, 5, 1 << 31, 1 << 32, 1 << 63, usize::MAX - 3, usize::MAX];
    let mut out = vec![];
    for first in 0..=FIXED.len() {
        out.push(Unit::new(format!("builder, first item {}", name(&FIXED, first)), move |t| {
            let depth = if t.thorough() { 4 } else { 3 };
            let mut seqs = vec![vec![first]];
            for d in 1..depth {
                for s in seqs.clone() {
                    if s.len() == d {
                        for k in 0..=FIXED.len() {
                            let mut n = s.clone();
                            n.push(k);
                            seqs.push(n);
                        }
                    }
                }
            }
            let mut inputs: Vec<Vec<u8>> = vec![];
            odometer(&Table { alphabet: vec![0, 4, 8], max_len: 5 }, |b| inputs.push(b.to_vec()));
            for n in 6..=20usize {
                for w in [0u32, 1, 4, 5, 8, 9, 12, 13, 16, n as u32, n as u32 + 1, u32::MAX] {
                    for at in 0..4 {
                        let mut b = vec![0u8; n];
                        let mut p = at;
                        while p + 4 <= n {
                            b[p..p + 4].copy_from_slice(&w.to_le_bytes());
                            p += 4;
                        }
                        inputs.push(b);
                    }
                }
            }
            for s in &seqs {
                for b in &inputs {
                    quiet(
                        t,
                        || format!("{} over {}", s.iter().map(|k| name(&FIXED, *k)).collect::<Vec<_>>().join(", "), hex(b)),
                        || {
                            let mut bld = SszDecoderBuilder::new(b);
                            for (i, k) in s.iter().enumerate() {
                                let r = if *k == 0 {
                                    if i % 2 == 0 {
                                        bld.register_type::<Vec<u8>>()
                                    } else {
                                        bld.register_anonymous_variable_length_item()
                                    }
                                } else {
                                    bld.register_type_parameterized(true, FIXED[k - 1])
                                };
                                if r.is_err() {
                                    return;
                                }
                            }
                            if let Ok(mut d) = bld.build() {
                                for i in 0..s.len() {
                                    let r = if i % 2 == 0 {
                                        d.decode_next::<Vec<u8>>().is_ok()
                                    } else {
                                        d.decode_next_with(|b| u16::from_ssz_bytes(b)).is_ok()
                                    };
                                    if !r {
                                        return;
                                    }
                                }
                            }
                        },
                    );
                }
            }
        }));
    }
    out
}

fn name(fixed: &[usize], k: usize) -> String {
    if k == 0 {
        "variable".into()
    } else {
        format!("fixed({})", fixed[k - 1])
    }
}

// --- recursion: derived types that contain themselves -------------------------------------------

mod deep {
    pub use ssz_derive::{Decode, Encode};
    use std::sync::Arc;

    #[derive(Encode, Decode)]
    #[ssz(enum_behaviour = "union")]
    pub enum Node {
        End(u8),
        Next(Arc<Node>),
    }

    #[derive(Encode, Decode)]
    pub struct List {
        v: u8,
        next: Option<Arc<List>>,
    }

    #[derive(Encode, Decode)]
    pub struct Tree {
        children: Vec<Tree>,
    }
}

fn deep_bytes(kind: &str, depth: usize) -> Vec<u8> {
    match kind {
        "union" => {
            let mut b = vec![1u8; depth];
            b.extend([0, 0]);
            b
        }
        "option" => {
            // Level: u8, offset 5, selector.
            let mut b = vec![];
            for _ in 0..depth {
                b.extend([0, 5, 0, 0, 0, 1]);
            }
            b.extend([0, 5, 0, 0, 0, 0]);
            b
        }
        "list" => {
            // Level: offset 4 of the field, offset 4 of the only child.
            let mut b = vec![];
            for _ in 0..depth {
                b.extend([4, 0, 0, 0, 4, 0, 0, 0]);
            }
            b.extend([4, 0, 0, 0]);
            b
        }
        _ => unreachable!(),
    }
}

/// Runs in a child process of its own: a stack overflow cannot be caught.
pub fn child(spec: &str) -> ! {
    let (kind, depth) = spec.split_once(':').unwrap();
    let b = deep_bytes(kind, depth.parse().unwrap());
    let kind = kind.to_string();
    let ok = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            // The values are leaked: their destructors recurse as well, which is no decoding.
            match kind.as_str() {
                "union" => deep::Node::from_ssz_bytes(&b).map(std::mem::forget).is_ok(),
                "option" => deep::List::from_ssz_bytes(&b).map(std::mem::forget).is_ok(),
                _ => deep::Tree::from_ssz_bytes(&b).map(std::mem::forget).is_ok(),
            }
        })
        .unwrap()
        .join();
    std::process::exit(match ok {
        Ok(true) => 10,
        Ok(false) => 11,
        Err(_) => 12,
    })
}

fn recursion_units() -> Vec<Unit> {
    let mut out = vec![];
    for kind in ["union", "option", "list"] {
        out.push(Unit::new(format!("recursive type through {kind}"), move |t| {
            for depth in [0usize, 1, 2, 10, 100, 1_000, 10_000, 1_000_000] {
                if depth == 10_000 {
                    continue;
                }
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || format!("nesting depth {depth}"),
                    |t| {
                        t.traces += 1;
                        let me = std::env::current_exe().map_err(|e| e.to_string())?;
                        let st = std::process::Command::new(me)
                            .args(["--child", &format!("{kind}:{depth}")])
                            .stdout(std::process::Stdio::null())
                            .stderr(std::process::Stdio::null())
                            .status()
                            .map_err(|e| e.to_string())?;
                        match st.code() {
                            Some(10) => Ok(()),
                            Some(11) => Ok(()),
                            Some(12) => Err("decoding panics".into()),
                            _ => Err(format!("decoding kills the process ({st})")),
                        }
                    },
                );
            }
        }));
    }
    out
}

// --- C10: histories of the container encoder ----------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    U8,
    U64,
    Empty,
    Arr0,
    V0,
    V1,
    V300,
    VV,
    Opt,
    ParamFixed,
    ParamVar,
    RefVec,
    ArcVec,
    Tuple,
}

const OPS: [Op; 14] = [
    Op::U8,
    Op::V1,
    Op::U64,
    Op::V0,
    Op::VV,
    Op::Arr0,
    Op::Opt,
    Op::ParamFixed,
    Op::ParamVar,
    Op::RefVec,
    Op::ArcVec,
    Op::Tuple,
    Op::Empty,
    Op::V300,
];

impl Op {
    /// (fixed?, standalone bytes by the specification)
    pub fn spec(self) -> (bool, Vec<u8>) {
        match self {
            Op::U8 => (true, vec![0xa1]),
            Op::U64 => (true, vec![1, 2, 3, 4, 5, 6, 7, 8]),
            Op::Empty | Op::Arr0 => (true, vec![]),
            Op::V0 => (false, vec![]),
            Op::V1 | Op::RefVec | Op::ArcVec => (false, vec![9]),
            Op::V300 => (false, (0..300).map(|i| i as u8).collect()),
            Op::VV => (false, vec![8, 0, 0, 0, 9, 0, 0, 0, 1, 2, 3]),
            Op::Opt => (false, vec![1, 7, 0]),
            Op::ParamFixed => (true, vec![0xee, 0xef]),
            Op::ParamVar => (false, vec![0xdd, 0xdc, 0xdb]),
            Op::Tuple => (false, vec![3, 5, 0, 0, 0, 4, 4]),
        }
    }

    pub fn apply(self, e: &mut SszEncoder) {
        match self {
            Op::U8 => e.append(&0xa1u8),
            Op::U64 => e.append(&0x0807060504030201u64),
            Op::Empty => e.append(&mctypes::C0 {}),
            Op::Arr0 => e.append(&[0u8; 0]),
            Op::V0 => e.append(&Vec::<u8>::new()),
            Op::V1 => e.append(&vec![9u8]),
            Op::RefVec => e.append(&&vec![9u8]),
            Op::ArcVec => e.append(&Arc::new(vec![9u8])),
            Op::V300 => e.append(&(0..300).map(|i| i as u8).collect::<Vec<u8>>()),
            Op::VV => e.append(&vec![vec![1u8], vec![2, 3]]),
            Op::Opt => e.append(&Some(7u16)),
            Op::ParamFixed => e.append_parameterized(true, |b| b.extend([0xee, 0xef])),
            Op::ParamVar => e.append_parameterized(false, |b| b.extend([0xdd, 0xdc, 0xdb])),
            Op::Tuple => e.append(&(3u8, vec![4u8, 4])),
        }
    }
}

pub fn expected(seq: &[(bool, Vec<u8>)], prefix: &[u8], fixed_extra: usize) -> Vec<u8> {
    let mut at = fixed_extra + seq.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum::<usize>();
    let mut out = prefix.to_vec();
    let mut tail: Vec<u8> = vec![];
    for (f, b) in seq {
        if *f {
            out.extend(b);
        } else {
            out.extend((at as u32).to_le_bytes());
            at += b.len();
            tail.extend(b);
        }
    }
    out.extend(tail);
    out
}

pub fn diff(got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        Err(format!(
            "gives {} bytes, expected {}; first difference at byte {at}: got {}, expected {}",
            got.len(),
            want.len(),
            hex(&got[at..got.len().min(at + 24)]),
            hex(&want[at..want.len().min(at + 24)])
        ))
    }
}

fn encoder_units() -> Vec<Unit> {
    let mut out = vec![];
    for first in 0..OPS.len() {
        out.push(Unit::new(format!("SszEncoder histories from {:?}", OPS[first]), move |t| {
            let depth = if t.thorough() { 5 } else { 4 };
            let mut seq = vec![OPS[first]];
            walk(t, &mut seq, depth);
        }));
    }
    out.push(Unit::new("SszEncoder, one operation repeated", |t| {
        for op in OPS {
            for n in [6usize, 7, 8, 9, 10, 16, 17, 33, 64, 65, 130, 257, 1000] {
                let seq = vec![op; n];
                history(t, &seq, &[], 0);
                history(t, &seq, &[1, 2, 3], 0);
            }
        }
    }));
    // Offsets that need two, three and four bytes.
    for (i, n) in [250usize, 256, 65_530, 65_536, 0x00ff_fff0, 0x0100_0000].into_iter().enumerate() {
        out.push(Unit::new(format!("SszEncoder with a part of {n} bytes"), move |t| {
            let big: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
            let prefixes: &[usize] = if i < 4 { &[0, 1, 300, 70_000] } else { &[0, 5] };
            for p in prefixes {
                let prefix: Vec<u8> = (0..*p).map(|i| (i % 7) as u8).collect();
                for pos in 0..3usize {
                    t.states += 1;
                    t.transitions += 1;
                    t.case(
                        || format!("[Vec<u8>; 3] with {n} bytes in place {pos}, after {p} bytes"),
                        |t| {
                            t.traces += 1;
                            let small = vec![7u8, 8];
                            let parts: Vec<&Vec<u8>> = (0..3).map(|k| if k == pos { &big } else { &small }).collect();
                            let seq: Vec<(bool, Vec<u8>)> = parts.iter().map(|x| (false, (*x).clone())).collect();
                            let want = expected(&seq, &prefix, 0);
                            let got = guard(|| {
                                let mut buf = prefix.clone();
                                let mut e = SszEncoder::container(&mut buf, 12);
                                for p in &parts {
                                    e.append(*p);
                                }
                                e.finalize();
                                buf
                            })
                            .map_err(|p| format!("panics: {p}"))?;
                            diff(&got, &want)?;
                            // The same three as a list and as a tuple.
                            let mut buf = prefix.clone();
                            let v: Vec<Vec<u8>> = parts.iter().map(|x| (*x).clone()).collect();
                            v.ssz_append(&mut buf);
                            diff(&buf, &want)?;
                            let mut buf = prefix.clone();
                            (v[0].clone(), v[1].clone(), v[2].clone()).ssz_append(&mut buf);
                            diff(&buf, &want)?;
                            diff(&v.as_ssz_bytes(), &want[prefix.len()..])
                        },
                    );
                }
            }
        }));
    }
    // An encoder inside an encoder, to any depth, sharing nothing.
    out.push(Unit::new("nested encoders", |t| {
        for depth in 0..=40usize {
            for p in [0usize, 1, 5, 64] {
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || format!("depth {depth} after {p} bytes"),
                    |t| {
                        t.traces += 1;
                        fn nest(depth: usize, buf: &mut Vec<u8>) {
                            if depth == 0 {
                                buf.push(0xcc);
                                return;
                            }
                            let mut e = SszEncoder::container(buf, 1 + 4 + 2);
                            e.append(&(depth as u8));
                            e.append_parameterized(false, |b| nest(depth - 1, b));
                            e.append(&0xbeefu16);
                            e.finalize();
                        }
                        fn spec(depth: usize) -> Vec<u8> {
                            if depth == 0 {
                                return vec![0xcc];
                            }
                            expected(&[(true, vec![depth as u8]), (false, spec(depth - 1)), (true, vec![0xef, 0xbe])], &[], 0)
                        }
                        let prefix = vec![0x11u8; p];
                        let mut buf = prefix.clone();
                        guard(|| nest(depth, &mut buf)).map_err(|p| format!("panics: {p}"))?;
                        let mut want = prefix;
                        want.extend(spec(depth));
                        diff(&buf, &want)
                    },
                );
            }
        }
    }));
    // Appending several values one after the other to one buffer.
    out.push(Unit::new("append histories on one buffer", |t| {
        let n = OPS.len();
        let depth = if t.thorough() { 5 } else { 4 };
        for len in 0..=depth {
            for code in 0..n.pow(len as u32) {
                let mut c = code;
                let ops: Vec<Op> = (0..len)
                    .map(|_| {
                        let o = OPS[c % n];
                        c /= n;
                        o
                    })
                    .collect();
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || format!("{ops:?}"),
                    |t| {
                        t.traces += 1;
                        let mut buf = vec![];
                        let mut want = vec![];
                        for o in &ops {
                            let r = guard(|| match o {
                                Op::U8 => 0xa1u8.ssz_append(&mut buf),
                                Op::U64 => 0x0807060504030201u64.ssz_append(&mut buf),
                                Op::Empty => mctypes::C0 {}.ssz_append(&mut buf),
                                Op::Arr0 => [0u8; 0].ssz_append(&mut buf),
                                Op::V0 => Vec::<u8>::new().ssz_append(&mut buf),
                                Op::V1 => vec![9u8].ssz_append(&mut buf),
                                Op::RefVec => (&vec![9u8]).ssz_append(&mut buf),
                                Op::ArcVec => Arc::new(vec![9u8]).ssz_append(&mut buf),
                                Op::V300 => (0..300).map(|i| i as u8).collect::<Vec<u8>>().ssz_append(&mut buf),
                                Op::VV => vec![vec![1u8], vec![2, 3]].ssz_append(&mut buf),
                                Op::Opt => Some(7u16).ssz_append(&mut buf),
                                Op::ParamFixed => [0xeeu8, 0xef].ssz_append(&mut buf),
                                Op::ParamVar => alloy_primitives::Bytes::from(vec![0xddu8, 0xdc, 0xdb]).ssz_append(&mut buf),
                                Op::Tuple => (3u8, vec![4u8, 4]).ssz_append(&mut buf),
                            });
                            r.map_err(|p| format!("panics: {p}"))?;
                            want.extend(o.spec().1);
                            diff(&buf, &want)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
    out
}

/// Fixed parts so long that the offset words need 24 bits, 25 bits, all 32 bits.
fn far_units() -> Vec<Unit> {
    vec![Unit::new("SszEncoder with fixed parts up to 2^32 bytes", |t| {
        let mut lens = vec![250usize, 65_530, 0xff_fff0, 0x100_0005, 0x7fff_fff0, 0x8000_0005];
        if t.thorough() {
            lens.extend([0x4000_0001, 0xffff_ff00]);
        }
        for n in lens {
            for p in [0usize, 5] {
                if p > 0 && n > 0x200_0000 {
                    continue;
                }
                t.states += 1;
                t.transitions += 1;
                t.case(
                    || format!("[u8; {n}], Vec<u8>, Option<u16>, Vec<u8> after {p} bytes"),
                    |t| {
                        t.traces += 1;
                        let at = (n + 12) as u32;
                        let buf = guard(|| {
                            let mut buf = vec![0xa5; p];
                            let mut e = SszEncoder::container(&mut buf, n + 12);
                            e.append_parameterized(true, |b| b.resize(b.len() + n, 0x5a));
                            e.append(&vec![1u8, 2, 3]);
                            e.append(&Some(7u16));
                            e.append(&vec![9u8]);
                            e.finalize();
                            buf
                        })
                        .map_err(|p| format!("panics: {p}"))?;
                        if buf.len() != p + n + 12 + 7 {
                            return Err(format!("gives {} bytes, expected {}", buf.len(), p + n + 19));
                        }
                        let mut want = vec![];
                        for w in [at, at + 3, at + 6] {
                            want.extend(w.to_le_bytes());
                        }
                        want.extend([1, 2, 3, 1, 7, 0, 9]);
                        diff(&buf[p + n..], &want)?;
                        if buf[..p].iter().any(|x| *x != 0xa5) || buf[p..p + n].iter().any(|x| *x != 0x5a) {
                            return Err("the bytes before the offset words are changed".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    })]
}

fn walk(t: &mut Task, seq: &mut Vec<Op>, depth: usize) {
    for (p, spare) in [(&[][..], 0usize), (&[0xaa, 0xbb, 0xcc, 0xdd, 0xee][..], 0), (&[4, 0, 0, 0, 8, 0, 0, 0, 1][..], 1000)] {
        history(t, seq, p, spare);
    }
    if depth <= 1 || t.stopped() {
        return;
    }
    for op in OPS {
        seq.push(op);
        walk(t, seq, depth - 1);
        seq.pop();
    }
}

fn history(t: &mut Task, seq: &[Op], prefix: &[u8], spare: usize) {
    t.states += 1;
    t.transitions += 1;
    t.case(
        || format!("{seq:?} after {} with {spare} spare", hex(prefix)),
        |t| {
            t.traces += 1;
            let spec: Vec<(bool, Vec<u8>)> = seq.iter().map(|o| o.spec()).collect();
            let fixed: usize = spec.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
            let got = guard(|| {
                let mut buf = Vec::with_capacity(prefix.len() + spare);
                buf.extend_from_slice(prefix);
                let mut e = SszEncoder::container(&mut buf, fixed);
                for o in seq {
                    o.apply(&mut e);
                }
                let back = e.finalize().clone();
                (back, buf)
            })
            .map_err(|p| format!("panics: {p}"))?;
            let want = expected(&spec, prefix, 0);
            diff(&got.1, &want)?;
            diff(&got.0, &want)
        },
    );
}

